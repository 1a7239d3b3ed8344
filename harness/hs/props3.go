package hs

import (
	"github.com/akhenakh/oureadb/store"

	"oureaverif/env"
	"oureaverif/sym"
)

// Concurrent: batches of concurrent writers take effect one after the other, each at one instant, and
// readers see the store between two batches.
func Concurrent(e Engine) {
	env.Reset()
	sym.FixRand()
	failing := sym.Choice("failing", 2) == 1
	mo := &appendOp{fail: func(k []byte) bool { return k[0] == 9 }}
	s := e.open(mo)
	mustExec(s, []Op{{K: []byte{1}, V: []byte{5}}})
	ids := sym.Bytes("id", 2)
	sym.Assume(ids[0] != ids[1])
	n := quick(1, 2)
	sym.Explore()
	for i := 0; i < 2; i++ {
		i := i
		sym.Go(func() {
			w := writer(s)
			for j := 0; j < n; j++ {
				b := w.NewBatch()
				b.Merge([]byte{1}, ids[i:i+1])
				b.Set([]byte{2}, ids[i:i+1])
				b.Set([]byte{3}, ids[i:i+1])
				bad := failing && i == 1
				if bad {
					b.Merge([]byte{9}, []byte{1})
				}
				sym.Assert((w.ExecuteBatch(b) != nil) == bad, "a batch fails only when its merge operator does")
			}
		})
	}
	sym.Go(func() {
		var last []byte
		for j := 0; j < 2; j++ {
			r := reader(s)
			a := get(r, []byte{2})
			m := get(r, []byte{1})
			b := get(r, []byte{3})
			sym.Assert((a == nil) == (b == nil) && sym.Eq(a, b), "a reader sees each batch completely or not at all")
			sym.Assert((a == nil) == (len(m) == 1), "a reader sees each batch completely or not at all")
			if a != nil {
				sym.Assert(sym.Eq(a, m[len(m)-1:]), "a reader sees each batch completely or not at all")
			}
			sym.Assert(len(m) >= len(last) && sym.Eq(m[:len(last)], last), "a later reader does not see an older state")
			last = m
			closeReader(r)
		}
	})
	sym.Wait()
	r := reader(s)
	m, a, b := get(r, []byte{1}), get(r, []byte{2}), get(r, []byte{3})
	want := 1 + 2*n
	if failing {
		want = 1 + n
	}
	sym.Assert(len(m) == want, "no merge of a concurrent batch is lost and none of a failed batch appears")
	sym.Assert(sym.And(sym.Eq(a, m[len(m)-1:]), sym.Eq(b, a)), "the last batch in the order of execution wins on every key")
	if !failing {
		c := 0
		for _, x := range m[1:] {
			if sym.Eq([]byte{x}, ids[:1]) {
				c++
			}
		}
		sym.Assert(c == n, "no merge of a concurrent batch is lost")
	}
	closeReader(r)
	sym.Reach("end")
}

// NullStore: the null backend accepts everything and holds nothing.
func NullStore(e Engine) {
	env.Reset()
	s := e.open(&appendOp{})
	w := writer(s)
	var b store.KVBatch
	if sym.Choice("ex", 2) == 1 {
		n := []int{0, 1, 2, 3, 300, 5000, 70000}[sym.Choice("total", 7)]
		buf, x, err := w.NewBatchEx(store.KVBatchOptions{TotalBytes: n})
		sym.Assert(err == nil && x != nil && len(buf) == n, "an extended batch can be obtained")
		b = x
	} else {
		b = w.NewBatch()
	}
	k := sym.BytesUpTo("k", 2)
	b.Set(k, sym.BytesUpTo("v", 1))
	b.Merge(k, []byte{1})
	b.Delete(sym.BytesUpTo("d", 1))
	if sym.Choice("reset", 2) == 1 {
		b.Reset()
	}
	sym.Assert(w.ExecuteBatch(b) == nil, "the batch executes")
	sym.Assert(b.Close() == nil, "closing a batch succeeds")
	sym.Assert(w.Close() == nil, "closing a writer succeeds")
	r := reader(s)
	sym.Assert(get(r, k) == nil, "every key is absent")
	var ks [][]byte
	for i, n := 0, sym.Choice("n", 4); i < n; i++ {
		ks = append(ks, k)
	}
	vs, err := r.MultiGet(ks)
	sym.Assert(err == nil && len(vs) == len(ks), "a multi-key read returns one value per key")
	for _, v := range vs {
		sym.Assert(v == nil, "every key is absent")
	}
	for _, it := range []store.KVIterator{r.PrefixIterator(bound("p", 1)), r.RangeIterator(bound("s", 1), bound("e", 1))} {
		for i := 0; i < 2; i++ {
			kk, v, ok := it.Current()
			sym.Assert(!it.Valid() && !ok && kk == nil && v == nil && it.Key() == nil && it.Value() == nil, "iterators are empty")
			if i == 0 {
				it.Seek(k)
			}
		}
		it.Next()
		sym.Assert(!it.Valid(), "iterators are empty")
		sym.Assert(it.Close() == nil, "closing an iterator succeeds")
	}
	closeReader(r)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Reach("end")
}

type conf = map[string]interface{}

// BadConfig: a configuration without a usable path is refused.
func BadConfig(e Engine) {
	env.Reset()
	c := conf{}
	mem := e.Name == "gtreap"
	wrong := ""
	if mem {
		wrong = sym.TempDir() + "/x"
	}
	switch sym.Choice("path", 4) {
	case 0:
	case 1:
		c["path"] = sym.Choice("n", 2)
	case 2:
		c["path"] = nil
	case 3:
		c["path"] = wrong
	}
	s, err := e.New(nil, c)
	sym.Assert(err != nil && s == nil, "a configuration without a usable path is refused")
	sym.Assert(env.Live["database"] == 0, "a refused configuration opens nothing")
	sym.Reach("end")
}

// OpenFailure: opening that fails says so, holds on to nothing, and can be tried again.
func OpenFailure(e Engine) {
	env.Reset()
	dir := sym.TempDir()
	o := ops("a", 1, 1, 1)
	existing := sym.Choice("existing", 2) == 1
	if existing {
		s, err := e.Open(dir, nil)
		sym.Assert(err == nil, "opening a fresh store succeeds")
		mustExec(s, o)
		sym.Assert(s.Close() == nil, "closing the store succeeds")
	}
	env.Faults(1)
	s, err := e.Open(dir, nil)
	n := env.Injected
	env.Faults(0)
	sym.Assert((n > 0) == (err != nil), "an engine failure, and nothing else, makes opening fail")
	if err != nil {
		sym.Assert(env.Live["database"] == 0 && env.Live["tx"] == 0, "a failed opening leaves nothing open")
		s, err = e.Open(dir, nil)
		sym.Assert(err == nil, "opening can be tried again")
	}
	r := reader(s)
	var h Hist
	if existing {
		h = o
	}
	checkAll(r, h, "after opening again")
	closeReader(r)
	alive(s, h)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Assert(env.Live["database"] == 0, "closing the store closes the engine")
	sym.Reach("end")
}

// BoltConfig: buckets are separate, tuning options do not change contents, read-only stores serve
// reads and refuse writes.
func BoltConfig(e Engine) {
	env.Reset()
	path := sym.TempDir() + "/db"
	names := []interface{}{nil, "one", "two", 7, ""}
	refused := false
	open := func(bucket int, extra conf) store.KVStore {
		c := conf{"path": path}
		if names[bucket] != nil {
			c["bucket"] = names[bucket]
		}
		for k, v := range extra {
			c[k] = v
		}
		s, err := e.New(nil, c)
		if bucket == 4 && err != nil {
			// there is no bucket without a name, the store may say so
			sym.Assert(env.Live["database"] == 0, "a refused configuration opens nothing")
			refused = true
			return nil
		}
		sym.Assert(err == nil, "opening the store succeeds")
		return s
	}
	same := func(a, b int) bool { return a == b || (a == 0 || a == 3) && (b == 0 || b == 3) }
	b1, b2 := sym.Choice("bucket", 5), sym.Choice("bucket", 5)
	tune := conf{}
	switch sym.Choice("tune", 4) {
	case 1:
		tune["nosync"] = true
	case 2:
		tune["fillPercent"] = 0.75
	case 3:
		tune["fillPercent"], tune["nosync"] = "no", "no"
	}
	o1, o2 := sets("a", 1, 1, 1), ops("b", 1, 1, 0)
	s := open(b1, tune)
	if refused {
		sym.Reach("refused")
		return
	}
	mustExec(s, o1)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	ro := sym.Choice("read-only", 3)
	switch ro {
	case 1:
		tune["read_only"] = true
	case 2:
		tune["read_only"] = false
	}
	s = open(b2, tune)
	if refused {
		// the contents of the other bucket are as they were
		if s, err := e.New(nil, conf{"path": path, "bucket": names[b1]}); b1 == 1 || b1 == 2 {
			sym.Assert(err == nil, "the store opens again")
			r := reader(s)
			checkAll(r, Hist(o1), "contents")
			closeReader(r)
			sym.Assert(s.Close() == nil, "closing the store succeeds")
		} else if err == nil {
			sym.Assert(s.Close() == nil, "closing the store succeeds")
		}
		sym.Reach("refused")
		return
	}
	w := writer(s)
	b := w.NewBatch()
	if o2[0].Del {
		b.Delete(o2[0].K)
	} else {
		b.Set(o2[0].K, o2[0].V)
	}
	err := w.ExecuteBatch(b)
	sym.Assert((err != nil) == (ro == 1), "writes are refused by read-only stores and no others")
	h1, h2 := Hist(o1), Hist{}
	if same(b1, b2) {
		h2 = h1
	}
	if ro != 1 {
		h2 = append(append(Hist{}, h2...), o2...)
	}
	if same(b1, b2) {
		h1 = h2
	}
	if r, err := s.Reader(); err != nil {
		sym.Assert(ro == 1 && !same(b1, b2), "a reader can be obtained when the bucket exists")
	} else {
		checkAll(r, h2, "second store")
		p := sym.Bytes("probe", 1)
		h2.check(p, get(r, p), "second store")
		closeReader(r)
	}
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	s = open(b1, nil)
	r := reader(s)
	checkAll(r, h1, "first bucket")
	closeReader(r)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Reach("end")
}

// LevelConfig: create_if_missing, error_if_exists and read_only mean what they say; tuning options do
// not change contents.
func LevelConfig(e Engine) {
	env.Reset()
	dir := sym.TempDir()
	existing := sym.Choice("existing", 2) == 1
	o := sets("a", 1, 1, 1)
	var h Hist
	if existing {
		s, err := e.Open(dir, nil)
		sym.Assert(err == nil, "opening a fresh store succeeds")
		mustExec(s, o)
		sym.Assert(s.Close() == nil, "closing the store succeeds")
		h = o
	}
	c := conf{"path": dir}
	cim := sym.Choice("create_if_missing", 4)
	switch cim {
	case 1:
		c["create_if_missing"] = true
	case 2:
		c["create_if_missing"] = false
	case 3:
		c["create_if_missing"] = "false"
	}
	eie := sym.Choice("error_if_exists", 3)
	if eie > 0 {
		c["error_if_exists"] = eie == 1
	}
	ro := sym.Choice("read_only", 3)
	if ro > 0 {
		c["read_only"] = ro == 1
	}
	if sym.Choice("tune", 2) == 1 {
		c["write_buffer_size"] = 4096.0
		c["block_size"] = 128.0
		c["block_restart_interval"] = 2.0
		c["lru_cache_capacity"] = 1024.0
		c["bloom_filter_bits_per_key"] = 10.0
	}
	s, err := e.New(nil, c)
	refuse := existing && eie == 1 || !existing && (cim == 2 || ro == 1)
	sym.Assert((err != nil) == refuse, "a store is opened exactly when its options allow it")
	if err != nil {
		sym.Assert(env.Live["database"] == 0, "a refused configuration opens nothing")
		sym.Reach("end")
		return
	}
	o2 := []Op{{K: sym.Bytes("b", 1), V: []byte{9}}}
	err = exec(s, o2)
	sym.Assert((err != nil) == (ro == 1), "writes are refused by read-only stores and no others")
	if err == nil {
		h = append(append(Hist{}, h...), o2...)
	}
	r := reader(s)
	checkAll(r, h, "contents")
	p := sym.Bytes("probe", 1)
	h.check(p, get(r, p), "contents")
	closeReader(r)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	s, err = e.Open(dir, nil)
	sym.Assert(err == nil, "the store opens again")
	r = reader(s)
	checkAll(r, h, "reopened")
	closeReader(r)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Reach("end")
}
