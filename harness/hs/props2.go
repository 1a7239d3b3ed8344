package hs

import (
	"github.com/akhenakh/oureadb/store"

	"oureaverif/env"
	"oureaverif/sym"
)

// appendOp is an order-sensitive merge operator: operands are appended to the existing value.
// It fails for keys fail accepts.
type appendOp struct {
	partial bool
	fail    func(key []byte) bool
	calls   int
	sawNil  bool
}

func (m *appendOp) FullMerge(key, existing []byte, operands [][]byte) ([]byte, bool) {
	m.calls++
	if m.fail != nil && m.fail(key) {
		return nil, false
	}
	var r []byte
	if existing == nil {
		r = append(r, 0xEE) // a merge on an absent key is told so
	} else {
		r = append(r, existing...)
	}
	for _, o := range operands {
		r = append(r, o...)
	}
	return r, true
}

func (m *appendOp) PartialMerge(key, l, r []byte) ([]byte, bool) {
	if !m.partial {
		return nil, false
	}
	return append(append([]byte{}, l...), r...), true
}

func (m *appendOp) Name() string { return "append" }

// foreignBatch is a batch of some other store.
type foreignBatch struct{}

func (foreignBatch) Set(k, v []byte)   {}
func (foreignBatch) Delete(k []byte)   {}
func (foreignBatch) Merge(k, v []byte) {}
func (foreignBatch) Reset()            {}
func (foreignBatch) Close() error      { return nil }

// alive asserts that the store still accepts and serves a batch.
func alive(s store.KVStore, h Hist) Hist {
	o := []Op{{K: []byte{7, 7, 7}, V: []byte{1}}}
	mustExec(s, o)
	h = append(append(Hist{}, h...), o...)
	r := reader(s)
	checkAll(r, h, "after the failure")
	closeReader(r)
	return h
}

// FailedBatch: a batch that fails (an invalid key, a failing merge operator, a foreign batch) leaves
// no trace and does not wedge the store; a batch that succeeds is complete.
func FailedBatch(e Engine) {
	env.Reset()
	failing := sym.Bytes("failkey", 1)
	mo := &appendOp{fail: func(k []byte) bool { return sym.Eq(k, failing) }}
	s := e.open(mo)
	base := []Op{{K: sym.Bytes("base", 1), V: []byte{5}}}
	mustExec(s, base)
	h := Hist(base)

	w := writer(s)
	var err error
	var after Hist
	mode := sym.Choice("mode", 3)
	switch mode {
	case 0: // plain operations, empty keys allowed
		b := w.NewBatch()
		after = append(Hist{}, h...)
		for i, n := 0, quick(2, 3); i < n; i++ {
			k := sym.BytesUpTo("k", 1)
			if sym.Choice("kind", 2) == 1 {
				b.Delete(k)
				after = append(after, Op{K: k, Del: true})
			} else {
				b.Set(k, []byte{byte(i)})
				after = append(after, Op{K: k, V: []byte{byte(i)}})
			}
		}
		err = w.ExecuteBatch(b)
	case 1: // merges, one of which may fail, next to plain operations on other keys
		b := w.NewBatch()
		k1, k2, k3 := sym.Bytes("m", 1), sym.Bytes("m", 1), sym.Bytes("s", 2)
		sym.Assume(!sym.Eq(k1, k2))
		b.Merge(k1, []byte{1})
		b.Set(k3, []byte{3})
		b.Merge(k2, []byte{2})
		err = w.ExecuteBatch(b)
		bad := sym.Or(sym.Eq(k1, failing), sym.Eq(k2, failing))
		sym.Assert(sym.Implies(bad, err != nil), "a failing merge operator fails the batch")
		sym.Assert(sym.Implies(!bad, err == nil), "a batch whose merges succeed executes")
		ex := func(k []byte, v byte) []byte {
			// the value after merging v into k over the base contents
			if sym.Eq(k, base[0].K) {
				return []byte{5, v}
			}
			return []byte{0xEE, v}
		}
		after = append(append(Hist{}, h...), Op{K: k3, V: []byte{3}}, Op{K: k1, V: ex(k1, 1)}, Op{K: k2, V: ex(k2, 2)})
	case 2:
		err = w.ExecuteBatch(foreignBatch{})
		sym.Assert(err != nil, "a batch of another store is refused")
	}
	sym.ObsBool("failed", err != nil)
	if err == nil {
		h = after
	}
	r := reader(s)
	checkAll(r, h, "after the batch")
	closeReader(r)
	alive(s, h)
	sym.Reach("end")
}

// EngineFailure: when the storage engine fails any one operation of a batch, the caller is told, the
// contents are unchanged and the next batch works.
func EngineFailure(e Engine) {
	env.Reset()
	mo := &appendOp{}
	s := e.open(mo)
	base := []Op{{K: []byte{1}, V: []byte{5}}, {K: []byte{2}, V: []byte{6}}}
	mustExec(s, base)
	h := Hist(base)
	w := writer(s)
	b := w.NewBatch()
	after := append(Hist{}, h...)
	if sym.Choice("merge", 2) == 1 {
		b.Merge([]byte{1}, []byte{8})
		after = append(after, Op{K: []byte{1}, V: []byte{5, 8}})
	}
	for i := 0; i < 2; i++ {
		k := sym.Bytes("k", 1)
		sym.Assume(!sym.Eq(k, []byte{1}))
		if sym.Choice("kind", 2) == 1 {
			b.Delete(k)
			after = append(after, Op{K: k, Del: true})
		} else {
			b.Set(k, []byte{9})
			after = append(after, Op{K: k, V: []byte{9}})
		}
	}
	env.Faults(1)
	err := w.ExecuteBatch(b)
	n := env.Injected
	env.Faults(0)
	sym.Assert((n > 0) == (err != nil), "an engine failure, and nothing else, fails the batch")
	if err == nil {
		h = after
	}
	r := reader(s)
	checkAll(r, h, "after the batch")
	closeReader(r)
	alive(s, h)
	sym.Reach("end")
}

// Merge: operands are applied in the order they were added, on top of the stored value, and the
// operator learns when there is none.
func Merge(e Engine) {
	env.Reset()
	nb := 1 + sym.Choice("batches", 2)
	mo := &appendOp{}
	if nb == 1 || sym.Tier() > 0 {
		mo.partial = sym.Choice("partial", 2) == 1
	}
	s := e.open(mo)
	o := sets("a", 1, 1, 1)
	if (nb == 2 || sym.Tier() > 0) && sym.Choice("deleted", 2) == 1 {
		o = append(o, Op{K: sym.Bytes("gone", 1), Del: true})
	}
	mustExec(s, o)
	w := writer(s)
	b := w.NewBatch()
	type m struct{ k, v []byte }
	var ms []m
	for j := 0; j < nb; j++ {
		n := quick(1, 2)
		if j > 0 {
			n = 1
		} else if nb == 1 {
			n = 3
		}
		for i := 0; i < n; i++ {
			x := m{sym.Bytes("mk", 1), sym.Bytes("mv", 1)}
			ms = append(ms, x)
			b.Merge(x.k, x.v)
		}
		sym.Assert(w.ExecuteBatch(b) == nil, "a batch of merges executes")
		b.Reset()
	}
	r := reader(s)
	p := sym.Bytes("probe", 1)
	// reference
	var want []byte
	for _, x := range o {
		if sym.Eq(x.K, p) {
			if x.Del {
				want = nil
			} else {
				want = env.Clone(x.V)
			}
		}
	}
	for _, x := range ms {
		if sym.Eq(x.k, p) {
			if want == nil {
				want = []byte{0xEE}
			}
			want = append(append([]byte{}, want...), x.v...)
		}
	}
	got := get(r, p)
	sym.Assert((got == nil) == (want == nil), "merge: presence")
	sym.Assert(sym.Eq(got, want), "merge: operands are applied in order on top of the stored value")
	sym.ObsBytes("got", got)
	closeReader(r)
	sym.Reach("end")
}

// Ownership: buffers handed to a batch may be reused right after the call.
func Ownership(e Engine) {
	env.Reset()
	mo := &appendOp{partial: sym.Choice("partial", 2) == 1}
	s := e.open(mo)
	w := writer(s)
	var b store.KVBatch
	var buf []byte
	if sym.Choice("ex", 2) == 1 {
		var err error
		buf, b, err = w.NewBatchEx(store.KVBatchOptions{TotalBytes: 6, NumSets: 2, NumMerges: 2, NumDeletes: 1})
		sym.Assert(err == nil && b != nil, "an extended batch can be obtained")
		sym.Assert(len(buf) == 6, "the byte array has the requested size")
	} else {
		b = w.NewBatch()
		buf = make([]byte, 6)
	}
	data := sym.Bytes("data", 6)
	sym.Assume(data[0] != data[2])
	fill := func() { copy(buf, data) }
	scribble := func() {
		for i := range buf {
			buf[i] ^= 0xff
		}
	}
	fill()
	b.Set(buf[0:1], buf[1:2])
	scribble()
	fill()
	b.Merge(buf[2:3], buf[3:4])
	scribble()
	fill()
	b.Merge(buf[2:3], buf[4:5])
	scribble()
	fill()
	del := sym.Choice("del", 2) == 1
	if del {
		b.Delete(buf[0:1])
		scribble()
	}
	sym.Assert(w.ExecuteBatch(b) == nil, "the batch executes")
	scribble()
	h := Hist{{K: data[0:1], V: data[1:2]}, {K: data[2:3], V: []byte{0xEE, data[3], data[4]}}}
	if del {
		h = append(h, Op{K: data[0:1], Del: true})
	}
	r := reader(s)
	checkAll(r, h, "buffers reused")
	closeReader(r)
	sym.Reach("end")
}

// Reset: a reset batch carries nothing over, and reusing it does not disturb what it committed.
func Reset(e Engine) {
	env.Reset()
	mo := &appendOp{}
	s := e.open(mo)
	w := writer(s)
	b := w.NewBatch()
	var h Hist
	k := func() []byte { return sym.Bytes("k", 1) }
	k1, k2, k3 := k(), k(), k()
	sym.Assume(!sym.Eq(k1, k2))
	add := func() {
		b.Set(k1, []byte{1})
		b.Merge(k2, []byte{2})
		if sym.Choice("del", 2) == 1 {
			b.Delete(k3)
		}
	}
	add()
	was := []byte{0xEE}
	if sym.Choice("executed", 2) == 1 {
		was = append(was, 2)
		sym.Assume(!sym.Eq(k3, k1) && !sym.Eq(k3, k2))
		sym.Assert(w.ExecuteBatch(b) == nil, "the batch executes")
		h = append(h, Op{K: k1, V: []byte{1}}, Op{K: k2, V: []byte{0xEE, 2}})
	}
	b.Reset()
	k4 := k()
	b.Set(k4, []byte{4})
	h = append(h, Op{K: k4, V: []byte{4}})
	if n := sym.Choice("merge-again", 4); n > 0 {
		// a new key, with one or two operands, or the one merged before
		k5, base := k2, was
		if n < 3 {
			k5, base = k(), []byte{0xEE}
			sym.Assume(!sym.Eq(k5, k1) && !sym.Eq(k5, k2))
		}
		sym.Assume(!sym.Eq(k5, k4))
		b.Merge(k5, []byte{5})
		v := append(append([]byte{}, base...), 5)
		if n > 1 {
			sym.FixRand()
			b.Merge(k5, []byte{6})
			v = append(v, 6)
		}
		h = append(h, Op{K: k5, V: v})
	}
	twice := sym.Choice("twice", 2) == 1
	if twice {
		sym.FixRand()
	}
	sym.Assert(w.ExecuteBatch(b) == nil, "the reused batch executes")
	if twice {
		b.Reset()
		b.Set([]byte{9, 9}, []byte{3})
		h = append(h, Op{K: []byte{9, 9}, V: []byte{3}})
		sym.Assert(w.ExecuteBatch(b) == nil, "the batch executes after a second reset")
	}
	r := reader(s)
	checkAll(r, h, "batch reuse")
	closeReader(r)
	sym.Reach("end")
}

type compacter interface {
	Compact() error
	CompactWithBatchSize(int) error
}

func compactable(s store.KVStore) compacter {
	c, ok := s.(compacter)
	sym.Assert(ok, "the store can be compacted")
	return c
}

func dead(o Op) bool {
	return sym.And(len(o.V) == 1, sym.HasPrefix(o.K, []byte("d")), sym.Eq(o.V, []byte{0}))
}

// Compaction removes exactly the entries under "d" whose value is the single byte 0.
func Compaction(e Engine) {
	env.Reset()
	s := e.open(nil)
	n := quick(3, 4)
	var o []Op
	for i := 0; i < n; i++ {
		k := append([]byte{sym.Byte("k0")}, 0)
		if i > 0 || sym.Choice("klen", 2) == 0 {
			k = k[:1]
		}
		for _, p := range o {
			sym.Assume(!sym.Eq(k, p.K))
		}
		v := sym.Bytes("v", 1)
		if i == 0 {
			v = sym.BytesUpTo("v0", 2)
		}
		o = append(o, Op{K: k, V: v})
	}
	mustExec(s, o)
	c := compactable(s)
	if bs := sym.Choice("batch", n+1); bs == 0 {
		sym.Assert(c.Compact() == nil, "compaction succeeds")
	} else {
		sym.Assert(c.CompactWithBatchSize(bs) == nil, "compaction succeeds")
	}
	r := reader(s)
	for _, x := range o {
		v := get(r, x.K)
		sym.Assert(sym.Implies(dead(x), v == nil), "compaction removes every dead entry")
		sym.Assert(sym.Implies(!dead(x), v != nil), "compaction keeps every other entry")
		if v != nil {
			sym.Assert(sym.Eq(v, x.V), "compaction leaves values alone")
		}
		sym.ObsBool("kept", v != nil)
	}
	closeReader(r)
	alive(s, dropDead(o))
	sym.Reach("end")
}

func dropDead(o []Op) Hist {
	var h Hist
	for _, x := range o {
		if !dead(x) {
			h = append(h, x)
		}
	}
	return h
}

// CompactionFailure: a compaction interrupted by an engine failure reports it, loses only dead entries
// and leaves the store usable.
func CompactionFailure(e Engine) {
	env.Reset()
	s := e.open(nil)
	var o []Op
	for i := 0; i < 3; i++ {
		o = append(o, Op{K: []byte{'d', byte(i)}, V: sym.Bytes("v", 1)})
	}
	mustExec(s, o)
	c := compactable(s)
	env.BoltRetry = true
	env.Faults(1)
	err := c.CompactWithBatchSize(1 + sym.Choice("batch", 3))
	injected, last := env.Injected, env.LastFault
	env.Faults(0)
	if injected == 0 || last == "bolt.batchpeer" {
		sym.Assert(err == nil, "compaction succeeds on a healthy engine")
	} else {
		sym.Assert(err != nil, "an engine failure during compaction is reported")
	}
	r := reader(s)
	var h Hist
	for _, x := range o {
		v := get(r, x.K)
		if v == nil {
			sym.Assert(dead(x), "an interrupted compaction removes only dead entries")
		} else {
			sym.Assert(sym.Eq(v, x.V), "compaction leaves values alone")
			h = append(h, x)
		}
		if err == nil {
			sym.Assert(sym.Implies(dead(x), v == nil), "compaction removes every dead entry")
		}
	}
	closeReader(r)
	alive(s, h)
	sym.Assert(c.Compact() == nil, "a later compaction succeeds")
	sym.Reach("end")
}

// Durability: whatever a completed batch wrote survives process death and power loss at any later
// point; a batch interrupted by it is there completely or not at all.
func Durability(e Engine) {
	env.Reset()
	dir := sym.TempDir()
	mo := &appendOp{}
	open, relaxed := e.opener(dir)
	s, err := open(mo)
	sym.Assert(err == nil, "opening a fresh store succeeds")
	var h Hist
	acked := 0
	type batch []Op
	merge := sym.Choice("merge", 2) == 1
	bs := []batch{ops("a", quick(1, 2), 1, 0), ops("b", 2, 1, 0)}
	for i := range bs {
		for j := range bs[i] {
			if !bs[i][j].Del {
				bs[i][j].V = []byte{byte(10*i + j)}
			}
		}
	}
	mk := []byte{1, 2} // merged in the second batch: absent, or written whole
	env.Crashes(1)
	crashed := env.Run(func() {
		for i, o := range bs {
			if i == 1 && merge {
				w := writer(s)
				b := w.NewBatch()
				for _, x := range o {
					if x.Del {
						b.Delete(x.K)
					} else {
						b.Set(x.K, x.V)
					}
				}
				b.Merge(mk, []byte{3})
				sym.Assert(w.ExecuteBatch(b) == nil, "a batch with valid keys executes")
			} else {
				mustExec(s, o)
			}
			acked++
		}
		if sym.Choice("close", 2) == 1 {
			sym.Assert(s.Close() == nil, "closing the store succeeds")
		}
	})
	sym.ObsBool("crashed", crashed)
	env.Crashes(0)
	env.Restart(!relaxed && sym.Choice("power", 2) == 1)
	s, err = open(mo)
	sym.Assert(err == nil, "the store opens again")
	r := reader(s)
	var all []Hist
	h = nil
	all = append(all, h)
	for i, o := range bs {
		h = append(append(Hist{}, h...), o...)
		if i == 1 && merge {
			h = append(h, Op{K: mk, V: []byte{0xEE, 3}})
		}
		all = append(all, h)
	}
	// contents are those after `acked` batches, or one more when the next one was under way
	probes := append(append([]Op{}, all[2]...), Op{K: mk})
	same := func(h Hist) bool {
		ok := true
		for _, p := range probes {
			v := get(r, p.K)
			ok = sym.And(ok, h.present(p.K) == (v != nil))
			if v != nil {
				for i := len(h) - 1; i >= 0; i-- {
					later := false
					for j := i + 1; j < len(h); j++ {
						later = sym.Or(later, sym.Eq(h[j].K, p.K))
					}
					if !h[i].Del {
						ok = sym.And(ok, sym.Implies(sym.And(sym.Eq(h[i].K, p.K), !later), sym.Eq(v, h[i].V)))
					}
				}
			}
		}
		return ok
	}
	good := same(all[acked])
	if crashed && acked+1 < len(all) {
		good = sym.Or(good, same(all[acked+1]))
	}
	sym.Assert(good, "after a restart every completed batch is there and the interrupted one is there completely or not at all")
	closeReader(r)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Reach("end")
}

// ReadFailure: a read the engine could not perform is reported, never answered with "absent".
func ReadFailure(e Engine) {
	env.Reset()
	s := e.open(nil)
	o := []Op{{K: []byte{1}, V: []byte{5}}, {K: []byte{2}, V: []byte{6}}}
	mustExec(s, o)
	h := Hist(o)
	env.Faults(1)
	r, err := s.Reader()
	if err != nil {
		sym.Assert(env.Injected > 0, "obtaining a reader on a healthy store succeeds")
		env.Faults(0)
		alive(s, h)
		return
	}
	sym.Assert(env.Injected == 0 && r != nil, "a failure to obtain a reader is reported")
	p := sym.Bytes("p", 1)
	if sym.Choice("multi", 2) == 1 {
		vs, err := r.MultiGet([][]byte{{1}, p})
		if env.Injected > 0 {
			sym.Assert(err != nil, "a failed multi-key read is reported")
		} else {
			sym.Assert(err == nil && len(vs) == 2, "a multi-key read on a healthy store succeeds")
			h.check(p, vs[1], "multi-key read")
		}
	} else {
		v, err := r.Get(p)
		if env.Injected > 0 {
			sym.Assert(err != nil, "a failed read is reported")
		} else {
			sym.Assert(err == nil, "a read on a healthy store succeeds")
			h.check(p, v, "read")
		}
	}
	env.Faults(0)
	closeReader(r)
	alive(s, h)
	sym.Reach("end")
}

// Resources: everything obtained from the engine is given back when the reader, iterator or batch is
// done, on success and on failure.
func Resources(e Engine) {
	env.Reset()
	mo := &appendOp{fail: func(k []byte) bool { return len(k) == 2 }}
	s := e.open(mo)
	mustExec(s, []Op{{K: []byte{1}, V: []byte{5}}})
	idle := func(when string) {
		for what, n := range env.Live {
			if what != "database" {
				sym.Assert(n == 0, when+": no "+what+" is left open")
			}
		}
	}
	idle("after a batch")
	fault := sym.Choice("faults", 2) == 1
	if fault {
		env.Faults(1)
	}
	w := writer(s)
	b := w.NewBatch()
	b.Set(sym.BytesUpTo("k", 1), []byte{1})
	switch sym.Choice("merge", 3) {
	case 1:
		b.Merge([]byte{1}, []byte{2})
	case 2:
		b.Merge([]byte{1, 2}, []byte{2})
	}
	err := w.ExecuteBatch(b)
	sym.ObsBool("failed", err != nil)
	idle("after a batch")
	r, err := s.Reader()
	if err != nil {
		idle("after a failed open of a reader")
		env.Faults(0)
	} else {
		_, _ = r.Get(sym.BytesUpTo("g", 1))
		env.Faults(0)
		its := []store.KVIterator{r.PrefixIterator(sym.BytesUpTo("p", 1)), r.RangeIterator(nil, nil)}
		its[0].Seek([]byte{3})
		for _, it := range its {
			sym.Assert(it.Close() == nil, "closing an iterator succeeds")
		}
		closeReader(r)
		idle("after a reader")
	}
	mustExec(s, []Op{{K: []byte{1}, V: []byte{7}}})
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Assert(env.Live["database"] == 0, "closing the store closes the engine")
	sym.Reach("end")
}

// Reopen: contents survive Close and Open, also through a second generation of writes.
func Reopen(e Engine) {
	env.Reset()
	dir := sym.TempDir()
	o1, o2 := ops("a", 2, 1, 1), ops("b", 1, 1, 1)
	s, err := e.Open(dir, nil)
	sym.Assert(err == nil, "opening a fresh store succeeds")
	mustExec(s, o1)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	s, err = e.Open(dir, nil)
	sym.Assert(err == nil, "the store opens again")
	r := reader(s)
	checkAll(r, o1, "reopened")
	closeReader(r)
	mustExec(s, o2)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	s, err = e.Open(dir, nil)
	sym.Assert(err == nil, "the store opens again")
	r = reader(s)
	checkAll(r, append(append(Hist{}, o1...), o2...), "reopened twice")
	closeReader(r)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Reach("end")
}
