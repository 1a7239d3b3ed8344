package hs

import (
	"math"

	"github.com/akhenakh/oureadb/store"

	"oureaverif/env"
	"oureaverif/sym"
)

// filler is n fixed bytes, none of them 0 or 0xff.
func filler(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + i%251)
	}
	return b
}

func join(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

// longLens are lengths on either side of powers of two that buffers and length bytes like.
func longLens() []int {
	if sym.Tier() > 0 {
		return []int{15, 31, 63, 64, 127, 255, 256, 511, 1023, 4095}
	}
	return []int{31, 64, 255, 600}
}

// longOps makes n operations on keys that share a long prefix and differ in their last byte, or are
// the bare prefix; values are long and differ in their first and last byte.
func longOps(name string, pre []byte, n, vlen int, del bool) []Op {
	var r []Op
	for i := 0; i < n; i++ {
		k := join(pre, sym.Bytes(name+".key", 1))
		if i == 0 && sym.Choice(name+".bare", 2) == 1 {
			k = env.Clone(pre)
		}
		if del && i == n-1 && sym.Choice(name+".kind", 2) == 1 {
			r = append(r, Op{K: k, Del: true})
			continue
		}
		v := join(sym.Bytes(name+".v0", 1), filler(vlen), sym.Bytes(name+".v1", 1))
		r = append(r, Op{K: k, V: v})
	}
	return r
}

// LongReads: keys and values far longer than those of the other checks read back in full, by single
// and multi-key reads.
func LongReads(e Engine) {
	env.Reset()
	sym.FixRand()
	s := e.open(nil)
	ls := longLens()
	pre := filler(ls[sym.Choice("len", len(ls))])
	vlen := 70
	if len(pre) == ls[0] {
		vlen = []int{70, 300, 5000}[sym.Choice("vlen", 3)]
	}
	o := longOps("a", pre, 3, vlen, true)
	mustExec(s, o)
	h := Hist(o)
	r := reader(s)
	p := join(pre, sym.Bytes("probe", 1))
	ks := [][]byte{p, pre, p, pre[:len(pre)-1], o[1].K}
	vs, err := r.MultiGet(ks)
	sym.Assert(err == nil && len(vs) == len(ks), "a multi-key read returns one value per key")
	for i, k := range ks {
		h.check(k, get(r, k), "get")
		h.check(k, vs[i], "multi-key read")
	}
	checkAll(r, h, "scan")
	closeReader(r)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Reach("end")
}

// LongScan: iterators over long keys keep to long bounds, seek, and stop where they should.
func LongScan(e Engine) {
	env.Reset()
	sym.FixRand()
	s := e.open(nil)
	ls := longLens()
	pre := filler(ls[sym.Choice("len", len(ls))])
	o := longOps("a", pre, 2, 1, false)
	o = append(o, Op{K: []byte{1, 2}, V: []byte{1}}, Op{K: []byte{1, 2, 3, 5}, V: []byte{2}})
	mustExec(s, o)
	h := Hist(o)
	r := reader(s)
	var it store.KVIterator
	var in func(k []byte) bool
	what := "prefix scan"
	switch sym.Choice("bounds", 5) {
	case 0: // a prefix up to the byte that differs
		p := join(pre, sym.Bytes("p", 1))
		it, in = r.PrefixIterator(p), func(k []byte) bool { return sym.HasPrefix(k, p) }
	case 1: // a prefix ending in 0xff bytes or short of the whole
		p := join(pre[:len(pre)-1], sym.Bytes("p", 1), []byte{0xff})
		it, in = r.PrefixIterator(p), func(k []byte) bool { return sym.HasPrefix(k, p) }
	case 2:
		p := join(pre[:len(pre)-1], sym.Bytes("p", 1))
		it, in = r.PrefixIterator(p), func(k []byte) bool { return sym.HasPrefix(k, p) }
	case 3: // a range within the shared part and beyond
		a, b := join(pre, sym.Bytes("start", 1)), join(pre, sym.Bytes("end", 1))
		it, in = r.RangeIterator(a, b), func(k []byte) bool { return inRange(k, a, b) }
		what = "range scan"
	case 4:
		a, b := []byte{1, 2}, join(pre, sym.Bytes("end", 1), []byte{0})
		it, in = r.RangeIterator(a, b), func(k []byte) bool { return inRange(k, a, b) }
		what = "range scan"
	}
	if sym.Choice("seek", 2) == 1 {
		k := join(pre, sym.Bytes("seek", 1))
		it.Seek(k)
		positioned(it, h, k, in, what+" after a seek")
	} else {
		var seen [][]byte
		checkIter(it, h, in, what, &seen)
	}
	sym.Assert(it.Close() == nil, "closing an iterator succeeds")
	closeReader(r)
	sym.Reach("end")
}

// LongMerge: merges into long keys, with long operands and long stored values.
func LongMerge(e Engine) {
	env.Reset()
	mo := &appendOp{partial: sym.Choice("partial", 2) == 1}
	s := e.open(mo)
	pre := filler([]int{40, 300}[sym.Choice("len", 2)])
	k1 := join(pre, sym.Bytes("k", 1))
	o := []Op{{K: k1, V: join(filler(200), sym.Bytes("v", 1))}}
	mustExec(s, o)
	w := writer(s)
	b := w.NewBatch()
	k2 := join(pre, sym.Bytes("k", 1))
	n := quick(6, 20)
	want := []byte{0xEE}
	if sym.Eq(k1, k2) {
		want = env.Clone(o[0].V)
	}
	// more operands than fit into a small slice, in an order that shows
	buf := make([]byte, 90)
	for i := 0; i < n; i++ {
		copy(buf, filler(90))
		buf[0] = byte(i)
		if i == n-1 {
			buf[89] = sym.Byte("last")
		}
		want = append(want, buf...)
		b.Merge(k2, buf)
		for j := range buf {
			buf[j] = 0
		}
	}
	sym.Assert(w.ExecuteBatch(b) == nil, "a batch of merges executes")
	r := reader(s)
	sym.Assert(sym.Eq(get(r, k2), want), "merge: operands are applied in order on top of the stored value")
	if !sym.Eq(k1, k2) {
		sym.Assert(sym.Eq(get(r, k1), o[0].V), "merge: other keys keep their values")
	}
	closeReader(r)
	sym.Reach("end")
}

// bigKey is the i-th of many keys, ascending with i.
func bigKey(i int) []byte { return []byte{'m', byte(i >> 8), byte(i), 0} }

// bigSizes are numbers of operations in one batch.
func bigSizes() []int {
	if sym.Tier() > 0 {
		return []int{33, 65, 129, 257, 513, 1100, 2100}
	}
	return []int{40, 130, 300, 1100}
}

// bigScan asserts that the store holds the n big keys, with value v of the i-th, and nothing else.
func bigScan(r store.KVReader, n int, v func(i int) []byte, what string) {
	it := r.PrefixIterator(nil)
	i := 0
	for ; it.Valid(); it.Next() {
		sym.Assert(i < n, what+": nothing else is stored")
		k, got, ok := it.Current()
		sym.Assert(ok, what+": Current agrees with Valid")
		sym.Assert(sym.Eq(k, bigKey(i)), what+": every key is visited once, in order")
		sym.Assert(sym.Eq(got, v(i)), what+": a key holds the last value written to it")
		i++
	}
	sym.Assert(i == n, what+": every live key is visited")
	sym.Assert(it.Close() == nil, "closing an iterator succeeds")
}

// BigBatch: a batch of many operations, the last of which may be invalid, or during which the engine may
// fail, takes effect completely or not at all.
func BigBatch(e Engine) {
	env.Reset()
	sym.FixRand()
	s := e.open(nil)
	sizes := bigSizes()
	n := sizes[sym.Choice("n", len(sizes))]
	x := sym.Bytes("x", 2)
	w := writer(s)
	b := w.NewBatch()
	val := func(i int) []byte {
		if i == n-1 || i == 0 {
			return x
		}
		return []byte{byte(i), 1}
	}
	rev := sym.Choice("descending", 2) == 1
	for j := 0; j < n; j++ {
		i := j
		if rev {
			i = n - 1 - j
		}
		b.Set(bigKey(i), []byte{byte(i)})
		b.Set(bigKey(i), val(i))
	}
	bad := sym.Choice("tail", 3)
	switch bad {
	case 1:
		b.Delete(bigKey(0xffff))
	case 2:
		b.Set(sym.BytesUpTo("k", 1), []byte{1})
	}
	if bad == 0 {
		env.Faults(1, "bolt.begin", "bolt.commit", "leveldb.write", "leveldb.opentransaction", "leveldb.txwrite", "leveldb.txcommit", "badger.commit")
		env.Skip(sym.Choice("skip", 3))
	}
	err := w.ExecuteBatch(b)
	injected := env.Injected
	env.Faults(0)
	if bad != 2 {
		sym.Assert((injected > 0) == (err != nil), "an engine failure, and nothing else, fails the batch")
	}
	sym.ObsBool("failed", err != nil)
	r := reader(s)
	if err != nil {
		it := r.PrefixIterator(nil)
		sym.Assert(!it.Valid(), "a failed batch leaves no trace")
		sym.Assert(it.Close() == nil, "closing an iterator succeeds")
	} else if bad == 2 {
		for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
			v := get(r, bigKey(i))
			sym.Assert(v != nil && sym.Eq(v, val(i)), "a batch that succeeds is complete")
		}
	} else {
		bigScan(r, n, val, "scan")
		var ks [][]byte
		for i := 0; i <= 60; i++ {
			ks = append(ks, bigKey(i*n/50))
		}
		vs, err := r.MultiGet(ks)
		sym.Assert(err == nil && len(vs) == len(ks), "a multi-key read returns one value per key")
		for j := range ks {
			i := j * n / 50
			if i < n {
				sym.Assert(vs[j] != nil && sym.Eq(vs[j], val(i)), "multi-key read: a key holds the last value written to it")
			} else {
				sym.Assert(vs[j] == nil, "multi-key read: a key never written is absent")
			}
		}
	}
	closeReader(r)
	sym.Reach("end")
}

// BadKeys: keys an engine refuses (none, reserved ones, too long ones) fail their batch as a whole; keys
// it accepts are stored whole.
func BadKeys(e Engine) {
	env.Reset()
	sym.FixRand()
	s := e.open(&appendOp{})
	base := []Op{{K: []byte{1}, V: []byte{5}}}
	mustExec(s, base)
	h := Hist(base)
	var k []byte
	switch sym.Choice("key", 7) {
	case 0:
		k = []byte{}
	case 1:
		k = join([]byte("!badger!"), sym.BytesUpTo("k", 1))
	case 2:
		k = sym.Bytes("k", 9)
	case 3:
		k = join(filler(32767), sym.Bytes("k", 1))
	case 4:
		k = join(filler(32768), sym.Bytes("k", 1))
	case 5:
		k = join(filler(65000), sym.Bytes("k", 1))
	case 6:
		k = join(filler(65535), sym.BytesUpTo("k", 1))
	}
	v := sym.Bytes("v", 1)
	w := writer(s)
	b := w.NewBatch()
	after := append(Hist{}, h...)
	b.Set([]byte{2}, []byte{6})
	after = append(after, Op{K: []byte{2}, V: []byte{6}})
	switch sym.Choice("kind", 3) {
	case 0:
		b.Set(k, v)
		after = append(after, Op{K: k, V: v})
	case 1:
		b.Delete(k)
		after = append(after, Op{K: k, Del: true})
	case 2:
		b.Merge(k, v)
		ex := join([]byte{0xEE}, v)
		sym.Assume(!sym.Eq(k, []byte{1}) && !sym.Eq(k, []byte{2}) && !sym.Eq(k, []byte{3}))
		after = append(after, Op{K: k, V: ex})
	}
	b.Set([]byte{3}, []byte{7})
	after = append(after, Op{K: []byte{3}, V: []byte{7}})
	err := w.ExecuteBatch(b)
	sym.ObsBool("failed", err != nil)
	if err == nil {
		h = after
	}
	r := reader(s)
	checkAll(r, h, "after the batch")
	closeReader(r)
	alive(s, h)
	sym.Reach("end")
}

// BigDurability: a batch of many operations survives a restart completely or not at all.
func BigDurability(e Engine) {
	env.Reset()
	dir := sym.TempDir()
	s, err := e.Open(dir, nil)
	sym.Assert(err == nil, "opening a fresh store succeeds")
	sizes := bigSizes()
	n := sizes[sym.Choice("n", len(sizes))]
	x := sym.Bytes("x", 1)
	var o []Op
	for i := 0; i < n; i++ {
		o = append(o, Op{K: bigKey(i), V: x})
	}
	env.Crashes(1)
	acked := false
	crashed := env.Run(func() {
		mustExec(s, o)
		acked = true
		if sym.Choice("close", 2) == 1 {
			sym.Assert(s.Close() == nil, "closing the store succeeds")
		}
	})
	env.Crashes(0)
	env.Restart(sym.Choice("power", 2) == 1)
	s, err = e.Open(dir, nil)
	sym.Assert(err == nil, "the store opens again")
	r := reader(s)
	it := r.PrefixIterator(nil)
	found := it.Valid()
	sym.Assert(it.Close() == nil, "closing an iterator succeeds")
	sym.Assert(crashed || acked, "the batch completes or the process dies")
	sym.Assert(!acked || found, "a completed batch survives")
	if found {
		bigScan(r, n, func(int) []byte { return x }, "after a restart")
	}
	closeReader(r)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Reach("end")
}

// BigCompaction: more dead entries than one compaction batch holds, live ones among them, and long keys.
func BigCompaction(e Engine) {
	env.Reset()
	s := e.open(nil)
	n := []int{90, 260}[sym.Choice("n", 2)]
	if sym.Tier() > 0 {
		n *= 2
	}
	x, y := sym.Bytes("x", 1), sym.Bytes("y", 1)
	pos := n / 2
	var o []Op
	for i := 0; i < n; i++ {
		k := []byte{'d', byte(i >> 8), byte(i)}
		v := []byte{0}
		switch {
		case i%40 == 7:
			v = []byte{0, 0}
		case i == pos:
			v = x
		case i == n-1:
			v = y
			k = join(k, filler(70))
		}
		o = append(o, Op{K: k, V: v})
	}
	o = append(o, Op{K: []byte{'c', 0xff}, V: []byte{0}}, Op{K: []byte{'e'}, V: []byte{0}})
	mustExec(s, o)
	c := compactable(s)
	if bs := []int{0, 1, 64, 1000}[sym.Choice("batch", 4)]; bs == 0 {
		sym.Assert(c.Compact() == nil, "compaction succeeds")
	} else {
		sym.Assert(c.CompactWithBatchSize(bs) == nil, "compaction succeeds")
	}
	r := reader(s)
	for _, x := range o {
		v := get(r, x.K)
		if dead(x) {
			sym.Assert(v == nil, "compaction removes every dead entry")
		} else {
			sym.Assert(v != nil && sym.Eq(v, x.V), "compaction keeps every other entry")
		}
	}
	closeReader(r)
	sym.Reach("end")
}

// contents is what a store should hold: entries of distinct keys.
type contents []Op

func (c contents) with(k, v []byte) contents {
	var r contents
	for _, o := range c {
		if &o.K[0] != &k[0] {
			r = append(r, o)
		}
	}
	if v != nil {
		r = append(r, Op{K: k, V: v})
	}
	return r
}

func (c contents) get(k []byte) []byte {
	for _, o := range c {
		if &o.K[0] == &k[0] {
			return o.V
		}
	}
	return nil
}

// Session: every short history of insertions, deletions and merges through fresh and reused batches,
// snapshots taken and given up, failed batches and reopenings, in any order.
func Session(e Engine) {
	env.Reset()
	sym.FixRand()
	dir := sym.TempDir()
	mo := &appendOp{}
	s, err := e.Open(dir, mo)
	sym.Assert(err == nil, "opening a fresh store succeeds")
	grow(e, s)
	ks := [][]byte{sym.Bytes("k", 1), sym.Bytes("k", 2)}
	mo.fail = func(k []byte) bool { return len(k) == 3 }
	w := writer(s)
	b := w.NewBatch()
	var now, then contents
	var snap store.KVReader
	n := quick(4, 5)
	for i := 0; i < n; i++ {
		act := sym.Choice("act", 7)
		if act < 4 {
			k := ks[sym.Choice("key", 2)]
			v := sym.Bytes("v", 1)
			x := b
			if act != 0 {
				b.Reset()
			} else {
				x = writer(s).NewBatch()
			}
			switch act {
			case 0, 1:
				x.Set(k, v)
				now = now.with(k, v)
			case 2:
				x.Delete(k)
				now = now.with(k, nil)
			case 3:
				x.Merge(k, v)
				old := now.get(k)
				if old == nil {
					old = []byte{0xEE}
				}
				now = now.with(k, join(old, v))
			}
			sym.Assert(w.ExecuteBatch(x) == nil, "a batch with valid keys executes")
			continue
		}
		switch act {
		case 4: // a failing batch
			b.Reset()
			b.Set(ks[0], []byte{9})
			b.Delete(ks[1])
			b.Merge([]byte{1, 1, 1}, []byte{1})
			sym.Assert(w.ExecuteBatch(b) != nil, "a failing merge operator fails the batch")
		case 5:
			if snap != nil {
				closeReader(snap)
			}
			snap, then = reader(s), now
		case 6:
			if snap != nil {
				closeReader(snap)
				snap = nil
			}
			if e.Persistent {
				sym.Assert(s.Close() == nil, "closing the store succeeds")
				s, err = e.Open(dir, mo)
				sym.Assert(err == nil, "the store opens again")
				w = writer(s)
				b = w.NewBatch()
			}
		}
	}
	if snap != nil {
		checkAll(snap, Hist(then), "old reader")
		for _, k := range ks {
			Hist(then).check(k, get(snap, k), "old reader")
		}
		closeReader(snap)
	}
	r := reader(s)
	checkAll(r, Hist(now), "new reader")
	closeReader(r)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Reach("end")
}

// LevelTuning: tuning options reach the engine as they were given, alone and together.
func LevelTuning(e Engine) {
	env.Reset()
	c := conf{"path": sym.TempDir()}
	vals := map[string]float64{"write_buffer_size": 65536, "block_size": 2048, "block_restart_interval": 5, "lru_cache_capacity": 77777, "bloom_filter_bits_per_key": 12}
	names := []string{"write_buffer_size", "block_size", "block_restart_interval", "lru_cache_capacity", "bloom_filter_bits_per_key"}
	want := map[string]uint64{}
	for _, n := range names {
		switch sym.Choice("given", 3) {
		case 1:
			c[n] = vals[n]
			want[n] = uint64(vals[n])
		case 2:
			c[n] = "no number"
		}
	}
	s, err := e.New(nil, c)
	sym.Assert(err == nil, "opening the store succeeds")
	for _, n := range names {
		sym.Assert(env.Tuned[n] == want[n], "a tuning option reaches the engine as given: "+n)
	}
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Reach("end")
}

// BoltTuning: the same for bolt.
func BoltTuning(e Engine) {
	env.Reset()
	c := conf{"path": sym.TempDir() + "/db"}
	fill, nosync := 0.5, false
	switch sym.Choice("fill", 4) {
	case 1:
		c["fillPercent"], fill = 0.75, 0.75
	case 2:
		c["fillPercent"], fill = 1.0, 1.0
	case 3:
		c["fillPercent"] = "no"
	}
	switch sym.Choice("nosync", 4) {
	case 1:
		c["nosync"], nosync = true, true
	case 2:
		c["nosync"] = false
	case 3:
		c["nosync"] = 1
	}
	s, err := e.New(nil, c)
	sym.Assert(err == nil, "opening the store succeeds")
	mustExec(s, sets("a", 1, 1, 1))
	sym.Assert(env.Tuned["fillPercent"] == math.Float64bits(fill), "a tuning option reaches the engine as given: fillPercent")
	sym.Assert((env.Tuned["nosync"] == 1) == nosync, "a tuning option reaches the engine as given: nosync")
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Reach("end")
}

// Goroutines: no goroutine outlives the iterators it works for, wherever these are left.
func Goroutines(e Engine) {
	env.Reset()
	s := e.open(nil)
	mustExec(s, []Op{{K: []byte{1}, V: []byte{5}}, {K: []byte{1, 2}, V: []byte{6}}, {K: []byte{3}, V: []byte{7}}, {K: []byte{3, 1}, V: []byte{}}})
	r := reader(s)
	base := sym.Goroutines(1 << 20)
	its := []store.KVIterator{r.RangeIterator([]byte{1}, nil)}
	its[0].Next()
	for i := 0; i < 1+sym.Tier(); i++ {
		var it store.KVIterator
		switch sym.Choice("iterator", 3) {
		case 0:
			it = r.PrefixIterator(sym.BytesUpTo("prefix", 1))
		case 1:
			it = r.RangeIterator(sym.BytesUpTo("start", 1), sym.BytesUpTo("end", 1))
		default:
			it = r.RangeIterator(nil, nil)
		}
		for n := sym.Choice("moves", 3); n > 0; n-- {
			if sym.Choice("move", 2) == 0 {
				it.Seek(sym.BytesUpTo("sought", 1))
			} else if it.Valid() {
				it.Next()
			}
		}
		its = append(its, it)
	}
	for _, it := range its {
		sym.Assert(it.Close() == nil, "closing an iterator succeeds")
	}
	sym.Assert(sym.Goroutines(base) <= base, "no goroutine outlives the iterators")
	closeReader(r)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Reach("end")
}

// LongOwnership: long keys, values and operands come from buffers, with and without room behind them,
// that are overwritten as soon as the call returns; the store holds what they contained.
func LongOwnership(e Engine) {
	env.Reset()
	s := e.open(&appendOp{})
	w := writer(s)
	b := w.NewBatch()
	ls := longLens()
	klen := ls[sym.Choice("klen", len(ls))]
	vlen := []int{62, 300, 5000}[sym.Choice("vlen", 3)]
	room := []int{0, 16}[sym.Choice("room", 2)]
	kb, vb := make([]byte, klen+1, klen+1+room), make([]byte, vlen+2, vlen+2+room)
	use := func(o Op, f func(k, v []byte)) Op {
		copy(kb, o.K)
		copy(vb, o.V)
		f(kb, vb)
		kb[0] ^= 0xff
		kb[klen] ^= 0xff
		vb[0] ^= 0xff
		vb[vlen+1] ^= 0xff
		return o
	}
	pre := filler(klen)
	mk := func() Op {
		return Op{K: join(pre, sym.Bytes("k", 1)), V: join(sym.Bytes("v", 1), filler(vlen), sym.Bytes("v", 1))}
	}
	h := Hist{mk(), mk()}
	use(h[0], b.Set)
	use(h[1], b.Set)
	switch sym.Choice("more", 3) {
	case 1:
		d := Op{K: join(pre, sym.Bytes("k", 1)), Del: true}
		use(d, func(k, _ []byte) { b.Delete(k) })
		h = append(h, d)
	case 2:
		m := mk()
		sym.Assume(!sym.Eq(m.K, h[0].K) && !sym.Eq(m.K, h[1].K))
		use(m, b.Merge)
		h = append(h, Op{K: m.K, V: join([]byte{0xEE}, m.V)})
	}
	sym.Assert(w.ExecuteBatch(b) == nil, "the batch executes")
	r := reader(s)
	checkAll(r, h, "long buffers reused")
	closeReader(r)
	sym.Reach("end")
}

// opener chooses the configuration a store at dir is opened with: the default one, tuned ones, none of
// which relaxes the synchronisation of writes, and (relaxed) one that asks not to sync.
func (e Engine) opener(dir string) (open func(mo store.MergeOperator) (store.KVStore, error), relaxed bool) {
	c := conf{"path": dir}
	n := 4
	if e.Name == "bolt" {
		c["path"], n = dir+"/db", 5
	}
	switch sym.Choice("config", n) {
	case 0:
		return func(mo store.MergeOperator) (store.KVStore, error) { return e.Open(dir, mo) }, false
	case 1:
		c["write_buffer_size"], c["block_size"], c["block_restart_interval"] = 65536.0, 1024.0, 4.0
		c["lru_cache_capacity"], c["bloom_filter_bits_per_key"] = 65536.0, 10.0
		c["nosync"], c["fillPercent"], c["bucket"] = false, 0.9, "other"
	case 2:
		c["write_buffer_size"], c["block_size"], c["bloom_filter_bits_per_key"] = 65536, "1024", 10
		c["nosync"], c["fillPercent"], c["bucket"] = "true", "0.9", 7
	case 3:
		c["read_only"], c["error_if_exists"], c["create_if_missing"] = false, false, true
		c["nosync"], c["write_buffer_size"], c["lru_cache_capacity"] = 1, 0.0, 0.0
	case 4:
		c["nosync"], relaxed = true, true
	}
	return func(mo store.MergeOperator) (store.KVStore, error) { return e.New(mo, c) }, relaxed
}
