package hs

import (
	"github.com/akhenakh/oureadb/store"

	"oureaverif/env"
	"oureaverif/sym"
)

// BatchHistory: two batches through two writers, then every key reads back the last operation on it.
func BatchHistory(e Engine) {
	env.Reset()
	s := e.open(nil)
	o1 := ops("a", 2, 1, 1)
	o2 := ops("b", quick(1, 2), 1, 1)
	mustExec(s, o1)
	mustExec(s, o2)
	h := Hist(append(append([]Op{}, o1...), o2...))
	r := reader(s)
	p := sym.Bytes("probe", 1)
	v := get(r, p)
	h.check(p, v, "get")
	sym.ObsBytes("got", v)
	sym.ObsBool("present", v != nil)
	checkAll(r, h, "scan")
	closeReader(r)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Reach("end")
}

// BatchOrder: one batch with repeated operations on keys of different lengths.
func BatchOrder(e Engine) {
	env.Reset()
	s := e.open(nil)
	o := ops("a", quick(3, 4), 2, 1)
	mustExec(s, o)
	h := Hist(o)
	r := reader(s)
	p := key("probe", 2)
	v := get(r, p)
	h.check(p, v, "get")
	sym.ObsBool("present", v != nil)
	closeReader(r)
	sym.Assert(s.Close() == nil, "closing the store succeeds")
	sym.Reach("end")
}

// Reads: Get, MultiGet agree with each other and with the contents; results belong to the caller.
func Reads(e Engine) {
	env.Reset()
	s := e.open(nil)
	o := sets("a", 2, 2, quick(1, 2))
	mustExec(s, o)
	h := Hist(o)
	r := reader(s)
	n := sym.Choice("n", quick(3, 4))
	var ks [][]byte
	for i := 0; i < n; i++ {
		ks = append(ks, key("probe", 2))
	}
	vs, err := r.MultiGet(ks)
	sym.Assert(err == nil, "a multi-key read on a healthy store succeeds")
	sym.Assert(len(vs) == n, "a multi-key read returns one value per key")
	var singles [][]byte
	for i, k := range ks {
		v := get(r, k)
		singles = append(singles, v)
		sym.Assert((v == nil) == (vs[i] == nil), "single and multi-key reads agree about presence")
		sym.Assert(sym.Eq(v, vs[i]), "single and multi-key reads agree about values")
		h.check(k, v, "get")
	}
	// the caller owns what it was given
	for i := range singles {
		for j := range singles[i] {
			singles[i][j] ^= 0xff
		}
	}
	for i, k := range ks {
		h.check(k, vs[i], "values survive writes to other results")
		h.check(k, get(r, k), "contents survive writes to results")
	}
	closeReader(r)
	mustExec(s, []Op{{K: []byte{1}, V: []byte{9, 9, 9}}})
	for i, k := range ks {
		h.check(k, vs[i], "values outlive their reader and writes to each other")
		for j := range vs[i] {
			vs[i][j] ^= 0xff
		}
	}
	sym.Reach("end")
}

func bound(name string, max int) []byte {
	n := sym.Choice(name+".len", max+1)
	if n == 0 {
		return nil
	}
	return sym.Bytes(name, n)
}

// PrefixScan: a prefix iterator yields exactly the live keys with the prefix, in order.
func PrefixScan(e Engine) {
	env.Reset()
	s := e.open(nil)
	o := sets("a", quick(2, 3), 2, 1)
	if sym.Choice("with-deletion", 2) == 1 {
		o = append(o, Op{K: sym.Bytes("del", 1), Del: true})
	}
	mustExec(s, o)
	h := Hist(o)
	r := reader(s)
	p := bound("prefix", 2)
	it := r.PrefixIterator(p)
	var seen [][]byte
	checkIter(it, h, func(k []byte) bool { return sym.HasPrefix(k, p) }, "prefix scan", &seen)
	sym.Assert(it.Close() == nil, "closing an iterator succeeds")
	closeReader(r)
	sym.Reach("end")
}

func inRange(k, start, end []byte) bool {
	c := !sym.Less(k, start)
	if end != nil {
		c = sym.And(c, sym.Less(k, end))
	}
	return c
}

// RangeScan: a range iterator yields exactly the live keys in [start,end).
func RangeScan(e Engine) {
	env.Reset()
	s := e.open(nil)
	o := sets("a", quick(2, 3), 2, 0)
	mustExec(s, o)
	h := Hist(o)
	r := reader(s)
	start, end := bound("start", quick(1, 2)), bound("end", 2)
	it := r.RangeIterator(start, end)
	var seen [][]byte
	checkIter(it, h, func(k []byte) bool { return inRange(k, start, end) }, "range scan", &seen)
	sym.Assert(it.Close() == nil, "closing an iterator succeeds")
	closeReader(r)
	sym.Reach("end")
}

// positioned asserts that it stands on the first live key that is in bounds and not below k, then drains it.
func positioned(it store.KVIterator, h Hist, k []byte, in func(k []byte) bool, what string) {
	var seen [][]byte
	checkIter(it, h, func(x []byte) bool { return sym.And(in(x), !sym.Less(x, k)) }, what, &seen)
}

// SeekPrefix: seeking moves to the first entry at or above the key without leaving the prefix.
func SeekPrefix(e Engine) {
	env.Reset()
	s := e.open(nil)
	o := sets("a", 2, 2, 0)
	mustExec(s, o)
	h := Hist(o)
	r := reader(s)
	p := bound("prefix", 1)
	in := func(k []byte) bool { return sym.HasPrefix(k, p) }
	it := r.PrefixIterator(p)
	if sym.Choice("advance", 2) == 1 && it.Valid() {
		it.Next()
	}
	if sym.Choice("two", 2) == 1 {
		it.Seek(key("first", 1))
		if sym.Choice("advance2", 2) == 1 && it.Valid() {
			it.Next()
		}
	}
	k := key("seek", 2)
	it.Seek(k)
	positioned(it, h, k, in, "seek within prefix")
	sym.Assert(it.Close() == nil, "closing an iterator succeeds")
	closeReader(r)
	sym.Reach("end")
}

// SeekRange: the same for range iterators.
func SeekRange(e Engine) {
	env.Reset()
	s := e.open(nil)
	o := sets("a", 2, quick(1, 2), 0)
	mustExec(s, o)
	h := Hist(o)
	r := reader(s)
	start, end := bound("start", 1), bound("end", 1)
	in := func(k []byte) bool { return inRange(k, start, end) }
	it := r.RangeIterator(start, end)
	if sym.Choice("two", 2) == 1 {
		it.Seek(key("first", 1))
		if sym.Choice("advance", 2) == 1 && it.Valid() {
			it.Next()
		}
	}
	k := key("seek", 2)
	it.Seek(k)
	positioned(it, h, k, in, "seek within range")
	sym.Assert(it.Close() == nil, "closing an iterator succeeds")
	closeReader(r)
	sym.Reach("end")
}

// grow makes the real bolt file large enough that a write does not have to remap it while a reader
// is open (bolt's documented restriction for one goroutine doing both).
func grow(e Engine, s store.KVStore) {
	if !sym.Native() || e.Name != "bolt" {
		return
	}
	var a, d []Op
	for i := 0; i < 200; i++ {
		k := []byte{0, 0, 0, byte(i)}
		a = append(a, Op{K: k, V: make([]byte, 400)})
		d = append(d, Op{K: k, Del: true})
	}
	mustExec(s, a)
	mustExec(s, d)
}

// Isolation: a reader keeps seeing the contents as of its creation.
func Isolation(e Engine) {
	env.Reset()
	s := e.open(nil)
	grow(e, s)
	o1 := sets("a", 2, 1, 1)
	o2 := ops("b", quick(1, 2), 1, 1)
	mustExec(s, o1)
	r := reader(s)
	early := sym.Choice("early-iterator", 2) == 1
	var it store.KVIterator
	if early {
		it = r.PrefixIterator(nil)
	}
	mustExec(s, o2)
	if !early {
		it = r.RangeIterator(nil, nil)
	}
	h1 := Hist(o1)
	p := sym.Bytes("probe", 1)
	h1.check(p, get(r, p), "old reader")
	var seen [][]byte
	checkIter(it, h1, func([]byte) bool { return true }, "old reader scan", &seen)
	sym.Assert(it.Close() == nil, "closing an iterator succeeds")
	h2 := Hist(append(append([]Op{}, o1...), o2...))
	r2 := reader(s)
	h2.check(p, get(r2, p), "new reader")
	checkAll(r2, h2, "new reader scan")
	closeReader(r2)
	h1.check(p, get(r, p), "old reader after a new one closed")
	closeReader(r)
	sym.Reach("end")
}
