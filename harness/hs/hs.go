// Package hs holds the store properties, written once and run against every backend.
package hs

import (
	"github.com/akhenakh/oureadb/store"

	"oureaverif/env"
	"oureaverif/sym"
)

// Engine opens one backend.
type Engine struct {
	Name string
	// Open opens the store living below path.
	Open func(path string, mo store.MergeOperator) (store.KVStore, error)
	// New opens it with any configuration.
	New func(mo store.MergeOperator, config map[string]interface{}) (store.KVStore, error)
	// Persistent backends keep their contents across Close and Open.
	Persistent bool
}

func (e Engine) open(mo store.MergeOperator) store.KVStore {
	s, err := e.Open(sym.TempDir(), mo)
	sym.Assert(err == nil, "opening a fresh store succeeds")
	return s
}

// Op is one effect on a key.
type Op struct {
	K, V []byte
	Del  bool
}

// Hist is the sequence of effects so far, oldest first.
type Hist []Op

// check asserts that got is what the history says about key p.
func (h Hist) check(p, got []byte, what string) {
	none := true
	for i := len(h) - 1; i >= 0; i-- {
		eq := sym.Eq(h[i].K, p)
		last := sym.And(none, eq)
		if h[i].Del {
			sym.Assert(sym.Implies(last, got == nil), what+": a deleted key is absent")
		} else {
			sym.Assert(sym.Implies(last, sym.And(got != nil, sym.Eq(got, h[i].V))), what+": a key holds the last value written to it")
		}
		none = sym.And(none, !eq)
	}
	sym.Assert(sym.Implies(none, got == nil), what+": a key never written is absent")
}

// present tells whether key p is live, without splitting paths.
func (h Hist) present(p []byte) bool {
	r := false
	for _, o := range h {
		eq := sym.Eq(o.K, p)
		r = sym.Or(sym.And(eq, !o.Del), sym.And(!eq, r))
	}
	return r
}

func writer(s store.KVStore) store.KVWriter {
	w, err := s.Writer()
	sym.Assert(err == nil && w != nil, "a writer can be obtained")
	return w
}

func reader(s store.KVStore) store.KVReader {
	r, err := s.Reader()
	sym.Assert(err == nil && r != nil, "a reader can be obtained")
	return r
}

func closeReader(r store.KVReader) {
	sym.Assert(r.Close() == nil, "closing a reader succeeds")
}

// exec runs ops as one batch.
func exec(s store.KVStore, ops []Op) error {
	w := writer(s)
	b := w.NewBatch()
	for _, o := range ops {
		if o.Del {
			b.Delete(o.K)
		} else {
			b.Set(o.K, o.V)
		}
	}
	err := w.ExecuteBatch(b)
	if err == nil {
		sym.Assert(b.Close() == nil, "closing a batch succeeds")
		sym.Assert(w.Close() == nil, "closing a writer succeeds")
	}
	return err
}

func mustExec(s store.KVStore, ops []Op) {
	sym.Assert(exec(s, ops) == nil, "a batch with valid keys executes")
}

func key(name string, max int) []byte {
	return sym.Bytes(name, 1+sym.Choice(name+".len", max))
}

// ops makes n symbolic operations; kinds enumerates Set/Delete.
func ops(name string, n, klen, vlen int) []Op {
	var r []Op
	for i := 0; i < n; i++ {
		k := key(name+".key", klen)
		if sym.Choice(name+".kind", 2) == 1 {
			r = append(r, Op{K: k, Del: true})
		} else {
			r = append(r, Op{K: k, V: sym.BytesUpTo(name+".val", vlen)})
		}
	}
	return r
}

// sets makes n symbolic insertions.
func sets(name string, n, klen, vlen int) []Op {
	var r []Op
	for i := 0; i < n; i++ {
		r = append(r, Op{K: key(name+".key", klen), V: sym.BytesUpTo(name+".val", vlen)})
	}
	return r
}

// checkAll compares the whole contents visible through r with the history.
func checkAll(r store.KVReader, h Hist, what string) {
	it := r.PrefixIterator(nil)
	var seen [][]byte
	checkIter(it, h, func(k []byte) bool { return true }, what, &seen)
	sym.Assert(it.Close() == nil, what+": closing an iterator succeeds")
}

// checkIter drains it and asserts that it yields exactly the live keys accepted by in, ascending.
func checkIter(it store.KVIterator, h Hist, in func(k []byte) bool, what string, seen *[][]byte) {
	var prev []byte
	n := 0
	var got [][]byte
	for it.Valid() {
		sym.Assert(n <= len(h), what+": the iteration ends")
		k, v, ok := it.Current()
		sym.Assert(ok, what+": Current agrees with Valid")
		sym.Assert(sym.And(sym.Eq(k, it.Key()), sym.Eq(v, it.Value())), what+": Current agrees with Key and Value")
		sym.Assert(in(k), what+": only keys inside the bounds are visited")
		if n > 0 {
			sym.Assert(sym.Less(prev, k), what+": keys come in strictly ascending order")
		}
		vc := env.Clone(v)
		h.check(k, vc, what)
		prev = env.Clone(k)
		got = append(got, prev)
		sym.ObsBytes("it", prev)
		n++
		it.Next()
	}
	_, _, ok := it.Current()
	sym.Assert(!ok, what+": Current agrees with Valid at the end")
	for _, o := range h {
		hit := false
		for _, g := range got {
			hit = sym.Or(hit, sym.Eq(g, o.K))
		}
		sym.Assert(sym.Implies(sym.And(h.present(o.K), in(o.K)), hit), what+": every live key inside the bounds is visited")
	}
	*seen = got
}

func get(r store.KVReader, k []byte) []byte {
	v, err := r.Get(k)
	sym.Assert(err == nil, "a read on a healthy store succeeds")
	return v
}

// quick picks the bound for the tier.
func quick(q, t int) int {
	if sym.Tier() == 0 {
		return q
	}
	return t
}
