// Package kvm is a store that does what the store.KVStore interface promises and no more: iterators
// lend one buffer that is overwritten as soon as they move, readers see a snapshot, every call that
// can fail may fail, and everything handed out is counted.
package kvm

import (
	"bytes"
	"errors"

	"github.com/akhenakh/oureadb/store"

	"oureaverif/env"
	"oureaverif/sym"
)

type Store struct {
	// Log holds every write, oldest first.
	Log []op
	// Readers, Iters and Batches are handed out and not given back.
	Readers, Iters, Batches int
	// Executed counts the batches executed.
	Executed int
	closed   bool
}

func (s *Store) Writer() (store.KVWriter, error) {
	if err := env.Fault("writer"); err != nil {
		return nil, err
	}
	return &writer{s}, nil
}

func (s *Store) Reader() (store.KVReader, error) {
	if err := env.Fault("reader"); err != nil {
		return nil, err
	}
	s.Readers++
	return &reader{s: s, l: s.Log[:len(s.Log):len(s.Log)]}, nil
}

func (s *Store) Close() error { s.closed = true; return nil }

// Set writes a key beside the code.
func (s *Store) Set(k, v []byte) {
	s.Log = append(s.Log[:len(s.Log):len(s.Log)], op{k: env.Clone(k), v: env.Clone(v)})
}

type writer struct{ s *Store }

type op struct {
	k, v []byte
	del  bool
}

type batch struct {
	s      *Store
	ops    []op
	bad    bool
	closed bool
}

func (w *writer) NewBatch() store.KVBatch {
	w.s.Batches++
	return &batch{s: w.s}
}

func (w *writer) NewBatchEx(o store.KVBatchOptions) ([]byte, store.KVBatch, error) {
	if err := env.Fault("newbatchex"); err != nil {
		return nil, nil, err
	}
	return make([]byte, o.TotalBytes), w.NewBatch(), nil
}

func (w *writer) ExecuteBatch(kb store.KVBatch) error {
	b, ok := kb.(*batch)
	if !ok {
		return errors.New("wrong type of batch")
	}
	sym.Assert(!b.closed, "a closed batch is not executed")
	if err := env.Fault("execute"); err != nil {
		return err
	}
	w.s.Executed++
	s := w.s
	s.Log = append(s.Log[:len(s.Log):len(s.Log)], b.ops...)
	return nil
}

func (w *writer) Close() error { return nil }

func (b *batch) Set(k, v []byte) {
	sym.Assert(!b.closed, "a closed batch is not used")
	b.ops = append(b.ops, op{k: env.Clone(k), v: env.Clone(v)})
}

func (b *batch) Delete(k []byte) {
	sym.Assert(!b.closed, "a closed batch is not used")
	b.ops = append(b.ops, op{k: env.Clone(k), del: true})
}

func (b *batch) Merge(k, v []byte) { panic("the store has no merge operator") }
func (b *batch) Reset()            { b.ops = nil }

func (b *batch) Close() error {
	if !b.closed {
		b.closed = true
		b.s.Batches--
	}
	return nil
}

type reader struct {
	s      *Store
	l      []op
	closed bool
	iters  int
}

func (r *reader) Get(k []byte) ([]byte, error) {
	sym.Assert(!r.closed, "a closed reader is not used")
	if err := env.Fault("get"); err != nil {
		return nil, err
	}
	for i := len(r.l) - 1; i >= 0; i-- {
		if sym.Eq(r.l[i].k, k) {
			if r.l[i].del {
				break
			}
			return env.Clone(r.l[i].v), nil
		}
	}
	return nil, nil
}

func (r *reader) MultiGet(ks [][]byte) ([][]byte, error) {
	var res [][]byte
	for _, k := range ks {
		v, err := r.Get(k)
		if err != nil {
			return nil, err
		}
		res = append(res, v)
	}
	return res, nil
}

func (r *reader) iter(lo, prefix, hi []byte, pre bool) *iterator {
	sym.Assert(!r.closed, "a closed reader is not used")
	r.s.Iters++
	r.iters++
	it := &iterator{r: r, lo: env.Clone(lo), buf: make([]byte, 64)}
	// only what the iterator can ever show is put in order
	for _, o := range r.l {
		var in bool
		if pre {
			in = sym.HasPrefix(o.k, prefix)
		} else {
			in = !sym.Less(o.k, lo)
			if hi != nil {
				in = sym.And(in, sym.Less(o.k, hi))
			}
		}
		if in {
			if o.del {
				it.l = it.l.Del(o.k)
			} else {
				it.l = it.l.Put(o.k, o.v)
			}
		}
	}
	it.lend()
	return it
}

func (r *reader) PrefixIterator(p []byte) store.KVIterator     { return r.iter(p, p, nil, true) }
func (r *reader) RangeIterator(lo, hi []byte) store.KVIterator { return r.iter(lo, nil, hi, false) }

func (r *reader) Close() error {
	if !r.closed {
		sym.Assert(r.iters == 0, "a reader is closed after its iterators")
		r.closed = true
		r.s.Readers--
	}
	return nil
}

type iterator struct {
	r      *reader
	lo     []byte
	l      env.KVs
	i      int
	buf    []byte
	valid  bool
	closed bool
}

// lend puts the current key into the one buffer the iterator has.
func (it *iterator) lend() {
	env.Poison(it.buf)
	it.valid = false
	if it.i < len(it.l) {
		it.valid = true
		if len(it.buf) < len(it.l[it.i].K) {
			it.buf = make([]byte, 2*len(it.l[it.i].K))
		}
		copy(it.buf, it.l[it.i].K)
	}
}

func (it *iterator) use() {
	sym.Assert(!it.closed && !it.r.closed, "a closed iterator is not used")
}

func (it *iterator) Seek(k []byte) {
	it.use()
	if bytes.Compare(k, it.lo) < 0 {
		k = it.lo
	}
	it.i, _ = it.l.Find(k)
	it.lend()
}

func (it *iterator) Next() {
	it.use()
	if it.valid {
		it.i++
		it.lend()
	}
}

func (it *iterator) Key() []byte {
	it.use()
	if !it.valid {
		return nil
	}
	return it.buf[:len(it.l[it.i].K)]
}

func (it *iterator) Value() []byte {
	it.use()
	if !it.valid {
		return nil
	}
	return env.Clone(it.l[it.i].V)
}

func (it *iterator) Valid() bool { it.use(); return it.valid }

func (it *iterator) Current() ([]byte, []byte, bool) {
	it.use()
	if !it.valid {
		return nil, nil, false
	}
	return it.Key(), it.Value(), true
}

func (it *iterator) Close() error {
	if !it.closed {
		it.closed = true
		env.Poison(it.buf)
		it.r.iters--
		it.r.s.Iters--
	}
	return nil
}
