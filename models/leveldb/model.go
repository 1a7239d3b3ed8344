// Package leveldb is a contract model of github.com/syndtr/goleveldb v1.0.0: atomic batches,
// snapshots, one transaction at a time, iterators that reuse their buffers.
package leveldb

import (
	"bytes"
	"os"
	"sync"

	"github.com/syndtr/goleveldb/leveldb/errors"
	"github.com/syndtr/goleveldb/leveldb/filter"
	"github.com/syndtr/goleveldb/leveldb/iterator"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/util"

	"oureaverif/env"
	"oureaverif/sym"
)

var errTransactionDone = errors.New("leveldb: transaction already closed")

// state: live entries, and the keys whose last write was a deletion
type state struct{ kvs, dead env.KVs }

type DB struct {
	f        *env.File
	o        *opt.Options
	w        sync.Mutex
	tr       *Transaction
	closed   bool
	readOnly bool
}

func OpenFile(path string, o *opt.Options) (*DB, error) {
	if err := env.Fault("leveldb.open"); err != nil {
		return nil, err
	}
	f := env.Open(path)
	if f.Open > 0 {
		return nil, errors.New("resource temporarily unavailable")
	}
	if !f.Exists {
		if o.GetErrorIfMissing() || o.GetReadOnly() {
			return nil, os.ErrNotExist
		}
		f.Exists = true
		f.Cur, f.Durable = &state{}, &state{}
	} else if o.GetErrorIfExist() {
		return nil, os.ErrExist
	}
	f.Open++
	env.Acquire("database")
	if o != nil {
		env.Tuned["write_buffer_size"] = uint64(o.WriteBuffer)
		env.Tuned["block_size"] = uint64(o.BlockSize)
		env.Tuned["block_restart_interval"] = uint64(o.BlockRestartInterval)
		env.Tuned["lru_cache_capacity"] = uint64(o.BlockCacheCapacity)
		env.Tuned["bloom_filter_bits_per_key"] = 0
		for n := 1; n <= 40 && o.Filter != nil; n++ {
			if o.Filter == filter.NewBloomFilter(n) {
				env.Tuned["bloom_filter_bits_per_key"] = uint64(n)
			}
		}
	}
	return &DB{f: f, o: o, readOnly: o.GetReadOnly()}, nil
}

func RecoverFile(path string, o *opt.Options) (*DB, error) { return OpenFile(path, o) }

func (db *DB) ok() error {
	if db.closed {
		return ErrClosed
	}
	return nil
}

func (db *DB) cur() *state { return db.f.Cur.(*state) }

func (db *DB) Close() error {
	if env.Dead {
		return nil
	}
	if db.closed {
		return ErrClosed
	}
	db.closed = true
	if db.tr != nil {
		db.tr.Discard()
	}
	db.w.Lock()
	db.f.Open--
	env.Release("database")
	return env.Fault("leveldb.close")
}

func (db *DB) SetReadOnly() error {
	db.readOnly = true
	return nil
}

func get(s *state, key []byte) ([]byte, error) {
	if err := env.Fault("leveldb.get"); err != nil {
		return nil, err
	}
	i, ok := s.kvs.Find(key)
	if !ok {
		dead := false
		for _, d := range s.dead {
			dead = sym.Or(dead, sym.Eq(d.K, key))
		}
		if dead {
			return []byte{}, ErrNotFound // what a tombstone yields
		}
		return nil, ErrNotFound
	}
	return env.Clone(s.kvs[i].V), nil
}

func has(s *state, key []byte) (bool, error) {
	_, err := get(s, key)
	if err == ErrNotFound {
		return false, nil
	}
	return err == nil, err
}

func (db *DB) Get(key []byte, ro *opt.ReadOptions) ([]byte, error) {
	if err := db.ok(); err != nil {
		return nil, err
	}
	return get(db.cur(), key)
}

func (db *DB) Has(key []byte, ro *opt.ReadOptions) (bool, error) {
	if err := db.ok(); err != nil {
		return false, err
	}
	return has(db.cur(), key)
}

func (db *DB) NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	if err := db.ok(); err != nil {
		return iterator.NewEmptyIterator(err)
	}
	return newIter(db.cur().kvs, slice)
}

func (db *DB) GetSnapshot() (*Snapshot, error) {
	if err := db.ok(); err != nil {
		return nil, err
	}
	if err := env.Fault("leveldb.snapshot"); err != nil {
		return nil, err
	}
	env.Acquire("snapshot")
	return &Snapshot{db: db, l: db.cur()}, nil
}

func (db *DB) GetProperty(name string) (string, error) { return "", ErrNotFound }

func (db *DB) apply(n *state, sync bool) {
	db.f.Cur = n
	if sync {
		db.f.Durable = n
	}
}

func (db *DB) Put(key, value []byte, wo *opt.WriteOptions) error {
	b := new(Batch)
	b.Put(key, value)
	return db.Write(b, wo)
}

func (db *DB) Delete(key []byte, wo *opt.WriteOptions) error {
	b := new(Batch)
	b.Delete(key)
	return db.Write(b, wo)
}

func (db *DB) Write(batch *Batch, wo *opt.WriteOptions) error {
	if err := db.ok(); err != nil || batch == nil || batch.Len() == 0 {
		return err
	}
	if db.readOnly {
		return ErrReadOnly
	}
	if env.Dead {
		return nil
	}
	db.w.Lock()
	defer db.w.Unlock()
	if err := env.Fault("leveldb.write"); err != nil {
		return err
	}
	env.Crash("leveldb.write.before")
	db.apply(batch.on(db.cur()), wo.GetSync() && !db.o.GetNoSync())
	env.Crash("leveldb.write.after")
	return nil
}

func (db *DB) CompactRange(r util.Range) error {
	if err := db.ok(); err != nil {
		return err
	}
	if db.readOnly {
		return ErrReadOnly
	}
	if env.Dead {
		return nil
	}
	db.w.Lock()
	defer db.w.Unlock()
	if err := env.Fault("leveldb.compact"); err != nil {
		return err
	}
	db.f.Durable = db.f.Cur
	return nil
}

func (db *DB) OpenTransaction() (*Transaction, error) {
	if err := db.ok(); err != nil {
		return nil, err
	}
	if db.readOnly {
		return nil, ErrReadOnly
	}
	if err := env.Fault("leveldb.opentransaction"); err != nil {
		return nil, err
	}
	db.w.Lock()
	env.Acquire("transaction")
	tr := &Transaction{db: db, l: db.cur()}
	db.tr = tr
	return tr, nil
}

// Snapshot is a frozen view.
type Snapshot struct {
	db       *DB
	l        *state
	released bool
}

func (snap *Snapshot) String() string { return "leveldb.Snapshot" }

func (snap *Snapshot) Get(key []byte, ro *opt.ReadOptions) ([]byte, error) {
	if err := snap.db.ok(); err != nil {
		return nil, err
	}
	if snap.released {
		return nil, ErrSnapshotReleased
	}
	return get(snap.l, key)
}

func (snap *Snapshot) Has(key []byte, ro *opt.ReadOptions) (bool, error) {
	if err := snap.db.ok(); err != nil {
		return false, err
	}
	if snap.released {
		return false, ErrSnapshotReleased
	}
	return has(snap.l, key)
}

func (snap *Snapshot) NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	if err := snap.db.ok(); err != nil {
		return iterator.NewEmptyIterator(err)
	}
	if snap.released {
		return iterator.NewEmptyIterator(ErrSnapshotReleased)
	}
	return newIter(snap.l.kvs, slice)
}

func (snap *Snapshot) Release() {
	if !snap.released {
		snap.released = true
		env.Release("snapshot")
	}
}

// Transaction excludes every other writer until it is committed or discarded.
type Transaction struct {
	db     *DB
	l      *state
	closed bool
}

func (tr *Transaction) Get(key []byte, ro *opt.ReadOptions) ([]byte, error) {
	if tr.closed {
		return nil, errTransactionDone
	}
	return get(tr.l, key)
}

func (tr *Transaction) Has(key []byte, ro *opt.ReadOptions) (bool, error) {
	if tr.closed {
		return false, errTransactionDone
	}
	return has(tr.l, key)
}

func (tr *Transaction) NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	if tr.closed {
		return iterator.NewEmptyIterator(errTransactionDone)
	}
	return newIter(tr.l.kvs, slice)
}

func (tr *Transaction) Put(key, value []byte, wo *opt.WriteOptions) error {
	b := new(Batch)
	b.Put(key, value)
	return tr.Write(b, wo)
}

func (tr *Transaction) Delete(key []byte, wo *opt.WriteOptions) error {
	b := new(Batch)
	b.Delete(key)
	return tr.Write(b, wo)
}

func (tr *Transaction) Write(b *Batch, wo *opt.WriteOptions) error {
	if b == nil || b.Len() == 0 {
		return nil
	}
	if tr.closed {
		return errTransactionDone
	}
	if err := env.Fault("leveldb.txwrite"); err != nil {
		return err
	}
	tr.l = b.on(tr.l)
	return nil
}

func (tr *Transaction) done() {
	tr.closed = true
	env.Release("transaction")
	tr.db.tr = nil
	if !env.Dead {
		tr.db.w.Unlock()
	}
}

func (tr *Transaction) Commit() error {
	if err := tr.db.ok(); err != nil {
		return err
	}
	if tr.closed {
		return errTransactionDone
	}
	if env.Dead {
		return nil
	}
	if err := env.Fault("leveldb.txcommit"); err != nil {
		return err // still open: to be retried or discarded
	}
	env.Crash("leveldb.txcommit.before")
	tr.db.apply(tr.l, true)
	env.Crash("leveldb.txcommit.after")
	tr.done()
	return nil
}

func (tr *Transaction) Discard() {
	if !tr.closed {
		tr.done()
	}
}

// ---- batches ----

type bop struct {
	del  bool
	k, v []byte
}

type Batch struct{ ops []bop }

type BatchReplay interface {
	Put(key, value []byte)
	Delete(key []byte)
}

func MakeBatch(n int) *Batch { return &Batch{} }

func (b *Batch) Put(key, value []byte) {
	b.ops = append(b.ops, bop{false, env.Clone(key), env.Clone(value)})
}
func (b *Batch) Delete(key []byte) { b.ops = append(b.ops, bop{true, env.Clone(key), nil}) }
func (b *Batch) Len() int          { return len(b.ops) }
func (b *Batch) Reset()            { b.ops = b.ops[:0] }
func (b *Batch) Replay(r BatchReplay) error {
	for _, o := range b.ops {
		if o.del {
			r.Delete(o.k)
		} else {
			r.Put(o.k, o.v)
		}
	}
	return nil
}

func (b *Batch) on(s *state) *state {
	n := &state{s.kvs, s.dead}
	for _, o := range b.ops {
		if o.del {
			n.kvs = n.kvs.Del(o.k)
			n.dead = append(append(env.KVs{}, n.dead...), env.KV{K: o.k})
		} else {
			n.kvs = n.kvs.Put(o.k, env.Clone(o.v))
		}
	}
	return n
}

// ---- iterator ----

type iter struct {
	l        env.KVs
	i        int
	key, val []byte
	err      error
	released bool
	rel      util.Releaser
}

func newIter(l env.KVs, slice *util.Range) iterator.Iterator {
	if slice != nil {
		var n env.KVs
		for _, e := range l {
			if slice.Start != nil && bytes.Compare(e.K, slice.Start) < 0 {
				continue
			}
			if slice.Limit != nil && bytes.Compare(e.K, slice.Limit) >= 0 {
				break
			}
			n = append(n, e)
		}
		l = n
	}
	env.Acquire("iterator")
	return &iter{l: l, i: -1}
}

func (i *iter) load() bool {
	env.Poison(i.key)
	env.Poison(i.val)
	if i.err == nil {
		if err := env.Fault("leveldb.iter"); err != nil {
			i.err = err
		}
	}
	if i.err != nil {
		i.key, i.val = nil, nil
		return false
	}
	if i.i < 0 || i.i >= len(i.l) {
		return false
	}
	i.key = append(i.key[:0], i.l[i.i].K...)
	i.val = append(i.val[:0], i.l[i.i].V...)
	return true
}

func (i *iter) bad() bool {
	if i.err != nil {
		return true
	}
	if i.released {
		i.err = ErrIterReleased
		return true
	}
	return false
}

func (i *iter) Valid() bool { return i.err == nil && !i.released && i.i >= 0 && i.i < len(i.l) }

func (i *iter) First() bool {
	if i.bad() {
		return false
	}
	i.i = 0
	return i.load()
}

func (i *iter) Last() bool {
	if i.bad() {
		return false
	}
	i.i = len(i.l) - 1
	return i.load()
}

func (i *iter) Seek(key []byte) bool {
	if i.bad() {
		return false
	}
	i.i, _ = i.l.Find(key)
	return i.load()
}

func (i *iter) Next() bool {
	if i.bad() {
		return false
	}
	if i.i < len(i.l) {
		i.i++
	}
	return i.load()
}

func (i *iter) Prev() bool {
	if i.bad() {
		return false
	}
	if i.i >= 0 {
		i.i--
	}
	return i.load()
}

func (i *iter) Key() []byte {
	if !i.Valid() {
		return nil
	}
	return i.key
}

func (i *iter) Value() []byte {
	if !i.Valid() {
		return nil
	}
	return i.val
}

func (i *iter) Release() {
	if i.released {
		return
	}
	i.released = true
	env.Release("iterator")
	env.Poison(i.key)
	env.Poison(i.val)
	if i.rel != nil {
		i.rel.Release()
		i.rel = nil
	}
}

func (i *iter) SetReleaser(r util.Releaser) { i.rel = r }
func (i *iter) Error() error                { return i.err }
