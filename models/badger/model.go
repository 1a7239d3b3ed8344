// Package badger is a contract model of github.com/dgraph-io/badger v1.6.0: snapshot isolated
// transactions with conflict detection, items that die when their iterator moves on.
package badger

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"sync"
	"time"

	"oureaverif/env"
)

var badgerPrefix = []byte("!badger!")

type state struct{ kvs env.KVs }

type commit struct {
	ts   uint64
	keys [][]byte
}

type DB struct {
	mu      sync.Mutex
	opt     Options
	f       *env.File
	ts      uint64
	commits []commit
	closed  bool
}

func Open(opt Options) (*DB, error) {
	if err := env.Fault("badger.open"); err != nil {
		return nil, err
	}
	f := env.Open(opt.Dir)
	if f.Open > 0 {
		return nil, fmt.Errorf("Cannot acquire directory lock on %q.  Another process is using this Badger database.", opt.Dir)
	}
	if !f.Exists {
		if opt.ReadOnly {
			return nil, fmt.Errorf("Cannot find directory %q for read-only open", opt.Dir)
		}
		if err := os.MkdirAll(opt.Dir, 0700); err != nil {
			return nil, err
		}
		f.Exists = true
		f.Cur, f.Durable = &state{}, &state{}
	}
	f.Open++
	env.Acquire("database")
	return &DB{opt: opt, f: f}, nil
}

func (db *DB) Close() error {
	if env.Dead || db.closed {
		return nil
	}
	db.closed = true
	db.f.Open--
	env.Release("database")
	if err := env.Fault("badger.close"); err != nil {
		return err
	}
	db.f.Durable = db.f.Cur
	return nil
}

func (db *DB) Sync() error {
	db.f.Durable = db.f.Cur
	return nil
}

func (db *DB) Opts() Options               { return db.opt }
func (db *DB) RunValueLogGC(float64) error { return ErrNoRewrite }
func (db *DB) Size() (int64, int64)        { return 0, 0 }
func (db *DB) Flatten(workers int) error   { return nil }
func (db *DB) MaxBatchCount() int64        { return 1 << 20 }
func (db *DB) MaxBatchSize() int64         { return 1 << 24 }
func (db *DB) DropAll() error              { db.f.Cur, db.f.Durable = &state{}, &state{}; return nil }

func (db *DB) View(fn func(txn *Txn) error) error {
	txn := db.NewTransaction(false)
	defer txn.Discard()
	return fn(txn)
}

func (db *DB) Update(fn func(txn *Txn) error) error {
	txn := db.NewTransaction(true)
	defer txn.Discard()
	if err := fn(txn); err != nil {
		return err
	}
	return txn.Commit()
}

// Entry as in badger.
type Entry struct {
	Key       []byte
	Value     []byte
	UserMeta  byte
	ExpiresAt uint64
	del       bool
}

func NewEntry(key, value []byte) *Entry           { return &Entry{Key: key, Value: value} }
func (e *Entry) WithMeta(meta byte) *Entry        { e.UserMeta = meta; return e }
func (e *Entry) WithDiscard() *Entry              { return e }
func (e *Entry) WithTTL(dur time.Duration) *Entry { e.ExpiresAt = 1; return e }

type Txn struct {
	db        *DB
	update    bool
	discarded bool
	readTs    uint64
	snap      env.KVs
	pend      []*Entry
	reads     [][]byte
	iters     int
	items     []*Item
}

func (db *DB) NewTransaction(update bool) *Txn {
	if db.opt.ReadOnly && update {
		update = false
	}
	env.Acquire("transaction")
	return &Txn{db: db, update: update, readTs: db.ts, snap: db.f.Cur.(*state).kvs}
}

func (txn *Txn) ReadTs() uint64 { return txn.readTs }

// at is the place of key among the pending entries. Many entries are kept in the order of their keys.
func (txn *Txn) at(key []byte) (int, bool) {
	if len(txn.pend) < many {
		for i, e := range txn.pend {
			if bytes.Equal(e.Key, key) {
				return i, true
			}
		}
		return len(txn.pend), false
	}
	lo, hi := 0, len(txn.pend)
	for lo < hi {
		m := (lo + hi) / 2
		c := bytes.Compare(txn.pend[m].Key, key)
		if c == 0 {
			return m, true
		} else if c < 0 {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo, false
}

const many = 24

func (txn *Txn) find(key []byte) *Entry {
	if i, ok := txn.at(key); ok {
		return txn.pend[i]
	}
	return nil
}

func (txn *Txn) modify(e *Entry) error {
	switch {
	case !txn.update:
		return ErrReadOnlyTxn
	case txn.discarded:
		return ErrDiscardedTxn
	case len(e.Key) == 0:
		return ErrEmptyKey
	case bytes.HasPrefix(e.Key, badgerPrefix):
		return ErrInvalidKey
	case len(e.Key) > 65000:
		return fmt.Errorf("Key with size %d exceeded 65000 limit", len(e.Key))
	}
	op := "badger.set"
	if e.del {
		op = "badger.delete"
	}
	if env.Fault(op) != nil {
		return ErrTxnTooBig
	}
	i, ok := txn.at(e.Key)
	if ok {
		txn.pend[i] = e
		return nil
	}
	txn.pend = append(txn.pend, e)
	copy(txn.pend[i+1:], txn.pend[i:])
	txn.pend[i] = e
	if len(txn.pend) == many {
		sort.Slice(txn.pend, func(i, j int) bool { return bytes.Compare(txn.pend[i].Key, txn.pend[j].Key) < 0 })
	}
	return nil
}

func (txn *Txn) Set(key, val []byte) error { return txn.modify(NewEntry(key, val)) }
func (txn *Txn) SetEntry(e *Entry) error   { return txn.modify(e) }
func (txn *Txn) Delete(key []byte) error   { return txn.modify(&Entry{Key: key, del: true}) }

func (txn *Txn) addRead(key []byte) {
	if txn.update {
		txn.reads = append(txn.reads, env.Clone(key))
	}
}

func (txn *Txn) Get(key []byte) (*Item, error) {
	if len(key) == 0 {
		return nil, ErrEmptyKey
	} else if txn.discarded {
		return nil, ErrDiscardedTxn
	}
	if err := env.Fault("badger.get"); err != nil {
		return nil, err
	}
	if txn.update {
		if e := txn.find(key); e != nil {
			if e.del || e.ExpiresAt != 0 {
				return nil, ErrKeyNotFound
			}
			return &Item{key: key, val: e.Value, meta: e.UserMeta, txn: txn}, nil
		}
		txn.addRead(key)
	}
	i, ok := txn.snap.Find(key)
	if !ok {
		return nil, ErrKeyNotFound
	}
	return &Item{key: key, val: txn.snap[i].V, txn: txn}, nil
}

func (txn *Txn) Discard() {
	if txn.discarded {
		return
	}
	if txn.iters > 0 && !env.Dead {
		panic("Unclosed iterator at time of Txn.Discard.")
	}
	txn.discarded = true
	env.Release("transaction")
}

func (txn *Txn) commit() error {
	if len(txn.pend) == 0 || env.Dead {
		return nil
	}
	db := txn.db
	db.mu.Lock()
	defer db.mu.Unlock()
	for _, c := range db.commits {
		if c.ts <= txn.readTs {
			continue
		}
		for _, k := range c.keys {
			for _, r := range txn.reads {
				if bytes.Equal(k, r) {
					return ErrConflict
				}
			}
		}
	}
	if err := env.Fault("badger.commit"); err != nil {
		return err
	}
	env.Crash("badger.commit.before")
	kvs := db.f.Cur.(*state).kvs
	db.ts++
	c := commit{ts: db.ts}
	for _, e := range txn.pend {
		c.keys = append(c.keys, env.Clone(e.Key))
		if e.del || e.ExpiresAt != 0 {
			kvs = kvs.Del(e.Key)
		} else {
			kvs = kvs.Put(env.Clone(e.Key), env.Clone(e.Value))
		}
	}
	db.commits = append(db.commits, c)
	n := &state{kvs}
	db.f.Cur = n
	if db.opt.SyncWrites {
		db.f.Durable = n
	}
	env.Crash("badger.commit.after")
	return nil
}

func (txn *Txn) Commit() error {
	if txn.discarded {
		panic("Trying to commit a discarded txn")
	}
	defer txn.Discard()
	return txn.commit()
}

func (txn *Txn) CommitWith(cb func(error)) {
	if txn.discarded {
		panic("Trying to commit a discarded txn")
	}
	defer txn.Discard()
	if cb == nil {
		panic("Nil callback provided to CommitWith")
	}
	err := txn.commit()
	go cb(err)
}

// ---- iterators ----

type IteratorOptions struct {
	PrefetchValues bool
	PrefetchSize   int
	Reverse        bool
	AllVersions    bool
	Prefix         []byte
	InternalAccess bool
}

var DefaultIteratorOptions = IteratorOptions{PrefetchValues: true, PrefetchSize: 100}

type Iterator struct {
	txn    *Txn
	opt    IteratorOptions
	l      env.KVs
	i      int
	item   *Item
	closed bool
	moved  bool
}

func (txn *Txn) NewIterator(opt IteratorOptions) *Iterator {
	if txn.discarded {
		panic("Transaction has already been discarded")
	}
	if txn.update && txn.iters > 0 {
		panic("Only one iterator can be active at one time, for a RW txn.")
	}
	txn.iters++
	env.Acquire("iterator")
	l := txn.snap
	for _, e := range txn.pend {
		if e.del {
			l = l.Del(e.Key)
		} else {
			l = l.Put(e.Key, e.Value)
		}
	}
	if opt.Reverse {
		r := make(env.KVs, 0, len(l))
		for i := len(l) - 1; i >= 0; i-- {
			r = append(r, l[i])
		}
		l = r
	}
	return &Iterator{txn: txn, opt: opt, l: l, i: -1}
}

func (txn *Txn) NewKeyIterator(key []byte, opt IteratorOptions) *Iterator {
	opt.Prefix = key
	it := txn.NewIterator(opt)
	var l env.KVs
	for _, e := range it.l {
		if bytes.Equal(e.K, key) {
			l = append(l, e)
		}
	}
	it.l = l
	return it
}

func (it *Iterator) drop() {
	if it.item != nil {
		env.Poison(it.item.key)
		env.Poison(it.item.val)
		it.item = nil
	}
}

func (it *Iterator) load() {
	it.drop()
	if it.i >= 0 && it.i < len(it.l) {
		e := it.l[it.i]
		it.item = &Item{key: env.Clone(e.K), val: env.Clone(e.V), txn: it.txn}
	}
}

func (it *Iterator) Item() *Item {
	_ = it.item.key
	return it.item
}

func (it *Iterator) Valid() bool {
	if it.item == nil {
		return false
	}
	return bytes.HasPrefix(it.item.key, it.opt.Prefix)
}

func (it *Iterator) ValidForPrefix(prefix []byte) bool {
	return it.Valid() && bytes.HasPrefix(it.item.key, prefix)
}

func (it *Iterator) Close() {
	if it.closed {
		return
	}
	it.closed = true
	if it.item != nil {
		env.Poison(it.item.key)
		env.Poison(it.item.val)
	}
	it.txn.iters--
	env.Release("iterator")
}

func (it *Iterator) Next() {
	_ = it.item.key
	it.i++
	it.load()
}

func (it *Iterator) Seek(key []byte) {
	if len(key) == 0 {
		key = it.opt.Prefix
	}
	if len(key) == 0 {
		it.i = 0
		it.load()
		return
	}
	if it.opt.Reverse {
		it.i = 0
		for it.i < len(it.l) && bytes.Compare(it.l[it.i].K, key) > 0 {
			it.i++
		}
	} else {
		it.i, _ = it.l.Find(key)
	}
	it.load()
}

func (it *Iterator) Rewind() { it.Seek(nil) }

// Item is a key/value pair; from an iterator it is only valid until the iterator moves.
type Item struct {
	key  []byte
	val  []byte
	meta byte
	txn  *Txn
}

func (item *Item) Key() []byte               { return item.key }
func (item *Item) KeyCopy(dst []byte) []byte { return append(dst[:0], item.key...) }
func (item *Item) Version() uint64           { return item.txn.readTs }
func (item *Item) KeySize() int64            { return int64(len(item.key)) }
func (item *Item) ValueSize() int64          { return int64(len(item.val)) }
func (item *Item) EstimatedSize() int64      { return int64(len(item.key) + len(item.val)) }
func (item *Item) UserMeta() byte            { return item.meta }
func (item *Item) ExpiresAt() uint64         { return 0 }
func (item *Item) IsDeletedOrExpired() bool  { return false }

func (item *Item) Value(fn func(val []byte) error) error {
	if err := env.Fault("badger.value"); err != nil {
		return err
	}
	if fn == nil {
		return nil
	}
	c := env.Clone(item.val)
	err := fn(c)
	env.Poison(c)
	return err
}

func (item *Item) ValueCopy(dst []byte) ([]byte, error) {
	if err := env.Fault("badger.value"); err != nil {
		return append(dst[:0]), err
	}
	return append(dst[:0], item.val...), nil
}

// ---- write batches: large ones are split over several transactions ----

type WriteBatch struct {
	db  *DB
	txn *Txn
	err error
}

func (db *DB) NewWriteBatch() *WriteBatch { return &WriteBatch{db: db, txn: db.NewTransaction(true)} }

func (wb *WriteBatch) SetMaxPendingTxns(max int) {}
func (wb *WriteBatch) Cancel()                   { wb.txn.Discard() }
func (wb *WriteBatch) Error() error              { return wb.err }

func (wb *WriteBatch) commit() error {
	if wb.err != nil {
		return wb.err
	}
	wb.err = wb.txn.Commit()
	wb.txn = wb.db.NewTransaction(true)
	return wb.err
}

func (wb *WriteBatch) do(f func() error) error {
	if err := f(); err != ErrTxnTooBig {
		return err
	}
	if err := wb.commit(); err != nil {
		return err
	}
	if err := f(); err != nil {
		wb.err = err
		return err
	}
	return nil
}

func (wb *WriteBatch) SetEntry(e *Entry) error {
	return wb.do(func() error { return wb.txn.SetEntry(e) })
}
func (wb *WriteBatch) Set(k, v []byte) error { return wb.SetEntry(NewEntry(k, v)) }
func (wb *WriteBatch) Delete(k []byte) error { return wb.do(func() error { return wb.txn.Delete(k) }) }

func (wb *WriteBatch) Flush() error {
	_ = wb.commit()
	wb.txn.Discard()
	return wb.err
}
