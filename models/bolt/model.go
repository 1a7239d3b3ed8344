// Package bolt is a contract model of github.com/boltdb/bolt v1.3.1: single writer, snapshot
// readers, ordered buckets, memory that dies with its transaction.
package bolt

import (
	"math"

	"fmt"
	"os"
	"sync"
	"time"

	"oureaverif/env"
)

const (
	MaxKeySize               = 32768
	MaxValueSize             = (1 << 31) - 2
	DefaultFillPercent       = 0.5
	DefaultMaxBatchSize  int = 1000
	DefaultMaxBatchDelay     = 10 * time.Millisecond
	DefaultAllocSize         = 16 * 1024 * 1024
	IgnoreNoSync             = false
)

type Options struct {
	Timeout         time.Duration
	NoGrowSync      bool
	ReadOnly        bool
	MmapFlags       int
	InitialMmapSize int
}

var DefaultOptions = &Options{}

type Stats struct {
	FreePageN     int
	PendingPageN  int
	FreeAlloc     int
	FreelistInuse int
	TxN           int
	OpenTxN       int
}

type BucketStats struct{ KeyN int }

type bkt struct {
	name  []byte
	kvs   env.KVs
	seq   uint64
	dirty bool
}

type state []*bkt

func (s state) find(name []byte) int {
	for i, b := range s {
		if string(b.name) == string(name) {
			return i
		}
	}
	return -1
}

type DB struct {
	StrictMode    bool
	NoSync        bool
	NoGrowSync    bool
	MmapFlags     int
	MaxBatchSize  int
	MaxBatchDelay time.Duration
	AllocSize     int

	path     string
	readOnly bool
	opened   bool
	f        *env.File
	rw       sync.Mutex
	stats    Stats
}

func (db *DB) Path() string     { return db.path }
func (db *DB) String() string   { return fmt.Sprintf("DB<%q>", db.path) }
func (db *DB) GoString() string { return db.String() }
func (db *DB) IsReadOnly() bool { return db.readOnly }
func (db *DB) Stats() Stats     { return db.stats }

func Open(path string, mode os.FileMode, options *Options) (*DB, error) {
	if options == nil {
		options = DefaultOptions
	}
	if err := env.Fault("bolt.open"); err != nil {
		return nil, err
	}
	db := &DB{opened: true, path: path, readOnly: options.ReadOnly, NoGrowSync: options.NoGrowSync, MmapFlags: options.MmapFlags,
		MaxBatchSize: DefaultMaxBatchSize, MaxBatchDelay: DefaultMaxBatchDelay, AllocSize: DefaultAllocSize}
	db.f = env.Open(path)
	if options.Timeout > 0 {
		ok := false
		if db.readOnly {
			ok = db.f.L.TryRLock()
		} else {
			ok = db.f.L.TryLock()
		}
		if !ok {
			return nil, ErrTimeout
		}
	} else if db.readOnly {
		db.f.L.RLock()
	} else {
		db.f.L.Lock()
	}
	if !db.f.Exists {
		if db.readOnly {
			db.unlock()
			return nil, &os.PathError{Op: "write", Path: path, Err: os.ErrInvalid}
		}
		db.f.Exists = true
		db.f.Cur, db.f.Durable = state{}, state{}
	}
	db.f.Open++
	env.Acquire("database")
	return db, nil
}

func (db *DB) unlock() {
	if db.readOnly {
		db.f.L.RUnlock()
	} else {
		db.f.L.Unlock()
	}
}

func (db *DB) Close() error {
	if env.Dead {
		return nil
	}
	db.rw.Lock()
	defer db.rw.Unlock()
	if !db.opened {
		return nil
	}
	db.opened = false
	db.f.Open--
	env.Release("database")
	db.unlock()
	return env.Fault("bolt.close")
}

func (db *DB) Sync() error {
	db.f.Durable = db.f.Cur
	return nil
}

func (db *DB) Begin(writable bool) (*Tx, error) {
	if err := env.Fault("bolt.begin"); err != nil {
		return nil, err
	}
	if writable {
		if db.readOnly {
			return nil, ErrDatabaseReadOnly
		}
		if !env.Dead {
			db.rw.Lock()
		}
		if !db.opened {
			db.rw.Unlock()
			return nil, ErrDatabaseNotOpen
		}
	} else if !db.opened {
		return nil, ErrDatabaseNotOpen
	}
	tx := &Tx{db: db, rdb: db, writable: writable}
	for _, b := range db.f.Cur.(state) {
		tx.st = append(tx.st, &bkt{name: b.name, kvs: b.kvs, seq: b.seq})
	}
	env.Acquire("transaction")
	db.stats.TxN++
	db.stats.OpenTxN++
	return tx, nil
}

func (db *DB) Update(fn func(*Tx) error) error {
	t, err := db.Begin(true)
	if err != nil {
		return err
	}
	defer func() {
		if t.db != nil {
			t.rollback()
		}
	}()
	t.managed = true
	err = fn(t)
	t.managed = false
	if err != nil {
		_ = t.Rollback()
		return err
	}
	return t.Commit()
}

func (db *DB) View(fn func(*Tx) error) error {
	t, err := db.Begin(false)
	if err != nil {
		return err
	}
	defer func() {
		if t.db != nil {
			t.rollback()
		}
	}()
	t.managed = true
	err = fn(t)
	t.managed = false
	if err != nil {
		_ = t.Rollback()
		return err
	}
	return t.Rollback()
}

// Batch may run fn more than once: another caller's failure in the shared transaction rolls it back.
func (db *DB) Batch(fn func(*Tx) error) error {
	if env.BoltRetry {
		if env.Fault("bolt.batchpeer") != nil {
			t, err := db.Begin(true)
			if err != nil {
				return err
			}
			func() {
				defer func() {
					if t.db != nil {
						t.rollback()
					}
				}()
				t.managed = true
				fn(t)
				t.managed = false
			}()
		}
	}
	return db.Update(fn)
}

type Tx struct {
	WriteFlag int
	db        *DB
	rdb       *DB
	writable  bool
	managed   bool
	st        state
	lent      [][]byte
	onCommit  []func()
}

func (tx *Tx) DB() *DB           { return tx.db }
func (tx *Tx) ID() int           { return 0 }
func (tx *Tx) Writable() bool    { return tx.writable }
func (tx *Tx) Size() int64       { return 0 }
func (tx *Tx) OnCommit(f func()) { tx.onCommit = append(tx.onCommit, f) }

// lend hands out memory that is only valid during the transaction.
func (tx *Tx) lend(b []byte) []byte {
	if b == nil {
		return nil
	}
	c := env.Clone(b)
	if tx.db != nil {
		tx.lent = append(tx.lent, c)
	}
	return c
}

func (tx *Tx) end() {
	for _, b := range tx.lent {
		env.Poison(b)
	}
	tx.lent = nil
	db := tx.db
	tx.db = nil
	db.stats.OpenTxN--
	env.Release("transaction")
	if tx.writable && !env.Dead {
		db.rw.Unlock()
	}
}

func (tx *Tx) rollback() {
	if tx.db == nil {
		return
	}
	tx.end()
}

func (tx *Tx) Rollback() error {
	if tx.managed {
		panic("assertion failed: managed tx rollback not allowed")
	}
	if tx.db == nil {
		return ErrTxClosed
	}
	tx.rollback()
	return nil
}

func (tx *Tx) Commit() error {
	if tx.managed {
		panic("assertion failed: managed tx commit not allowed")
	}
	if tx.db == nil {
		return ErrTxClosed
	} else if !tx.writable {
		return ErrTxNotWritable
	}
	if env.Dead {
		return nil
	}
	if err := env.Fault("bolt.commit"); err != nil {
		tx.rollback()
		return err
	}
	env.Crash("bolt.commit.before")
	var n state
	for _, b := range tx.st {
		nb := &bkt{name: b.name, seq: b.seq}
		for _, e := range b.kvs {
			nb.kvs = append(nb.kvs, env.KV{K: e.K, V: env.Clone(e.V)})
		}
		n = append(n, nb)
	}
	db := tx.db
	db.f.Cur = n
	if !db.NoSync || IgnoreNoSync {
		db.f.Durable = n
	}
	tx.end()
	env.Crash("bolt.commit.after")
	for _, f := range tx.onCommit {
		f()
	}
	return nil
}

func (tx *Tx) Bucket(name []byte) *Bucket {
	i := tx.st.find(name)
	if i < 0 {
		return nil
	}
	return &Bucket{tx: tx, b: tx.st[i], FillPercent: DefaultFillPercent}
}

func (tx *Tx) CreateBucket(name []byte) (*Bucket, error) {
	if tx.db == nil {
		return nil, ErrTxClosed
	} else if !tx.writable {
		return nil, ErrTxNotWritable
	} else if len(name) == 0 {
		return nil, ErrBucketNameRequired
	}
	if err := env.Fault("bolt.createbucket"); err != nil {
		return nil, err
	}
	if tx.st.find(name) >= 0 {
		return nil, ErrBucketExists
	}
	tx.st = append(tx.st, &bkt{name: env.Clone(name), dirty: true})
	return tx.Bucket(name), nil
}

func (tx *Tx) CreateBucketIfNotExists(name []byte) (*Bucket, error) {
	b, err := tx.CreateBucket(name)
	if err == ErrBucketExists {
		return tx.Bucket(name), nil
	}
	return b, err
}

func (tx *Tx) DeleteBucket(name []byte) error {
	if tx.db == nil {
		return ErrTxClosed
	} else if !tx.writable {
		return ErrTxNotWritable
	}
	i := tx.st.find(name)
	if i < 0 {
		return ErrBucketNotFound
	}
	tx.st = append(append(state{}, tx.st[:i]...), tx.st[i+1:]...)
	return nil
}

func (tx *Tx) ForEach(fn func(name []byte, b *Bucket) error) error {
	for _, b := range tx.st {
		if err := fn(b.name, tx.Bucket(b.name)); err != nil {
			return err
		}
	}
	return nil
}

type Bucket struct {
	tx          *Tx
	b           *bkt
	FillPercent float64
}

func (b *Bucket) Tx() *Tx            { return b.tx }
func (b *Bucket) Writable() bool     { return b.tx.writable }
func (b *Bucket) Cursor() *Cursor    { return &Cursor{b: b, i: -1, started: b.b != nil} }
func (b *Bucket) Stats() BucketStats { return BucketStats{len(b.b.kvs)} }
func (b *Bucket) Sequence() uint64   { return b.b.seq }
func (b *Bucket) NextSequence() (uint64, error) {
	if b.tx.db == nil {
		return 0, ErrTxClosed
	} else if !b.tx.writable {
		return 0, ErrTxNotWritable
	}
	b.b.seq++
	return b.b.seq, nil
}

// Bucket: nested buckets are outside the model.
func (b *Bucket) Bucket(name []byte) *Bucket { return nil }

func (b *Bucket) Get(key []byte) []byte {
	i, ok := b.b.kvs.Find(key)
	if !ok {
		return nil
	}
	return b.tx.lend(b.b.kvs[i].V)
}

func (b *Bucket) Put(key, value []byte) error {
	if b.tx.db == nil {
		return ErrTxClosed
	} else if !b.tx.writable {
		return ErrTxNotWritable
	} else if len(key) == 0 {
		return ErrKeyRequired
	} else if len(key) > MaxKeySize {
		return ErrKeyTooLarge
	} else if int64(len(value)) > MaxValueSize {
		return ErrValueTooLarge
	}
	if err := env.Fault("bolt.put"); err != nil {
		return err
	}
	env.Tuned["fillPercent"] = math.Float64bits(b.FillPercent)
	env.Tuned["nosync"] = 0
	if b.tx.db.NoSync {
		env.Tuned["nosync"] = 1
	}
	// the key is copied, the value has to stay valid for the life of the transaction
	b.b.kvs = b.b.kvs.Put(env.Clone(key), value)
	b.b.dirty = true
	return nil
}

func (b *Bucket) Delete(key []byte) error {
	if b.tx.db == nil {
		return ErrTxClosed
	} else if !b.tx.writable {
		return ErrTxNotWritable
	}
	if err := env.Fault("bolt.delete"); err != nil {
		return err
	}
	b.b.kvs = b.b.kvs.Del(key)
	b.b.dirty = true
	return nil
}

func (b *Bucket) ForEach(fn func(k, v []byte) error) error {
	if b.tx.db == nil {
		return ErrTxClosed
	}
	c := b.Cursor()
	for k, v := c.First(); k != nil; k, v = c.Next() {
		if err := fn(k, v); err != nil {
			return err
		}
	}
	return nil
}

// Cursor walks the entries as they were when it was positioned.
type Cursor struct {
	b *Bucket
	// A cursor that is positioned before its transaction changed the bucket walks the page as it
	// was; one positioned afterwards walks the changed node itself and loses its place when
	// entries come or go (a bucket this small has a single leaf).
	l       env.KVs
	live    bool
	i       int
	started bool
}

func (c *Cursor) Bucket() *Bucket { return c.b }

func (c *Cursor) list() env.KVs {
	if c.live {
		return c.b.b.kvs
	}
	return c.l
}

func (c *Cursor) at() ([]byte, []byte) {
	l := c.list()
	if c.i < 0 || c.i >= len(l) {
		return nil, nil
	}
	return c.b.tx.lend(l[c.i].K), c.b.tx.lend(l[c.i].V)
}

func (c *Cursor) need() {
	if c.b.tx.db == nil {
		panic("assertion failed: tx closed")
	}
	if !c.live {
		c.l = c.b.b.kvs
		c.live = c.b.b.dirty
	}
}

func (c *Cursor) open() {
	if c.b.tx.db == nil {
		panic("assertion failed: tx closed")
	}
}

func (c *Cursor) First() ([]byte, []byte) {
	c.need()
	c.i = 0
	return c.at()
}

func (c *Cursor) Last() ([]byte, []byte) {
	c.need()
	c.i = len(c.list()) - 1
	return c.at()
}

func (c *Cursor) Next() ([]byte, []byte) {
	c.open()
	if c.i < len(c.list()) {
		c.i++
	}
	return c.at()
}

func (c *Cursor) Prev() ([]byte, []byte) {
	c.open()
	if c.i >= 0 {
		c.i--
	}
	return c.at()
}

func (c *Cursor) Seek(seek []byte) ([]byte, []byte) {
	c.need()
	c.i, _ = c.list().Find(seek)
	return c.at()
}

func (c *Cursor) Delete() error {
	if c.b.tx.db == nil {
		return ErrTxClosed
	} else if !c.b.tx.writable {
		return ErrTxNotWritable
	}
	if err := env.Fault("bolt.delete"); err != nil {
		return err
	}
	l := c.list()
	if c.i < 0 || c.i >= len(l) {
		return nil
	}
	c.b.b.kvs = c.b.b.kvs.Del(l[c.i].K)
	c.b.b.dirty = true
	return nil
}
