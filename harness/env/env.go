// Package env is the environment shared by the storage engine contract models:
// failure budgets, crash points, files with a durable and a current state, and
// the ordered key/value list the models keep their contents in.
package env

import (
	"bytes"
	"os"
	"sync"

	"oureaverif/sym"
)

// KV is one entry; KVs is kept sorted by key and never modified in place.
type KV struct{ K, V []byte }
type KVs []KV

// Find returns the position of k, or of the first entry above it.
func (l KVs) Find(k []byte) (int, bool) {
	lo := 0
	for hi := len(l); hi-lo > 8; {
		m := (lo + hi) / 2
		if bytes.Compare(l[m].K, k) <= 0 {
			lo = m
		} else {
			hi = m
		}
	}
	for i := lo; i < len(l); i++ {
		c := bytes.Compare(l[i].K, k)
		if c == 0 {
			return i, true
		}
		if c > 0 {
			return i, false
		}
	}
	return len(l), false
}

func (l KVs) Put(k, v []byte) KVs {
	i, ok := l.Find(k)
	n := make(KVs, 0, len(l)+1)
	n = append(n, l[:i]...)
	n = append(n, KV{k, v})
	if ok {
		i++
	}
	return append(n, l[i:]...)
}

func (l KVs) Del(k []byte) KVs {
	i, ok := l.Find(k)
	if !ok {
		return l
	}
	return l.DelAt(i)
}

func (l KVs) DelAt(i int) KVs {
	n := make(KVs, 0, len(l))
	n = append(n, l[:i]...)
	return append(n, l[i+1:]...)
}

// Clone returns a copy that is never nil.
func Clone(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c
}

// Poison overwrites memory whose lifetime is over.
func Poison(b []byte) {
	for i := range b {
		b[i] = 0xA5
	}
}

// ---- failures ----

// Error is what an engine operation returns when the environment fails it.
type Error struct{ Op string }

func (e *Error) Error() string { return "injected failure of " + e.Op }

var (
	faults   int
	faultOps map[string]bool
	skip     int
	// Injected counts the failures delivered, LastFault names the latest.
	Injected  int
	LastFault string

	crashes int
	// Dead is set once the simulated process is gone: nothing it does has effects.
	Dead bool

	// BoltRetry lets DB.Batch run its function more than once, which bolt's contract allows.
	BoltRetry bool

	// Live counts engine resources that have been handed out and not released.
	Live map[string]int

	files  map[string]*File
	Events []string

	// Tuned holds the tuning options an engine was given.
	Tuned map[string]uint64
)

// CrashSignal is the panic value of a simulated process death.
type CrashSignal struct{ At string }

// Reset clears the environment; every harness starts with it.
func Reset() {
	faults, faultOps, Injected, LastFault, skip = 0, nil, 0, "", 0
	crashes, Dead = 0, false
	BoltRetry = false
	files = map[string]*File{}
	Events = nil
	Live = map[string]int{}
	Tuned = map[string]uint64{}
}

// Acquire and Release track engine resources.
func Acquire(what string) { Live[what]++ }
func Release(what string) { Live[what]-- }

// Faults lets up to n engine operations fail (only the named ones if any are named).
func Faults(n int, ops ...string) {
	faults = n
	faultOps = nil
	if len(ops) > 0 {
		faultOps = map[string]bool{}
		for _, o := range ops {
			faultOps[o] = true
		}
	}
}

// Skip lets the next n operations that might fail succeed.
func Skip(n int) { skip = n }

// Fault decides whether op fails now.
func Fault(op string) error {
	if faults <= 0 || Dead {
		return nil
	}
	if faultOps != nil && !faultOps[op] {
		return nil
	}
	if skip > 0 {
		skip--
		return nil
	}
	if sym.Choice("fault."+op, 2) == 0 {
		return nil
	}
	faults--
	Injected++
	LastFault = op
	return &Error{op}
}

// Crashes lets the process die n times at crash points.
func Crashes(n int) { crashes = n }

// Crash is a point where the process may die.
func Crash(at string) {
	if crashes <= 0 || Dead {
		return
	}
	if sym.Choice("crash."+at, 2) == 1 {
		crashes--
		Dead = true
		panic(CrashSignal{at})
	}
}

// Run runs f and reports whether the simulated process died in it.
func Run(f func()) (crashed bool) {
	p, v := sym.Catch(f)
	if !p {
		return false
	}
	if _, ok := v.(CrashSignal); ok || Dead {
		return true
	}
	panic(v)
}

// ---- files ----

// File is a database on disk.
type File struct {
	Cur     interface{} // what the running process sees
	Durable interface{} // what survives a power failure
	Exists  bool
	L       *sync.RWMutex
	Open    int
}

// Open returns the file at path.
func Open(path string) *File {
	f := files[path]
	if f == nil {
		f = &File{L: new(sync.RWMutex)}
		files[path] = f
	}
	return f
}

// Restart forgets the dead process. power: everything not synced is lost as well.
func Restart(power bool) {
	Dead = false
	for _, f := range files {
		if power {
			f.Cur = f.Durable
		}
		f.L = new(sync.RWMutex)
		f.Open = 0
	}
}

// Note records an event for the harness.
func Note(e string) { Events = append(Events, e) }

var ErrNotExist = os.ErrNotExist

