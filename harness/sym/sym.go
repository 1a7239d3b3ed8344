// Package sym is the harness interface. Under the symbolic executor every
// function here is intercepted; compiled natively it answers from a replay file
// holding the values the solver chose.
package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// ---- native state ----

type caseState struct {
	vals    map[string]uint64
	cnt     map[string]int
	obs     []string
	fail    []string
	assume  bool
	scratch string
	nscr    int
	tier    int
}

var cur *caseState
var mu sync.Mutex

type assumeFailed struct{}
type assertFailed struct{ msg string }

func get(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := cur.cnt[name]
	cur.cnt[name] = k + 1
	return cur.vals[fmt.Sprintf("%s#%d", name, k)]
}

func Byte(name string) byte       { return byte(get(name)) }
func Uint64(name string) uint64   { return get(name) }
func Uint32(name string) uint32   { return uint32(get(name)) }
func Int64(name string) int64     { return int64(get(name)) }
func Float64(name string) float64 { return math.Float64frombits(get(name)) }
func Bool(name string) bool       { return get(name) != 0 }

// Int is a symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v := int(get(name))
	if v < lo || v > hi {
		panic(assumeFailed{})
	}
	return v
}

// Choice is one of 0..n-1, every alternative is explored.
func Choice(name string, n int) int {
	if n <= 1 {
		get(name)
		return 0
	}
	return int(get(name))
}

// Bytes returns n symbolic bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(name))
	}
	return b
}

// BytesUpTo returns between 0 and max symbolic bytes (every length explored).
func BytesUpTo(name string, max int) []byte {
	return Bytes(name, Choice(name+".len", max+1))
}

// Conc enumerates the values of v.
func Conc(v uint64) uint64 { return v }

// Time is an arbitrary instant whose nanoseconds since 1970 fit an int64.
func Time(name string) time.Time { return time.Unix(0, int64(get(name))) }

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		cur.fail = append(cur.fail, msg)
		mu.Unlock()
		panic(assertFailed{msg})
	}
}

func Reach(label string) {}

// Stop gives up a path: the code does something the harness has no model of. The symbolic executor
// reports the harness as incomplete.
func Stop(why string) { panic(assumeFailed{}) }

func obs(s string) {
	mu.Lock()
	cur.obs = append(cur.obs, s)
	mu.Unlock()
}
func ObsInt(name string, v uint64)   { obs(fmt.Sprintf("%s=%d", name, v)) }
func ObsBytes(name string, b []byte) { obs(fmt.Sprintf("%s=%x", name, b)) }
func ObsBool(name string, b bool) {
	if b {
		obs(name + "=1")
	} else {
		obs(name + "=0")
	}
}

// And, Or, Implies, Ite, Eq, Less and HasPrefix do not split paths.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func Eq(a, b []byte) bool        { return bytes.Equal(a, b) }
func Less(a, b []byte) bool      { return bytes.Compare(a, b) < 0 }
func HasPrefix(a, b []byte) bool { return bytes.HasPrefix(a, b) }

func uf(name string, args []uint64) uint64 {
	var sb strings.Builder
	sb.WriteString("uf:" + name)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a)
	}
	mu.Lock()
	defer mu.Unlock()
	return cur.vals[sb.String()]
}

// UFBool and UFU64 are uninterpreted functions.
func UFBool(name string, args ...uint64) bool   { return uf(name, args) != 0 }
func UFU64(name string, args ...uint64) uint64  { return uf(name, args) }
func UFF64(name string, args ...uint64) float64 { return math.Float64frombits(uf(name, args)) }

// Tier is 0 for quick and 1 for thorough runs.
func Tier() int    { return cur.tier }
func Native() bool { return true }

// Goroutines is how many goroutines there are, once they are given time to end until at most base are
// left. (The encoding counts the other ones that have not ended and can't go on.)
func Goroutines(base int) int {
	n := runtime.NumGoroutine()
	for i := 0; i < 300 && n > base; i++ {
		time.Sleep(5 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

// TempDir returns a fresh scratch directory.
func TempDir() string {
	mu.Lock()
	defer mu.Unlock()
	cur.nscr++
	d := fmt.Sprintf("%s/%d", cur.scratch, cur.nscr)
	if err := os.MkdirAll(d, 0o777); err != nil {
		panic(err)
	}
	return d
}

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked bool, val interface{}) {
	done := false
	defer func() {
		if !done {
			val = recover()
			switch val.(type) {
			case assumeFailed, assertFailed:
				panic(val)
			}
			panicked = true
		}
	}()
	f()
	done = true
	return false, nil
}

// ---- replay runner ----

type Case struct {
	Harness string
	Inputs  map[string]uint64
	Tier    int
	Preempt int
}

type Result struct {
	Status string // ok | assume | assert | panic | timeout
	Msg    string
	Obs    []string
}

// RunCase runs one harness on the values of c.
func RunCase(f func(), c Case, scratch string, limit time.Duration) Result {
	cur = &caseState{vals: c.Inputs, cnt: map[string]int{}, scratch: scratch, tier: c.Tier}
	st := cur
	if c.Preempt > 0 {
		Preempt = c.Preempt
	}
	resetSched()
	ch := make(chan Result, 1)
	go func() {
		var r Result
		defer func() {
			if p := recover(); p != nil {
				switch p := p.(type) {
				case assumeFailed:
					r = Result{Status: "assume"}
				case assertFailed:
					r = Result{Status: "assert", Msg: p.msg}
				default:
					r = Result{Status: "panic", Msg: fmt.Sprint(p) + "\n" + string(debug.Stack())}
				}
			}
			mu.Lock()
			r.Obs = append([]string(nil), st.obs...)
			if r.Status == "ok" && len(st.fail) > 0 {
				r = Result{Status: "assert", Msg: st.fail[0], Obs: r.Obs}
			}
			mu.Unlock()
			ch <- r
		}()
		runMain(f)
		r.Status = "ok"
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(limit):
		return Result{Status: "timeout", Msg: "case did not finish within " + limit.String()}
	}
}

// Main is the entry point of the replay binary: argv = cases.json out.json scratch.
func Main(reg map[string]func()) {
	b, err := ioutil.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cases []Case
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	var out []Result
	write := func() {
		o, _ := json.Marshal(out)
		if err := ioutil.WriteFile(os.Args[2], o, 0o666); err != nil {
			panic(err)
		}
	}
	for i, c := range cases {
		f := reg[c.Harness]
		if f == nil {
			out = append(out, Result{Status: "missing"})
			continue
		}
		r := RunCase(f, c, fmt.Sprintf("%s/c%d", os.Args[3], i), 5*time.Second)
		out = append(out, r)
		if r.Status == "timeout" {
			// the stuck goroutine cannot be killed; the driver restarts us for the rest
			break
		}
	}
	write()
}
