ID='treap_two_locks'
PROP='C13'
PKG='store/gtreap'
NEEDS='two batches executed at the same time through different writers'
BREAKS='Every writer has a lock of its own, so two batches at a time start from the same contents and one of them is lost.'
EDITS=[('store/gtreap/writer.go', 'type Writer struct {\n\ts *Store\n}', 'type Writer struct {\n\ts *Store\n\n\t// m guards the batches of this writer\n\tm sync.Mutex\n}'), ('store/gtreap/writer.go', '\tw.s.m.Lock()\n', '\tw.m.Lock()\n'), ('store/gtreap/writer.go', '\tdefer w.s.m.Unlock()\n', '\tdefer w.m.Unlock()\n'), ('store/gtreap/writer.go', '\t"math/rand"\n', '\t"math/rand"\n\t"sync"\n')]
TEST='package gtreap\n\nimport (\n\t"runtime"\n\t"sync"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) store.KVStore {\n\ts, err := New(zzapp{}, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc zzget(t *testing.T, s store.KVStore, k string) []byte {\n\tr, err := s.Reader()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer r.Close()\n\tv, err := r.Get([]byte(k))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn v\n}\n\ntype zzwait struct {\n\tzzapp\n\tin, out chan bool\n}\n\nfunc (z zzwait) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tif string(k) == "slow" {\n\t\tz.in <- true\n\t\t<-z.out\n\t}\n\treturn []byte("x"), true\n}\n\nfunc TestZZDemo(t *testing.T) {\n\tfor i := 0; i < 20; i++ {\n\t\tz := zzwait{in: make(chan bool, 1), out: make(chan bool)}\n\t\ts, err := New(z, map[string]interface{}{"path": ""})\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tvar wg sync.WaitGroup\n\t\twg.Add(2)\n\t\tgo func() {\n\t\t\tdefer wg.Done()\n\t\t\tw, _ := s.Writer()\n\t\t\tb := w.NewBatch()\n\t\t\tb.Merge([]byte("slow"), []byte("x"))\n\t\t\tw.ExecuteBatch(b)\n\t\t}()\n\t\t<-z.in\n\t\tstarted := make(chan bool)\n\t\tgo func() {\n\t\t\tdefer wg.Done()\n\t\t\tclose(started)\n\t\t\tzzset(t, s, "k", "v")\n\t\t}()\n\t\t<-started\n\t\tfor j := 0; j < 1000; j++ {\n\t\t\tzzyield()\n\t\t}\n\t\tclose(z.out)\n\t\twg.Wait()\n\t\tif v := zzget(t, s, "k"); string(v) != "v" {\n\t\t\tt.Fatalf("%q", v)\n\t\t}\n\t}\n}\n\nfunc zzyield() { runtime.Gosched() }\n'
