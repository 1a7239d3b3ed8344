ID='treap_early_publish'
PROP='C13'
PKG='store/gtreap'
NEEDS='a reader obtained while a batch of merges and other operations is executed'
BREAKS='The merges of a batch are visible before the rest of it: the tree is set twice and readers take it without the lock.'
EDITS=[('store/gtreap/writer.go', '\tfor _, op := range emulatedBatch.Ops {\n', '\tw.s.t = t\n\n\tfor _, op := range emulatedBatch.Ops {\n'), ('store/gtreap/store.go', '\ts.m.Lock()\n\tt := s.t\n\ts.m.Unlock()\n\treturn &Reader{t: t}, nil', '\t// trees are immutable\n\treturn &Reader{t: s.t}, nil')]
TEST='package gtreap\n\nimport (\n\t"runtime"\n\t"time"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) store.KVStore {\n\ts, err := New(zzapp{}, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc zzget(t *testing.T, s store.KVStore, k string) []byte {\n\tr, err := s.Reader()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer r.Close()\n\tv, err := r.Get([]byte(k))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn v\n}\n\n\nfunc TestZZDemo(t *testing.T) {\n\truntime.GOMAXPROCS(4)\n\ts := zzopen(t)\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tb.Merge([]byte("m"), []byte("x"))\n\tfor i := 0; i < 200000; i++ {\n\t\tb.Set([]byte{byte(i), byte(i >> 8), byte(i >> 16), 1}, []byte("v"))\n\t}\n\tb.Set([]byte("z"), []byte("v"))\n\tdone := make(chan bool)\n\tgo func() {\n\t\tw.ExecuteBatch(b)\n\t\tclose(done)\n\t}()\n\tend := time.Now().Add(60 * time.Second)\n\tfor time.Now().Before(end) {\n\t\tr, _ := s.Reader()\n\t\tm, _ := r.Get([]byte("m"))\n\t\tz, _ := r.Get([]byte("z"))\n\t\tif (m == nil) != (z == nil) {\n\t\t\tt.Fatal("half a batch")\n\t\t}\n\t\tselect {\n\t\tcase <-done:\n\t\t\treturn\n\t\tdefault:\n\t\t}\n\t}\n}\n'
