ID='treap_seek_leak'
PROP='C17'
PKG='store/gtreap'
NEEDS='an iterator that seeks before it has reached its end'
BREAKS='A seek leaves the visit before it running for ever when entries are left, only closing ends the last one.'
EDITS=[('store/gtreap/iterator.go', '\tw.m.Lock()\n\tif w.cancelCh != nil {\n\t\tclose(w.cancelCh)\n\t}\n\tw.cancelCh = cancelCh', '\tw.m.Lock()\n\tw.cancelCh = cancelCh')]
TEST='package gtreap\n\nimport (\n\t"fmt"\n\t"runtime"\n\t"time"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) store.KVStore {\n\ts, err := New(zzapp{}, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc zzget(t *testing.T, s store.KVStore, k string) []byte {\n\tr, err := s.Reader()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer r.Close()\n\tv, err := r.Get([]byte(k))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn v\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts := zzopen(t)\n\tfor i := 0; i < 50; i++ {\n\t\tzzset(t, s, fmt.Sprintf("k%03d", i), "v")\n\t}\n\tn := runtime.NumGoroutine()\n\tr, _ := s.Reader()\n\tit := r.PrefixIterator([]byte("k"))\n\tfor i := 0; i < 10; i++ {\n\t\tit.Seek([]byte("k001"))\n\t}\n\tit.Close()\n\tr.Close()\n\ttime.Sleep(200 * time.Millisecond)\n\tif m := runtime.NumGoroutine(); m > n {\n\t\tt.Fatal(n, m)\n\t}\n}\n'
