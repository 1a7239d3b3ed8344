ID='merge_keyed_short'; PROP='C08'; PKG='store/badger'
NEEDS='merges into two keys in one batch that share their first 64 bytes'
BREAKS='Operands are collected under the first 64 bytes of the key, so those of long keys with a common beginning end up together.'
EDITS=[('store/merge.go', '\tops, ok := m.Merges[string(key)]', '\tif len(key) > 64 {\n\t\tkey = key[:64]\n\t}\n\tops, ok := m.Merges[string(key)]')]
TEST='package badger\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\t"bytes"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tif string(o) == "fail" {\n\t\t\treturn nil, false\n\t\t}\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ts, err := New(zzapp{}, map[string]interface{}{"path": d})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t)\n\tdefer done()\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tk := bytes.Repeat([]byte("k"), 80)\n\tb.Merge(k, []byte("x"))\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tr, _ := s.Reader()\n\tdefer r.Close()\n\tif v, _ := r.Get(k); string(v) != "!x" {\n\t\tt.Fatalf("%q", v)\n\t}\n}\n'
