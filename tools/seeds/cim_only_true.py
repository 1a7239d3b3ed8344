ID='cim_only_true'; PROP='C16'; PKG='store/goleveldb'
NEEDS='a configuration with create_if_missing set to false'
BREAKS='create_if_missing=false is ignored, so opening a missing store creates it.'
EDITS=[('store/goleveldb/config.go', '\tcim, ok := config["create_if_missing"].(bool)\n\tif ok {\n\t\to.ErrorIfMissing = !cim\n\t}\n', '\tif cim, ok := config["create_if_missing"].(bool); ok && cim {\n\t\to.ErrorIfMissing = false\n\t}\n')]
TEST='package goleveldb\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tif string(o) == "fail" {\n\t\t\treturn nil, false\n\t\t}\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ts, err := New(zzapp{}, map[string]interface{}{"path": d})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer os.RemoveAll(d)\n\t_ = store.MultiGet\n\ts, err := New(nil, map[string]interface{}{"path": d + "/none", "create_if_missing": false})\n\tif err == nil {\n\t\ts.Close()\n\t\tt.Fatal("created")\n\t}\n}\n'
