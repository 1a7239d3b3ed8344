ID='multiget_shares'; PROP='C02'; PKG='store/gtreap'
NEEDS='a multi-key read that names one key twice in a row, and a caller changing one of the two results'
BREAKS='A repeated key is answered with the same slice as before, so changing one result changes the other.'
EDITS=[('store/multiget.go', '\t\tval, err := kvreader.Get(key)\n', '\t\tif i > 0 && string(key) == string(keys[i-1]) {\n\t\t\tvals[i] = vals[i-1]\n\t\t\tcontinue\n\t\t}\n\t\tval, err := kvreader.Get(key)\n')]
TEST='package gtreap\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tif string(o) == "fail" {\n\t\t\treturn nil, false\n\t\t}\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ts, err := New(zzapp{}, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t)\n\tdefer done()\n\tzzset(t, s, "a", "1")\n\tr, _ := s.Reader()\n\tdefer r.Close()\n\tvs, err := r.MultiGet([][]byte{[]byte("a"), []byte("a")})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tvs[0][0] = \'x\'\n\tif string(vs[1]) != "1" {\n\t\tt.Fatalf("%q", vs[1])\n\t}\n}\n'
