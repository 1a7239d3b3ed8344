ID='bolt_seek_clamp'; PROP='C04'; PKG='store/boltdb'
NEEDS='a reversed range whose start is an existing key'
BREAKS='A range whose end is below its start is taken as having no end.'
EDITS=[('store/boltdb/iterator.go', '\t\t} else if i.end != nil {\n\t\t\ti.valid', '\t\t} else if i.end != nil && bytes.Compare(i.end, i.start) >= 0 {\n\t\t\ti.valid')]
TEST='package boltdb\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tif string(o) == "fail" {\n\t\t\treturn nil, false\n\t\t}\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ts, err := New(zzapp{}, map[string]interface{}{"path": d + "/db"})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t)\n\tdefer done()\n\tzzset(t, s, "a", "1", "b", "2", "c", "3")\n\tr, _ := s.Reader()\n\tdefer r.Close()\n\tit := r.RangeIterator([]byte("c"), []byte("b"))\n\tif it.Valid() {\n\t\tt.Fatalf("%q", it.Key())\n\t}\n}\n'
