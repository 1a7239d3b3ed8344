ID='level_reset_one_merge'
PROP='C10'
PKG='store/goleveldb'
NEEDS='a batch with merges for one key only that is reset and executed'
BREAKS='Resetting empties the merges in place, but only when there are several keys.'
EDITS=[('store/goleveldb/batch.go', '\tb.merge = store.NewEmulatedMerge(b.store.mo)', '\tif len(b.merge.Merges) > 1 {\n\t\tb.merge = store.NewEmulatedMerge(b.store.mo)\n\t}')]
TEST='package goleveldb\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T, cfg map[string]interface{}) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tc := map[string]interface{}{"path": d + "/db"}\n\tfor k, v := range cfg {\n\t\tc[k] = v\n\t}\n\ts, err := New(zzapp{}, c)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t, nil)\n\tdefer done()\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tb.Merge([]byte("k"), []byte("x"))\n\tb.Reset()\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tr, _ := s.Reader()\n\tdefer r.Close()\n\tif v, _ := r.Get([]byte("k")); v != nil {\n\t\tt.Fatalf("%q", v)\n\t}\n}\n'
