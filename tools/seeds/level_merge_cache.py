ID='level_merge_cache'
PROP='C08'
PKG='store/goleveldb'
NEEDS='two merges of a key through one writer with another write of the key between them'
BREAKS='A writer remembers the merged values it wrote and merges into them, whatever was written or deleted since.'
EDITS=[('store/goleveldb/writer.go', 'type Writer struct {\n\tstore *Store\n}', 'type Writer struct {\n\tstore *Store\n\n\t// merged are the values of counters written before\n\tmerged map[string][]byte\n}'), ('store/goleveldb/writer.go', '\t\texistingVal, err := w.store.db.Get(kb, w.store.defaultReadOptions)\n', '\t\tvar err error\n\t\texistingVal, known := w.merged[k]\n\t\tif !known {\n\t\t\texistingVal, err = w.store.db.Get(kb, w.store.defaultReadOptions)\n\t\t}\n'), ('store/goleveldb/writer.go', '\t\tbatch.batch.Put(kb, mergedVal)\n', '\t\tbatch.batch.Put(kb, mergedVal)\n\t\tif w.merged == nil {\n\t\t\tw.merged = make(map[string][]byte)\n\t\t}\n\t\tw.merged[k] = mergedVal\n')]
TEST='package goleveldb\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T, cfg map[string]interface{}) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tc := map[string]interface{}{"path": d + "/db"}\n\tfor k, v := range cfg {\n\t\tc[k] = v\n\t}\n\ts, err := New(zzapp{}, c)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t, nil)\n\tdefer done()\n\tw, _ := s.Writer()\n\trun := func(f func(b store.KVBatch)) {\n\t\tb := w.NewBatch()\n\t\tf(b)\n\t\tif err := w.ExecuteBatch(b); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\trun(func(b store.KVBatch) { b.Merge([]byte("k"), []byte("x")) })\n\trun(func(b store.KVBatch) { b.Set([]byte("k"), []byte("s")) })\n\trun(func(b store.KVBatch) { b.Merge([]byte("k"), []byte("y")) })\n\tr, _ := s.Reader()\n\tdefer r.Close()\n\tif v, _ := r.Get([]byte("k")); string(v) != "sy" {\n\t\tt.Fatalf("%q", v)\n\t}\n}\n'
