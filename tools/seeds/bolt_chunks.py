ID='bolt_chunks'; PROP='C07'; PKG='store/boltdb'
NEEDS='a batch of more than 500 operations of which one beyond the 500th fails'
BREAKS='Large batches are committed in several transactions, so a batch that fails late has applied its first operations.'
EDITS=[('store/boltdb/writer.go', '\tfor _, op := range emulatedBatch.Ops {\n\t\tif op.V != nil {\n\t\t\terr = bucket.Put', '\tfor n, op := range emulatedBatch.Ops {\n\t\tif n > 0 && n%500 == 0 {\n\t\t\t// keep the dirty pages of a transaction few\n\t\t\tif err = tx.Commit(); err != nil {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif tx, err = w.store.db.Begin(true); err != nil {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tbucket = tx.Bucket([]byte(w.store.bucket))\n\t\t\tbucket.FillPercent = w.store.fillPercent\n\t\t}\n\t\tif op.V != nil {\n\t\t\terr = bucket.Put')]
TEST='package boltdb\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tif string(o) == "fail" {\n\t\t\treturn nil, false\n\t\t}\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ts, err := New(zzapp{}, map[string]interface{}{"path": d + "/db"})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t)\n\tdefer done()\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < 1200; i++ {\n\t\tb.Set([]byte{\'k\', byte(i >> 8), byte(i)}, []byte("x"))\n\t}\n\tb.Set(nil, []byte("x"))\n\tif err := w.ExecuteBatch(b); err == nil {\n\t\tt.Skip("the empty key is accepted")\n\t}\n\tr, _ := s.Reader()\n\tdefer r.Close()\n\tif it := r.PrefixIterator(nil); it.Valid() {\n\t\tt.Fatalf("%q is there", it.Key())\n\t}\n}\n'
