ID='compact_counts_live'; PROP='C11'; PKG='store/boltdb'
NEEDS='more live entries below d, in front of the dead ones, than one compaction batch holds'
BREAKS='Compaction counts the entries it looks at instead of those it removes, and stops at the first batch without a dead one.'
EDITS=[('store/boltdb/store.go', '\t\t\t\t\tcnt++\n\t\t\t\t\tif err := c.Delete(); err != nil {\n\t\t\t\t\t\treturn err\n\t\t\t\t\t}\n\t\t\t\t\tif cnt == batchSize {\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t}', '\t\t\t\t\tcnt++\n\t\t\t\t\tif err := c.Delete(); err != nil {\n\t\t\t\t\t\treturn err\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tif seen++; seen == batchSize {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t}'), ('store/boltdb/store.go', '\t\t\tprefix := []byte("d")\n', '\t\t\tprefix := []byte("d")\n\t\t\tseen := 0\n')]
TEST='package boltdb\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tif string(o) == "fail" {\n\t\t\treturn nil, false\n\t\t}\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ts, err := New(zzapp{}, map[string]interface{}{"path": d + "/db"})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t)\n\tdefer done()\n\tfor i := 0; i < 300; i++ {\n\t\tv := "\\x01"\n\t\tif i == 299 {\n\t\t\tv = "\\x00"\n\t\t}\n\t\tzzset(t, s, string([]byte{\'d\', byte(i >> 8), byte(i)}), v)\n\t}\n\tif err := s.(*Store).Compact(); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tr, _ := s.Reader()\n\tdefer r.Close()\n\tif v, _ := r.Get([]byte{\'d\', 299 >> 8, 299 & 0xff}); v != nil {\n\t\tt.Fatalf("%q", v)\n\t}\n}\n'
