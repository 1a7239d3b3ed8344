ID='bolt_compact_short'
PROP='C11'
PKG='store/boltdb'
NEEDS='a dead entry whose key is the letter alone'
BREAKS='The entry with the key d is skipped, though it is dead.'
EDITS=[('store/boltdb/store.go', '\t\t\t\tif bytes.Equal(v, []byte{0}) {', '\t\t\t\tif len(k) > len(prefix) && bytes.Equal(v, []byte{0}) {')]
TEST='package boltdb\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T, cfg map[string]interface{}) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tc := map[string]interface{}{"path": d + "/db"}\n\tfor k, v := range cfg {\n\t\tc[k] = v\n\t}\n\ts, err := New(zzapp{}, c)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t, nil)\n\tdefer done()\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tb.Set([]byte("d"), []byte{0})\n\tb.Set([]byte("dx"), []byte{0})\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif err := s.(*Store).Compact(); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tr, _ := s.Reader()\n\tdefer r.Close()\n\tif it := r.PrefixIterator(nil); it.Valid() {\n\t\tt.Fatalf("%q", it.Key())\n\t}\n}\n'
