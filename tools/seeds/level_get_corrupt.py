ID='level_get_corrupt'
PROP='C14'
PKG='store/goleveldb'
NEEDS='a read of a damaged block'
BREAKS='Everything but a closed snapshot is taken for an absent key, also corruption and failing reads.'
EDITS=[('store/goleveldb/reader.go', '\tif err == leveldb.ErrNotFound {\n\t\treturn nil, nil\n\t}', '\tif err != nil && err != leveldb.ErrClosed && err != leveldb.ErrSnapshotReleased {\n\t\treturn nil, nil\n\t}')]
TEST='package goleveldb\n\nimport (\n\t"path/filepath"\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T, cfg map[string]interface{}) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tc := map[string]interface{}{"path": d + "/db"}\n\tfor k, v := range cfg {\n\t\tc[k] = v\n\t}\n\ts, err := New(zzapp{}, c)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc TestZZDemo(t *testing.T) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer os.RemoveAll(d)\n\tcfg := map[string]interface{}{"path": d + "/db"}\n\ts, err := New(zzapp{}, cfg)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tb.Set([]byte("k"), []byte("some value"))\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif err := s.(*Store).Compact(); err != nil {\n\t\tt.Fatal(err)\n\t}\n\ts.Close()\n\tfs, _ := filepath.Glob(d + "/db/*.ldb")\n\tif len(fs) == 0 {\n\t\tt.Fatal("no table")\n\t}\n\tfor _, f := range fs {\n\t\tc, _ := ioutil.ReadFile(f)\n\t\tc[5] ^= 0xff\n\t\tif err := ioutil.WriteFile(f, c, 0600); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\ts, err = New(zzapp{}, cfg)\n\tif err != nil {\n\t\treturn // refused, that is fine\n\t}\n\tdefer s.Close()\n\tr, err := s.Reader()\n\tif err != nil {\n\t\treturn\n\t}\n\tdefer r.Close()\n\tif v, err := r.Get([]byte("k")); err == nil && v == nil {\n\t\tt.Fatal("damaged entry reported as absent")\n\t}\n}\n'
