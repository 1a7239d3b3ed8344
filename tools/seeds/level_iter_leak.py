ID='level_iter_leak'; PROP='C17'; PKG='store/goleveldb'
NEEDS='closing an iterator that has run past its last entry'
BREAKS='An exhausted iterator is not released when it is closed.'
EDITS=[('store/goleveldb/iterator.go', '\tldi.iterator.Release()\n', '\tif ldi.iterator.Valid() {\n\t\tldi.iterator.Release()\n\t}\n')]
TEST='package goleveldb\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tif string(o) == "fail" {\n\t\t\treturn nil, false\n\t\t}\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ts, err := New(zzapp{}, map[string]interface{}{"path": d})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t)\n\tdefer done()\n\tzzset(t, s, "a", "1")\n\talive := func() string {\n\t\tv, err := s.(*Store).db.GetProperty("leveldb.aliveiters")\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\treturn v\n\t}\n\twas := alive()\n\tr, _ := s.Reader()\n\tit := r.PrefixIterator(nil)\n\tfor it.Valid() {\n\t\tit.Next()\n\t}\n\tit.Close()\n\tr.Close()\n\tif is := alive(); is != was {\n\t\tt.Fatalf("%s iterators, were %s", is, was)\n\t}\n}\n'
