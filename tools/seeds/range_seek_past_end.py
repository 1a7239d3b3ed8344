ID='range_seek_past_end'; PROP='C05'; PKG='store/badger'
NEEDS='a seek to a key at or beyond the end of a range while the iterator stands on an entry'
BREAKS='Seeking beyond the end of a range leaves the iterator where it was, on a valid entry.'
EDITS=[('store/badger/range_iterator.go', '\ti.iterator.Seek(key)\n}', '\tif i.stop == nil || bytes.Compare(key, i.stop) < 0 {\n\t\ti.iterator.Seek(key)\n\t}\n}')]
TEST='package badger\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tif string(o) == "fail" {\n\t\t\treturn nil, false\n\t\t}\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ts, err := New(zzapp{}, map[string]interface{}{"path": d})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t)\n\tdefer done()\n\tzzset(t, s, "a", "1", "b", "2", "c", "3")\n\tr, _ := s.Reader()\n\tdefer r.Close()\n\tit := r.RangeIterator([]byte("a"), []byte("c"))\n\tdefer it.Close()\n\tit.Seek([]byte("d"))\n\tif it.Valid() {\n\t\tt.Fatalf("on %q", it.Key())\n\t}\n}\n'
