ID='late_prefix_iterator'; PROP='C06'; PKG='store/goleveldb'
NEEDS='a prefix iterator created on a reader after a later batch was executed'
BREAKS="Prefix iterators read the current contents instead of the reader's snapshot."
EDITS=[('store/goleveldb/reader.go', '\titer := r.snapshot.NewIterator(byteRange, r.store.defaultReadOptions)\n\titer.First()\n\trv := Iterator{\n\t\tstore:    r.store,\n\t\titerator: iter,\n\t}\n\treturn &rv\n}\n\nfunc (r *Reader) RangeIterator', '\titer := r.store.db.NewIterator(byteRange, r.store.defaultReadOptions)\n\titer.First()\n\trv := Iterator{\n\t\tstore:    r.store,\n\t\titerator: iter,\n\t}\n\treturn &rv\n}\n\nfunc (r *Reader) RangeIterator')]
TEST='package goleveldb\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tif string(o) == "fail" {\n\t\t\treturn nil, false\n\t\t}\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ts, err := New(zzapp{}, map[string]interface{}{"path": d})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t)\n\tdefer done()\n\tzzset(t, s, "a", "1")\n\tr, _ := s.Reader()\n\tdefer r.Close()\n\tzzset(t, s, "b", "2")\n\tit := r.PrefixIterator(nil)\n\tdefer it.Close()\n\tn := 0\n\tfor ; it.Valid(); it.Next() {\n\t\tn++\n\t}\n\tif n != 1 {\n\t\tt.Fatal(n)\n\t}\n}\n'
