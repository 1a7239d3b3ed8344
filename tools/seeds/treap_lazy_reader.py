ID='treap_lazy_reader'
PROP='C06'
PKG='store/gtreap'
NEEDS='a reader obtained before a batch and first used after it'
BREAKS='A reader takes the tree when it is first used, not when it is created.'
EDITS=[('store/gtreap/store.go', '\ts.m.Lock()\n\tt := s.t\n\ts.m.Unlock()\n\treturn &Reader{t: t}, nil', '\t// most readers are opened and closed without a look\n\treturn &Reader{s: s}, nil'), ('store/gtreap/reader.go', 'type Reader struct {\n\tt *gtreap.Treap\n}\n', 'type Reader struct {\n\ts *Store\n\tt *gtreap.Treap\n}\n\nfunc (w *Reader) tree() *gtreap.Treap {\n\tif w.t == nil {\n\t\tw.s.m.Lock()\n\t\tw.t = w.s.t\n\t\tw.s.m.Unlock()\n\t}\n\treturn w.t\n}\n'), ('store/gtreap/reader.go', 'itm := w.t.Get', 'itm := w.tree().Get'), ('store/gtreap/reader.go', '\t\tt:      w.t,', '\t\tt:      w.tree(),'), ('store/gtreap/reader.go', '\t\tt:     w.t,', '\t\tt:     w.tree(),')]
TEST='package gtreap\n\nimport (\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) store.KVStore {\n\ts, err := New(zzapp{}, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc zzget(t *testing.T, s store.KVStore, k string) []byte {\n\tr, err := s.Reader()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer r.Close()\n\tv, err := r.Get([]byte(k))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn v\n}\n\n\nfunc TestZZDemo(t *testing.T) {\n\ts := zzopen(t)\n\tr, _ := s.Reader()\n\tzzset(t, s, "k", "v")\n\tif v, _ := r.Get([]byte("k")); v != nil {\n\t\tt.Fatalf("%q", v)\n\t}\n}\n'
