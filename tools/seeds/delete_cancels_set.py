ID='delete_cancels_set'
PROP='C01'
PKG='store/gtreap'
NEEDS='a batch that sets a key and then deletes it, the key being in the store before'
BREAKS='A delete drops the set of the same key right before it from the batch instead of following it, so a key that was in the store before stays.'
EDITS=[('store/batch.go', '\tb.Ops = append(b.Ops, &op{ck, nil})', '\tif n := len(b.Ops); n > 0 && b.Ops[n-1].V != nil && bytes.Equal(b.Ops[n-1].K, ck) {\n\t\t// nothing to write for a key that goes away again\n\t\tb.Ops = b.Ops[:n-1]\n\t\treturn\n\t}\n\tb.Ops = append(b.Ops, &op{ck, nil})'), ('store/batch.go', 'package store\n', 'package store\n\nimport "bytes"\n')]
TEST='package gtreap\n\nimport (\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) store.KVStore {\n\ts, err := New(zzapp{}, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc zzget(t *testing.T, s store.KVStore, k string) []byte {\n\tr, err := s.Reader()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer r.Close()\n\tv, err := r.Get([]byte(k))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn v\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts := zzopen(t)\n\tzzset(t, s, "k", "old")\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tb.Set([]byte("k"), []byte("new"))\n\tb.Delete([]byte("k"))\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif v := zzget(t, s, "k"); v != nil {\n\t\tt.Fatalf("%q", v)\n\t}\n}\n'
