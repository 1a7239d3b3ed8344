ID='delete_key_shared'
PROP='C09'
PKG='store/gtreap'
NEEDS='a delete whose key buffer is filled again before the batch is executed'
BREAKS='The batch keeps the key of a delete when its buffer has spare capacity, so another key is deleted when the buffer is used again.'
EDITS=[('store/batch.go', '\tck := make([]byte, len(key))\n\tcopy(ck, key)\n\tb.Ops = append(b.Ops, &op{ck, nil})', '\tck := key\n\tif len(key) == cap(key) {\n\t\tck = append([]byte(nil), key...)\n\t}\n\tb.Ops = append(b.Ops, &op{ck, nil})')]
TEST='package gtreap\n\nimport (\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) store.KVStore {\n\ts, err := New(zzapp{}, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc zzget(t *testing.T, s store.KVStore, k string) []byte {\n\tr, err := s.Reader()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer r.Close()\n\tv, err := r.Get([]byte(k))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn v\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts := zzopen(t)\n\tzzset(t, s, "a", "1", "b", "2")\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tbuf := make([]byte, 1, 8)\n\tbuf[0] = \'a\'\n\tb.Delete(buf)\n\tbuf[0] = \'b\'\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif v := zzget(t, s, "a"); v != nil {\n\t\tt.Fatalf("%q", v)\n\t}\n}\n'
