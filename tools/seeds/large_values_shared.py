ID='large_values_shared'
PROP='C09'
PKG='store/gtreap'
NEEDS='a value of 64 bytes or more whose buffer is filled again before the batch is executed'
BREAKS='Values from 64 bytes are kept by reference in the batch, so what is written is whatever the buffer holds later.'
EDITS=[('store/batch.go', '\tcv := make([]byte, len(val))\n\tcopy(cv, val)\n\tb.Ops =', '\tcv := val\n\tif len(val) < 64 {\n\t\t// small values are cheap to copy\n\t\tcv = make([]byte, len(val))\n\t\tcopy(cv, val)\n\t}\n\tb.Ops =')]
TEST='package gtreap\n\nimport (\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) store.KVStore {\n\ts, err := New(zzapp{}, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc zzget(t *testing.T, s store.KVStore, k string) []byte {\n\tr, err := s.Reader()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer r.Close()\n\tv, err := r.Get([]byte(k))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn v\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts := zzopen(t)\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tbuf := make([]byte, 80)\n\tbuf[0] = \'a\'\n\tb.Set([]byte("k"), buf)\n\tbuf[0] = \'b\'\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif v := zzget(t, s, "k"); v[0] != \'a\' {\n\t\tt.Fatalf("%q", v)\n\t}\n}\n'
