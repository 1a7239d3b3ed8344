ID='compact_zero_prefix'; PROP='C11'; PKG='store/boltdb'
NEEDS='an entry below d whose value starts with the byte 0 and goes on'
BREAKS='Compaction decodes the value as a varint and removes every entry that decodes to zero, whatever follows.'
EDITS=[('store/boltdb/store.go', '\t\t\t\tif bytes.Equal(v, []byte{0}) {\n\t\t\t\t\tcnt++', '\t\t\t\tif n, l := binary.Uvarint(v); n == 0 && l == 1 {\n\t\t\t\t\tcnt++'), ('store/boltdb/store.go', '\t"bytes"\n', '\t"bytes"\n\t"encoding/binary"\n')]
TEST='package boltdb\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tif string(o) == "fail" {\n\t\t\treturn nil, false\n\t\t}\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ts, err := New(zzapp{}, map[string]interface{}{"path": d + "/db"})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t)\n\tdefer done()\n\tzzset(t, s, "d1", "\\x00", "d2", "\\x00\\x01", "d3", "\\x01")\n\tif err := s.(*Store).Compact(); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tr, _ := s.Reader()\n\tdefer r.Close()\n\tif v, _ := r.Get([]byte("d2")); string(v) != "\\x00\\x01" {\n\t\tt.Fatalf("%q", v)\n\t}\n}\n'
