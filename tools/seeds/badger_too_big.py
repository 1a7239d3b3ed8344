ID='badger_too_big'; PROP='C07'; PKG='store/badger'
NEEDS='a batch whose later operation the engine refuses for its key size, or a transaction too big'
BREAKS='When the engine calls the transaction too big, what it holds so far is committed and the batch goes on in a new one.'
EDITS=[('store/badger/writer.go', '\t\tif op.V != nil {\n\t\t\terr = txn.Set(op.K, op.V)\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t} else {', '\t\tif op.V != nil {\n\t\t\terr = txn.Set(op.K, op.V)\n\t\t\tif err == badger.ErrTxnTooBig {\n\t\t\t\t// continue in another transaction\n\t\t\t\tif err = txn.Commit(); err == nil {\n\t\t\t\t\ttxn = w.s.db.NewTransaction(true)\n\t\t\t\t\terr = txn.Set(op.K, op.V)\n\t\t\t\t}\n\t\t\t}\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t} else {')]
TEST='package badger\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tif string(o) == "fail" {\n\t\t\treturn nil, false\n\t\t}\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ts, err := New(zzapp{}, map[string]interface{}{"path": d})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc zzset(t *testing.T, s store.KVStore, kv ...string) {\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < len(kv); i += 2 {\n\t\tb.Set([]byte(kv[i]), []byte(kv[i+1]))\n\t}\n\tif err := w.ExecuteBatch(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t)\n\tdefer done()\n\tw, _ := s.Writer()\n\tb := w.NewBatch()\n\tfor i := 0; i < 200000; i++ {\n\t\tb.Set([]byte{\'k\', byte(i >> 16), byte(i >> 8), byte(i)}, []byte("x"))\n\t}\n\tb.Set(nil, []byte("x"))\n\tif err := w.ExecuteBatch(b); err == nil {\n\t\tt.Skip("the empty key is accepted")\n\t}\n\tr, _ := s.Reader()\n\tdefer r.Close()\n\tif v, _ := r.Get([]byte{\'k\', 0, 0, 0}); v != nil {\n\t\tt.Fatal("a failed batch left a trace")\n\t}\n}\n'
