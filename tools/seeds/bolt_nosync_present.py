ID='bolt_nosync_present'
PROP='C12'
PKG='store/boltdb'
NEEDS='a configuration that says "nosync": false, and a crash after a completed batch'
BREAKS='Any nosync setting turns syncing off, also false, so that completed batches can be lost in a crash.'
EDITS=[('store/boltdb/store.go', '\tnoSync, _ := config["nosync"].(bool)', '\t_, noSync := config["nosync"].(bool)')]
TEST='package boltdb\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T, cfg map[string]interface{}) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tc := map[string]interface{}{"path": d + "/db"}\n\tfor k, v := range cfg {\n\t\tc[k] = v\n\t}\n\ts, err := New(zzapp{}, c)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t, map[string]interface{}{"nosync": false})\n\tdefer done()\n\tif s.(*Store).db.NoSync {\n\t\tt.Fatal("writes are not synced")\n\t}\n}\n'
