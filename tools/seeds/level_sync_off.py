ID='level_sync_off'
PROP='C12'
PKG='store/goleveldb'
NEEDS='a crash of the machine after a batch that was reported as done, in a store with a configured write buffer'
BREAKS='Writes of stores with a configured write buffer are no longer synced, so a completed batch can be lost in a crash.'
EDITS=[('store/goleveldb/store.go', '\trv.defaultWriteOptions.Sync = true', '\t// a configured buffer asks for throughput\n\trv.defaultWriteOptions.Sync = opts.WriteBuffer == 0')]
TEST='package goleveldb\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\ntype zzapp struct{}\n\nfunc (zzapp) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {\n\tvar r []byte\n\tif e == nil {\n\t\tr = append(r, \'!\')\n\t}\n\tr = append(r, e...)\n\tfor _, o := range ops {\n\t\tr = append(r, o...)\n\t}\n\treturn r, true\n}\nfunc (zzapp) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }\nfunc (zzapp) Name() string                               { return "zzapp" }\n\nfunc zzopen(t *testing.T, cfg map[string]interface{}) (store.KVStore, func()) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tc := map[string]interface{}{"path": d + "/db"}\n\tfor k, v := range cfg {\n\t\tc[k] = v\n\t}\n\ts, err := New(zzapp{}, c)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s, func() { s.Close(); os.RemoveAll(d) }\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts, done := zzopen(t, map[string]interface{}{"write_buffer_size": float64(1 << 20)})\n\tdefer done()\n\tif !s.(*Store).defaultWriteOptions.Sync {\n\t\tt.Fatal("writes are not synced")\n\t}\n}\n'
