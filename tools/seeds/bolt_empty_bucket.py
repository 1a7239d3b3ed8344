ID='bolt_empty_bucket'
PROP='C16'
PKG='store/boltdb'
NEEDS='a configuration with an empty bucket name'
BREAKS='An empty bucket name is taken for the default one instead of being refused, and opens the contents of another name space.'
EDITS=[('store/boltdb/store.go', '\tbucket, ok := config["bucket"].(string)\n\tif !ok {', '\tbucket, ok := config["bucket"].(string)\n\tif !ok || bucket == "" {')]
TEST='package boltdb\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"testing"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\td, err := ioutil.TempDir("", "zz")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer os.RemoveAll(d)\n\ts, err := New(nil, map[string]interface{}{"path": d + "/db", "bucket": ""})\n\tif err == nil {\n\t\ts.Close()\n\t\tt.Fatal("no error")\n\t}\n}\n'
