ID='multiget_last_error'
PROP='C14'
PKG='store'
NEEDS='a MultiGet of several keys in which a read after the first fails'
BREAKS='Once some values are read, a failing read ends the list silently and the remaining keys look absent.'
EDITS=[('store/multiget.go', '\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\n\t\tvals', '\t\tif err != nil && i == 0 {\n\t\t\treturn nil, err\n\t\t} else if err != nil {\n\t\t\tbreak\n\t\t}\n\n\t\tvals')]
TEST='package store\n\nimport (\n\t"errors"\n\t"testing"\n)\n\ntype zzr struct{ KVReader }\n\nfunc (zzr) Get(k []byte) ([]byte, error) {\n\tif string(k) == "bad" {\n\t\treturn nil, errors.New("io")\n\t}\n\treturn k, nil\n}\n\nfunc TestZZDemo(t *testing.T) {\n\tif _, err := MultiGet(zzr{}, [][]byte{[]byte("a"), []byte("bad")}); err == nil {\n\t\tt.Fatal("no error")\n\t}\n\tif v, err := MultiGet(zzr{}, [][]byte{[]byte("a"), []byte("b")}); err != nil || len(v) != 2 {\n\t\tt.Fatal(v, err)\n\t}\n}\n'
