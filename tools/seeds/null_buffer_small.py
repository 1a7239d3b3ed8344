ID='null_buffer_small'
PROP='C15'
PKG='store/null'
NEEDS='NewBatchEx with a total size above 4096'
BREAKS='The buffer of NewBatchEx has at most 4096 bytes, callers that carve their keys from it run over its end.'
EDITS=[('store/null/null.go', '\treturn make([]byte, options.TotalBytes), w.NewBatch(), nil', '\tsize := options.TotalBytes\n\tif size > 4096 {\n\t\t// nothing of it is kept\n\t\tsize = 4096\n\t}\n\treturn make([]byte, size), w.NewBatch(), nil')]
TEST='package null\n\nimport (\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\tfor _, n := range []int{0, 10, 5000} {\n\t\ts, _ := New(nil, nil)\n\t\tw, _ := s.Writer()\n\t\tbuf, b, err := w.NewBatchEx(store.KVBatchOptions{TotalBytes: n})\n\t\tif err != nil || b == nil || len(buf) != n {\n\t\t\tt.Fatal(n, len(buf), err)\n\t\t}\n\t}\n}\n'
