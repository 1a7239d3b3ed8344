ID='query_fields'
PROP='T05'
PKG='s2tools'
NEEDS='a request with an empty element among its cells'
BREAKS='Empty elements of the list are skipped, so malformed lists are answered with some cells, and no cells at all with an empty collection.'
EDITS=[('s2tools/handlers.go', '\tcells := strings.Split(sval, ",")', "\tcells := strings.FieldsFunc(sval, func(r rune) bool { return r == ',' })")]
TEST='package s2tools\n\nimport (\n\t"net/http/httptest"\n\t"testing"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\tfor q, code := range map[string]int{"47e66f": 200, "47e66f,": 400, ",": 400, "47e66f,,47e664": 400} {\n\t\tw := httptest.NewRecorder()\n\t\tS2CellQueryHandler(w, httptest.NewRequest("GET", "http://example.com/?cells="+q, nil))\n\t\tif w.Code != code {\n\t\t\tt.Fatal(q, w.Code)\n\t\t}\n\t}\n}\n'
