ID='debugger_digits'; PROP='X02'; PKG='cmd/mapdebugger'
NEEDS='a maximum number of cells of five digits or more'
BREAKS='The covering handler is not reached with max_cells of more than four digits, such as 10000.'
EDITS=[('cmd/mapdebugger/main.go', '{max_cells:[0-9]+}', '{max_cells:[0-9]{1,4}}')]
TEST='package main\n\nimport (\n\t"fmt"\n\t"net"\n\t"net/http"\n\t"strings"\n\t"testing"\n\t"time"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\tl, err := net.Listen("tcp", "127.0.0.1:0")\n\tif err != nil {\n\t\tt.Skip(err)\n\t}\n\t*httpPort = l.Addr().(*net.TCPAddr).Port\n\tl.Close()\n\tgo main()\n\tbase := fmt.Sprintf("http://127.0.0.1:%d", *httpPort)\n\tfor i := 0; i < 100; i++ {\n\t\tif r, err := http.Get(base + "/"); err == nil {\n\t\t\tr.Body.Close()\n\t\t\tbreak\n\t\t}\n\t\ttime.Sleep(20 * time.Millisecond)\n\t}\n\tbody := `{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[[[2,48],[3,48],[3,49],[2,49],[2,48]]]}}]}`\n\tr, err := http.Post(base+"/api/geojson/1/10/10000", "application/json", strings.NewReader(body))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer r.Body.Close()\n\tif r.StatusCode != 200 {\n\t\tt.Fatal("status", r.StatusCode)\n\t}\n}\n'
