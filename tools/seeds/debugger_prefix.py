ID='debugger_prefix'; PROP='X02'; PKG='cmd/mapdebugger'
NEEDS='a path that begins with /api/s2cells and goes on'
BREAKS='The cell query handler answers every path that begins with its own.'
EDITS=[('cmd/mapdebugger/main.go', 'r.HandleFunc("/api/s2cells", s2tools.S2CellQueryHandler)', 'r.PathPrefix("/api/s2cells").HandlerFunc(s2tools.S2CellQueryHandler)')]
TEST='package main\n\nimport (\n\t"fmt"\n\t"net"\n\t"net/http"\n\t"strings"\n\t"testing"\n\t"time"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\tl, err := net.Listen("tcp", "127.0.0.1:0")\n\tif err != nil {\n\t\tt.Skip(err)\n\t}\n\t*httpPort = l.Addr().(*net.TCPAddr).Port\n\tl.Close()\n\tgo main()\n\tbase := fmt.Sprintf("http://127.0.0.1:%d", *httpPort)\n\tfor i := 0; i < 100; i++ {\n\t\tif r, err := http.Get(base + "/"); err == nil {\n\t\t\tr.Body.Close()\n\t\t\tbreak\n\t\t}\n\t\ttime.Sleep(20 * time.Millisecond)\n\t}\n\t_ = strings.NewReader\n\tr, err := http.Get(base + "/api/s2cellsx?cells=89c25c")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer r.Body.Close()\n\tif r.StatusCode == 200 {\n\t\tt.Fatal("another path is answered")\n\t}\n}\n'
