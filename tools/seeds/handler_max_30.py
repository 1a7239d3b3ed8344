ID="handler_max_30"; PROP="T05"; PKG="s2tools"
NEEDS="a maximum level of 30 or more"
BREAKS="A maximum level above the leaf level is replaced by the minimum level, so the covering is coarser than asked for."
EDITS=[("s2tools/handlers.go","""	cu, err := gd.Cover(coverer)
""","""	if coverer.MaxLevel >= 30 {
		coverer.MaxLevel = coverer.MinLevel
	}
	cu, err := gd.Cover(coverer)
""")]
TEST='''package s2tools

import (
	"bytes"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/gorilla/mux"
)

const zzBody = `{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[[[0,0],[10,0],[10,10],[0,10],[0,0]]]}}]}`

func zzGet(path string) *httptest.ResponseRecorder {
	m := mux.NewRouter()
	m.HandleFunc("/{min_level:[0-9]+}/{max_level:[0-9]+}/{max_cells:[0-9]+}", GeoJSONToCellHandler)
	w := httptest.NewRecorder()
	m.ServeHTTP(w, httptest.NewRequest("POST", "http://example.com"+path, strings.NewReader(zzBody)))
	return w
}

func TestZZDemo(t *testing.T) {
	a, b := zzGet("/2/29/50"), zzGet("/2/30/50")
	if a.Code != 200 || b.Code != 200 {
		t.Fatal(a.Code, b.Code)
	}
	if n, m := bytes.Count(a.Body.Bytes(), []byte("Polygon")), bytes.Count(b.Body.Bytes(), []byte("Polygon")); m < n {
		t.Fatalf("%d cells instead of %d", m, n)
	}
}
'''
