ID="cells_contained"; PROP="T04"; PKG="s2tools"
NEEDS="a union with a cell followed by itself or one of its descendants"
BREAKS="A cell that lies in the cell before it is left out of the display."
EDITS=[("s2tools/geojsoncells.go","""	for _, cid := range cu {
""","""	for i, cid := range cu {
		if i > 0 && cu[i-1].Contains(cid) {
			continue
		}
""")]
TEST='''package s2tools

import (
	"bytes"
	"testing"

	"github.com/golang/geo/s2"
)

func TestZZDemo(t *testing.T) {
	c := s2.CellIDFromFace(1)
	b := CellUnionToGeoJSON(s2.CellUnion{c, c.Children()[2]})
	if n := bytes.Count(b, []byte("Polygon")); n != 2 {
		t.Fatal(n)
	}
}
'''
