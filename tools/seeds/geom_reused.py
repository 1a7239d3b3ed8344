ID="geom_reused"; PROP="G05"; PKG="index/geodata"
NEEDS="a GeoData that is used again for an empty polygon"
BREAKS="The geometry of a GeoData that is used again is filled in place; an empty polygon then keeps the positions of the earlier geometry."
EDITS=[("index/geodata/tools.go","""	geo := &Geometry{}

	switch g""","""	geo := gd.Geometry
	if geo == nil {
		geo = &Geometry{}
	}

	switch g""")]
TEST='''package geodata

import (
	"testing"

	"github.com/twpayne/go-geom"
)

func TestZZDemo(t *testing.T) {
	gd := &GeoData{}
	if err := GeomToGeoData(geom.NewPointFlat(geom.XY, []float64{1, 2}), gd); err != nil {
		t.Fatal(err)
	}
	if err := GeomToGeoData(geom.NewPolygon(geom.XY), gd); err != nil {
		t.Fatal(err)
	}
	if gd.Geometry.Type != Geometry_POLYGON || len(gd.Geometry.Coordinates) != 0 {
		t.Fatal(gd)
	}
}
'''
