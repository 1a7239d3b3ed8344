ID="props_zero"; PROP="G06"; PKG="index/geodata"
NEEDS="a property whose value is false or zero"
BREAKS="Boolean properties that are false are dropped on the way back."
EDITS=[("index/geodata/tools.go","""			res[k] = x.BoolValue
""","""			if v.GetBoolValue() {
				res[k] = x.BoolValue
			}
""")]
TEST='''package geodata

import (
	"testing"

	"github.com/twpayne/go-geom/encoding/geojson"
)

func TestZZDemo(t *testing.T) {
	gd := &GeoData{}
	err := PropertiesToGeoData(&geojson.Feature{Properties: map[string]interface{}{"a": false, "b": true, "c": 0.0}}, gd)
	if err != nil {
		t.Fatal(err)
	}
	m := PropertiesToJSONMap(gd.Properties)
	if v, ok := m["a"]; !ok || v != false || len(m) != 3 {
		t.Fatal(m)
	}
}
'''
