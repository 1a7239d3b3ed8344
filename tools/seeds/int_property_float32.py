ID='int_property_float32'
PROP='G06'
PKG='index/geodata'
NEEDS='an integer property above 2^24'
BREAKS='Integers go through a 32 bit float and lose digits above 2^24.'
EDITS=[('index/geodata/tools.go', 'NumberValue: float64(tv)}}', 'NumberValue: float64(float32(tv))}}')]
TEST='package geodata\n\nimport (\n\t"testing"\n\n\t"github.com/twpayne/go-geom/encoding/geojson"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\tgd := &GeoData{}\n\tif err := PropertiesToGeoData(&geojson.Feature{Properties: map[string]interface{}{"n": 16777217}}, gd); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif v := PropertiesToJSONMap(gd.Properties)["n"]; v != 16777217.0 {\n\t\tt.Fatal(v)\n\t}\n}\n'
