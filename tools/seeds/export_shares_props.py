ID='export_shares_props'
PROP='G07'
PKG='index/geodata'
NEEDS='a geometry without properties after one that has some'
BREAKS='A geometry without properties is exported with the properties of the one before it.'
EDITS=[('index/geodata/tools.go', '\tfc := geojson.FeatureCollection{}\n\tfor _, g := range geos {', '\tfc := geojson.FeatureCollection{}\n\tprops := make(map[string]interface{})\n\tfor _, g := range geos {'), ('index/geodata/tools.go', '\t\tf.Properties = PropertiesToJSONMap(g.Properties)\n\t\tfc', '\t\tif len(g.Properties) > 0 {\n\t\t\tprops = PropertiesToJSONMap(g.Properties)\n\t\t}\n\t\tf.Properties = props\n\t\tfc')]
TEST='package geodata\n\nimport (\n\t"strings"\n\t"testing"\n\n\tspb "github.com/golang/protobuf/ptypes/struct"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\ta := &GeoData{Geometry: &Geometry{Type: Geometry_POINT, Coordinates: []float64{1, 2}}, Properties: map[string]*spb.Value{"name": {Kind: &spb.Value_StringValue{StringValue: "paris"}}}}\n\tb := &GeoData{Geometry: &Geometry{Type: Geometry_POINT, Coordinates: []float64{3, 4}}}\n\tj, err := ToGeoJSONFeatureCollection([]*GeoData{a, b})\n\tif err != nil || strings.Count(string(j), "paris") != 1 {\n\t\tt.Fatal(string(j), err)\n\t}\n}\n'
