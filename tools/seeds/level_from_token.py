ID='level_from_token'
PROP='T04'
PKG='s2tools'
NEEDS='a cell of an odd level'
BREAKS='The level is taken from the length of the token, which is the same for two levels.'
EDITS=[('s2tools/geojsoncells.go', '\t\tf.Properties["level"] = cid.Level()', '\t\tf.Properties["level"] = 2 * (len(cid.ToToken()) - 1)')]
TEST='package s2tools\n\nimport (\n\t"strings"\n\t"testing"\n\n\t"github.com/golang/geo/s2"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\tfor l := 0; l <= 30; l++ {\n\t\tc := s2.CellIDFromLatLng(s2.LatLngFromDegrees(48, 2)).Parent(l)\n\t\tj := string(CellUnionToGeoJSON(s2.CellUnion{c}))\n\t\tif !strings.Contains(j, "\\"level\\":"+strings.TrimLeft(string([]byte{\'0\' + byte(l/10), \'0\' + byte(l%10)}), "0")) {\n\t\t\tt.Fatal(l, j)\n\t\t}\n\t}\n}\n'
