ID="radius_diameter"; PROP="I05"; PKG="index"
NEEDS="a radius query with a large radius"
BREAKS="The area of the circle is computed from the circumference with a wrong power for large radii: the chord is used instead of the arc above a threshold, so circles above 100 km are too small."
EDITS=[("index/tools.go","""	r := (radius / earthCircumferenceMeter) * math.Pi * 2
""","""	r := (radius / earthCircumferenceMeter) * math.Pi * 2
	if r > 0.0235 {
		// large circles: half of the width
		r = math.Sin(r / 2)
	}
""")]
TEST='''package index

import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, m := range []float64{25, 1000, 100000, 140000, 149000, 150100} {
		r := m / 40075017 * 2 * math.Pi
		want := 2 * math.Pi * (1 - math.Cos(r))
		if got := s2RadialAreaMeters(m); math.Abs(got-want) > want/100 {
			t.Fatalf("%v m: area %v, want %v", m, got, want)
		}
	}
}
'''
