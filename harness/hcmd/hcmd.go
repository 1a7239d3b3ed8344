// Package hcmd holds the properties of the commands.
package hcmd

import (
	"net/http"
	"net/url"

	"github.com/akhenakh/oureadb/cmd/mapdebugger"

	"oureaverif/cmdshim"
	"oureaverif/sym"
)

type recorder struct {
	h    http.Header
	code int
	n    int
}

func (r *recorder) Header() http.Header { return r.h }

func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}

func (r *recorder) Write(b []byte) (int, error) {
	if r.code == 0 {
		r.code = 200
	}
	r.n += len(b)
	return len(b), nil
}

var methods = []string{"POST", "GET", "PUT", "HEAD", "DELETE", "OPTIONS", "post", ""}

func digits(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, s[i] >= '0', s[i] <= '9')
	}
	return ok
}

// request sends one request through what main serves and checks who gets it: parts are the
// three segments when the path is that of the covering handler.
func request(method, path string, covering bool, parts [3]string) {
	cmdshim.Reset()
	mapdebugger.Main()
	sym.Assert(cmdshim.Listeners == 1, "the command does not listen once")
	if cmdshim.Served == nil {
		sym.Assert(false, "the command serves nothing")
		return
	}
	w := &recorder{h: http.Header{}}
	q := &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}, Host: "localhost", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RequestURI: path}
	cmdshim.Served.ServeHTTP(w, q)
	cells := path == "/api/s2cells"
	want := 0
	if cells {
		want = 1
	}
	sym.Assert(cmdshim.Cells == want, "/api/s2cells is not exactly what the cell query handler answers")
	want = 0
	if covering && method == "POST" {
		want = 1
	}
	sym.Assert(cmdshim.Coverings == want, "the covering handler does not answer exactly the POST requests for its path")
	if want == 1 && cmdshim.Coverings == 1 {
		v := cmdshim.Vars
		sym.Assert(sym.And(len(v) == 3, v["min_level"] == parts[0], v["max_level"] == parts[1], v["max_cells"] == parts[2]), "the covering handler is given other parameters than those of the path")
	}
	if cmdshim.Cells+cmdshim.Coverings == 0 {
		sym.Reach("nothing")
		sym.Assert(w.code >= 300, "a request no handler answers succeeds")
	}
	sym.Reach("end")
}

func ascii(name string, n int) string {
	b := sym.Bytes(name, n)
	for i := range b {
		sym.Assume(b[i] < 0x80)
	}
	return string(b)
}

var fixed = []string{"0", "1", "9", "12", "30", "500", "10000", "007", "-1", "+1", "1a", "4.0", "0x1"}

// Segments: one segment of the covering path is arbitrary, the others one of a few.
func Segments(max int) {
	var parts [3]string
	k := sym.Choice("where", 3)
	ok := true
	for i := range parts {
		if i == k {
			n := sym.Choice("len", max+1)
			parts[i] = ascii("seg", n)
			for j := 0; j < n; j++ {
				sym.Assume(sym.And(parts[i][j] != '/', parts[i][j] != '.'))
			}
		} else {
			parts[i] = []string{"1", "30", "123456"}[(i+k)%3]
		}
		ok = ok && len(parts[i]) > 0 && digits(parts[i])
	}
	m := methods[sym.Choice("method", 2)]
	request(m, "/api/geojson/"+parts[0]+"/"+parts[1]+"/"+parts[2], ok, parts)
}

// Methods: the paths as documented under every method.
func Methods() {
	m := methods[sym.Choice("method", len(methods))]
	if sym.Choice("path", 2) == 0 {
		request(m, "/api/s2cells", false, [3]string{})
		return
	}
	var parts [3]string
	ok := true
	for i := range parts {
		parts[i] = fixed[i+1]
	}
	parts[sym.Choice("at", 3)] = fixed[sym.Choice("text", len(fixed))]
	if sym.Tier() > 0 {
		parts[sym.Choice("at2", 3)] = fixed[sym.Choice("text2", len(fixed))]
	}
	for i := range parts {
		ok = ok && digits(parts[i])
	}
	request(m, "/api/geojson/"+parts[0]+"/"+parts[1]+"/"+parts[2], ok, parts)
}

// Near: a served path with one byte replaced by any other, cut short or made longer.
func Near() {
	base := []string{"/api/s2cells", "/api/geojson/1/20/3"}[sym.Choice("path", 2)]
	m := methods[sym.Choice("method", 2)]
	b := []byte(base)
	switch sym.Choice("how", 3) {
	case 0:
		i := 1 + sym.Choice("at", len(b)-1)
		c := sym.Byte("c")
		sym.Assume(sym.And(c < 0x80, c != b[i], c != '/', c != '.'))
		if base[i] >= '0' && base[i] <= '9' && i > 12 {
			sym.Assume(sym.Or(c < '0', c > '9'))
		}
		b[i] = c
	case 1:
		b = b[:1+sym.Choice("at", len(b)-1)]
	case 2:
		c := sym.Byte("c")
		sym.Assume(sym.And(c < 0x80, c != '.'))
		if base != "/api/s2cells" {
			sym.Assume(sym.Or(c < '0', c > '9'))
		}
		b = append(b, c)
	}
	request(m, string(b), string(b) == "/api/geojson/1/20/3", [3]string{"1", "20", "3"})
}

// Short: any short path.
func Short(n int) {
	p := ascii("path", n)
	for i := range p {
		sym.Assume(p[i] != '.')
		sym.Assume(p[i] != '/' || i > 0 && p[i-1] != '/')
	}
	request(methods[sym.Choice("method", 2)], "/"+p, false, [3]string{})
}
