// Package cmdshim stands in for what the map debugger command reaches outside itself: it
// records what would be served instead of listening, and which handler a request reached.
package cmdshim

import (
	"crypto/tls"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/gorilla/mux"
)

var (
	// Served is the handler given to a listener.
	Served http.Handler
	// Listeners counts the listeners.
	Listeners int
	// Cells and Coverings count the requests that reached the handlers of s2tools.
	Cells, Coverings int
	// Vars are the route variables of the last request.
	Vars map[string]string
	// Req is the last request a handler was given.
	Req *http.Request

	// DefaultServeMux is the default mux.
	DefaultServeMux = newMux()
)

// Mux is a ServeMux: the real one where a pattern names a method, a host or a wildcard; otherwise
// the longest pattern that is the path, or a prefix of it when the pattern ends in a slash.
type Mux struct {
	*http.ServeMux
	plain []string
	hs    []http.Handler
	real  bool
}

// ServeMux is a Mux.
type ServeMux = Mux

// NewServeMux returns a Mux.
func NewServeMux() *Mux { return newMux() }

func newMux() *Mux { return &Mux{ServeMux: http.NewServeMux()} }

func (m *Mux) Handle(p string, h http.Handler) {
	m.ServeMux.Handle(p, h)
	if p[0] != '/' || strings.Contains(p, "{") {
		m.real = true
	}
	m.plain = append(m.plain, p)
	m.hs = append(m.hs, h)
}

func (m *Mux) HandleFunc(p string, h func(http.ResponseWriter, *http.Request)) {
	m.Handle(p, http.HandlerFunc(h))
}

func (m *Mux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	p := r.URL.Path
	if m.real || len(p) == 0 || p[0] != '/' {
		m.ServeMux.ServeHTTP(w, r)
		return
	}
	for i := 0; i+1 < len(p); i++ {
		if p[i] == '/' && (p[i+1] == '/' || p[i+1] == '.') {
			w.WriteHeader(http.StatusMovedPermanently)
			return
		}
	}
	best := -1
	for i, q := range m.plain {
		if p == q || q[len(q)-1] == '/' && strings.HasPrefix(p, q) {
			if best < 0 || len(q) > len(m.plain[best]) {
				best = i
			}
		}
	}
	if best < 0 {
		w.WriteHeader(http.StatusNotFound)
		return
	}
	m.hs[best].ServeHTTP(w, r)
}

// Reset forgets everything.
func Reset() {
	Served, Listeners, Cells, Coverings, Vars, Req = nil, 0, 0, 0, nil, nil
	DefaultServeMux = newMux()
}

func Handle(p string, h http.Handler) { DefaultServeMux.Handle(p, h) }

func HandleFunc(p string, h func(http.ResponseWriter, *http.Request)) {
	DefaultServeMux.HandleFunc(p, h)
}

func serve(h http.Handler) error {
	if h == nil {
		h = DefaultServeMux
	}
	Served = h
	Listeners++
	return http.ErrServerClosed
}

func ListenAndServe(addr string, h http.Handler) error               { return serve(h) }
func ListenAndServeTLS(addr, cert, key string, h http.Handler) error { return serve(h) }
func Serve(l net.Listener, h http.Handler) error                     { return serve(h) }

// Server is an http.Server.
type Server struct {
	Addr                                                      string
	Handler                                                   http.Handler
	TLSConfig                                                 *tls.Config
	ReadTimeout, ReadHeaderTimeout, WriteTimeout, IdleTimeout time.Duration
	MaxHeaderBytes                                            int
}

func (s *Server) ListenAndServe() error                    { return serve(s.Handler) }
func (s *Server) ListenAndServeTLS(cert, key string) error { return serve(s.Handler) }
func (s *Server) Serve(l net.Listener) error               { return serve(s.Handler) }
func (s *Server) Close() error                             { return nil }

// S2CellQueryHandler records.
func S2CellQueryHandler(w http.ResponseWriter, r *http.Request) {
	Cells++
	Req = r
}

// GeoJSONToCellHandler records.
func GeoJSONToCellHandler(w http.ResponseWriter, r *http.Request) {
	Coverings++
	Vars = mux.Vars(r)
	Req = r
}
