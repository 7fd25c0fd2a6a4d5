package main

import (
	"net"
	"net/http"
	"sync"
)

// httpd is a loopback server whose answers the running case sets.
type httpd struct {
	url string
	mu  sync.Mutex
	f   func(path string) (int, []byte)
	log []string
}

func newHTTP(c *Ctx) *httpd {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	h := &httpd{url: "http://" + l.Addr().String()}
	go func() {
		_ = http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			h.mu.Lock()
			f := h.f
			h.log = append(h.log, r.URL.Path)
			h.mu.Unlock()
			if f == nil {
				w.WriteHeader(500)
				return
			}
			code, body := f(r.URL.Path)
			w.WriteHeader(code)
			_, _ = w.Write(body)
		}))
	}()
	return h
}

func (h *httpd) set(f func(path string) (int, []byte)) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.f = f
	h.log = nil
}

func (h *httpd) reqs() []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]string{}, h.log...)
}
