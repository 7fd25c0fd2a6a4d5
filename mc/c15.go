package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/fetcher"
)

func init() {
	register(&Check{ID: "C15", Run: runC15,
		Rule:        "the default fetcher against a scripted raw loopback server: framing {Content-Length, chunked, until close} x body length x announced length (right, short, long, malformed) x chunking x ending {complete, cut} x limit {0, 1, n-1, n, n+1, twice, maximum}; every status 200..599 and beyond x body x limit, interim responses, malformed responses; stalls at every point of the exchange and dripping bodies; all pairs of exchanges on one connection; compressed bodies against limits on both sizes; redirections of 1 to 12 hops with every ending; bytes taken from the body counted exactly through a stand-in transport with honest and lying lengths; oracle: outcome computed from the script",
		Assumptions: []string{"the fetcher uses net/http; whether redirects are followed is left to net/http, what is returned after them is not"}})
}

// rawSrv answers every request on a connection with the next part of the script.
type rawSrv struct {
	l      net.Listener
	mu     sync.Mutex
	script func(c net.Conn, r *bufio.Reader, done chan struct{}) bool // keep the connection?
	done   chan struct{}
}

func newRaw() *rawSrv {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := &rawSrv{l: l, done: make(chan struct{})}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				r := bufio.NewReader(c)
				for readReq(r) {
					s.mu.Lock()
					f, done := s.script, s.done
					s.mu.Unlock()
					if f == nil || !f(c, r, done) {
						return
					}
				}
			}()
		}
	}()
	return s
}

func (s *rawSrv) set(f func(c net.Conn, r *bufio.Reader, done chan struct{}) bool) {
	s.mu.Lock()
	close(s.done)
	s.done = make(chan struct{})
	s.script = f
	s.mu.Unlock()
}

func (s *rawSrv) url() string { return "http://" + s.l.Addr().String() + "/f" }

// readReq consumes one request.
func readReq(r *bufio.Reader) bool {
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return false
		}
		if strings.TrimSpace(l) == "" {
			return true
		}
	}
}

// bytesScript sends b after a request, then closes.
func bytesScript(b []byte) func(c net.Conn, r *bufio.Reader, done chan struct{}) bool {
	return func(c net.Conn, r *bufio.Reader, done chan struct{}) bool {
		_, _ = c.Write(b)
		if t, okT := c.(*net.TCPConn); okT {
			_ = t.CloseWrite()
			_, _ = io.Copy(io.Discard, r)
		}
		return false
	}
}

// parts sends the parts one after the other, stalling where a part is nil.
func stallScript(parts [][]byte, gap time.Duration, forever []byte) func(c net.Conn, r *bufio.Reader, done chan struct{}) bool {
	return func(c net.Conn, r *bufio.Reader, done chan struct{}) bool {
		for _, p := range parts {
			if _, err := c.Write(p); err != nil {
				return false
			}
			if gap > 0 {
				time.Sleep(gap)
			}
		}
		for len(forever) > 0 {
			select {
			case <-done:
				return false
			case <-time.After(20 * time.Millisecond):
			}
			if _, err := c.Write(forever); err != nil {
				return false
			}
		}
		<-done
		return false
	}
}

type fetched struct {
	data []byte
	err  error
	took time.Duration
}

func fetch(t *T, f *fetcher.DefaultFetcher, url string, limit int64, timeout time.Duration) fetched {
	ch := make(chan fetched, 1)
	start := time.Now()
	go func() {
		var r fetched
		if p := guard(func() { r.data, r.err = f.DownloadFile(url, limit, timeout) }); p != "" {
			r.err = errors.New(p)
		}
		r.took = time.Since(start)
		ch <- r
	}()
	t.Trans(1)
	select {
	case r := <-ch:
		if r.err != nil && strings.HasPrefix(r.err.Error(), "panic:") {
			t.Fail("%v", r.err)
		}
		return r
	case <-time.After(timeout + 20*time.Second):
		t.Fail("no answer %v after the timeout of %v", 20*time.Second, timeout)
	}
	panic("unreachable")
}

func mkBody(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	return b
}

// c15encoded: compressed bodies (the limit is on what is returned, however small what was sent) and redirections.
func c15encoded(c *Ctx, s *rawSrv, f *fetcher.DefaultFetcher) {
	const long = 20 * time.Second
	gz := func(b []byte) []byte {
		var o bytes.Buffer
		w := gzip.NewWriter(&o)
		_, _ = w.Write(b)
		must(w.Close())
		return o.Bytes()
	}
	for _, n := range []int{0, 1, 100, 5000, 1 << 20} {
		for _, kind := range []string{"mixed", "zeros"} {
			n, kind := n, kind
			c.Case(func() string { return fmt.Sprintf("compressed body of %d bytes, %s", n, kind) }, func(t *T) {
				body := make([]byte, n)
				if kind == "mixed" {
					body = mkBody(n)
				}
				z := gz(body)
				for _, enc := range []string{"gzip", "identity", "deflate", "br", "x"} {
					for _, fr := range []string{"length", "chunked", "close"} {
						for _, cut := range []bool{false, true} {
							sent := z
							if cut {
								sent = z[:len(z)-5]
							}
							hd := "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Encoding: " + enc + "\r\n"
							raw := []byte(hd + "\r\n" + string(sent))
							switch fr {
							case "length":
								raw = []byte(hd + fmt.Sprintf("Content-Length: %d\r\n\r\n", len(sent)) + string(sent))
							case "chunked":
								raw = append([]byte(hd+"Transfer-Encoding: chunked\r\n\r\n"), chunked(sent, 1000, "complete")...)
							}
							for _, l := range []int64{0, 1, int64(len(sent)) - 1, int64(len(sent)), int64(n) - 1, int64(n), int64(n) + 1, int64(n + len(z)), 1 << 30} {
								if l < 0 {
									continue
								}
								s.set(bytesScript(raw))
								r := fetch(t, f, s.url(), l, long)
								t.State(fmt.Sprint("encoded", n, kind, enc, fr, cut, l))
								what := fmt.Sprintf("%d bytes (%d sent) with Content-Encoding %s, %s, cut %v, limit %d", n, len(sent), enc, fr, cut, l)
								if r.err == nil {
									if int64(len(r.data)) > l {
										t.Fail("%s: %d bytes returned", what, len(r.data))
									}
									if !bytes.Equal(r.data, sent) && (cut || !bytes.Equal(r.data, body)) {
										t.Fail("%s: success with %d bytes that are neither what was sent nor what it encodes", what, len(r.data))
									}
								} else {
									if len(r.data) > 0 {
										t.Fail("%s: refused, but %d bytes are returned", what, len(r.data))
									}
									if !cut && int64(n) <= l && int64(len(sent)) <= l {
										t.Fail("%s: %v", what, r.err)
									}
								}
							}
						}
					}
				}
			})
		}
	}
	for _, code := range []int{301, 302, 303, 307, 308} {
		code := code
		c.Case(func() string { return fmt.Sprintf("redirections with status %d", code) }, func(t *T) {
			for hops := 1; hops <= 12; hops++ {
				for _, end := range []string{"good", "404", "cut", "loop", "bad location", "other scheme"} {
					for _, l := range []int64{4, 5, 1000} {
						n := 0
						s.set(func(cn net.Conn, r *bufio.Reader, done chan struct{}) bool {
							n++
							loc := fmt.Sprintf("/h%d", n)
							body := "redirected body"
							hd := fmt.Sprintf("HTTP/1.1 %d X\r\nConnection: close\r\nContent-Length: %d\r\nLocation: ", code, len(body))
							raw := hd + loc + "\r\n\r\n" + body
							if n > hops {
								switch end {
								case "good":
									raw = "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 5\r\n\r\nhello"
								case "404":
									raw = "HTTP/1.1 404 X\r\nConnection: close\r\nContent-Length: 5\r\n\r\nhello"
								case "cut":
									raw = "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 5\r\n\r\nhell"
								case "loop":
									raw = hd + "/f\r\n\r\n" + body
								case "bad location":
									raw = hd + "http://[::1/%zz\r\n\r\n" + body
								case "other scheme":
									raw = hd + "file:///etc/hostname\r\n\r\n" + body
								}
							}
							return bytesScript([]byte(raw))(cn, r, done)
						})
						r := fetch(t, f, s.url(), l, long)
						t.State(fmt.Sprint("redirect", code, hops, end, l))
						if r.err == nil && (end != "good" || l < 5 || string(r.data) != "hello") {
							t.Fail("%d redirections (%d) to %s, limit %d: success with %q", hops, code, end, l, r.data)
						}
						if r.err != nil && len(r.data) > 0 {
							t.Fail("%d redirections (%d) to %s, limit %d: refused, but %q is returned", hops, code, end, l, r.data)
						}
					}
				}
			}
		})
	}
}

func chunked(b []byte, size int, end string) []byte {
	var o bytes.Buffer
	for len(b) > 0 {
		k := min(size, len(b))
		fmt.Fprintf(&o, "%x\r\n", k)
		o.Write(b[:k])
		o.WriteString("\r\n")
		b = b[k:]
	}
	switch end {
	case "complete":
		o.WriteString("0\r\n\r\n")
	case "trailer":
		o.WriteString("0\r\nX-T: 1\r\n\r\n")
	case "cut in chunk":
		o.WriteString("5\r\nab")
	case "bad size":
		o.WriteString("zz\r\n")
	}
	return o.Bytes()
}

func runC15(c *Ctx) {
	s := newRaw()
	f := &fetcher.DefaultFetcher{}
	const long = 20 * time.Second
	limitsFor := func(n int64) []int64 {
		m := map[int64]bool{0: true, 1: true, n - 1: true, n: true, n + 1: true, 2*n + 3: true, 511: true, 512: true, 513: true, math.MaxInt64: true, math.MaxInt64 - 1: true}
		var r []int64
		for k := range m {
			if k >= 0 {
				r = append(r, k)
			}
		}
		for i := range r {
			for j := i + 1; j < len(r); j++ {
				if r[j] < r[i] {
					r[i], r[j] = r[j], r[i]
				}
			}
		}
		return r
	}
	expect := func(t *T, what string, raw []byte, limit int64, want []byte, good bool) {
		s.set(bytesScript(raw))
		r := fetch(t, f, s.url(), limit, long)
		t.State(what + fmt.Sprint(limit))
		t.Outcome(fmt.Sprint(good))
		if (r.err == nil) != good {
			t.Fail("%s, limit %d: %s (%d bytes), expected success=%v", what, limit, refused(r.err), len(r.data), good)
		}
		if good && !bytes.Equal(r.data, want) {
			t.Fail("%s, limit %d: %d bytes returned that are not the body of %d bytes", what, limit, len(r.data), len(want))
		}
		if !good && len(r.data) > 0 {
			t.Fail("%s, limit %d: refused, but %d bytes are returned", what, limit, len(r.data))
		}
	}
	sizes := []int{0, 1, 2, 100, 512, 70000}
	if c.Thorough() {
		sizes = append(sizes, 3, 511, 513, 4095, 4096, 4097, 32768, 1<<20)
	}
	for _, n := range sizes {
		body := mkBody(n)
		c.Case(func() string { return fmt.Sprintf("announced, %d bytes", n) }, func(t *T) {
			for _, l := range limitsFor(int64(n)) {
				for _, ann := range []string{strconv.Itoa(n), strconv.Itoa(n + 1), strconv.Itoa(2*n + 10), "-1", "x", "9223372036854775807", "9223372036854775808", ""} {
					raw := append([]byte("HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: "+ann+"\r\n\r\n"), body...)
					if ann == "" {
						continue // net/http reads an empty length as it likes
					}
					good := ann == strconv.Itoa(n) && int64(n) <= l
					expect(t, fmt.Sprintf("%d bytes announced as %q", n, ann), raw, l, body, good)
				}
				if n > 0 { // more than announced: the body is what was announced
					for _, a := range []int{0, n - 1, n / 2} {
						raw := append([]byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: %d\r\n\r\n", a)), body...)
						expect(t, fmt.Sprintf("%d bytes announced as %d", n, a), raw, l, body[:a], int64(a) <= l)
					}
				}
				// announced twice
				raw := append([]byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: %d\r\nContent-Length: %d\r\n\r\n", n, n+1)), body...)
				expect(t, fmt.Sprintf("%d bytes announced with two lengths", n), raw, l, nil, false)
			}
		})
		c.Case(func() string { return fmt.Sprintf("chunked, %d bytes", n) }, func(t *T) {
			for _, l := range limitsFor(int64(n)) {
				for _, size := range []int{n + 1, 1, 7, 512} {
					if size == 1 && n > 5000 {
						continue
					}
					for _, end := range []string{"complete", "trailer", "cut", "cut in chunk", "bad size"} {
						raw := append([]byte("HTTP/1.1 200 OK\r\nConnection: close\r\nTransfer-Encoding: chunked\r\n\r\n"), chunked(body, size, end)...)
						good := (end == "complete" || end == "trailer") && int64(n) <= l
						expect(t, fmt.Sprintf("%d bytes in chunks of %d, %s", n, size, end), raw, l, body, good)
					}
				}
			}
		})
		c.Case(func() string { return fmt.Sprintf("until close, %d bytes", n) }, func(t *T) {
			for _, l := range limitsFor(int64(n)) {
				for _, v := range []string{"HTTP/1.0", "HTTP/1.1"} {
					raw := append([]byte(v+" 200 OK\r\nConnection: close\r\n\r\n"), body...)
					expect(t, fmt.Sprintf("%d bytes until close, %s", n, v), raw, l, body, int64(n) <= l)
				}
			}
		})
	}
	// statuses
	status := func(t *T, code int, raw []byte, limit int64) {
		s.set(bytesScript(raw))
		r := fetch(t, f, s.url(), limit, long)
		t.State(fmt.Sprint("status", code, len(raw), limit))
		if r.err == nil || len(r.data) > 0 {
			t.Fail("status %d is a success with %d bytes", code, len(r.data))
		}
		var he metadata.ErrDownloadHTTP
		if !errors.As(r.err, &he) || he.StatusCode != code {
			t.Fail("status %d with limit %d is reported as: %v", code, limit, r.err)
		}
	}
	for h := 2; h <= 9; h++ {
		c.Case(func() string { return fmt.Sprintf("statuses %dxx", h) }, func(t *T) {
			for code := h * 100; code < h*100+100; code++ {
				if code == 200 || (h > 5 && code%33 != 0) {
					continue
				}
				for _, l := range []int64{0, 3, 5, 1000} {
					raws := []string{"HTTP/1.1 %d X\r\nConnection: close\r\nContent-Length: 5\r\n\r\nhello", "HTTP/1.1 %d X\r\nConnection: close\r\n\r\nhello",
						"HTTP/1.1 %d\r\nConnection: close\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n", "HTTP/1.1 %d OK\r\nConnection: close\r\nContent-Length: 0\r\n\r\n",
						"HTTP/1.1 %d Partial\r\nConnection: close\r\nContent-Range: bytes 0-4/5\r\nContent-Length: 5\r\n\r\nhello"}
					if !c.Thorough() && code%10 > 4 {
						raws = raws[:1]
					}
					for _, raw := range raws {
						status(t, code, []byte(fmt.Sprintf(raw, code)), l)
					}
				}
			}
		})
	}
	c.Case(func() string { return "interim responses" }, func(t *T) {
		for _, pre := range []string{"HTTP/1.1 100 Continue\r\n\r\n", "HTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n", "HTTP/1.1 102 P\r\n\r\nHTTP/1.1 102 P\r\n\r\n"} {
			for _, l := range []int64{4, 5, 6} {
				expect(t, "interim then 200", []byte(pre+"HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 5\r\n\r\nhello"), l, []byte("hello"), l >= 5)
				status(t, 404, []byte(pre+"HTTP/1.1 404 X\r\nConnection: close\r\nContent-Length: 5\r\n\r\nhello"), l)
			}
		}
	})
	c.Case(func() string { return "malformed responses" }, func(t *T) {
		for i, raw := range []string{"", "\r\n", "garbage", "garbage\r\n\r\n", "HTTP/1.1", "HTTP/1.1 200", "HTTP/1.1 200 OK\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 5", "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n",
			"HTTP/1.1 abc OK\r\n\r\n", "HTTP/1.1 20 OK\r\n\r\nhello", "HTTP/1.1 2000 OK\r\n\r\nhello", "HTTP/1.1 -200 OK\r\n\r\nhello", "HTTP/9.9 200 OK\r\nbad header\r\n\r\nhello",
			"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: foo\r\n\r\nhello", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n-5\r\nhello\r\n0\r\n\r\n",
			"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nfffffffffffffffff\r\nhello", "HTTP/1.1 100 Continue\r\n\r\n"} {
			expect(t, fmt.Sprintf("malformed %d %q", i, raw), []byte(raw), 1000, nil, false)
		}
		for _, u := range []string{"", "x", "/f", "http://", "http://127.0.0.1:0/f", "http://127.0.0.1:99999/f", "gopher://127.0.0.1/f", "http://[::1/f", "http://a b/f", "%zz", "http://127.0.0.1:1/f", "file:///etc/hostname"} {
			r := fetch(t, f, u, 1000, long)
			t.State("url " + u)
			if r.err == nil {
				t.Fail("URL %q is a success", u)
			}
		}
	})
	c15encoded(c, s, f)
	c15stalls(c, s, f)
	c15pairs(c, s)
	c15count(c)
	// a huge body is given up early
	for _, fr := range []string{"announced", "chunked", "until close"} {
		c.Case(func() string { return "huge body " + fr }, func(t *T) {
			const total = 256 << 20
			for _, l := range []int64{0, 1000, 100000} {
				finished := make(chan int64, 4)
				s.set(func(cn net.Conn, r *bufio.Reader, done chan struct{}) bool {
					var sent int64
					hd := "HTTP/1.1 200 OK\r\nConnection: close\r\n"
					switch fr {
					case "announced":
						hd += fmt.Sprintf("Content-Length: %d\r\n", total)
					case "chunked":
						hd += "Transfer-Encoding: chunked\r\n"
					}
					_, _ = cn.Write([]byte(hd + "\r\n"))
					b := mkBody(1 << 16)
					if fr == "chunked" {
						b = []byte(fmt.Sprintf("%x\r\n%s\r\n", len(b), b))
					}
					for sent < total {
						k, err := cn.Write(b)
						sent += int64(k)
						if err != nil {
							break
						}
					}
					finished <- sent
					return false
				})
				r := fetch(t, f, s.url(), l, long)
				if r.err == nil {
					t.Fail("a body of %d bytes passes a limit of %d", total, l)
				}
				t.State(fmt.Sprint("huge", fr, l))
				select {
				case n := <-finished:
					if n > total/2 {
						t.Fail("%d bytes of a body were taken for a limit of %d", n, l)
					}
				case <-time.After(30 * time.Second):
					// the connection is kept open but nothing is read: no more is taken than the buffers hold
				}
			}
		})
	}
}

// c15stalls: the server stops at every point of the exchange.
func c15stalls(c *Ctx, s *rawSrv, f *fetcher.DefaultFetcher) {
	full := map[string]string{
		"announced":   "HTTP/1.1 200 OK\r\nContent-Length: 10\r\n\r\n0123456789",
		"chunked":     "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\na\r\n0123456789\r\n0\r\n\r\n",
		"until close": "HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n0123456789",
		"error":       "HTTP/1.1 500 No\r\nContent-Length: 10\r\n\r\n0123456789",
	}
	const tmo = 150 * time.Millisecond
	for _, kind := range sortedKeys(full) {
		raw := full[kind]
		c.Case(func() string { return "stalls, " + kind }, func(t *T) {
			hdr := strings.Index(raw, "\r\n\r\n") + 4
			var cuts []int
			for i := 0; i <= len(raw); i++ {
				if c.Thorough() || i == 0 || i == 5 || i == 17 || i >= hdr-2 {
					cuts = append(cuts, i)
				}
			}
			type run struct {
				cut   int
				limit int64
			}
			for _, cut := range cuts {
				for _, l := range []int64{5, 10, 100} {
					if l == 5 && cut < hdr || l == 100 && cut < hdr && !c.Thorough() {
						continue
					}
					s.set(stallScript([][]byte{[]byte(raw[:cut])}, 0, nil))
					complete := kind != "until close" && kind != "error" && cut == len(raw) && l >= 10
					tm := tmo
					if complete {
						tm = 20 * time.Second
					}
					r := fetch(t, f, s.url(), l, tm)
					t.State(fmt.Sprint("stall", kind, cut, l))
					if (r.err == nil) != complete {
						t.Fail("%s response stalling after %d of %d bytes, limit %d: %s after %v", kind, cut, len(raw), l, refused(r.err), r.took)
					}
					if r.took > tm+10*time.Second {
						t.Fail("%s response stalling after %d bytes: answer only after %v with a timeout of %v", kind, cut, r.took, tm)
					}
					if complete && string(r.data) != "0123456789" {
						t.Fail("wrong body %q", r.data)
					}
				}
			}
		})
	}
	c.Case(func() string { return "dripping bodies and headers" }, func(t *T) {
		for _, d := range []struct{ start, drip string }{
			{"HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n", "x"}, {"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", "1\r\nx\r\n"},
			{"HTTP/1.1 200 OK\r\nContent-Length: 1000000\r\n\r\n", "x"}, {"HTTP/1.1 200 OK\r\n", "X-A: b\r\n"}, {"", "HTTP/1.1 100 Continue\r\n\r\n"}} {
			s.set(stallScript([][]byte{[]byte(d.start)}, 0, []byte(d.drip)))
			r := fetch(t, f, s.url(), 1<<30, 300*time.Millisecond)
			t.State("drip" + d.start)
			if r.err == nil {
				t.Fail("a dripping answer %q is a success", d.start)
			}
			if r.took > 10*time.Second {
				t.Fail("a dripping answer is given up only after %v", r.took)
			}
		}
	})
	c.Case(func() string { return "slow but in time" }, func(t *T) {
		for _, kind := range []string{"announced", "chunked"} {
			raw := full[kind]
			var parts [][]byte
			for i := 0; i < len(raw); i += 5 {
				parts = append(parts, []byte(raw[i:min(i+5, len(raw))]))
			}
			s.set(stallScript(parts, 15*time.Millisecond, nil))
			r := fetch(t, f, s.url(), 10, 60*time.Second)
			t.State("slow" + kind)
			if r.err != nil || string(r.data) != "0123456789" {
				t.Fail("slow answer: %v %q", r.err, r.data)
			}
		}
	})
}

// c15pairs: the outcome does not depend on what the same fetcher did before.
func c15pairs(c *Ctx, s *rawSrv) {
	type ex struct {
		name, raw string
		limit     int64
		want      string
		good      bool
		close     bool
	}
	exs := []ex{
		{"a", "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nfirst", 5, "first", true, false},
		{"too long", "HTTP/1.1 200 OK\r\nContent-Length: 6\r\n\r\nsecond", 5, "", false, false},
		{"chunked", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nthird\r\n0\r\n\r\n", 5, "third", true, false},
		{"chunked too long", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n7\r\nforthXX\r\n0\r\n\r\n", 5, "", false, false},
		{"404", "HTTP/1.1 404 No\r\nContent-Length: 5\r\n\r\nfifth", 5, "", false, false},
		{"cut", "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nsix", 5, "", false, true},
		{"empty", "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", 5, "", true, false},
	}
	depth := Pick(c, 2, 3)
	for i := range exs {
		c.Case(func() string { return "sequences on one fetcher starting with " + exs[i].name }, func(t *T) {
			var rec func(h []int)
			rec = func(h []int) {
				if len(h) == depth {
					f := &fetcher.DefaultFetcher{}
					var cur ex
					s.set(func(cn net.Conn, r *bufio.Reader, done chan struct{}) bool {
						s.mu.Lock()
						e := cur
						s.mu.Unlock()
						_, _ = cn.Write([]byte(e.raw))
						return !e.close
					})
					for k, x := range h {
						e := exs[x]
						s.mu.Lock()
						cur = e
						s.mu.Unlock()
						r := fetch(t, f, s.url(), e.limit, 20*time.Second)
						t.State(fmt.Sprint("pair", h[:k+1]))
						if (r.err == nil) != e.good || e.good && string(r.data) != e.want {
							t.Fail("exchange %q after %v: %s %q", e.name, h[:k], refused(r.err), r.data)
						}
					}
					return
				}
				for j := range exs {
					rec(append(append([]int{}, h...), j))
				}
			}
			rec([]int{i})
		})
	}
}

// countBody counts what is taken from it.
type countBody struct {
	left int64 // -1: endless
	took int64
	step int
	end  error
}

func (b *countBody) Read(p []byte) (int, error) {
	if b.left == 0 {
		return 0, b.end
	}
	n := len(p)
	if b.step > 0 && n > b.step {
		n = b.step
	}
	if b.left > 0 && int64(n) > b.left {
		n = int(b.left)
	}
	for i := 0; i < n; i++ {
		p[i] = byte((b.took+int64(i))*7 + (b.took+int64(i))>>8)
	}
	b.took += int64(n)
	if b.left > 0 {
		b.left -= int64(n)
	}
	return n, nil
}
func (b *countBody) Close() error { return nil }

type standIn struct {
	res  func(r *http.Request) *http.Response
	used int
}

func (s *standIn) RoundTrip(r *http.Request) (*http.Response, error) {
	s.used++
	return s.res(r), nil
}

// c15count: exactly how much of a body is taken.
func c15count(c *Ctx) {
	for _, step := range []int{0, 1, 7, 512} {
		c.Case(func() string { return fmt.Sprintf("bytes taken, reads of at most %d", step) }, func(t *T) {
			old := http.DefaultTransport
			defer func() { http.DefaultTransport = old }()
			for _, l := range []int64{0, 1, 2, 5, 510, 511, 512, 513, 1000, 4096, 70000} {
				for _, n := range []int64{-1, 0, 1, l - 1, l, l + 1, l + 2, 2*l + 100} {
					if n < -1 {
						continue
					}
					for _, ann := range []string{"", "0", "1", fmt.Sprint(l), fmt.Sprint(l + 1), fmt.Sprint(n)} {
						for _, end := range []error{io.EOF, io.ErrUnexpectedEOF, errors.New("reset")} {
							if ann == "-1" {
								continue
							}
							b := &countBody{left: n, step: step, end: end}
							st := &standIn{res: func(r *http.Request) *http.Response {
								res := &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: b, ContentLength: -1, Request: r}
								if ann != "" {
									res.Header.Set("Content-Length", ann)
									res.ContentLength, _ = strconv.ParseInt(ann, 10, 64)
								}
								return res
							}}
							http.DefaultTransport = st
							r := fetch(t, &fetcher.DefaultFetcher{}, "http://stand.in/f", l, time.Minute)
							if st.used == 0 { // the fetcher does not go through the default transport
								return
							}
							t.State(fmt.Sprint("count", step, l, n, ann, end))
							what := fmt.Sprintf("body of %d bytes ending in %v, announced %q, limit %d", n, end, ann, l)
							if b.took > l+1 {
								t.Fail("%s: %d bytes were taken", what, b.took)
							}
							a, err := strconv.ParseInt(ann, 10, 64)
							if err == nil && a > l || n > l || n == -1 || end != io.EOF {
								if r.err == nil {
									t.Fail("%s: success with %d bytes", what, len(r.data))
								}
							} else if err != nil || a == n {
								if r.err != nil {
									t.Fail("%s: %v", what, r.err)
								}
								if int64(len(r.data)) != n || !bytes.Equal(r.data, mkBody(int(n))) {
									t.Fail("%s: %d bytes returned", what, len(r.data))
								}
							}
							t.Outcome(fmt.Sprint(r.err == nil))
						}
					}
				}
			}
		})
	}
}
