//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)

// ---- H03: the real HTTP server on a real connection ----

// nreq is one request sent over the connection and what its handler does.
type nreq struct {
	name    string
	method  string
	http10  bool
	code    int
	hdrs    http.Header
	data    []byte
	fail    int  // fails after this many body bytes (-1 never)
	early   bool // fails before the header
	known   bool // the body's length is known beforehand
	closeE  bool
	declare bool // Content-Length is set although the body's length is not known
	mk      func(q *nreq) body.Body
	how     int // failure: 0 error, 1 panic
	kind    int // shape of the error
	step    int // bytes per read of the source
	// the request's own body
	send    []byte
	chunked bool
	lost    bool
	use     int // what the handler does with it: ignore, read some, read all, and more than all; echo, echo with its length
}

var useNames = []string{"ignored", "read in part", "read", "closed unread", "echoed", "echoed with its length"}

// cutReader delivers data and fails at a given place.
type cutReader struct {
	data []byte
	pos  int
	fail int
	how  int
	step int
	ce   bool
	err  error
}

// bad is the failure of this source.
func (r *cutReader) bad() error {
	if r.err != nil {
		return r.err
	}
	return errCut
}

var errCut = errors.New("the source failed")

func (r *cutReader) Read(p []byte) (int, error) {
	if r.fail >= 0 && r.pos >= r.fail {
		if r.how == 1 {
			panic("the source panicked")
		}
		return 0, r.bad()
	}
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	end := len(r.data)
	if r.fail >= 0 && end > r.fail {
		end = r.fail
	}
	if r.step > 0 && end > r.pos+r.step {
		end = r.pos + r.step
	}
	n := copy(p, r.data[r.pos:end])
	r.pos += n
	return n, nil
}

func (r *cutReader) Close() error {
	if r.ce {
		return r.bad()
	}
	return nil
}

// cutAt is the same with random access.
type cutAt struct{ *cutReader }

func (r cutAt) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(r.data)) {
		return 0, io.EOF
	}
	end := len(r.data)
	if r.fail >= 0 && end > r.fail {
		end = r.fail
	}
	n := 0
	if off < int64(end) {
		n = copy(p, r.data[off:end])
	}
	if n == len(p) {
		return n, nil
	}
	if r.fail >= 0 {
		if r.how == 1 {
			panic("the source panicked")
		}
		return n, r.bad()
	}
	return n, io.EOF
}

func (r cutAt) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(r.pos)
	case io.SeekEnd:
		off += int64(len(r.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	r.pos = int(off)
	return off, nil
}

type cutSeek struct{ r cutAt }

func (r cutSeek) Read(p []byte) (int, error)                { return r.r.Read(p) }
func (r cutSeek) Seek(off int64, whence int) (int64, error) { return r.r.Seek(off, whence) }
func (r cutSeek) Close() error                              { return r.r.Close() }

// cutBody is a foreign Body over a cutReader.
type cutBody struct {
	*cutReader
	known bool
}

func (b cutBody) BytesRemaining() int64 {
	if b.known {
		return int64(len(b.data) - b.pos)
	}
	return -1
}
func (b cutBody) Copy() (body.Body, error) { return nil, errors.New("no copies") }
func (b cutBody) Unwrap() io.Reader        { return nil }

func (q *nreq) src() *cutReader {
	r := &cutReader{data: q.data, fail: q.fail, how: q.how, step: 1500, ce: q.closeE}
	if q.kind > 0 {
		r.err = env.NewErr(q.kind, "source")
	}
	if q.step > 0 {
		r.step = q.step
	}
	return r
}

func must(b body.Body, err error) body.Body {
	if err != nil {
		panic(err)
	}
	return b
}

type nbody struct {
	name  string
	known bool
	mk    func(q *nreq) body.Body
	fails bool
}

var nbodies = []nbody{
	{"memory", true, func(q *nreq) body.Body { return body.FromBytes(q.data) }, false},
	{"readerat", true, func(q *nreq) body.Body {
		return must(body.FromReaderAndLength(cutAt{q.src()}, int64(len(q.data))))
	}, true},
	{"seeker", true, func(q *nreq) body.Body { return must(body.FromReader(cutSeek{cutAt{q.src()}})) }, true},
	{"stream", false, func(q *nreq) body.Body { return must(body.FromReader(q.src())) }, true},
	{"stream-known", true, func(q *nreq) body.Body {
		return must(body.FromReaderAndLength(q.src(), int64(len(q.data))))
	}, true},
	{"custom", false, func(q *nreq) body.Body { return cutBody{q.src(), false} }, true},
	{"custom-known", true, func(q *nreq) body.Body { return cutBody{q.src(), true} }, true},
}

func (q *nreq) handle(s *nserver, r *http.Request) response.Response {
	if q.send != nil {
		var got []byte
		switch q.use {
		case 1:
			got = make([]byte, (len(q.send)+1)/2)
			io.ReadFull(r.Body, got)
		case 2:
			got, _ = io.ReadAll(r.Body)
		case 3:
			r.Body.Close()
		case 4:
			q.mk = func(q *nreq) body.Body { return must(body.FromReader(r.Body)) }
		case 5:
			q.mk = func(q *nreq) body.Body { return must(body.FromReaderAndLength(r.Body, r.ContentLength)) }
		}
		if !bytes.HasPrefix(q.send, got) || q.use == 2 && len(got) != len(q.send) {
			s.mu.Lock()
			q.lost = true
			s.mu.Unlock()
		}
	}
	if q.early {
		switch q.how {
		case 1:
			panic("the handler panicked")
		case 2:
			return response.Response{}
		}
		panic(errHandler)
	}
	b := response.NewBuilder().WithStatus(q.code).WithBody(q.mk(q))
	for k, vl := range q.hdrs {
		for _, v := range vl {
			b.WithHeader(k, v, true)
		}
	}
	if q.declare {
		b.WithHeader("Content-Length", strconv.Itoa(len(q.data)), false)
	}
	return *b.Build()
}

// nserver is one real server; requests carry the index of their nreq.
type nserver struct {
	srv *http.Server
	ln  *pipeListener
	tcp net.Listener
	mu  sync.Mutex
	cur []*nreq
}

type pipeListener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *pipeListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *pipeListener) Addr() net.Addr { return &net.UnixAddr{Name: "pipe", Net: "unix"} }

func newServer(tcp bool) (*nserver, error) {
	s := &nserver{}
	s.srv = &http.Server{
		ErrorLog: log.New(io.Discard, "", 0),
		Handler: handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response {
			i, _ := strconv.Atoi(r.Header.Get("X-Index"))
			s.mu.Lock()
			q := s.cur[i]
			s.mu.Unlock()
			return q.handle(s, r)
		})},
	}
	if tcp {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, err
		}
		s.tcp = l
		go s.srv.Serve(l)
		return s, nil
	}
	s.ln = &pipeListener{ch: make(chan net.Conn), done: make(chan struct{})}
	go s.srv.Serve(s.ln)
	return s, nil
}

func (s *nserver) dial() (net.Conn, error) {
	if s.tcp != nil {
		c, err := net.Dial("tcp", s.tcp.Addr().String())
		if err == nil {
			c.(*net.TCPConn).SetLinger(0)
		}
		return c, err
	}
	a, b := net.Pipe()
	s.ln.ch <- b
	return a, nil
}

// pump lets the client write while it also reads (pipes are unbuffered).
func pump(c net.Conn, reqs []byte) {
	go c.Write(reqs)
}

var nServers = map[bool]*nserver{}

func (q *nreq) String() string {
	p := "1.1"
	if q.http10 {
		p = "1.0"
	}
	f := "no failure"
	switch {
	case q.early:
		f = []string{"the handler panics with an error", "the handler panics", "the handler returns a zero Response"}[q.how]
	case q.fail >= 0:
		f = fmt.Sprintf("the body %s after %d bytes", []string{"fails", "panics"}[q.how], q.fail)
	case q.closeE:
		f = "closing the body fails"
	}
	if q.send != nil {
		f += fmt.Sprintf(", request body of %d bytes (chunked=%v) %s", len(q.send), q.chunked, useNames[q.use])
	}
	if q.kind > 0 {
		f += fmt.Sprintf(" (error of shape %d)", q.kind)
	}
	return fmt.Sprintf("%s (HTTP/%s) status %d, %s body of %d bytes, declared=%v, %s", q.method, p, q.code, q.name, len(q.data), q.declare, f)
}

// exchange sends the requests down one connection and judges the answers.
func (s *nserver) exchange(c *mc.Ctl, qs []*nreq) *mc.Fail {
	s.mu.Lock()
	s.cur = qs
	s.mu.Unlock()
	old := handler.OnPanic
	defer func() { handler.OnPanic = old }()
	var told atomic.Int32
	handler.OnPanic = func(error) { told.Add(1) }
	wantTold := int32(0)
	conn, err := s.dial()
	if err != nil {
		return mc.Failf("harness", "cannot connect: %v", err)
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	var buf bytes.Buffer
	for i, q := range qs {
		v, ka := "1.1", ""
		if q.http10 {
			v, ka = "1.0", "Connection: keep-alive\r\n"
		}
		switch {
		case q.send != nil && q.chunked && !q.http10:
			ka += "Transfer-Encoding: chunked\r\n"
		case q.send != nil:
			ka += fmt.Sprintf("Content-Length: %d\r\n", len(q.send))
		}
		fmt.Fprintf(&buf, "%s /r HTTP/%s\r\nHost: h\r\nX-Index: %d\r\n%s\r\n", q.method, v, i, ka)
		if q.send != nil && q.chunked && !q.http10 {
			for at := 0; at < len(q.send); at += 700 {
				part := q.send[at:min(at+700, len(q.send))]
				fmt.Fprintf(&buf, "%x\r\n%s\r\n", len(part), part)
			}
			buf.WriteString("0\r\n\r\n")
		} else {
			buf.Write(q.send)
		}
	}
	pump(conn, buf.Bytes())
	br := bufio.NewReader(conn)
	prevBroken := false
	for i, q := range qs {
		what := fmt.Sprintf("request %d of %v", i+1, qs)
		if len(qs) > 6 {
			what = fmt.Sprintf("request %d of %d like %v", i+1, len(qs), qs[:6])
		}
		resp, err := http.ReadResponse(br, &http.Request{Method: q.method})
		if prevBroken {
			// the connection has to be over; whatever comes must not be an answer
			if err == nil {
				return mc.Failf("disturb", "%s: an answer (status %d) arrived after a broken response on the same connection", what, resp.StatusCode)
			}
			return nil
		}
		if err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return mc.Failf("disturb", "%s: no answer within 20 s", what)
			}
			return mc.Failf("disturb", "%s: no readable answer: %v", what, err)
		}
		data, rerr := io.ReadAll(resp.Body)
		c.Logf("%v -> %s %v, %d bytes, %v", q, resp.Status, resp.Header, len(data), rerr)
		if ne, ok := rerr.(net.Error); ok && ne.Timeout() {
			return mc.Failf("disturb", "%s: the body did not arrive within 20 s", what)
		}
		s.mu.Lock()
		lost := q.lost
		s.mu.Unlock()
		if lost {
			return mc.Failf("disturb", "%s: the handler did not get the request's body as it was sent", what)
		}
		bodyless := q.method == "HEAD" || q.code == 204 || q.code == 304
		if q.early || q.fail >= 0 || q.closeE {
			wantTold++
		}
		if q.early {
			if resp.StatusCode != 500 {
				return mc.Failf("status", "%s: status %d, want 500", what, resp.StatusCode)
			}
			if len(data) != 0 || rerr != nil {
				return mc.Failf("body", "%s: the 500 has a body of %d bytes, error %v", what, len(data), rerr)
			}
			continue
		}
		if resp.StatusCode != q.code {
			return mc.Failf("status", "%s: status %d, want %d", what, resp.StatusCode, q.code)
		}
		for k, vl := range q.hdrs {
			if k == "Push" {
				if resp.Header["Push"] != nil {
					return mc.Failf("headers", "%s: the Push header reached the client", what)
				}
				continue
			}
			if (k == "Content-Type" || k == "Content-Length") && (q.code == 204 || q.code == 304) {
				continue
			}
			if fmt.Sprint(resp.Header[k]) != fmt.Sprint(vl) {
				return mc.Failf("headers", "%s: header %s is %q, want %q", what, k, resp.Header[k], vl)
			}
		}
		for k := range resp.Header {
			switch k {
			case "Date", "Content-Length", "Content-Type", "Connection", "Transfer-Encoding":
			default:
				if q.hdrs[k] == nil {
					return mc.Failf("headers", "%s: unexpected header %s: %q", what, k, resp.Header[k])
				}
			}
		}
		if cl := resp.Header.Get("Content-Length"); cl != "" && q.code != 204 && q.code != 304 && q.fail < 0 && !(q.method == "HEAD" && cl == "0" && !q.known) {
			if cl != strconv.Itoa(len(q.data)) {
				return mc.Failf("headers", "%s: Content-Length %s, the body has %d bytes", what, cl, len(q.data))
			}
		}
		if bodyless {
			if len(data) != 0 || rerr != nil {
				return mc.Failf("body", "%s: a body of %d bytes (%v) where none is allowed", what, len(data), rerr)
			}
			continue
		}
		if q.fail >= 0 {
			if !bytes.HasPrefix(q.data, data) {
				return mc.Failf("body", "%s: the client got bytes that are not in the response", what)
			}
			if rerr == nil && len(q.data) == 0 && (q.known || q.declare) {
				continue // nothing is missing
			}
			if rerr == nil {
				why := "known length"
				if !q.known && !q.declare {
					why = "unknown length"
				}
				if told.Load() < wantTold {
					why += " (and the panic hook was not told)"
				}
				return mc.Failf("truncated", "%s: a response of %s that failed after %d of %d bytes reached the client as a complete one of %d bytes", what, why, q.fail, len(q.data), len(data))
			}
			prevBroken = true
			continue
		}
		if rerr != nil {
			return mc.Failf("body", "%s: reading the body failed: %v", what, rerr)
		}
		if !bytes.Equal(data, q.data) {
			return mc.Failf("body", "%s: got a body of %d bytes, want %d", what, len(data), len(q.data))
		}
		if resp.Close {
			// e.g. HTTP/1.0 without a length: the connection ends here, legitimately
			return nil
		}
	}
	// nothing more may come
	conn.SetReadDeadline(time.Now().Add(time.Millisecond))
	if extra, err := br.Peek(1); err == nil {
		return mc.Failf("disturb", "after the last answer of %v more bytes arrived (%q)", qs, extra)
	}
	return nil
}

var nhdrs = http.Header{"X-A": {"1", "2"}, "Set-Cookie": {"a=b", "c=d"}, "Content-Type": {"text/weird"}, "Push": {"/p"}}

func h03units(tier string) []*mc.Unit {
	var out []*mc.Unit
	sizes := []int{0, 5, 3000, 70001}
	methods := []string{"GET", "HEAD", "POST"}
	codes := []int{200, 204, 304, 404, 500, 999}
	// probes follow the request under test on the same connection
	probes := []func() *nreq{
		func() *nreq {
			return &nreq{name: "memory", method: "GET", code: 200, data: []byte("probe"), fail: -1, known: true, hdrs: http.Header{"X-P": {"p"}}, mk: nbodies[0].mk}
		},
		func() *nreq {
			return &nreq{name: "stream", method: "GET", code: 404, data: env.Bytes(3000), fail: -1, hdrs: http.Header{}, mk: nbodies[3].mk}
		},
		func() *nreq {
			return &nreq{name: "memory", method: "HEAD", code: 200, data: []byte("probe"), fail: -1, known: true, hdrs: http.Header{"X-P": {"p"}}, mk: nbodies[0].mk}
		},
	}
	pick1 := func(c *mc.Ctl, nb nbody, method string, size int) *nreq {
		q := &nreq{name: nb.name, method: method, known: nb.known, mk: nb.mk, data: env.Bytes(int64(size)), fail: -1, hdrs: nhdrs}
		q.code = codes[c.Choose(len(codes), mc.Free)]
		q.http10 = c.Choose(2, mc.Free) == 1
		if !nb.known && c.Choose(2, mc.Free) == 1 {
			q.declare = true
		}
		if nb.fails {
			f := []int{-1, 0, size / 2, size - 1}
			if size == 0 {
				f = []int{-1, 0}
			} else if size == 5 {
				f = []int{-1, 0, 2, 4}
			} else if size > 5000 {
				f = []int{-1, 0, 40000, size - 1}
			}
			k := c.Choose(2*len(f), mc.Free)
			q.fail, q.how = f[k/2], k%2
			if q.fail < 0 {
				q.closeE, q.how = q.how == 1, 0
			}
			if size == 0 && q.fail == 0 && q.known {
				q.fail = -1 // an empty body of known length is never read
			}
		}
		return q
	}
	early := func(c *mc.Ctl, method string) *nreq {
		return &nreq{name: "no", method: method, code: 500, fail: -1, early: true, how: c.Choose(3, mc.Free), http10: c.Choose(2, mc.Free) == 1}
	}
	for _, tcp := range []bool{false, true} {
		for _, method := range methods {
			for _, size := range sizes {
				for _, nb := range nbodies {
					tcp, method, size, nb := tcp, method, size, nb
					if tcp && tier == "quick" && (method == "POST" || size == 3000) {
						continue
					}
					out = append(out, &mc.Unit{Name: fmt.Sprintf("tcp=%v/%s/%d/%s", tcp, method, size, nb.name), Run: func(c *mc.Ctl) *mc.Fail {
						return h03run(c, tcp, func() []*nreq {
							q := pick1(c, nb, method, size)
							p := probes[c.Choose(len(probes), mc.Free)]()
							p.http10 = q.http10
							return []*nreq{q, p}
						})
					}})
				}
			}
			tcp, method := tcp, method
			out = append(out, &mc.Unit{Name: fmt.Sprintf("tcp=%v/%s/early", tcp, method), Run: func(c *mc.Ctl) *mc.Fail {
				return h03run(c, tcp, func() []*nreq {
					q := early(c, method)
					p := probes[c.Choose(len(probes), mc.Free)]()
					p.http10 = q.http10
					return []*nreq{q, p}
				})
			}})
		}
	}
	// sequences of three over the whole alphabet of small requests
	for _, nb := range nbodies {
		for _, nb2 := range nbodies {
			if tier == "quick" && nb.name != nb2.name && nb.name != "memory" && nb2.name != "stream" {
				continue
			}
			nb, nb2 := nb, nb2
			out = append(out, &mc.Unit{Name: fmt.Sprintf("three/%s/%s", nb.name, nb2.name), Run: func(c *mc.Ctl) *mc.Fail {
				return h03run(c, false, func() []*nreq {
					var l []*nreq
					for _, b := range []nbody{nb, nb2} {
						q := &nreq{name: b.name, known: b.known, mk: b.mk, data: env.Bytes(5), fail: -1, hdrs: nhdrs}
						q.method = methods[c.Choose(2, mc.Free)]
						q.code = []int{200, 204, 304, 404}[c.Choose(4, mc.Free)]
						if b.fails && c.Choose(2, mc.Free) == 1 {
							q.fail = 2
						}
						l = append(l, q)
					}
					return append(l, probes[0]())
				})
			}})
		}
	}
	return append(out, h03more(tier, probes)...)
}

// h03more has the wide ranges: statuses, methods, sizes, error shapes, long
// sequences.
func h03more(tier string, probes []func() *nreq) []*mc.Unit {
	var out []*mc.Unit
	unit := func(name string, mk func(c *mc.Ctl) []*nreq) {
		out = append(out, &mc.Unit{Name: name, Run: func(c *mc.Ctl) *mc.Fail {
			return h03run(c, false, func() []*nreq { return mk(c) })
		}})
	}
	plain := func(nb nbody, method string, code, size int) *nreq {
		return &nreq{name: nb.name, known: nb.known, mk: nb.mk, data: env.Bytes(int64(size)), fail: -1, hdrs: nhdrs, method: method, code: code}
	}
	for lo := 200; lo < 1000; lo += 100 {
		lo := lo
		unit(fmt.Sprintf("statuses/%d-%d", lo, lo+99), func(c *mc.Ctl) []*nreq {
			nb := nbodies[[]int{0, 3, 6}[c.Choose(3, mc.Free)]]
			method := []string{"GET", "HEAD"}[c.Choose(2, mc.Free)]
			q := plain(nb, method, lo+c.Choose(100, mc.Free), 5)
			q.http10 = c.Choose(2, mc.Free) == 1
			p := probes[0]()
			p.http10 = q.http10
			return []*nreq{q, p}
		})
	}
	for _, nb := range nbodies {
		nb := nb
		unit("methods/"+nb.name, func(c *mc.Ctl) []*nreq {
			m := []string{"GET", "HEAD", "POST", "PUT", "OPTIONS", "TRACE", "DELETE", "PATCH", "head", "PROPFIND"}
			q := plain(nb, m[c.Choose(len(m), mc.Free)], []int{200, 204, 205, 206, 304, 404}[c.Choose(6, mc.Free)], []int{0, 1, 5, 5000}[c.Choose(4, mc.Free)])
			return []*nreq{q, probes[c.Choose(len(probes), mc.Free)]()}
		})
		unit("sizes/"+nb.name, func(c *mc.Ctl) []*nreq {
			sz := []int{1, 2, 511, 512, 513, 1499, 1500, 1501, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 200000}
			q := plain(nb, []string{"GET", "HEAD"}[c.Choose(2, mc.Free)], 200, sz[c.Choose(len(sz), mc.Free)])
			q.step = []int{1, 1500, 4096, 1 << 30}[c.Choose(4, mc.Free)]
			if len(q.data) > 5000 && q.step == 1 {
				q.step = 511
			}
			q.http10 = c.Choose(2, mc.Free) == 1
			if !nb.known {
				q.declare = c.Choose(2, mc.Free) == 1
			}
			p := probes[0]()
			p.http10 = q.http10
			return []*nreq{q, p}
		})
		if nb.fails {
			unit("shapes/"+nb.name, func(c *mc.Ctl) []*nreq {
				q := plain(nb, []string{"GET", "HEAD"}[c.Choose(2, mc.Free)], 200, []int{5, 3000, 70001}[c.Choose(3, mc.Free)])
				q.kind = 1 + c.Choose(env.ErrKinds-1, mc.Free)
				switch c.Choose(4, mc.Free) {
				case 0:
					q.fail = 0
				case 1:
					q.fail = len(q.data) / 2
				case 2:
					q.fail = len(q.data) - 1
				case 3:
					q.closeE = true
				}
				q.http10 = c.Choose(2, mc.Free) == 1
				if !nb.known {
					q.declare = c.Choose(2, mc.Free) == 1
				}
				p := probes[0]()
				p.http10 = q.http10
				return []*nreq{q, p}
			})
		}
	}
	// header names and values net/http passes through
	var names []string
	for _, n := range stdNames {
		switch n {
		case "Connection", "Transfer-Encoding", "Content-Length", "Content-Type", "Trailer", "Date", "Upgrade", "Te", "Keep-Alive", "Proxy-Connection", "Host", "Push":
		default:
			names = append(names, n)
		}
	}
	for _, i := range []int{0, 3, 6} {
		nb := nbodies[i]
		unit("names/"+nb.name, func(c *mc.Ctl) []*nreq {
			q := plain(nb, []string{"GET", "HEAD"}[c.Choose(2, mc.Free)], []int{200, 204, 304, 404}[c.Choose(4, mc.Free)], 5)
			n := names[c.Choose(len(names), mc.Free)]
			q.hdrs = http.Header{n: [][]string{{"v"}, {"a", "b", "a"}, {"", "x"}, {strings.Repeat("long ", 1200) + "."}}[c.Choose(4, mc.Free)]}
			return []*nreq{q, probes[0]()}
		})
		unit("many headers/"+nb.name, func(c *mc.Ctl) []*nreq {
			q := plain(nb, []string{"GET", "HEAD"}[c.Choose(2, mc.Free)], []int{200, 204, 304, 404}[c.Choose(4, mc.Free)], 5)
			q.hdrs = http.Header{}
			n := []int{1, 7, 8, 15, 16, 17, 40, 200}[c.Choose(8, mc.Free)]
			m := []int{1, 2, 9, 50}[c.Choose(4, mc.Free)]
			for i := 0; i < n; i++ {
				var v []string
				for j := 0; j < m; j++ {
					v = append(v, fmt.Sprintf("%d.%d", i, j))
				}
				q.hdrs[fmt.Sprintf("X-Many-%d", i)] = v
			}
			return []*nreq{q, probes[0]()}
		})
	}
	// requests with a body of their own
	for _, method := range []string{"POST", "PUT", "GET", "DELETE", "HEAD"} {
		method := method
		unit("request bodies/"+method, func(c *mc.Ctl) []*nreq {
			size := []int{0, 1, 5, 1500, 4096, 5000, 70001}[c.Choose(7, mc.Free)]
			use := c.Choose(len(useNames), mc.Free)
			q := plain(nbodies[[]int{0, 3}[c.Choose(2, mc.Free)]], method, []int{200, 204, 404}[c.Choose(3, mc.Free)], 5)
			q.send, q.use = env.Bytes(int64(size)), use
			q.chunked = c.Choose(2, mc.Free) == 1
			q.http10 = c.Choose(2, mc.Free) == 1
			if use >= 4 {
				if size > 1500 {
					size = 1501
				}
				q.send = env.Bytes(int64(size))
				q.data = q.send
				q.name, q.known = "echoed", use == 5 && (!q.chunked || q.http10)
			}
			if use < 4 && c.Choose(2, mc.Free) == 1 {
				q.early, q.how = true, c.Choose(3, mc.Free)
			}
			var l []*nreq
			l = append(l, q)
			if c.Choose(2, mc.Free) == 1 {
				q2 := *q
				q2.early = false
				l = append(l, &q2)
			}
			p := probes[c.Choose(len(probes), mc.Free)]()
			for _, x := range []*nreq{p} {
				x.http10 = q.http10
			}
			return append(l, p)
		})
	}
	// a long life of one connection: two responses in turn
	n := pick(tier, 24, 120)
	for i := range nbodies {
		for j := range nbodies {
			i, j := i, j
			unit(fmt.Sprintf("long/%s/%s", nbodies[i].name, nbodies[j].name), func(c *mc.Ctl) []*nreq {
				m := [2]string{[]string{"GET", "HEAD"}[c.Choose(2, mc.Free)], []string{"GET", "HEAD"}[c.Choose(2, mc.Free)]}
				code := [2]int{[]int{200, 204, 500}[c.Choose(3, mc.Free)], []int{200, 304}[c.Choose(2, mc.Free)]}
				size := [2]int{[]int{5, 3000}[c.Choose(2, mc.Free)], 7}
				early := c.Choose(2, mc.Free) == 1
				var l []*nreq
				for k := 0; k < n; k++ {
					nb := nbodies[[2]int{i, j}[k%2]]
					q := plain(nb, m[k%2], code[k%2], size[k%2])
					if early && k%5 == 4 {
						q = &nreq{name: "no", method: m[k%2], code: 500, fail: -1, early: true, how: k % 3}
					}
					l = append(l, q)
				}
				return l
			})
		}
	}
	return out
}

func h03run(c *mc.Ctl, tcp bool, mk func() []*nreq) *mc.Fail {
	s := nServers[tcp]
	if s == nil {
		var err error
		if s, err = newServer(tcp); err != nil {
			return mc.Failf("harness", "cannot listen: %v", err)
		}
		nServers[tcp] = s
	}
	qs := mk()
	h := mc.NewHash()
	for _, q := range qs {
		h = h.S(q.String())
	}
	c.State(uint64(h))
	c.Trans(uint64(h.B(tcp)))
	return s.exchange(c, qs)
}

func init() {
	register(&Prop{ID: "H03", Timing: true, Threads: true, Judge: judge("status headers body truncated disturb"), Units: h03units,
		Known: func(u *mc.Unit, f *mc.Fail) string {
			if f.Cat == "truncated" && strings.Contains(f.Msg, ": a response of unknown length that failed after ") {
				return "unknown-length-truncation"
			}
			return ""
		},
		Rule:        "an execution is a sequence of two or three requests pipelined on one connection to the standard server running the adaptor; what the client parses from the connection (status, headers, body, completeness, nothing left over) is compared with the responses the handlers returned",
		Bounds:      map[string]string{"quick": "3 methods x 6 statuses x HTTP/1.0 and 1.1 x 7 body kinds x 4 sizes x failure by error or panic at 3 places or in Close x 3 following requests, over an in-memory connection and (smaller) over loopback TCP; sequences of three small requests", "thorough": "the same with all of it over TCP as well, and all pairs of body kinds in sequences of three"},
		Assumptions: []string{"HTTP/1.x only", "the goroutine schedule inside net/http is the runtime's, one connection at a time", "headers are ones net/http passes through unchanged"}})
}
