//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/fakew"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)

// ---- R02 ----

type r02b struct {
	b    *response.Builder
	hdrs http.Header
	body string // "" none
	code int
	err  error
	gen  response.PageGenerator
}

type r02r struct {
	r      *response.Response
	hdrs   http.Header
	body   string
	code   int
	err    error
	served bool
}

type r02state struct {
	c   *mc.Ctl
	bs  []*r02b
	rs  []*r02r
	ext http.Header
	em  http.Header
	n   int
}

// spare makes a slice with spare capacity, so that appends alias when shared.
func spare(v ...string) []string {
	s := make([]string, 0, len(v)+4)
	return append(s, v...)
}

func (s *r02state) bodyOf(kind int, txt string) body.Body {
	switch kind {
	case 0:
		return body.FromString(txt)
	case 1:
		return streamBody(txt)
	}
	src := strings.NewReader(txt)
	b, err := body.FromReader(struct{ io.ReadSeeker }{src})
	if err != nil {
		panic(err)
	}
	return b
}

func (s *r02state) check(after string) *mc.Fail {
	for i, b := range s.bs {
		if !hdrEqual(b.b.Headers(), b.hdrs) {
			return mc.Failf("alias", "after %s: builder %d has headers %s, want %s", after, i, hdrString(b.b.Headers()), hdrString(b.hdrs))
		}
		if b.b.Status() != b.code || b.b.Err() != b.err || b.b.PageGenerator() != b.gen {
			return mc.Failf("alias", "after %s: builder %d has status %d error %v generator %v, want %d %v %v", after, i, b.b.Status(), b.b.Err(), b.b.PageGenerator(), b.code, b.err, b.gen)
		}
	}
	for i, r := range s.rs {
		if !hdrEqual(r.r.Headers(), r.hdrs) {
			return mc.Failf("alias", "after %s: response %d has headers %s, want %s", after, i, hdrString(r.r.Headers()), hdrString(r.hdrs))
		}
		if r.r.Status() != r.code || r.r.Err() != r.err {
			return mc.Failf("alias", "after %s: response %d has status %d error %v, want %d %v", after, i, r.r.Status(), r.r.Err(), r.code, r.err)
		}
	}
	if !hdrEqual(s.ext, s.em) {
		return mc.Failf("alias", "after %s: the caller's own header map is %s, want %s", after, hdrString(s.ext), hdrString(s.em))
	}
	return nil
}

// mangle modifies every header value in place and appends to every slice.
func mangle(h http.Header) {
	for _, v := range h {
		if len(v) > 0 {
			v[0] = "MANGLED"
		}
	}
	for k, v := range h {
		h[k] = append(v, "EXTRA-"+k)
	}
	h["X-Writer"] = []string{"w"}
}

// serve sends response i to a writer that mangles what it was given.
func (s *r02state) serve(r *r02r, caps int) *mc.Fail {
	w := fakew.New(nil, fakew.Menu{})
	w.MutateHeaders = mangle
	err := r.r.Serve(w.As(caps))
	mangle(w.H)
	r.served = true
	if err != nil {
		return mc.Failf("serve", "serving failed: %v", err)
	}
	want := cloneHdr(r.hdrs)
	delete(want, "Push")
	if !hdrEqual(w.Sent, want) {
		return mc.Failf("alias", "serving sent headers %s, the response has %s", hdrString(w.Sent), hdrString(want))
	}
	// the values the writer was given share nothing with each other either
	mangle(want)
	mangle(want)
	if !hdrEqual(w.H, want) {
		return mc.Failf("alias", "a writer that changes the values it was given ends with %s, want %s", hdrString(w.H), hdrString(want))
	}
	if string(w.Body) != r.body {
		return mc.Failf("alias", "serving sent body %q, want %q", w.Body, r.body)
	}
	return nil
}

type r02op struct {
	name string
	do   func(s *r02state) *mc.Fail
}

func (s *r02state) ops(kind int) []r02op {
	var l []r02op
	add := func(name string, do func(s *r02state) *mc.Fail) { l = append(l, r02op{name, do}) }
	s.n++
	val := fmt.Sprintf("v%d", s.n)
	for i, b := range s.bs {
		b := b
		p := fmt.Sprintf("builder%d.", i)
		add(p+"Headers().Set", func(s *r02state) *mc.Fail {
			b.b.Headers().Set("X-A", val)
			b.hdrs["X-A"] = []string{val}
			return nil
		})
		add(p+"WithHeader(append)", func(s *r02state) *mc.Fail {
			b.b.WithHeader("X-A", val, true)
			b.hdrs["X-A"] = append(append([]string(nil), b.hdrs["X-A"]...), val)
			return nil
		})
		if len(b.hdrs["X-B"]) > 0 {
			add(p+"WithHeader(X-B, append)", func(s *r02state) *mc.Fail {
				b.b.WithHeader("X-B", val, true)
				b.hdrs["X-B"] = append(append([]string(nil), b.hdrs["X-B"]...), val)
				return nil
			})
		}
		if len(b.hdrs["X-A"]) > 0 {
			add(p+"Headers()[X-A][0]=", func(s *r02state) *mc.Fail {
				b.b.Headers()["X-A"][0] = val
				b.hdrs["X-A"][0] = val
				return nil
			})
		}
		add(p+"WithHeaders(map)", func(s *r02state) *mc.Fail {
			b.b.WithHeaders(s.ext)
			b.hdrs = cloneHdr(s.em)
			return nil
		})
		if len(s.bs) < 3 {
			add(p+"Copy", func(s *r02state) *mc.Fail {
				nb, err := b.b.Copy()
				if err != nil || nb == nil {
					return mc.Failf("copy", "copying a builder failed: %v", err)
				}
				x := *b
				x.b, x.hdrs = nb, cloneHdr(b.hdrs)
				s.bs = append(s.bs, &x)
				if b.body == "" && nb.Body() != nil || b.body != "" && nb.Body() == nil {
					return mc.Failf("copy", "the copied builder's body is %v", nb.Body())
				}
				return nil
			})
		}
		if b.body != "" && len(s.rs) < 3 {
			add(p+"Build", func(s *r02state) *mc.Fail {
				r := b.b.Build()
				code := b.code
				if code == 0 {
					code = 200
				}
				m := &r02r{r: r, hdrs: cloneHdr(b.hdrs), body: b.body, code: code, err: b.err}
				if m.hdrs["Content-Type"] == nil {
					m.hdrs["Content-Type"] = []string{"application/octet-stream"}
				}
				// The length of a stream is known once another copy has reached its end.
				known := kind != 1 || r.Headers()["Content-Length"] != nil
				if m.hdrs["Content-Length"] == nil && known {
					m.hdrs["Content-Length"] = []string{fmt.Sprint(len(b.body))}
				}
				s.rs = append(s.rs, m)
				b.hdrs, b.body, b.code, b.err = http.Header{}, "", 0, nil
				return nil
			})
		}
		if b.body == "" {
			add(p+"WithBody", func(s *r02state) *mc.Fail {
				b.b.WithBody(s.bodyOf(kind, "body-"+val))
				b.body = "body-" + val
				return nil
			})
		}
	}
	add("caller's map changes", func(s *r02state) *mc.Fail {
		s.ext["X-A"][0] = val
		s.ext["X-A"] = append(s.ext["X-A"], val)
		s.ext["X-New"] = spare(val)
		s.em = cloneHdr(s.ext)
		return nil
	})
	for i, r := range s.rs {
		r := r
		if r.served {
			continue
		}
		p := fmt.Sprintf("response%d.", i)
		if len(s.rs) < 3 {
			add(p+"Copy", func(s *r02state) *mc.Fail {
				nr, err := r.r.Copy()
				if err != nil || nr == nil {
					return mc.Failf("copy", "copying a response failed: %v", err)
				}
				x := *r
				x.r, x.hdrs = nr, cloneHdr(r.hdrs)
				s.rs = append(s.rs, &x)
				return nil
			})
		}
		add(p+"Serve", func(s *r02state) *mc.Fail { return s.serve(r, 0) })
		add(p+"Body copy read", func(s *r02state) *mc.Fail {
			g, f := readCopy(r.r.Body())
			if f != nil {
				return f
			}
			if string(g) != r.body {
				return mc.Failf("alias", "a copy of the response's body reads %q, want %q", g, r.body)
			}
			return nil
		})
	}
	return l
}

func (s *r02state) key() uint64 {
	h := mc.NewHash()
	for _, b := range s.bs {
		h = h.S(hdrString(b.hdrs)).S(b.body)
	}
	for _, r := range s.rs {
		h = h.S(hdrString(r.hdrs)).S(r.body).B(r.served)
	}
	return uint64(h)
}

func r02units(tier string) []*mc.Unit {
	depth := pick(tier, 5, 6)
	var out []*mc.Unit
	for kind := 0; kind < 3; kind++ {
		for start := 0; start < 2; start++ {
			for first := 0; first < 7; first++ {
				kind, start, first := kind, start, first
				out = append(out, &mc.Unit{Name: fmt.Sprintf("body=%d/start=%d/depth=%d#%d", kind, start, depth, first), Run: func(c *mc.Ctl) (f *mc.Fail) {
					mc.SeqMode = true
					defer func() { mc.SeqMode = false }()
					defer guard(&f)
					s := &r02state{c: c, ext: http.Header{"X-A": spare("ext"), "X-B": spare("extB")}, em: http.Header{"X-A": {"ext"}, "X-B": {"extB"}}}
					b := &r02b{b: response.NewBuilder(), hdrs: http.Header{}, gen: response.DefaultPageGenerator}
					s.bs = append(s.bs, b)
					b.b.WithBody(s.bodyOf(kind, "body-0"))
					b.body = "body-0"
					if start == 1 {
						b.b.WithHeader("X-A", "init", false).WithHeader("X-A", "init2", true).WithHeader("Push", "/p", true).WithStatus(404).WithError(r01errA).WithPageGenerator(r01gen)
						b.hdrs = http.Header{"X-A": {"init", "init2"}, "Push": {"/p"}}
						b.code, b.err, b.gen = 404, r01errA, r01gen
					}
					var trail []string
					for d := 0; d < depth; d++ {
						ops := s.ops(kind)
						var k int
						if d == 0 {
							if first >= len(ops) {
								return nil
							}
							k = first
						} else {
							k = c.Choose(len(ops)+1, mc.Free) - 1
							if k < 0 {
								break
							}
						}
						trail = append(trail, ops[k].name)
						tr := strings.Join(trail, ", ")
						c.Logf("%s", ops[k].name)
						if f := ops[k].do(s); f != nil {
							f.Msg += " (after " + tr + ")"
							return f
						}
						if f := s.check(tr); f != nil {
							return f
						}
						h := s.key()
						c.State(h)
						c.Trans(uint64(mc.Hash(h).S(ops[k].name)))
					}
					tr := strings.Join(trail, ", ")
					for i, b := range s.bs {
						if b.body == "" {
							continue
						}
						g, f := readCopy(b.b.Body())
						if f != nil {
							return f
						}
						if string(g) != b.body {
							return mc.Failf("alias", "after %s: builder %d's body reads %q, want %q", tr, i, g, b.body)
						}
					}
					for i, r := range s.rs {
						if r.served {
							continue
						}
						if f := s.serve(r, 0); f != nil {
							f.Msg += fmt.Sprintf(" (response %d served after %s)", i, tr)
							return f
						}
						if f := s.check(tr + ", final serving"); f != nil {
							return f
						}
					}
					return nil
				}})
			}
		}
	}
	unit := func(name string, run func(c *mc.Ctl) *mc.Fail) {
		out = append(out, &mc.Unit{Name: name, Run: func(c *mc.Ctl) (f *mc.Fail) {
			mc.SeqMode = true
			defer func() { mc.SeqMode = false }()
			defer guard(&f)
			return run(c)
		}})
	}
	// copies of responses and builders of every status
	for kind := 0; kind < 5; kind++ {
		kind := kind
		unit(fmt.Sprintf("statuses/body=%d", kind), func(c *mc.Ctl) *mc.Fail {
			code := 200 + c.Choose(800, mc.Free)
			via := c.Choose(4, mc.Free)
			rev := c.Choose(2, mc.Free) == 1
			late := c.Choose(2, mc.Free) == 1
			c.State(uint64(mc.NewHash().I(int64(code)).I(int64(via))))
			c.Trans(uint64(mc.NewHash().I(int64(code)).I(int64(via)).I(int64(kind)).B(rev).B(late)))
			s := &r02state{c: c}
			txt := "body-0"
			if kind > 2 {
				txt = ""
			}
			var e error
			if code%2 == 1 {
				e = r01errA
			}
			b := response.NewBuilder().WithBody(s.bodyOf(kind%3, txt)).WithHeader("X-A", "1", false).WithHeader("Content-Length", fmt.Sprint(len(txt)), false).WithContentType("text/plain").WithStatus(code).WithError(e)
			want := func(r *response.Response) *r02r {
				return &r02r{r: r, hdrs: http.Header{"X-A": {"1"}, "Content-Length": {fmt.Sprint(len(txt))}, "Content-Type": {"text/plain"}}, body: txt, code: code, err: e}
			}
			what := fmt.Sprintf("status %d, %d body bytes", code, len(txt))
			var rs []*response.Response
			bs := []*response.Builder{b}
			if via >= 2 {
				b2, err := b.Copy()
				if err != nil {
					return mc.Failf("copy", "%s: Builder.Copy failed: %v", what, err)
				}
				bs = append(bs, b2)
			}
			for _, b := range bs {
				rs = append(rs, b.Build())
			}
			for i := 0; i <= via%2; i++ {
				r, err := rs[len(rs)-1].Copy()
				if err != nil {
					return mc.Failf("copy", "%s: Response.Copy failed: %v", what, err)
				}
				rs = append(rs, r)
			}
			for _, r := range rs {
				s.rs = append(s.rs, want(r))
			}
			if f := s.check("copying, " + what); f != nil {
				return f
			}
			order := append([]*r02r(nil), s.rs...)
			if rev {
				for i := range s.rs {
					order[len(order)-1-i] = s.rs[i]
				}
			}
			if late {
				// the first is only read in part before the others are served
				p := make([]byte, 2)
				n, _ := io.ReadFull(order[0].r.Body(), p)
				order[0].body = order[0].body[n:]
				if order[0].hdrs["Content-Length"] = []string{fmt.Sprint(len(txt))}; n != min(2, len(txt)) {
					return mc.Failf("alias", "%s: only %d bytes could be read", what, n)
				}
			}
			for _, r := range order {
				if f := s.serve(r, 0); f != nil {
					f.Msg += " (" + what + ")"
					return f
				}
				if f := s.check("serving, " + what); f != nil {
					return f
				}
			}
			return nil
		})
	}
	aliasUnits(func(name string, run func(c *mc.Ctl) *mc.Fail) {
		out = append(out, &mc.Unit{Name: name, Run: func(c *mc.Ctl) (f *mc.Fail) {
			mc.SeqMode = true
			defer func() { mc.SeqMode = false }()
			defer guard(&f)
			return run(c)
		}})
	})
	return out
}

// ---- R03 / R04 ----

// recBody is a body.Body of its own, whose every call is recorded.
type recBody struct {
	c      *mc.Ctl
	data   string
	pos    int
	known  bool
	closes int
	reads  int
	after  int // calls after Close
	closeE error
	faults bool // Read may fail or panic
	kind   int
	step   int
	npanic bool
	errs   []error
	panics []interface{}
}

func (b *recBody) BytesRemaining() int64 {
	if b.known {
		return int64(len(b.data) - b.pos)
	}
	return -1
}

func (b *recBody) Read(p []byte) (int, error) {
	if b.closes > 0 {
		b.after++
	}
	b.reads++
	if b.faults && b.c != nil {
		n := 4
		if b.npanic {
			n = 3
		}
		switch b.c.Choose(n, mc.Env) {
		case 1:
			e := env.NewErr(b.kind, "body read")
			b.errs = append(b.errs, e)
			return 0, e
		case 2:
			e := env.NewErr(b.kind, "partial body read")
			b.errs = append(b.errs, e)
			n := copy(p, b.data[b.pos:min(b.pos+1, len(b.data))])
			b.pos += n
			return n, e
		case 3:
			v := "injected panic in body read"
			b.panics = append(b.panics, v)
			panic(v)
		}
	}
	if b.pos >= len(b.data) {
		return 0, io.EOF
	}
	n := len(b.data) - b.pos
	if b.step > 0 && n > b.step {
		n = b.step
	}
	n = copy(p, b.data[b.pos:b.pos+n])
	b.pos += n
	return n, nil
}

func (b *recBody) Close() error {
	b.closes++
	if b.c != nil && b.c.Verbose {
		b.c.Logf("    body.Close() -> %v", b.closeE)
	}
	return b.closeE
}

func (b *recBody) Copy() (body.Body, error) { return nil, errors.New("recBody: no copies") }
func (b *recBody) Unwrap() io.Reader        { return nil }

// recBodyWT also writes itself out.
type recBodyWT struct{ *recBody }

func (b recBodyWT) WriteTo(w io.Writer) (int64, error) {
	if b.closes > 0 {
		b.after++
	}
	if b.faults && !b.npanic && b.c != nil && b.c.Choose(2, mc.Env) == 1 {
		v := "injected panic in body write-out"
		b.panics = append(b.panics, v)
		panic(v)
	}
	n, err := io.WriteString(w, b.data[b.pos:])
	b.pos += n
	return int64(n), err
}

// served describes a response under test.
type served struct {
	name string
	mk   func(c *mc.Ctl, faults bool, closeErr error) (body.Body, *recBody, *env.Src)
	data string
	skip int64 // bytes of the source read before
}

func servedBodies() []served {
	var l []served
	l = append(l,
		served{"memory", func(c *mc.Ctl, _ bool, _ error) (body.Body, *recBody, *env.Src) {
			return body.FromString("abcde"), nil, nil
		}, "abcde", 0},
		served{"empty", func(c *mc.Ctl, _ bool, _ error) (body.Body, *recBody, *env.Src) { return body.Empty(), nil, nil }, "", 0},
		served{"memory-empty", func(c *mc.Ctl, _ bool, _ error) (body.Body, *recBody, *env.Src) { return body.FromString(""), nil, nil }, "", 0},
		served{"memory-midway", func(c *mc.Ctl, _ bool, _ error) (body.Body, *recBody, *env.Src) {
			b := body.FromString("abcde")
			io.ReadFull(b, make([]byte, 2))
			return b, nil, nil
		}, "cde", 0},
	)
	skip := int64(0)
	rdr := func(name string, caps env.Caps, d int64, n int64, data string) {
		skip := skip
		l = append(l, served{skip: skip, name: name, mk: func(c *mc.Ctl, faults bool, ce error) (body.Body, *recBody, *env.Src) {
			s := &env.Src{Ctl: c, N: n, CloseE: ce}
			b, err := body.FromReaderAndLength(s.Reader(caps), d)
			if err != nil {
				panic(err)
			}
			if skip > 0 {
				if _, err := io.ReadFull(b, make([]byte, skip)); err != nil {
					panic(err)
				}
			}
			if faults {
				s.Menu = env.Menu{Err: true, PartErr: true, Short: true, JointEOF: true}
				s.Panics = true
			}
			return b, nil, s
		}, data: data[min64(skip, int64(len(data))):]})
	}
	full := env.Caps{At: true, Seek: true, Close: true}
	rdr("readerat", full, -1, 5, "abcde")
	rdr("seeker", env.Caps{Seek: true, Close: true}, -1, 5, "abcde")
	rdr("stream", env.Caps{Close: true}, -1, 5, "abcde")
	rdr("stream-known", env.Caps{Close: true}, 5, 5, "abcde")
	rdr("stream-cut", env.Caps{Close: true}, 3, 5, "abc")
	rdr("stream-empty", env.Caps{Close: true}, -1, 0, "")
	rdr("seeker-empty", env.Caps{Seek: true, Close: true}, -1, 0, "")
	rdr("readerat-empty", full, -1, 0, "")
	rdr("stream-toolong", env.Caps{Close: true}, 9, 5, "abcde")
	for _, skip = range []int64{2, 5} {
		rdr(fmt.Sprintf("readerat-from%d", skip), full, -1, 5, "abcde")
		rdr(fmt.Sprintf("seeker-from%d", skip), env.Caps{Seek: true, Close: true}, -1, 5, "abcde")
		rdr(fmt.Sprintf("stream-from%d", skip), env.Caps{Close: true}, -1, 5, "abcde")
		rdr(fmt.Sprintf("stream-known-from%d", skip), env.Caps{Close: true}, 5, 5, "abcde")
	}
	skip = 0
	for _, known := range []bool{false, true} {
		for _, wt := range []bool{false, true} {
			for _, data := range []string{"abcde", ""} {
				known, wt, data := known, wt, data
				l = append(l, served{fmt.Sprintf("custom/known=%v/writeto=%v/%q", known, wt, data), func(c *mc.Ctl, faults bool, ce error) (body.Body, *recBody, *env.Src) {
					b := &recBody{c: c, data: data, known: known, closeE: ce, faults: faults, step: 2}
					if wt {
						return recBodyWT{b}, b, nil
					}
					return b, b, nil
				}, data, 0})
			}
		}
	}
	return l
}

var serveCaps = []int{0, fakew.Pusher, fakew.ReaderFrom, fakew.ReaderFrom | fakew.Pusher, fakew.Flusher | fakew.Pusher, fakew.All}

var pushLists = [][]string{nil, {"/a"}, {"/a", "/b"}}

type headSet struct {
	name string
	h    http.Header
}

var headSets = []headSet{
	{"none", nil},
	{"multi", http.Header{"X-A": {"1", "2"}, "Set-Cookie": {"a=b", "c=d"}, "Content-Length": {"5"}}},
	{"preset", http.Header{"X-Pre": {"resp"}, "X-Empty": {}}},
}

type r03opt struct {
	panics bool
	codes  []int
	pushes [][]string
	heads  []headSet
	kind   int  // shape of the injected errors
	calm   bool // nothing fails
	preset bool // the writer may have headers of the same names already
}

func largeBodies(sizes ...int64) []served {
	var l []served
	for _, n := range sizes {
		data := string(env.Bytes(n))
		n := n
		l = append(l, served{fmt.Sprintf("memory-large%d", n), func(c *mc.Ctl, _ bool, _ error) (body.Body, *recBody, *env.Src) {
			return body.FromString(data), nil, nil
		}, data, 0})
		for _, x := range []struct {
			name string
			caps env.Caps
			d    int64
		}{{"readerat", env.Caps{At: true, Seek: true, Close: true}, -1}, {"seeker", env.Caps{Seek: true, Close: true}, -1}, {"stream", env.Caps{Close: true}, -1}, {"stream-known", env.Caps{Close: true}, n},
			{"readerat-over", env.Caps{At: true, Seek: true, Close: true}, n + 7}, {"seeker-over", env.Caps{Seek: true, Close: true}, n + 7}, {"stream-over", env.Caps{Close: true}, n + 7}} {
			x := x
			l = append(l, served{fmt.Sprintf("%s-large%d", x.name, n), func(c *mc.Ctl, faults bool, ce error) (body.Body, *recBody, *env.Src) {
				s := &env.Src{Ctl: c, N: n, CloseE: ce}
				b, err := body.FromReaderAndLength(s.Reader(x.caps), x.d)
				if err != nil {
					panic(err)
				}
				if faults {
					s.Menu = env.Menu{Err: true, PartErr: true, Short: true, JointEOF: true}
					s.Panics = true
				}
				return b, nil, s
			}, data, 0})
		}
	}
	return l
}

func moreHeads() []headSet {
	big := http.Header{}
	for i := 0; i < 40; i++ {
		var v []string
		for j := 0; j <= i%5; j++ {
			v = append(v, fmt.Sprintf("value %d of %d", j, i))
		}
		big[fmt.Sprintf("X-Many-%d", i)] = v
	}
	return []headSet{
		{"many", big},
		{"nilvalue", http.Header{"X-Nil": nil, "Content-Type": nil, "Content-Length": nil}},
		{"blank", http.Header{"X-Blank": {""}, "Content-Type": {""}, "X-Two": {"", ""}}},
		{"long", http.Header{"X-Long": {strings.Repeat("v", 70000)}, "Set-Cookie": {"a=1", "a=1", "b=2", "a=1"}}},
		{"pre", http.Header{"X-Pre": {"1", "2", "3"}, "X-Nil": nil}},
		{"length0", http.Header{"Content-Length": {"0"}}},
		{"length3", http.Header{"Content-Length": {"3"}}},
		{"length77", http.Header{"Content-Length": {"77"}, "X-A": {"1"}}},
		{"lengths", http.Header{"Content-Length": {"5", "6"}}},
		{"nolength", http.Header{"Content-Length": {}}},
		{"fields", http.Header{"Date": {"x"}, "Trailer": {"X-T"}, "Transfer-Encoding": {"identity"}, "Connection": {"close"}, "Www-Authenticate": {"Basic", "Digest"}, "Pushy": {"not a push"}, "Content-Encoding": {"gzip"}, "Vary": {"a", "b"}, "Etag": {"\"x\""}, "Link": {"</a>; rel=preload", "</b>"}}},
	}
}

func r03units(tier string, panics bool) []*mc.Unit {
	var out []*mc.Unit
	add := func(tag string, sb served, caps int, o r03opt) {
		o.panics = panics
		faults := pick(tier, 4, 6)
		if tag == "large/" {
			faults = 3
		}
		if tag == "huge/" {
			faults = 1
		}
		out = append(out, &mc.Unit{Name: fmt.Sprintf("%s%s/%s", tag, sb.name, fakew.CapNames(caps)), Bounds: mc.Bounds{Env: faults}, Run: func(c *mc.Ctl) (f *mc.Fail) {
			mc.SeqMode = true
			defer func() { mc.SeqMode = false }()
			defer guard(&f)
			return r03run(c, sb, caps, o)
		}})
	}
	all := servedBodies()
	for _, sb := range all {
		for _, caps := range serveCaps {
			add("", sb, caps, r03opt{codes: []int{200, 204, 404, 304, 500, 999}, pushes: pushLists, heads: headSets})
		}
	}
	var every []int
	for s := 200; s < 1000; s++ {
		every = append(every, s)
	}
	for _, sb := range all {
		switch sb.name {
		case "memory", "empty", "stream", "seeker", "readerat":
		default:
			continue
		}
		for _, caps := range []int{0, fakew.All} {
			add("statuses/", sb, caps, r03opt{codes: every, pushes: [][]string{nil, {"/a", "/b"}}, heads: headSets[:1], calm: true})
			add("heads/", sb, caps, r03opt{codes: []int{200, 404}, pushes: [][]string{nil, {"/a", "/a", "/b", "", "https://h/x?y#z", "/a"}, make([]string, 20)}, heads: moreHeads(), calm: true})
		}
	}
	for _, sb := range all {
		switch sb.name {
		case "memory", "empty", "stream", "stream-known", "seeker", "readerat":
		default:
			if !strings.HasPrefix(sb.name, "custom") {
				continue
			}
		}
		for kind := 1; kind < env.WErrKinds; kind++ {
			for _, caps := range []int{0, fakew.ReaderFrom | fakew.Pusher} {
				add(fmt.Sprintf("shape%d/", kind), sb, caps, r03opt{codes: []int{200, 404}, pushes: pushLists[:2], heads: headSets[:1], kind: kind})
			}
		}
	}
	for _, sb := range all {
		switch sb.name {
		case "memory", "empty", "stream":
			for _, caps := range []int{0, fakew.All} {
				add("names/", sb, caps, r03opt{codes: []int{200, 204, 304, 404}, pushes: [][]string{nil, {"/a"}}, heads: namedHeads(), calm: true, preset: true})
			}
		}
	}
	for _, sb := range largeBodies(1<<20+3, 5<<20+1) {
		for _, caps := range []int{0, fakew.ReaderFrom} {
			faults := caps != 0 && (sb.name == "seeker-large1048579" || sb.name == "stream-over-large1048579")
			add("huge/", sb, caps, r03opt{codes: []int{200}, pushes: pushLists[:1], heads: headSets[:1], calm: !faults})
		}
	}
	for _, sb := range largeBodies(33000, 100001, 200003) {
		for _, caps := range []int{0, fakew.ReaderFrom, fakew.All} {
			add("large/", sb, caps, r03opt{codes: []int{200}, pushes: pushLists[:2], heads: headSets[:1]})
		}
	}
	return out
}

func r03run(c *mc.Ctl, sb served, caps int, o r03opt) *mc.Fail {
	panics := o.panics
	code := o.codes[c.Choose(len(o.codes), mc.Free)]
	push := o.pushes[c.Choose(len(o.pushes), mc.Free)]
	hs := o.heads[c.Choose(len(o.heads), mc.Free)]
	var ce error
	if c.Choose(2, mc.Free) == 1 {
		ce = env.NewErr(o.kind, "close")
	}
	m := fakew.Menu{WriteErr: true, WritePart: true, WriteJoint: true, PushMenu: true, ErrKind: o.kind}
	if panics {
		m.WritePanic, m.HeadPanic, m.HdrPanic, m.PushPanic = true, true, true, true
	}
	if o.calm {
		m = fakew.Menu{}
	}
	bd, rec, src := sb.mk(c, !o.calm, ce)
	if o.kind < env.ErrKinds {
		if rec != nil {
			rec.kind = o.kind
		}
		if src != nil {
			src.ErrKind = o.kind
		}
	}
	if !panics {
		if rec != nil {
			rec.noPanic()
		}
		if src != nil {
			src.Panics = false
		}
	}
	b := response.NewBuilder().WithBody(bd).WithStatus(code)
	if hs.h != nil {
		b.WithHeaders(hs.h)
	}
	for _, p := range push {
		b.WithHeader("Push", p, true)
	}
	resp := b.Build()
	want := cloneHdr(resp.Headers())
	delete(want, "Push")
	w := fakew.New(c, m)
	w.H["X-Pre"] = []string{"writer"}
	w.H["X-Kept"] = []string{"kept"}
	if o.preset && c.Choose(2, mc.Free) == 1 {
		for k := range want {
			w.H[k] = []string{"writer's", "own"}
		}
	}
	if _, ok := want["X-Pre"]; !ok {
		want["X-Pre"] = []string{"writer"}
	}
	want["X-Kept"] = []string{"kept"}
	if src != nil {
		src.BeginOp()
	}
	var err error
	pv := try(func() { err = resp.Serve(w.As(caps)) })
	what := fmt.Sprintf("serving status %d, push %q, headers %s, body %s to a %s writer: calls [%s], result %v, panic %v", code, push, hs.name, sb.name, fakew.CapNames(caps), w.Trace(), err, pv)
	c.Logf("%s", what)
	h := mc.NewHash().I(int64(code)).S(w.Trace()).B(err != nil).B(pv != nil)
	c.State(uint64(h))
	c.Trans(uint64(h.I(int64(len(push)))))
	c.Outcome(uint64(h))

	// who failed first
	injPanic := len(w.Panics) > 0 || rec != nil && len(rec.panics) > 0 || src != nil && len(src.PanicVals) > 0
	if pv != nil && !injPanic {
		return mc.Failf("panic", "%s: panicked although nothing it called did", what)
	}
	// R04: closed exactly once in every case
	if rec != nil && rec.closes != 1 {
		return mc.Failf("close", "%s: the body was closed %d times", what, rec.closes)
	}
	if rec != nil && rec.after > 0 {
		return mc.Failf("close", "%s: the body was used after it was closed", what)
	}
	if src != nil && src.Closed != 1 {
		return mc.Failf("close", "%s: the body's reader was closed %d times", what, src.Closed)
	}
	if src != nil && src.Bad != nil {
		src.Bad.Msg = what + ": " + src.Bad.Msg
		src.Bad.Cat = "close"
		return src.Bad
	}
	if rec == nil && src == nil {
		if _, e := bd.Read(make([]byte, 1)); e == nil || e == io.EOF || !strings.Contains(e.Error(), "closed") {
			if sb.data != "" || e == nil {
				return mc.Failf("close", "%s: the body is still open afterwards (read gave %v)", what, e)
			}
			return mc.Failf("close", "%s: the body is still open afterwards (read gave %v)", what, e)
		}
	}
	hasPush := caps&fakew.Pusher != 0
	var srcErrs []error
	if rec != nil {
		srcErrs = rec.errs
	} else if src != nil {
		srcErrs = src.OpErrs
	}
	injected := len(w.Errs) > 0 || len(srcErrs) > 0
	if injPanic {
		// a swallowed panic must at least not look like success
		if pv == nil && err == nil {
			return mc.Failf("result", "%s: a panic was swallowed and success reported", what)
		}
		return nil
	}
	if !injected {
		if ce != nil && (rec != nil || src != nil) {
			if !errors.Is(err, ce) {
				return mc.Failf("close-result", "%s: closing the body failed with %v, want it reported", what, ce)
			}
		} else if err != nil {
			return mc.Failf("result", "%s: nothing failed, want nil", what)
		}
	} else {
		if err == nil {
			return mc.Failf("result", "%s: something failed (%v %v), nil returned", what, w.Errs, srcErrs)
		}
		first := w.Errs
		if len(first) == 0 {
			first = srcErrs
		} else if len(srcErrs) > 0 {
			first = nil // both; order unknown, either accepted
			if !w.IsInjected(err) && !errors.Is(err, srcErrs[0]) {
				return mc.Failf("result", "%s: want one of %v %v", what, w.Errs, srcErrs)
			}
		}
		if first != nil && !errors.Is(err, first[0]) {
			return mc.Failf("result", "%s: want %v", what, first[0])
		}
	}
	// expected calls
	i := 0
	next := func() (fakew.Call, bool) {
		if i < len(w.Calls) {
			i++
			return w.Calls[i-1], true
		}
		return fakew.Call{}, false
	}
	if hasPush {
		for _, u := range push {
			k, ok := next()
			if !ok || k.Name != "Push" || k.URL != u {
				return mc.Failf("sequence", "%s: call %d is %v, want Push(%s)", what, i, k, u)
			}
			if k.Failed {
				if i != len(w.Calls) {
					return mc.Failf("sequence", "%s: went on after a failed push", what)
				}
				return nil
			}
		}
	}
	k, ok := next()
	if !ok || k.Name != "WriteHeader" || k.Status != code {
		return mc.Failf("sequence", "%s: call %d is %v, want WriteHeader(%d)", what, i, k, code)
	}
	if !hdrEqual(w.Sent, want) {
		return mc.Failf("sequence", "%s: sent headers %s, want %s", what, hdrString(w.Sent), hdrString(want))
	}
	for {
		k, ok := next()
		if !ok {
			break
		}
		if k.Name != "Write" && k.Name != "ReadFrom" {
			return mc.Failf("sequence", "%s: unexpected call %v", what, k)
		}
	}
	if !strings.HasPrefix(sb.data, string(w.Body)) || !injected && string(w.Body) != sb.data {
		return mc.Failf("sequence", "%s: sent a body of %d bytes %.60q, want %d bytes %.60q", what, len(w.Body), w.Body, len(sb.data), sb.data)
	}
	if len(w.Errs) == 0 && len(srcErrs) > 0 {
		// everything delivered before the failure was sent
		if src != nil && src.Kind() == "stream" && int64(len(w.Body)) != min64(src.Pos-sb.skip, int64(len(sb.data))) {
			return mc.Failf("sequence", "%s: sent %d bytes, the source delivered %d before it failed", what, len(w.Body), src.Pos)
		}
		if rec != nil && len(w.Body) != rec.pos {
			return mc.Failf("sequence", "%s: sent %d bytes, the body delivered %d before it failed", what, len(w.Body), rec.pos)
		}
	}
	return nil
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (b *recBody) noPanic() { b.npanic = true }

func init() {
	register(&Prop{ID: "R02", Judge: judge("alias copy"), Units: r02units,
		Rule:        "an execution is one sequence of builder, response and caller operations over up to 3 builders and 3 responses; after every step the headers of every live object are compared with its own model, at the end every body is read and every response served to a writer that overwrites and appends to the header values it was given",
		Bounds:      map[string]string{"quick": "all sequences of up to 5 operations, 3 body kinds, 2 starting builders", "thorough": "all sequences of up to 6 operations"},
		Assumptions: []string{"the map returned by Response.Headers is not modified, as its documentation demands", "a map obtained from Builder.Headers is not kept across Build"}})
	register(&Prop{ID: "R03", Judge: judge("sequence result"), Units: func(t string) []*mc.Unit { return r03units(t, false) },
		Rule:        "an execution is one response (status x push list x header set x body kind x close result) and writer capability set, with a failure at one or more calls; the calls the writer received, the header snapshot at the time the status was sent, and the result are compared with what the response says",
		Bounds:      map[string]string{"quick": "6 statuses x 3 push lists x 3 header sets x 29 bodies x 6 capability sets, a failure (or short source answer) at up to four calls (three with the large bodies)", "thorough": "at up to six calls"},
		Assumptions: []string{"writers obey the io.Writer contract", "push requests and headers may be handled in any way that the calls received do not show"}})
	register(&Prop{ID: "R04", Judge: judge("close close-result"), Units: func(t string) []*mc.Unit { return r03units(t, true) },
		Rule:        "as R03, with panics (error and non-error values) injected as well at every call of the writer, pusher, body and source",
		Bounds:      map[string]string{"quick": "6 statuses x 3 push lists x 3 header sets x 29 bodies x 6 capability sets, a failure or panic at up to four calls (three with the large bodies)", "thorough": "at up to six calls"},
		Assumptions: []string{"panic(nil) is not injected"}})
}
