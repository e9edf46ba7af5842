//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math"
	"net/http"
	"reflect"
	"strconv"
	"strings"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)

// ---- R07: looking at responses ----

// lookGroup is one body and its copies.
type lookGroup struct {
	n     int64 // bytes a copy of the response sends
	unk   bool  // the length need not be known...
	found bool  // ...until somebody has met the end
}

type looked struct {
	r      *response.Response
	g      *lookGroup
	code   int
	hdrs   http.Header
	err    error
	body   body.Body
	served bool
}

type lookBody struct {
	name string
	mk   func() body.Body
	n    int64
	unk  bool
	own  bool // cannot be copied or served
}

func lookBodies(tier string) []lookBody {
	var l []lookBody
	add := func(name string, n int64, unk bool, mk func() body.Body) {
		l = append(l, lookBody{name: name, mk: mk, n: n, unk: unk})
	}
	bytesOf := func(n int64) string { return strings.Repeat("x", int(n)) }
	for _, n := range []int64{0, 1, 5, 200, blk + 1} {
		n := n
		if n == 200 && tier != "thorough" {
			continue
		}
		add(fmt.Sprintf("memory %d", n), n, false, func() body.Body { return body.FromString(bytesOf(n)) })
		add(fmt.Sprintf("stream %d", n), n, true, func() body.Body { return streamBody(bytesOf(n)) })
		for _, b := range []build{atB(n, n), skB(n, -1), stB(n, n)} {
			b := b
			add(fmt.Sprintf("%s %d", b.name, n), n, false, func() body.Body { return b.mustMake() })
		}
	}
	add("stream longer than declared", 3, false, func() body.Body { return stB(5, 3).mustMake() })
	add("memory from 2", 3, false, func() body.Body {
		b := body.FromString("abcde")
		b.Read(make([]byte, 2))
		return b
	})
	add("stream from 2", 3, true, func() body.Body {
		b := streamBody("abcde")
		b.Read(make([]byte, 2))
		return b
	})
	add("stream at its end", 0, false, func() body.Body {
		b := streamBody("abcde")
		b.Read(make([]byte, 9))
		return b
	})
	add("already closed", 0, false, body.AlreadyClosed)
	for _, n := range []int64{-1, 0, 7, math.MaxInt64, 1 << 32} {
		n := n
		l = append(l, lookBody{name: fmt.Sprintf("custom %d", n), mk: func() body.Body { return &ownBody{n: n} }, n: max(n, 0), unk: n < 0, own: true})
	}
	return l
}

func (b build) mustMake() body.Body {
	x, f := b.make(nil, env.Menu{}, false, nil)
	if f != nil {
		panic(f.Msg)
	}
	return x.hs[0]
}

// numbers are the decimal numbers in a text.
func numbers(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r < '0' || r > '9' })
}

type sinkW struct {
	h    http.Header
	n    int64
	fail bool
}

var errSink = errors.New("the connection is gone")

func (w *sinkW) Header() http.Header { return w.h }
func (w *sinkW) WriteHeader(int)     {}
func (w *sinkW) Write(p []byte) (int, error) {
	if w.fail {
		w.n++
		return 1, errSink
	}
	w.n += int64(len(p))
	return len(p), nil
}

func (l *looked) check(after string) *mc.Fail {
	for i := 0; i < 2; i++ {
		if g := l.r.Status(); g != l.code {
			return mc.Failf("look", "%s: Status() is %d, want %d", after, g, l.code)
		}
		if g := l.r.Headers(); !hdrEqual(g, l.hdrs) {
			return mc.Failf("look", "%s: Headers() are %s, want %s", after, hdrString(g), hdrString(l.hdrs))
		}
		if g := l.r.Err(); g != l.err {
			return mc.Failf("look", "%s: Err() is %v, want %v", after, g, l.err)
		}
		if g := l.r.Body(); g == nil || l.body != nil && g != l.body {
			return mc.Failf("look", "%s: Body() is %v, not the body the response has", after, g)
		} else {
			l.body = g
		}
		s := l.r.String()
		g := numbers(s)
		n := l.g.n
		if l.served {
			n = 0
		}
		want := []string{fmt.Sprintf("%03d", l.code), strconv.FormatInt(n, 10)}
		if reflect.DeepEqual(g, want) {
			continue
		}
		if l.g.unk && !l.g.found && !l.served && reflect.DeepEqual(g, want[:1]) {
			continue
		}
		known := "is known"
		if l.g.unk && !l.g.found && !l.served {
			known = "may be unknown"
		}
		return mc.Failf("look", "%s: String() is %q; the status is %d, %d bytes are still to be sent and their number %s", after, s, l.code, n, known)
	}
	return nil
}

func r07units(tier string) []*mc.Unit {
	var out []*mc.Unit
	codes := []int{200, 404, 0, 999, 204, 304}
	heads := []http.Header{nil, {"X-A": {"1", "2"}, "Content-Type": {"text/plain"}}, {"Content-Length": {"77"}, "Push": {"/p"}}}
	errv := errors.New("why: 31")
	for _, lb := range lookBodies(tier) {
		lb := lb
		for ci, code := range codes {
			ci, code := ci, code
			out = append(out, &mc.Unit{Name: fmt.Sprintf("%s/%d", lb.name, code), Run: func(c *mc.Ctl) (f *mc.Fail) {
				mc.SeqMode = true
				defer func() { mc.SeqMode = false }()
				defer guard(&f)
				hi := c.Choose(len(heads), mc.Free)
				var e error
				if c.Choose(2, mc.Free) == 1 {
					e = errv
				}
				b := response.NewBuilder().WithHeaders(heads[hi]).WithError(e)
				want := cloneHdr(heads[hi])
				if want == nil {
					want = http.Header{}
				}
				code := code
				if code != 0 {
					b.WithStatus(code)
				} else {
					code = 200
				}
				g := &lookGroup{n: lb.n, unk: lb.unk}
				given := lb.mk()
				r := b.WithBody(given).Build()
				// Build itself completes the headers
				if want["Content-Type"] == nil {
					want["Content-Type"] = []string{"application/octet-stream"}
				}
				if want["Content-Length"] == nil && (!lb.unk || r.Headers()["Content-Length"] != nil) {
					want["Content-Length"] = []string{strconv.FormatInt(lb.n, 10)}
				}
				all := []*looked{{r: r, g: g, code: code, hdrs: want, err: e, body: given}}
				trail := fmt.Sprintf("%s body, status %d, headers %s", lb.name, code, hdrString(want))
				checkAll := func() *mc.Fail {
					for i, l := range all {
						if f := l.check(fmt.Sprintf("%s: response %d", trail, i)); f != nil {
							return f
						}
					}
					return nil
				}
				if f := checkAll(); f != nil || lb.own {
					return f
				}
				for d := 0; d < pick(tier, 4, 5); d++ {
					i := c.Choose(len(all), mc.Free)
					l := all[i]
					op := c.Choose(4, mc.Free)
					switch op {
					case 0:
						if len(all) >= 3 {
							return nil
						}
						trail += fmt.Sprintf(", copy of %d", i)
						r2, err := l.r.Copy()
						if err != nil || r2 == nil {
							return mc.Failf("look", "%s: returned %v, %v", trail, r2, err)
						}
						all = append(all, &looked{r: r2, g: l.g, code: l.code, hdrs: l.hdrs, err: l.err, served: l.served})
					case 1, 2:
						if l.served || lb.name == "already closed" && op == 2 {
							return nil
						}
						w := &sinkW{h: http.Header{"X-A": {"own"}}, fail: op == 2}
						trail += fmt.Sprintf(", serve %d (failing %v)", i, w.fail)
						err := l.r.Serve(w)
						l.served = true
						switch {
						case lb.name == "already closed":
						case w.fail && w.n > 0:
							if !errors.Is(err, errSink) {
								return mc.Failf("look", "%s: returned %v, want the writer's error", trail, err)
							}
						case err != nil:
							return mc.Failf("look", "%s: returned %v", trail, err)
						default:
							if w.n != lb.n {
								return mc.Failf("look", "%s: %d bytes were sent, want %d", trail, w.n, lb.n)
							}
							l.g.found = true
						}
					case 3:
						if l.served {
							return nil
						}
						trail += fmt.Sprintf(", read a copy of the body of %d", i)
						if lb.name == "already closed" {
							return nil
						}
						p, f := readCopy(l.r.Body())
						if f != nil {
							return f
						}
						if int64(len(p)) != lb.n {
							return mc.Failf("look", "%s: %d bytes were read, want %d", trail, len(p), lb.n)
						}
						l.g.found = true
					}
					if f := checkAll(); f != nil {
						return f
					}
					h := mc.NewHash().S(lb.name).I(int64(ci)).I(int64(hi)).B(e != nil).B(g.found)
					for _, l := range all {
						h = h.B(l.served)
					}
					c.State(uint64(h))
					c.Trans(uint64(h.I(int64(op)).I(int64(i))))
				}
				// every response not served yet still sends everything
				for i, l := range all {
					if l.served || lb.name == "already closed" {
						continue
					}
					w := &sinkW{h: http.Header{}}
					if err := l.r.Serve(w); err != nil || w.n != lb.n {
						return mc.Failf("look", "%s: response %d was then served with %d bytes, %v, want %d", trail, i, w.n, err, lb.n)
					}
					l.served = true
					if f := l.check(fmt.Sprintf("%s: response %d after all", trail, i)); f != nil {
						return f
					}
				}
				return nil
			}})
		}
	}
	return out
}

func init() {
	register(&Prop{ID: "R07", Judge: judge("look"), Units: r07units,
		Rule:        "an execution is one response and one sequence of copying, serving (to the end or to a failing writer) and reading copies of its body; after every step status, headers, error, body and description of every copy are asked for twice and compared with the model, and finally every unserved copy is served",
		Bounds:      map[string]string{"quick": "every kind of body with 0, 1, 5 and 65537 bytes, midway and used-up bodies, a closed one, callers' own with lengths up to 2^63-1; 4 statuses, 3 header sets, with and without error; up to 4 operations on up to 3 copies", "thorough": "up to 5 operations; 200 bytes as well"},
		Assumptions: []string{"a description is any text whose numbers are the status and, when it is known, the number of bytes left"}})
}
