//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/fakew"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// ---- C05: copies of one response served from several threads ----

// c05serving is one response on its way to one client.
type c05serving struct {
	hdrs http.Header
	code int
	data string
	any  bool // generated page: headers and body are only compared with the response itself
	w    *fakew.W
	err  error
	resp *response.Response
	body body.Body
}

type c05exec struct {
	c    *mc.Ctl
	caps int
	wrap bool
	src  *env.Src
	hdrs http.Header
	data string
	cut  bool
}

// c05log collects what a thread did; each thread has its own.
type c05log struct {
	serv []*c05serving
	bad  string
}

func (x *c05exec) serve(l *c05log, r *response.Response, hdrs http.Header, code int, data string, any bool) {
	mc.Yield()
	w := fakew.New(nil, fakew.Menu{})
	w.Yields = true
	w.NoPush = false
	w.MutateHeaders = mangle
	var rw http.ResponseWriter = w.As(x.caps)
	if x.wrap {
		rw = response.NewWriter(rw, &http.Request{Method: "GET"})
	}
	sv := &c05serving{hdrs: hdrs, code: code, data: data, any: any, w: w, resp: r, body: r.Body()}
	if any {
		sv.hdrs, sv.code = cloneHdr(r.Headers()), r.Status()
	}
	sv.err = r.Serve(rw)
	mangle(w.H)
	l.serv = append(l.serv, sv)
	mc.Yield()
}

func (x *c05exec) look(l *c05log, h http.Header, want http.Header) {
	if !hdrEqual(h, want) && l.bad == "" {
		l.bad = fmt.Sprintf("its own headers became %s, want %s", hdrString(h), hdrString(want))
	}
}

// the contents every thread starts from
const c05data = "abcde"

func c05hdrs() http.Header {
	return http.Header{"X-A": spare("1", "2"), "Push": spare("/p"), "Content-Type": spare("text/plain"), "Content-Length": spare("5"),
		"Vary": spare("Accept", "Cookie"), "Set-Cookie": spare("a=1", "b=2"), "Etag": spare("t"), "Location": spare("/l"), "Cache-Control": spare("no-store"), "X-Nil": nil, "X-Empty": spare(),
		"X-Many": spare("1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18")}
}

type c05op struct {
	name string
	onR  func(x *c05exec, t int, l *c05log, r *response.Response)
	onB  func(x *c05exec, t int, l *c05log, b *response.Builder)
}

var errC05 = errors.New("page error")

func with(h http.Header, k string, v ...string) http.Header {
	h = cloneHdr(h)
	h[k] = v
	return h
}

var c05ops = []c05op{
	{name: "serve", onR: func(x *c05exec, t int, l *c05log, r *response.Response) {
		x.serve(l, r, c05hdrs(), 201, c05data, false)
		x.look(l, r.Headers(), c05hdrs())
	}},
	{name: "copy, serve both", onR: func(x *c05exec, t int, l *c05log, r *response.Response) {
		r2, err := r.Copy()
		if err != nil {
			l.bad = fmt.Sprintf("copying failed: %v", err)
			return
		}
		x.serve(l, r2, c05hdrs(), 201, c05data, false)
		x.look(l, r.Headers(), c05hdrs())
		_ = r.String()
		x.serve(l, r, c05hdrs(), 201, c05data, false)
		x.look(l, r2.Headers(), c05hdrs())
	}},
	{name: "inspect, serve", onR: func(x *c05exec, t int, l *c05log, r *response.Response) {
		_ = r.String()
		mc.Yield()
		x.look(l, r.Headers(), c05hdrs())
		x.serve(l, r, c05hdrs(), 201, c05data, false)
	}},
	{name: "change, build, serve", onB: func(x *c05exec, t int, l *c05log, b *response.Builder) {
		v := fmt.Sprint("t", t)
		b.WithHeader("X-A", v, true)
		mc.Yield()
		b.Headers()["X-A"][0] = v
		mc.Yield()
		h := with(c05hdrs(), "X-A", v, "2", v)
		x.look(l, b.Headers(), h)
		x.serve(l, b.Build(), h, 201, c05data, false)
	}},
	{name: "copy, change, build and serve both", onB: func(x *c05exec, t int, l *c05log, b *response.Builder) {
		b2, err := b.Copy()
		if err != nil {
			l.bad = fmt.Sprintf("copying failed: %v", err)
			return
		}
		v := fmt.Sprint("t", t)
		b2.WithHeader("X-A", v, true).WithStatus(404)
		mc.Yield()
		x.look(l, b.Headers(), c05hdrs())
		x.serve(l, b2.Build(), with(c05hdrs(), "X-A", "1", "2", v), 404, c05data, false)
		x.serve(l, b.Build(), c05hdrs(), 201, c05data, false)
	}},
	{name: "error page", onB: func(x *c05exec, t int, l *c05log, b *response.Builder) {
		b.Body().Close()
		mc.Yield()
		code := 500 + t
		b.ErrorPage(code, errC05)
		mc.Yield()
		if b.Status() != code {
			l.bad = fmt.Sprintf("the error page got status %d, want %d", b.Status(), code)
		}
		x.serve(l, b.Build(), nil, 0, fmt.Sprintf("%d %s", code, http.StatusText(code)), true)
	}},
	{name: "redirect page", onB: func(x *c05exec, t int, l *c05log, b *response.Builder) {
		b.Body().Close()
		mc.Yield()
		b.RedirectPage(302, fmt.Sprintf("/to-%d", t))
		mc.Yield()
		if g := b.Headers().Get("Location"); g != fmt.Sprintf("/to-%d", t) {
			l.bad = fmt.Sprintf("the redirect has Location %q", g)
		}
		x.serve(l, b.Build(), nil, 0, fmt.Sprintf("/to-%d", t), true)
	}},
	{name: "json", onB: func(x *c05exec, t int, l *c05log, b *response.Builder) {
		b.Body().Close()
		mc.Yield()
		b.Headers().Del("Content-Length")
		b.WithJSON(map[string]int{"t": t})
		mc.Yield()
		x.serve(l, b.Build(), nil, 0, fmt.Sprintf(`{"t":%d}`, t), true)
	}},
}

func c05units(tier string) []*mc.Unit {
	var out []*mc.Unit
	bodies := []string{"memory", "readerat", "seeker", "stream", "stream-known", "stream-cut"}
	add := func(bodyName string, caps int, wrap, onB bool, threads, preempt int, yields bool) {
		out = append(out, &mc.Unit{
			Name:   fmt.Sprintf("%s/%s/wrap=%v/builders=%v/threads=%d/preempt=%d/yields=%v", bodyName, fakew.CapNames(caps), wrap, onB, threads, preempt, yields),
			Bounds: mc.Bounds{Preempt: preempt},
			Run: func(c *mc.Ctl) (f *mc.Fail) {
				defer guard(&f)
				return c05run(c, bodyName, caps, wrap, onB, threads, yields)
			}})
	}
	for _, b := range bodies {
		for _, onB := range []bool{false, true} {
			add(b, 0, false, onB, 2, pick(tier, 1, 2), true)
			add(b, fakew.All, true, onB, 2, pick(tier, 1, 2), true)
			if !onB {
				add(b, 0, false, onB, 2, pick(tier, 2, 3), true)
			}
			if tier == "thorough" {
				add(b, fakew.ReaderFrom, false, onB, 3, 1, false)
			} else {
				add(b, 0, true, onB, 3, 0, false)
			}
		}
	}
	return append(append(append(out, sharedUnits(tier)...), sameUnits(tier)...), coldUnits(tier)...)
}

// sharedOps are what a thread may do with a response that others use too.
var sharedOps = []c05op{
	{name: "copy, serve the copy", onR: func(x *c05exec, t int, l *c05log, r *response.Response) {
		r2, err := r.Copy()
		if err != nil {
			l.bad = fmt.Sprintf("copying failed: %v", err)
			return
		}
		x.serve(l, r2, cloneHdr(x.hdrs), 201, x.data, false)
	}},
	{name: "copy twice, serve both", onR: func(x *c05exec, t int, l *c05log, r *response.Response) {
		r2, err := r.Copy()
		mc.Yield()
		r3, err3 := r.Copy()
		if err != nil || err3 != nil {
			l.bad = fmt.Sprintf("copying failed: %v, %v", err, err3)
			return
		}
		x.serve(l, r3, cloneHdr(x.hdrs), 201, x.data, false)
		r4, err := r2.Copy()
		if err != nil {
			l.bad = fmt.Sprintf("copying the copy failed: %v", err)
			return
		}
		x.serve(l, r2, cloneHdr(x.hdrs), 201, x.data, false)
		r4.Body().Close()
	}},
	{name: "inspect", onR: func(x *c05exec, t int, l *c05log, r *response.Response) {
		s := r.String()
		mc.Yield()
		x.look(l, r.Headers(), x.hdrs)
		if r.Status() != 201 || r.Err() != errC05 || !strings.Contains(s, "201") {
			l.bad = fmt.Sprintf("it shows status %d, error %v and %q", r.Status(), r.Err(), s)
		}
		mc.Yield()
		if n := r.Body().BytesRemaining(); n >= 0 && n != int64(len(x.data)) && !x.cut {
			l.bad = fmt.Sprintf("its body claims %d bytes", n)
		}
	}},
	{name: "copy and read the body", onR: func(x *c05exec, t int, l *c05log, r *response.Response) {
		b, err := r.Body().Copy()
		if err != nil {
			l.bad = fmt.Sprintf("copying the body failed: %v", err)
			return
		}
		mc.Yield()
		p, err := io.ReadAll(b)
		if err != nil || string(p) != x.data {
			l.bad = fmt.Sprintf("the body copy gave %q, %v", p, err)
		}
		b.Close()
	}},
}

// sharedUnits: one response is kept as a prototype, and several threads copy
// and inspect that very response at the same time.
func sharedUnits(tier string) []*mc.Unit {
	var out []*mc.Unit
	for _, b := range []string{"memory", "memory-midway", "readerat", "seeker", "stream", "stream-known", "stream-cut"} {
		for _, set := range []string{"full", "none", "one"} {
			for _, threads := range []int{2, 3} {
				b, set, threads := b, set, threads
				preempt := pick(tier, 1, 2)
				if threads == 3 {
					preempt = pick(tier, 0, 1)
				}
				out = append(out, &mc.Unit{
					Name:   fmt.Sprintf("shared/%s/hdrs=%s/threads=%d/preempt=%d", b, set, threads, preempt),
					Bounds: mc.Bounds{Preempt: preempt},
					Run: func(c *mc.Ctl) (f *mc.Fail) {
						defer guard(&f)
						return sharedRun(c, b, set, threads)
					}})
			}
		}
	}
	return out
}

func sharedRun(c *mc.Ctl, bodyName, set string, threads int) *mc.Fail {
	mc.SeqMode = true
	x := &c05exec{c: c, caps: fakew.All, data: c05data, cut: bodyName == "stream-cut"}
	var bd body.Body
	for _, sb := range servedBodies() {
		if sb.name == bodyName {
			bd, _, x.src = sb.mk(nil, false, nil)
			x.data = sb.data
		}
	}
	if bd == nil {
		return mc.Failf("harness", "no body %s", bodyName)
	}
	b := response.NewBuilder().WithBody(bd).WithStatus(201).WithError(errC05)
	switch set {
	case "full":
		h := c05hdrs()
		h.Set("Content-Length", fmt.Sprint(len(x.data)))
		b.WithHeaders(h)
	case "one":
		b.WithHeaders(http.Header{"Content-Type": {"a/b"}})
	}
	proto := b.Build()
	x.hdrs = cloneHdr(proto.Headers())
	logs := make([]*c05log, threads)
	var fns []func()
	var names []string
	for t := 0; t < threads; t++ {
		t := t
		l := &c05log{}
		logs[t] = l
		o := sharedOps[c.Choose(len(sharedOps), mc.Free)]
		names = append(names, o.name)
		fns = append(fns, func() { o.onR(x, t, l, proto) })
	}
	prog := fmt.Sprintf("one response with a %s body shared by threads %q", bodyName, names)
	c.Logf("%s", prog)
	if x.src != nil {
		x.src.Yields = true
		x.src.BeginOp()
	}
	races := mc.RaceErrors()
	mc.SeqMode = false
	res := mc.RunThreads(c, fns)
	mc.SeqMode = true
	defer func() { mc.SeqMode = false }()
	if x.src != nil {
		x.src.Yields = false
	}
	if n := mc.RaceErrors() - races; n > 0 {
		return mc.Failf("race", "%d data race(s) reported by the race detector with %s", n, prog)
	}
	if f := threadFail(res); f != nil {
		f.Msg += " with " + prog
		return f
	}
	// the prototype itself is served last
	last := &c05log{}
	x.serve(last, proto, cloneHdr(x.hdrs), 201, x.data, false)
	h := mc.NewHash()
	for t, l := range append(logs, last) {
		if l.bad != "" {
			return mc.Failf("alias", "%s: thread %d: %s", prog, t, l.bad)
		}
		for i, s := range l.serv {
			if f := c05check(s, fmt.Sprintf("%s: thread %d, serving %d", prog, t, i), x.caps, x.data); f != nil {
				return f
			}
			h = h.S(s.w.Trace())
		}
	}
	c.Outcome(uint64(h))
	if x.src != nil {
		if x.src.Bad != nil {
			x.src.Bad.Msg = prog + ": " + x.src.Bad.Msg
			return x.src.Bad
		}
		if x.src.Closed != 1 {
			return mc.Failf("close", "%s: everything was served or closed, the reader was closed %d times", prog, x.src.Closed)
		}
	}
	return nil
}

// sameUnits: two threads that make the same page at the same time, each for
// itself, and change what they got.
func sameUnits(tier string) []*mc.Unit {
	var out []*mc.Unit
	unit := func(name string, mk func(b *response.Builder) string, check func(h http.Header, code int, page []byte) *mc.Fail) {
		out = append(out, &mc.Unit{Name: "same/" + name, Bounds: mc.Bounds{Preempt: pick(tier, 1, 2)}, Run: func(c *mc.Ctl) (f *mc.Fail) {
			defer guard(&f)
			mc.SeqMode = true
			x := &c05exec{c: c, caps: fakew.All}
			var logs [2]*c05log
			var fns []func()
			for t := 0; t < 2; t++ {
				l := &c05log{}
				logs[t] = l
				fns = append(fns, func() {
					for k := 0; k < 2; k++ {
						b := response.NewBuilder()
						mc.Yield()
						want := mk(b)
						mc.Yield()
						x.serve(l, b.Build(), nil, 0, want, true)
					}
					b := response.NewBuilder()
					mk(b)
					mangle(b.Headers())
					b.Body().Close()
				})
			}
			races := mc.RaceErrors()
			mc.SeqMode = false
			res := mc.RunThreads(c, fns)
			mc.SeqMode = true
			defer func() { mc.SeqMode = false }()
			prog := "two threads making the same " + name
			if n := mc.RaceErrors() - races; n > 0 {
				return mc.Failf("race", "%d data race(s) reported by the race detector with %s", n, prog)
			}
			if f := threadFail(res); f != nil {
				f.Msg += " with " + prog
				return f
			}
			h := mc.NewHash()
			for t, l := range logs {
				for _, s := range l.serv {
					if f := c05check(s, fmt.Sprintf("%s: thread %d", prog, t), fakew.All, ""); f != nil {
						return f
					}
					if f := check(s.hdrs, s.code, s.w.Body); f != nil {
						return mc.Failf("alias", "%s: thread %d: %s", prog, t, f.Msg)
					}
					h = h.S(s.w.Trace())
				}
			}
			c.Outcome(uint64(h))
			return nil
		}})
	}
	for code := 200; code <= 999; code++ {
		code := code
		text := http.StatusText(code)
		if text == "" && code != 999 && code != 420 {
			continue
		}
		want := strings.TrimSpace(fmt.Sprintf("%d %s", code, text))
		unit(fmt.Sprintf("error page %d", code), func(b *response.Builder) string { b.ErrorPage(code, errC05); return want }, func(h http.Header, c int, page []byte) *mc.Fail {
			return checkErrorPage("the page", code, c, h, page)
		})
		if code >= 300 && code < 400 {
			unit(fmt.Sprintf("redirect %d", code), func(b *response.Builder) string { b.RedirectPage(code, "/to"); return "/to" }, func(h http.Header, c int, page []byte) *mc.Fail {
				if c != code || cl(h) != strconv.Itoa(len(page)) || h.Get("Location") != "/to" || len(h["Location"]) != 1 || !strings.HasPrefix(h.Get("Content-Type"), "text/html") {
					return mc.Failf("alias", "status %d, headers %s", c, hdrString(h))
				}
				return nil
			})
		}
	}
	for _, op := range coldOps {
		op := op
		unit(op.name, func(b *response.Builder) string { return op.mk(b, 1) }, func(http.Header, int, []byte) *mc.Fail { return nil })
	}
	return out
}

// coldOps are first uses of the package by a thread that owns a builder.
var coldOps = []struct {
	name string
	mk   func(b *response.Builder, t int) string
}{
	{"error page", func(b *response.Builder, t int) string {
		b.ErrorPage(500+t, errC05)
		return fmt.Sprintf("%d %s", 500+t, http.StatusText(500+t))
	}},
	{"redirect page", func(b *response.Builder, t int) string {
		b.RedirectPage(302, fmt.Sprintf("/to-%d", t))
		return fmt.Sprintf("/to-%d", t)
	}},
	{"json", func(b *response.Builder, t int) string {
		b.WithJSON(map[string]int{"t": t})
		return fmt.Sprintf(`{"t":%d}`, t)
	}},
	{"pretty json", func(b *response.Builder, t int) string {
		b.WithPrettyJSON(map[string]int{"t": t})
		return fmt.Sprintf(`"t": %d`, t)
	}},
	{"protobuf", func(b *response.Builder, t int) string {
		b.WithProto(wrapperspb.String(fmt.Sprint("value", t)))
		return fmt.Sprint("value", t)
	}},
	{"typed text", func(b *response.Builder, t int) string {
		b.WithContentType("text/plain; charset=utf-8").WithBody(body.FromString(fmt.Sprint("text", t)))
		return fmt.Sprint("text", t)
	}},
	{"stream", func(b *response.Builder, t int) string {
		b.WithBody(must(body.FromReaderAndLength(struct{ io.Reader }{strings.NewReader(fmt.Sprint("stream", t))}, 7)))
		return fmt.Sprint("stream", t)
	}},
	{"seeker", func(b *response.Builder, t int) string {
		b.WithBody(must(body.FromReader(strings.NewReader(fmt.Sprint("file", t)))))
		return fmt.Sprint("file", t)
	}},
}

func coldUnits(tier string) []*mc.Unit {
	var out []*mc.Unit
	for i := range coldOps {
		for j := i; j < len(coldOps); j++ {
			for _, wrap := range []bool{false, true} {
				i, j, wrap := i, j, wrap
				if tier == "quick" && wrap != ((i+j)%2 == 1) {
					continue
				}
				out = append(out, &mc.Unit{Name: fmt.Sprintf("cold/%s+%s/wrap=%v", coldOps[i].name, coldOps[j].name, wrap), Cold: true, Bounds: mc.Bounds{Preempt: 1}, Run: func(c *mc.Ctl) (f *mc.Fail) {
					defer guard(&f)
					return coldRun(c, [2]int{i, j}, wrap)
				}})
			}
		}
	}
	return out
}

func coldRun(c *mc.Ctl, which [2]int, wrap bool) *mc.Fail {
	mc.SeqMode = true
	x := &c05exec{c: c, caps: fakew.All, wrap: wrap}
	b0 := response.NewBuilder()
	b1, err := b0.Copy()
	if err != nil {
		return mc.Failf("copy", "copying a builder failed: %v", err)
	}
	bs := []*response.Builder{b0, b1}
	var logs [2]*c05log
	var fns []func()
	for t := 0; t < 2; t++ {
		t := t
		l := &c05log{}
		logs[t] = l
		fns = append(fns, func() {
			want := coldOps[which[t]].mk(bs[t], t)
			mc.Yield()
			x.serve(l, bs[t].Build(), nil, 0, want, true)
		})
	}
	prog := fmt.Sprintf("the first two uses: %s and %s", coldOps[which[0]].name, coldOps[which[1]].name)
	races := mc.RaceErrors()
	mc.SeqMode = false
	res := mc.RunThreads(c, fns)
	mc.SeqMode = true
	defer func() { mc.SeqMode = false }()
	if n := mc.RaceErrors() - races; n > 0 {
		return mc.Failf("race", "%d data race(s) reported by the race detector with %s", n, prog)
	}
	if f := threadFail(res); f != nil {
		f.Msg += " with " + prog
		return f
	}
	h := mc.NewHash()
	for t, l := range logs {
		for _, s := range l.serv {
			if f := c05check(s, fmt.Sprintf("%s: thread %d", prog, t), fakew.All, ""); f != nil {
				return f
			}
			h = h.S(s.w.Trace())
		}
	}
	c.Outcome(uint64(h))
	return nil
}

func c05run(c *mc.Ctl, bodyName string, caps int, wrap, onB bool, threads int, yields bool) *mc.Fail {
	mc.SeqMode = true
	x := &c05exec{c: c, caps: caps, wrap: wrap}
	var bd body.Body
	for _, sb := range servedBodies() {
		if sb.name == bodyName {
			bd, _, x.src = sb.mk(nil, false, nil)
		}
	}
	data := c05data
	if bodyName == "stream-cut" {
		data = "abc"
	}
	b := response.NewBuilder().WithBody(bd).WithStatus(201)
	b.WithHeaders(c05hdrs())
	var rs []*response.Response
	var bs []*response.Builder
	if onB {
		bs = append(bs, b)
	} else {
		rs = append(rs, b.Build())
	}
	for i := 1; i < threads; i++ {
		if onB {
			n, err := bs[c.Choose(len(bs), mc.Free)].Copy()
			if err != nil {
				return mc.Failf("copy", "copying a builder failed: %v", err)
			}
			bs = append(bs, n)
		} else {
			n, err := rs[0].Copy()
			if err != nil {
				return mc.Failf("copy", "copying a response failed: %v", err)
			}
			rs = append(rs, n)
		}
	}
	var ops []c05op
	for _, o := range c05ops {
		if (o.onB != nil) == onB {
			ops = append(ops, o)
		}
	}
	logs := make([]*c05log, threads)
	var fns []func()
	var names []string
	for t := 0; t < threads; t++ {
		t := t
		l := &c05log{}
		logs[t] = l
		o := ops[c.Choose(len(ops), mc.Free)]
		names = append(names, o.name)
		fns = append(fns, func() {
			if onB {
				o.onB(x, t, l, bs[t])
			} else {
				o.onR(x, t, l, rs[t])
			}
		})
	}
	prog := fmt.Sprintf("%s body, threads %q", bodyName, names)
	c.Logf("%s", prog)
	if x.src != nil {
		x.src.Yields = yields
		x.src.BeginOp()
	}
	races := mc.RaceErrors()
	mc.SeqMode = false
	res := mc.RunThreads(c, fns)
	mc.SeqMode = true
	defer func() { mc.SeqMode = false }()
	if x.src != nil {
		x.src.Yields = false
	}
	if n := mc.RaceErrors() - races; n > 0 {
		return mc.Failf("race", "%d data race(s) reported by the race detector with %s", n, prog)
	}
	if f := threadFail(res); f != nil {
		f.Msg += " with " + prog
		return f
	}
	h := mc.NewHash()
	for t, l := range logs {
		if l.bad != "" {
			return mc.Failf("alias", "%s: thread %d: %s", prog, t, l.bad)
		}
		for i, s := range l.serv {
			what := fmt.Sprintf("%s: thread %d, serving %d", prog, t, i)
			if f := c05check(s, what, caps, data); f != nil {
				return f
			}
			h = h.S(s.w.Trace())
		}
	}
	c.Outcome(uint64(h))
	if x.src != nil {
		if x.src.Bad != nil {
			x.src.Bad.Msg = prog + ": " + x.src.Bad.Msg
			return x.src.Bad
		}
		if x.src.Closed != 1 {
			return mc.Failf("close", "%s: every copy was served, the reader was closed %d times", prog, x.src.Closed)
		}
	}
	return nil
}

func c05check(s *c05serving, what string, caps int, data string) *mc.Fail {
	if s.err != nil {
		return mc.Failf("serve", "%s failed: %v", what, s.err)
	}
	want := cloneHdr(s.hdrs)
	nPush := len(want["Push"])
	delete(want, "Push")
	if caps&fakew.Pusher == 0 {
		nPush = 0
	}
	for _, k := range s.w.Calls {
		if k.Name == "Push" {
			nPush--
		}
	}
	if nPush != 0 || s.w.NHead != 1 || s.w.Status != s.code {
		return mc.Failf("serve", "%s sent status %d (want %d), calls [%s]", what, s.w.Status, s.code, s.w.Trace())
	}
	if !hdrEqual(s.w.Sent, want) {
		return mc.Failf("alias", "%s sent headers %s, want %s", what, hdrString(s.w.Sent), hdrString(want))
	}
	full := cloneHdr(s.hdrs)
	if !hdrEqual(s.resp.Headers(), full) {
		return mc.Failf("alias", "%s: the response's headers became %s, were %s", what, hdrString(s.resp.Headers()), hdrString(full))
	}
	if !s.any {
		if string(s.w.Body) != data {
			return mc.Failf("serve", "%s sent body %q, want %q", what, s.w.Body, data)
		}
	} else {
		if !strings.Contains(string(s.w.Body), s.data) {
			return mc.Failf("serve", "%s sent body %q, want it to contain %q", what, s.w.Body, s.data)
		}
		if cl := s.hdrs.Get("Content-Length"); cl != fmt.Sprint(len(s.w.Body)) {
			return mc.Failf("serve", "%s announced length %q and sent %d bytes", what, cl, len(s.w.Body))
		}
	}
	if _, err := s.body.Read(make([]byte, 1)); err == nil || !strings.Contains(err.Error(), "closed") {
		return mc.Failf("close", "%s: the body copy is still open afterwards (read gave %v)", what, err)
	}
	return nil
}

func init() {
	register(&Prop{ID: "C05", Threads: true, Race: true, Judge: judge("race deadlock alias serve close copy panic overlap after-close"), Units: c05units,
		Rule:        "an execution is one choice of what each thread does with its own copy (serve; copy and serve both; change, build and serve; error, redirect or JSON page) or with a response shared by all (copy once or twice and serve the copies, inspect, copy and read its body) and one schedule; every writer overwrites and appends to the header values it received; what each writer got, each response's headers afterwards, the closing of every body copy and of the reader are checked, and the same executions are repeated under the race detector with the explorer's hand-offs hidden",
		Bounds:      map[string]string{"quick": "2 threads with 1 preemption (2 for serving responses) at every writer, reader and lock call, 3 threads switching at ends; 6 body kinds x responses/builders x plain and wrapped full writer", "thorough": "2 threads with 2-3 preemptions, 3 threads with 1"},
		Assumptions: []string{"scheduling points lie before lock acquisitions and atomic operations, inside every writer and reader call and between the steps of a thread; accesses between two points are covered by the race detector", "a shared response is only copied and inspected while it is shared; anything else is done by one thread with its own copy"}})
}
