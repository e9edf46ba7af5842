//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"io/fs"
	"math"
	"mime"
	"net/http"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/fakew"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)

// ---- helpers ----

func normHdr(h http.Header) map[string]string {
	m := map[string]string{}
	for k, v := range h {
		m[k] = strings.Join(v, "\x00")
		if len(v) > 0 {
			m[k] += "\x01"
		}
	}
	return m
}

func hdrEqual(a, b http.Header) bool { return reflect.DeepEqual(normHdr(a), normHdr(b)) }

func hdrString(h http.Header) string {
	var ks []string
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("%s=%q", k, h[k]))
	}
	return "{" + strings.Join(s, " ") + "}"
}

func cloneHdr(h http.Header) http.Header {
	o := http.Header{}
	for k, v := range h {
		o[k] = append([]string(nil), v...)
	}
	return o
}

// try runs fn and returns the panic value, if any.
func try(fn func()) (v interface{}) {
	defer func() {
		v = recover()
		if v != nil && mc.IsControl(v) {
			panic(v)
		}
	}()
	fn()
	return nil
}

func readCopy(b body.Body) ([]byte, *mc.Fail) {
	cp, err := b.Copy()
	if err != nil || cp == nil {
		return nil, mc.Failf("body", "copying the body failed: %v", err)
	}
	p, err := io.ReadAll(cp)
	if err != nil {
		return nil, mc.Failf("body", "reading a copy of the body failed: %v", err)
	}
	if err := cp.Close(); err != nil {
		return nil, mc.Failf("body", "closing a copy of the body failed: %v", err)
	}
	return p, nil
}

// plainReader offers nothing but Read.
type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

func streamBody(s string) body.Body {
	b, err := body.FromReader(plainReader{strings.NewReader(s)})
	if err != nil {
		panic(err)
	}
	return b
}

// ---- R01 ----

type bodyCheck struct {
	desc  string
	known bool
	check func(p []byte) bool
}

func exactly(s string, known bool) *bodyCheck {
	return &bodyCheck{fmt.Sprintf("%q", s), known, func(p []byte) bool { return string(p) == s }}
}

func jsonly(v interface{}) *bodyCheck {
	want, _ := json.Marshal(v)
	return &bodyCheck{"JSON " + string(want), true, func(p []byte) bool {
		var a, b interface{}
		return json.Unmarshal(p, &a) == nil && json.Unmarshal(want, &b) == nil && reflect.DeepEqual(a, b)
	}}
}

type bmodel struct {
	gen  response.PageGenerator
	code int
	hdrs http.Header
	body *bodyCheck
	err  error
}

type bop struct {
	name   string
	refuse func(m *bmodel) bool
	do     func(b *response.Builder)
	model  func(m *bmodel)
}

// testGen is a page generator with recognisable output.
type testGen struct{ tag string }

func (g *testGen) GenerateRedirectPage(code int, location string) (http.Header, body.Body) {
	return http.Header{"X-Gen": {g.tag}, "Location": {location}}, body.FromString(fmt.Sprintf("redirect %d %s", code, location))
}
func (g *testGen) GenerateErrorPage(code int, err error) (http.Header, body.Body) {
	return http.Header{"X-Gen": {g.tag}}, body.FromString(fmt.Sprintf("error %d", code))
}

// bareGen generates pages with few headers or none, and bodies of every sort.
type bareGen struct{ hdrs, body int }

func (g *bareGen) page(txt string) (http.Header, body.Body) {
	var h http.Header
	switch g.hdrs {
	case 1:
		h = http.Header{}
	case 2:
		h = http.Header{"X-Gen": {""}}
	case 3:
		h = http.Header{"Content-Length": {"12345"}, "X-Gen": {"g", "h"}}
	}
	switch g.body {
	case 1:
		return h, body.Empty()
	case 2:
		return h, streamBody(txt)
	}
	return h, body.FromString(txt)
}
func (g *bareGen) check(txt string) *bodyCheck {
	switch g.body {
	case 1:
		return exactly("", true)
	case 2:
		return exactly(txt, false)
	}
	return exactly(txt, true)
}
func (g *bareGen) GenerateRedirectPage(code int, location string) (http.Header, body.Body) {
	return g.page(fmt.Sprintf("redirect %d %s", code, location))
}
func (g *bareGen) GenerateErrorPage(code int, err error) (http.Header, body.Body) {
	return g.page(fmt.Sprintf("error %d %v", code, err))
}

var (
	r01gen  = &testGen{"G"}
	r01errA = errors.New("error A")
	r01errB = errors.New("error B")
)

func never(*bmodel) bool  { return false }
func always(*bmodel) bool { return true }

func r01ops() []bop {
	var l []bop
	ok := func(name string, do func(b *response.Builder), model func(m *bmodel)) {
		l = append(l, bop{name, never, do, model})
	}
	no := func(name string, do func(b *response.Builder)) {
		l = append(l, bop{name, always, do, nil})
	}
	set := func(m *bmodel, k, v string) { m.hdrs[k] = []string{v} }
	for _, s := range []int{200, 404, 999} {
		s := s
		ok(fmt.Sprintf("WithStatus(%d)", s), func(b *response.Builder) { b.WithStatus(s) }, func(m *bmodel) { m.code = s })
	}
	for _, s := range []int{199, 1000, 0, -200} {
		s := s
		no(fmt.Sprintf("WithStatus(%d)", s), func(b *response.Builder) { b.WithStatus(s) })
	}
	ok(`WithHeader("X-A","1",set)`, func(b *response.Builder) { b.WithHeader("X-A", "1", false) }, func(m *bmodel) { set(m, "X-A", "1") })
	ok(`WithHeader("x-a","2",append)`, func(b *response.Builder) { b.WithHeader("x-a", "2", true) }, func(m *bmodel) { m.hdrs["X-A"] = append(append([]string(nil), m.hdrs["X-A"]...), "2") })
	ok(`WithHeader("Content-Length","7",set)`, func(b *response.Builder) { b.WithHeader("Content-Length", "7", false) }, func(m *bmodel) { set(m, "Content-Length", "7") })
	ok(`WithHeader("Push","/p",append)`, func(b *response.Builder) { b.WithHeader("Push", "/p", true) }, func(m *bmodel) { m.hdrs["Push"] = append(append([]string(nil), m.hdrs["Push"]...), "/p") })
	no(`WithHeader("","v")`, func(b *response.Builder) { b.WithHeader("", "v", false) })
	ok(`WithoutHeader("x-a")`, func(b *response.Builder) { b.WithoutHeader("x-a") }, func(m *bmodel) { delete(m.hdrs, "X-A") })
	ok(`WithoutHeader("Content-Type")`, func(b *response.Builder) { b.WithoutHeader("Content-Type") }, func(m *bmodel) { delete(m.hdrs, "Content-Type") })
	no(`WithoutHeader("")`, func(b *response.Builder) { b.WithoutHeader("") })
	ok(`WithHeaders(X-B)`, func(b *response.Builder) { b.WithHeaders(http.Header{"X-B": {"p", "q"}}) }, func(m *bmodel) { m.hdrs = http.Header{"X-B": {"p", "q"}} })
	ok(`WithHeaders(nil)`, func(b *response.Builder) { b.WithHeaders(nil) }, func(m *bmodel) { m.hdrs = http.Header{} })
	ok(`Headers().Set("X-C","c")`, func(b *response.Builder) { b.Headers().Set("X-C", "c") }, func(m *bmodel) { set(m, "X-C", "c") })
	ok(`WithContentType("TEXT/Html ; Charset=\"x\"")`, func(b *response.Builder) { b.WithContentType("TEXT/Html ; Charset=\"x\"") }, func(m *bmodel) { set(m, "Content-Type", "text/html; charset=x") })
	no(`WithContentType("/;;=")`, func(b *response.Builder) { b.WithContentType("/;;=") })
	no(`WithContentType("")`, func(b *response.Builder) { b.WithContentType("") })
	ok(`WithContentLanguage(" en ")`, func(b *response.Builder) { b.WithContentLanguage(" en ") }, func(m *bmodel) { set(m, "Content-Language", "en") })
	ok(`WithContentEncoding(" gzip")`, func(b *response.Builder) { b.WithContentEncoding(" gzip") }, func(m *bmodel) { set(m, "Content-Encoding", "gzip") })
	ok(`WithETag("t",strong)`, func(b *response.Builder) { b.WithETag("t", true) }, func(m *bmodel) { set(m, "Etag", `"t"`) })
	ok(`WithETag("t",weak)`, func(b *response.Builder) { b.WithETag("t", false) }, func(m *bmodel) { set(m, "Etag", `W/"t"`) })
	ok(`WithDigest("sha",..)`, func(b *response.Builder) { b.WithDigest("sha", []byte{251, 255, 3}) }, func(m *bmodel) {
		m.hdrs["Digest"] = append(append([]string(nil), m.hdrs["Digest"]...), "sha=+/8D")
	})
	no(`WithDigest("",..)`, func(b *response.Builder) { b.WithDigest("", []byte{1}) })
	no(`WithDigest("sha",nil)`, func(b *response.Builder) { b.WithDigest("sha", nil) })
	ok(`WithBody(memory)`, func(b *response.Builder) { b.WithBody(body.FromString("abc")) }, func(m *bmodel) { m.body = exactly("abc", true) })
	ok(`WithBody(stream)`, func(b *response.Builder) { b.WithBody(streamBody("stream!")) }, func(m *bmodel) { m.body = exactly("stream!", false) })
	ok(`WithBody(empty)`, func(b *response.Builder) { b.WithBody(body.Empty()) }, func(m *bmodel) { m.body = exactly("", true) })
	no(`WithBody(nil)`, func(b *response.Builder) { b.WithBody(nil) })
	ok(`WithJSON`, func(b *response.Builder) { b.WithJSON(map[string]int{"é<": 1}) }, func(m *bmodel) {
		m.body = jsonly(map[string]int{"é<": 1})
		set(m, "Content-Type", "application/json")
	})
	ok(`WithPrettyJSON`, func(b *response.Builder) { b.WithPrettyJSON([]int{1, 2}) }, func(m *bmodel) {
		m.body = jsonly([]int{1, 2})
		set(m, "Content-Type", "application/json")
	})
	ok(`WithProto`, func(b *response.Builder) { b.WithProto(wrapperspb.String("pb")) }, func(m *bmodel) {
		m.body = &bodyCheck{"protobuf", true, func(p []byte) bool {
			var v wrapperspb.StringValue
			return proto.Unmarshal(p, &v) == nil && v.Value == "pb"
		}}
		set(m, "Content-Type", "application/vnd.google.protobuf")
	})
	ok(`WithProtoText`, func(b *response.Builder) { b.WithProtoText(wrapperspb.Int32(7), nil) }, func(m *bmodel) {
		m.body = &bodyCheck{"protobuf text", true, func(p []byte) bool {
			var v wrapperspb.Int32Value
			return prototext.Unmarshal(p, &v) == nil && v.Value == 7
		}}
		set(m, "Content-Type", "text/plain; charset=utf-8")
	})
	ok(`WithError(A)`, func(b *response.Builder) { b.WithError(r01errA) }, func(m *bmodel) { m.err = r01errA })
	ok(`WithError(nil)`, func(b *response.Builder) { b.WithError(nil) }, func(m *bmodel) { m.err = nil })
	ok(`RedirectPage(302," /x ")`, func(b *response.Builder) { b.RedirectPage(302, " /x ") }, func(m *bmodel) {
		m.code, m.err = 302, nil
		h, bd := m.genOr().GenerateRedirectPage(302, "/x")
		m.hdrs = cloneHdr(h)
		p, _ := io.ReadAll(bd)
		m.body = exactly(string(p), true)
	})
	no(`RedirectPage(299,"/x")`, func(b *response.Builder) { b.RedirectPage(299, "/x") })
	no(`RedirectPage(400,"/x")`, func(b *response.Builder) { b.RedirectPage(400, "/x") })
	no(`RedirectPage(302," ")`, func(b *response.Builder) { b.RedirectPage(302, " \t") })
	ok(`ErrorPage(503,B)`, func(b *response.Builder) { b.ErrorPage(503, r01errB) }, func(m *bmodel) {
		m.code, m.err = 503, r01errB
		h, bd := m.genOr().GenerateErrorPage(503, r01errB)
		m.hdrs = cloneHdr(h)
		p, _ := io.ReadAll(bd)
		m.body = exactly(string(p), true)
	})
	no(`ErrorPage(199,B)`, func(b *response.Builder) { b.ErrorPage(199, r01errB) })
	no(`ErrorPage(1000,B)`, func(b *response.Builder) { b.ErrorPage(1000, r01errB) })
	no(`ErrorPage(500,nil)`, func(b *response.Builder) { b.ErrorPage(500, nil) })
	ok(`Copy, going on with the copy`, func(b *response.Builder) {
		nb, err := b.Copy()
		if err != nil {
			panic(err)
		}
		*b = *nb
	}, func(*bmodel) {})
	ok(`WithPageGenerator(G)`, func(b *response.Builder) { b.WithPageGenerator(r01gen) }, func(m *bmodel) { m.gen = r01gen })
	no(`WithPageGenerator(nil)`, func(b *response.Builder) { b.WithPageGenerator(nil) })
	l = append(l, bop{"Build", func(m *bmodel) bool { return m.body == nil }, nil, nil})
	return l
}

func (m *bmodel) genOr() response.PageGenerator {
	if m.gen == nil {
		return response.DefaultPageGenerator
	}
	return m.gen
}

func (m *bmodel) compare(b *response.Builder, after string) *mc.Fail {
	if b.Status() != m.code {
		return mc.Failf("builder", "after %s: Status() is %d, want %d", after, b.Status(), m.code)
	}
	if b.Err() != m.err {
		return mc.Failf("builder", "after %s: Err() is %v, want %v", after, b.Err(), m.err)
	}
	if (b.Body() == nil) != (m.body == nil) {
		return mc.Failf("builder", "after %s: Body() is %T, want %v", after, b.Body(), m.body)
	}
	if b.PageGenerator() != m.genOr() {
		return mc.Failf("builder", "after %s: PageGenerator() is %v", after, b.PageGenerator())
	}
	if h := b.Headers(); !hdrEqual(h, m.hdrs) {
		return mc.Failf("builder", "after %s: headers are %s, want %s", after, hdrString(h), hdrString(m.hdrs))
	}
	return nil
}

// build performs Build on both and compares the response.
func (m *bmodel) build(b *response.Builder, trail string) (*response.Response, *mc.Fail) {
	resp := b.Build()
	if resp == nil {
		return nil, mc.Failf("build", "after %s: Build returned nil", trail)
	}
	code := m.code
	if code == 0 {
		code = 200
	}
	if resp.Status() != code {
		return nil, mc.Failf("build", "after %s: the response has status %d, want %d", trail, resp.Status(), code)
	}
	if resp.Err() != m.err {
		return nil, mc.Failf("build", "after %s: the response has error %v, want %v", trail, resp.Err(), m.err)
	}
	got, f := readCopy(resp.Body())
	if f != nil {
		return nil, f
	}
	if !m.body.check(got) {
		return nil, mc.Failf("build", "after %s: the response's body is %q, want %s", trail, got, m.body.desc)
	}
	want := cloneHdr(m.hdrs)
	if _, ok := want["Content-Type"]; !ok {
		want["Content-Type"] = []string{"application/octet-stream"}
	}
	if _, ok := want["Content-Length"]; !ok && m.body.known {
		want["Content-Length"] = []string{strconv.Itoa(len(got))}
	}
	if !hdrEqual(resp.Headers(), want) {
		return nil, mc.Failf("build", "after %s: the response has headers %s, want %s", trail, hdrString(resp.Headers()), hdrString(want))
	}
	m.code, m.hdrs, m.body, m.err = 0, http.Header{}, nil, nil
	return resp, m.compare(b, trail+", Build")
}

func r01units(tier string) []*mc.Unit {
	out := r01family("full/", r01ops(), 4)
	out = append(out, r01more(tier)...)
	if tier == "thorough" {
		var narrow []bop
		for _, o := range r01ops() {
			for _, p := range []string{"WithStatus(404)", "WithHeader(\"x-a\"", "WithHeader(\"Content-L", "WithoutHeader(\"Content", "WithHeaders(X-B)", "WithContentType(\"T", "WithBody(mem", "WithBody(str", "WithJSON", "WithProtoText", "WithError(A)", "WithError(nil)", "Redirect", "ErrorPage(503", "WithPageGenerator(G)", "Build"} {
				if strings.HasPrefix(o.name, p) && (p != "Redirect" || strings.Contains(o.name, "302,\" /x")) {
					narrow = append(narrow, o)
				}
			}
		}
		out = append(out, r01family("narrow/", narrow, 6)...)
	}
	return out
}

func r01family(tag string, ops []bop, depth int) []*mc.Unit {
	var out []*mc.Unit
	for first := range ops {
		first := first
		out = append(out, &mc.Unit{Name: fmt.Sprintf("%sdepth=%d#%d %s", tag, depth, first, ops[first].name), Bounds: mc.Bounds{}, Run: func(c *mc.Ctl) (f *mc.Fail) {
			mc.SeqMode = true
			defer func() { mc.SeqMode = false }()
			defer guard(&f)
			b := response.NewBuilder()
			m := &bmodel{hdrs: http.Header{}}
			var trail []string
			for d := 0; d < depth; d++ {
				k := first
				if d > 0 {
					k = c.Choose(len(ops)+1, mc.Free) - 1
					if k < 0 {
						break
					}
				}
				o := ops[k]
				trail = append(trail, o.name)
				tr := strings.Join(trail, ", ")
				refuse := o.refuse(m)
				var f *mc.Fail
				var pv interface{}
				if o.do == nil {
					pv = try(func() {
						if refuse {
							b.Build()
						} else {
							_, f = m.build(b, strings.Join(trail[:len(trail)-1], ", "))
						}
					})
				} else {
					pv = try(func() { o.do(b) })
				}
				if c.Verbose {
					c.Logf("%s -> panic %v", o.name, pv)
				}
				if f != nil {
					return f
				}
				if refuse && pv == nil {
					return mc.Failf("refuse", "%s was accepted after %s", o.name, tr)
				}
				if !refuse {
					if pv != nil {
						return mc.Failf("refuse", "%s panicked after %s: %v", o.name, tr, pv)
					}
					if o.model != nil {
						o.model(m)
					}
				}
				if f := m.compare(b, tr); f != nil {
					return f
				}
				h := mc.NewHash().I(int64(m.code)).S(hdrString(m.hdrs)).B(m.err != nil).B(m.body != nil).B(m.gen != nil)
				if m.body != nil {
					h = h.S(m.body.desc)
				}
				c.State(uint64(h))
				c.Trans(uint64(h.S(o.name)))
			}
			if m.body != nil {
				if _, f := m.build(b, strings.Join(trail, ", ")); f != nil {
					return f
				}
			}
			return nil
		}})
	}
	return out
}

func manyParams(n int) string {
	s := "text/html"
	for i := 0; i < n; i++ {
		s += fmt.Sprintf("; p%d=v%d", i, i)
	}
	return s
}

// r01types are content types; the valid ones come out as package mime writes
// them.
var r01types = []string{"text/html", "Text/HTML", " text/html ", "text/html;", "text/html; charset=utf-8", "text/html;charset=UTF-8", "text/html; CHARSET=\"utf-8\"", "text/html; a=1; b=2", "text/html; b=2; a=1", "text/html; a=\"x y\"", "text/html; a=\"x;y\"", "text/html; a=\"x\\\"y\"", "text/html; a=1; a=1", "text/html; a=1; a=2", "text/html; a", "text/html; =1", "text/html; a=", "text", "text/", "/html", "/", "", " ", ";", "; charset=utf-8", "text/html charset=utf-8", "text/html, text/plain", "text/html; charset=utf-8, x", "application/json; v=1", "application/vnd.google.protobuf; proto=x.Y", "multipart/form-data; boundary=\"a b\"", "*/*", "text/html; filename*=utf-8''%e2%82%ac", "text/html; title*0=a; title*1=b", "text/h\ttml", "text/html\r\nX-Inj: 1", "téxt/html", "text/html; a=\"é\"", "form-data; name=\"x\"", "attachment; filename=\"f.txt\"", "text/html; charset=utf-8; charset=utf-8", "text/plain; format=flowed; delsp=yes", "TEXT/PLAIN; FORMAT=Flowed", "image/svg+xml", "text/html(comment)", "text/html; a=b=c", "text/html; a=1; b=2; c=3; d=4; e=5; f=6", "text/html; " + strings.Repeat("a", 70) + "=1; charset=utf-8", "text/html; a=" + strings.Repeat("v", 300), manyParams(40), "\x00", "text/\x00", "text/html;\x00", strings.Repeat("a", 300) + "/b"}

// ownBody is a caller's own implementation of Body.
type ownBody struct {
	body.Body
	n int64
}

func (b ownBody) BytesRemaining() int64 { return b.n }

func r01more(tier string) []*mc.Unit {
	var out []*mc.Unit
	unit := func(name string, run func(c *mc.Ctl) *mc.Fail) {
		out = append(out, &mc.Unit{Name: name, Run: func(c *mc.Ctl) (f *mc.Fail) {
			mc.SeqMode = true
			defer func() { mc.SeqMode = false }()
			defer guard(&f)
			return run(c)
		}})
	}
	namesUnits(unit)
	// pages from the caller's own generator, whatever it returns, replace
	// everything set before
	unit("generators", func(c *mc.Ctl) *mc.Fail {
		g := &bareGen{c.Choose(4, mc.Free), c.Choose(3, mc.Free)}
		b := response.NewBuilder()
		m := &bmodel{hdrs: http.Header{}, gen: g}
		early := c.Choose(2, mc.Free) == 1
		if early {
			b.WithPageGenerator(g)
		}
		pre := c.Choose(4, mc.Free)
		switch pre {
		case 1:
			b.WithHeader("X-Old", "1", false).WithContentType("text/old").WithHeader("Content-Length", "3", false)
		case 2:
			b.WithHeaders(http.Header{"X-Old": {"1", "2"}})
		case 3:
			b.WithJSON(1).WithStatus(404).WithError(r01errB)
		}
		if !early {
			b.WithPageGenerator(g)
		}
		isErr := c.Choose(2, mc.Free) == 1
		twice := c.Choose(2, mc.Free) + 1
		trail := fmt.Sprintf("generator (headers %d, body %d) given early %v after setup %d, error page %v, %d times", g.hdrs, g.body, early, pre, isErr, twice)
		c.State(uint64(mc.NewHash().S(trail)))
		c.Trans(uint64(mc.NewHash().S(trail)))
		for i := 0; i < twice; i++ {
			if isErr {
				h, _ := g.GenerateErrorPage(503, r01errA)
				b.ErrorPage(503, r01errA)
				m.code, m.err, m.hdrs, m.body = 503, r01errA, cloneHdr(h), g.check(fmt.Sprintf("error %d %v", 503, r01errA))
			} else {
				h, _ := g.GenerateRedirectPage(307, "/to")
				b.RedirectPage(307, "/to")
				m.code, m.err, m.hdrs, m.body = 307, nil, cloneHdr(h), g.check("redirect 307 /to")
			}
			if m.hdrs == nil {
				m.hdrs = http.Header{}
			}
			if f := m.compare(b, trail); f != nil {
				return f
			}
			if i+1 < twice {
				b.WithHeader("X-Between", "1", true)
				m.hdrs["X-Between"] = []string{"1"}
			}
		}
		if c.Choose(2, mc.Free) == 1 {
			b.WithHeader("X-After", "1", false).WithStatus(410)
			m.hdrs["X-After"], m.code = []string{"1"}, 410
		}
		_, f := m.build(b, trail)
		return f
	})
	// the whole range of status codes, given in each way
	unit("statuses", func(c *mc.Ctl) *mc.Fail {
		code := c.Choose(1103+len(farCodes), mc.Free) - 2
		if code > 1100 {
			code = farCodes[code-1101]
		}
		via := c.Choose(4, mc.Free)
		c.State(uint64(mc.NewHash().I(int64(code))))
		c.Trans(uint64(mc.NewHash().I(int64(code)).I(int64(via))))
		lo, hi := 200, 999
		if via == 2 {
			lo, hi = 300, 399
		}
		refuse := code < lo || code > hi
		b := response.NewBuilder().WithPageGenerator(r01gen)
		m := &bmodel{hdrs: http.Header{}, gen: r01gen}
		switch kind := c.Choose(5, mc.Free); kind {
		case 0:
			b.WithBody(body.FromString("abc"))
			m.body = exactly("abc", true)
		case 1:
			b.WithBody(streamBody("stream!"))
			m.body = exactly("stream!", false)
		case 2:
			b.WithBody(body.Empty())
			m.body = exactly("", true)
		case 3:
			b.WithBody(body.FromString(""))
			m.body = exactly("", true)
		case 4:
			b.WithBody(streamBody(""))
			m.body = exactly("", false)
		}
		switch c.Choose(4, mc.Free) {
		case 1:
			b.WithHeader("X-A", "1", false)
			m.hdrs["X-A"] = []string{"1"}
		case 2:
			b.WithHeader("Content-Length", "0", false)
			m.hdrs["Content-Length"] = []string{"0"}
		case 3:
			b.WithContentType("text/plain").WithHeader("Content-Length", "", false)
			m.hdrs["Content-Type"], m.hdrs["Content-Length"] = []string{"text/plain"}, []string{""}
		}
		name := fmt.Sprintf("WithStatus(%d)", code)
		do := func() { b.WithStatus(code) }
		page := func(h http.Header, bd body.Body) {
			p, _ := io.ReadAll(bd)
			m.hdrs, m.body = cloneHdr(h), exactly(string(p), true)
		}
		switch via {
		case 0:
			if !refuse {
				m.code = code
			}
		case 1:
			b.WithStatus(204)
			m.code = 204
			if !refuse {
				m.code = code
			}
		case 2:
			name = fmt.Sprintf("RedirectPage(%d)", code)
			do = func() { b.RedirectPage(code, "/to") }
			if !refuse {
				page(r01gen.GenerateRedirectPage(code, "/to"))
				m.code = code
			}
		case 3:
			name = fmt.Sprintf("ErrorPage(%d)", code)
			do = func() { b.ErrorPage(code, r01errA) }
			if !refuse {
				page(r01gen.GenerateErrorPage(code, r01errA))
				m.code, m.err = code, r01errA
			}
		}
		c.Logf("%s", name)
		if pv := try(do); (pv != nil) != refuse {
			return mc.Failf("refuse", "%s: panic %v, refused codes are those outside %d-%d", name, pv, lo, hi)
		}
		if f := m.compare(b, name); f != nil {
			return f
		}
		_, f := m.build(b, name)
		return f
	})
	unit("content types", func(c *mc.Ctl) *mc.Fail {
		ct := r01types[c.Choose(len(r01types), mc.Free)]
		have := c.Choose(2, mc.Free) == 1
		c.State(uint64(mc.NewHash().S(ct)))
		c.Trans(uint64(mc.NewHash().S(ct).B(have)))
		b := response.NewBuilder().WithBody(body.FromString("abc"))
		m := &bmodel{hdrs: http.Header{}, body: exactly("abc", true)}
		if have {
			b.WithHeader("Content-Type", "x/y", false).WithHeader("Content-Type", "x/z", true)
			m.hdrs["Content-Type"] = []string{"x/y", "x/z"}
		}
		want := ""
		if t, p, err := mime.ParseMediaType(ct); err == nil {
			want = mime.FormatMediaType(t, p)
		}
		name := fmt.Sprintf("WithContentType(%q)", ct)
		if want != "" {
			m.hdrs["Content-Type"] = []string{want}
		}
		c.Logf("%s", name)
		if pv := try(func() { b.WithContentType(ct) }); (pv != nil) != (want == "") {
			return mc.Failf("refuse", "%s: panic %v; package mime makes it %q", name, pv, want)
		}
		if f := m.compare(b, name); f != nil {
			return f
		}
		_, f := m.build(b, name)
		return f
	})
	unit("etags", func(c *mc.Ctl) *mc.Fail {
		tags := []string{"", "*", "a", "W/a", "0", "-", "a b", "a,b", "abc-def_1.2:3/4+5=", "sha256-47DEQpj8", "!#$%&'()*+,-./", "é", strings.Repeat("x", 70), strings.Repeat("y", 5000)}
		tag := tags[c.Choose(len(tags), mc.Free)]
		strong := c.Choose(2, mc.Free) == 0
		have := c.Choose(3, mc.Free)
		c.State(uint64(mc.NewHash().S(tag).B(strong)))
		c.Trans(uint64(mc.NewHash().S(tag).B(strong).I(int64(have))))
		b := response.NewBuilder().WithBody(body.FromString("abc"))
		m := &bmodel{hdrs: http.Header{}, body: exactly("abc", true)}
		switch have {
		case 1:
			b.WithETag("old", !strong)
		case 2:
			b.Headers()["Etag"] = []string{"x", "y"}
		}
		name := fmt.Sprintf("WithETag(%q, strong=%v)", tag, strong)
		want := `"` + tag + `"`
		if !strong {
			want = "W/" + want
		}
		m.hdrs["Etag"] = []string{want}
		c.Logf("%s", name)
		b.WithETag(tag, strong)
		if f := m.compare(b, name); f != nil {
			return f
		}
		_, f := m.build(b, name)
		return f
	})
	// headers that are there with no value or an empty one are not absent
	unit("present", func(c *mc.Ctl) *mc.Fail {
		vals := [][]string{nil, {}, {""}, {"", ""}, {"x", "y"}, {"0"}}
		ti, li, how := c.Choose(len(vals)+1, mc.Free), c.Choose(len(vals)+1, mc.Free), c.Choose(3, mc.Free)
		st := c.Choose(2, mc.Free)
		c.State(uint64(mc.NewHash().I(int64(ti)).I(int64(li))))
		c.Trans(uint64(mc.NewHash().I(int64(ti)).I(int64(li)).I(int64(how)).I(int64(st))))
		h := http.Header{"X-A": {"a"}}
		if ti > 0 {
			h["Content-Type"] = vals[ti-1]
		}
		if li > 0 {
			h["Content-Length"] = vals[li-1]
		}
		m := &bmodel{hdrs: cloneHdr(h), body: exactly("abc", st == 0)}
		b := response.NewBuilder()
		if st == 0 {
			b.WithBody(body.FromString("abc"))
		} else {
			b.WithBody(streamBody("abc"))
		}
		name := fmt.Sprintf("headers %s given in way %d", hdrString(h), how)
		switch how {
		case 0:
			b.WithHeaders(h)
		case 1:
			for k, v := range h {
				b.Headers()[k] = v
			}
		case 2:
			b.WithHeaders(h)
			nb, err := b.Copy()
			if err != nil {
				return mc.Failf("build", "copying the builder: %v", err)
			}
			b = nb
		}
		c.Logf("%s", name)
		if f := m.compare(b, name); f != nil {
			return f
		}
		_, f := m.build(b, name)
		return f
	})
	// the length of every sort of body, from every position in it
	unit("lengths", func(c *mc.Ctl) *mc.Fail {
		kind := c.Choose(9, mc.Free)
		var n int64
		var bd body.Body
		var err error
		known := true
		size := []int64{0, 1, 9, 10, 4096, 65536, 65537, 100000}
		big := []int64{0, 1, 999, 1000, 1 << 16, math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, 5 << 30, 9999999999, 1 << 40, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64}
		switch kind {
		case 0, 1, 2, 3, 4:
			n = size[c.Choose(len(size), mc.Free)]
		default:
			n = big[c.Choose(len(big), mc.Free)]
		}
		data := func() []byte { return env.BytesAt(0, n) }
		switch kind {
		case 0:
			bd = body.FromBytes(data())
		case 1:
			bd = body.FromString(string(data()))
		case 2:
			bd, err = body.FromReader(bytes.NewReader(data()))
		case 3:
			bd, err = body.FromReaderAndLength(plainReader{bytes.NewReader(data())}, n)
		case 4:
			bd, err = body.FromReader(plainReader{bytes.NewReader(data())})
			known = false
		case 5:
			src := &env.Src{Ctl: c, N: n, SizeVal: n, Mode: 0o444}
			bd, err = body.FromReaderAndLength(src.Reader(env.Caps{At: true}), n)
		case 6:
			src := &env.Src{Ctl: c, N: n, SizeVal: n, Mode: 0o444}
			bd, err = body.FromReader(src.Reader(env.Caps{Seek: true}))
		case 7:
			src := &env.Src{Ctl: c, N: n, SizeVal: n, Mode: 0o444}
			bd, err = body.FromReaderAndLength(src.Reader(env.Caps{}), n)
		case 8:
			bd = ownBody{body.AlreadyClosed(), n}
		}
		if err != nil {
			return mc.Failf("build", "making body %d of %d bytes: %v", kind, n, err)
		}
		at := c.Choose(5, mc.Free)
		if kind == 8 && at > 0 {
			return nil
		}
		var pos int64
		read := func(k int64) *mc.Fail {
			if k > 70000 {
				k = 70000
			}
			p := make([]byte, k)
			g, err := io.ReadFull(bd, p)
			if int64(g) != k {
				return mc.Failf("build", "reading %d of the body's %d bytes: %d, %v", k, n, g, err)
			}
			pos = k
			return nil
		}
		var f *mc.Fail
		switch at {
		case 1:
			f = read(min(n, 1))
		case 2:
			f = read(n / 2)
		case 3:
			f = read(n)
			if f == nil && pos == n && kind == 4 {
				// the end of a stream may not have been seen yet
				var one [1]byte
				if g, err := bd.Read(one[:]); g != 0 || err != io.EOF {
					return mc.Failf("build", "reading at the end of the body: %d, %v", g, err)
				}
				known = true
			}
		case 4:
			if kind == 4 || n > 1<<62 {
				return nil
			}
			sk, ok := bd.(io.Seeker)
			if !ok {
				return nil
			}
			if _, err := sk.Seek(n/2, io.SeekStart); err != nil {
				if kind == 7 || kind == 3 {
					return nil // a stream may not be able to
				}
				return mc.Failf("build", "seeking body %d: %v", kind, err)
			}
			pos = n / 2
		}
		if f != nil {
			return f
		}
		c.State(uint64(mc.NewHash().I(int64(kind)).I(n).I(pos)))
		c.Trans(uint64(mc.NewHash().I(int64(kind)).I(n).I(pos).I(int64(at))))
		name := fmt.Sprintf("body kind %d of %d bytes at %d", kind, n, pos)
		c.Logf("%s", name)
		if kind == 4 && bd.BytesRemaining() >= 0 {
			known = true // knowing more than needed is fine, if it is right
		}
		h := response.NewBuilder().WithBody(bd).Build().Headers()
		want := http.Header{"Content-Type": {"application/octet-stream"}}
		if known {
			want["Content-Length"] = []string{strconv.FormatInt(n-pos, 10)}
		}
		if !hdrEqual(h, want) {
			return mc.Failf("build", "%s: the response has headers %s, want %s", name, hdrString(h), hdrString(want))
		}
		return nil
	})
	// many headers, many and long values
	unit("many", func(c *mc.Ctl) *mc.Fail {
		nk := []int{1, 2, 15, 16, 17, 31, 33, 64, 100, 1000}[c.Choose(10, mc.Free)]
		nv := []int{1, 2, 3, 16, 17, 100}[c.Choose(6, mc.Free)]
		vl := []int{1, 256, 1024, 65536}[c.Choose(4, mc.Free)]
		if nk*nv*vl > 1<<22 {
			return nil
		}
		how := c.Choose(3, mc.Free)
		c.State(uint64(mc.NewHash().I(int64(nk)).I(int64(nv)).I(int64(vl))))
		c.Trans(uint64(mc.NewHash().I(int64(nk)).I(int64(nv)).I(int64(vl)).I(int64(how))))
		b := response.NewBuilder().WithBody(body.FromString("abc"))
		m := &bmodel{hdrs: http.Header{}, body: exactly("abc", true)}
		long := strings.Repeat("v", vl)
		for k := 0; k < nk; k++ {
			key := fmt.Sprintf("X-K%d", k)
			var vs []string
			for v := 0; v < nv; v++ {
				vs = append(vs, fmt.Sprintf("%s-%d-%d", long[len(long)/2:], k, v)+long[:len(long)/2])
			}
			m.hdrs[key] = vs
		}
		switch how {
		case 0:
			for k, vs := range m.hdrs {
				for i, v := range vs {
					b.WithHeader(k, v, i > 0)
				}
			}
		case 1:
			b.WithHeaders(m.hdrs)
		case 2:
			b.WithHeaders(m.hdrs)
			nb, err := b.Copy()
			if err != nil {
				return mc.Failf("build", "copying the builder: %v", err)
			}
			b = nb
		}
		m.hdrs = cloneHdr(m.hdrs)
		name := fmt.Sprintf("%d headers with %d values of %d bytes", nk, nv, vl)
		c.Logf("%s", name)
		if f := m.compare(b, name); f != nil {
			f.Msg = head(f.Msg)
			return f
		}
		_, f := m.build(b, name)
		if f != nil {
			f.Msg = head(f.Msg)
		}
		return f
	})
	return out
}

// ---- R05 / R06 ----

// tags splits a page into its tag skeleton (attribute values blanked) and
// returns the first anchor's href value and text. A quote- and tag-aware scan
// as an HTML tokenizer does it.
func tags(page string) (skel []string, href, text string, ok bool) {
	i := 0
	inA := false
	nA := 0
	var textStart int
	for i < len(page) {
		if page[i] != '<' || i+1 >= len(page) || !(page[i+1] == '/' || page[i+1] == '!' || page[i+1] == '?' || isAlpha(page[i+1])) {
			i++
			continue
		}
		if inA {
			text += page[textStart:i]
		}
		j := i + 1
		// tag name
		for j < len(page) && !strings.ContainsRune(" \t\r\n\f/>", rune(page[j])) || j < len(page) && page[j] == '/' && j == i+1 {
			j++
		}
		name := strings.ToLower(page[i+1 : j])
		sk := "<" + name
		if strings.HasPrefix(name, "!--") {
			// a comment swallows the rest
			return append(skel, "comment"), href, text, false
		}
		for j < len(page) && page[j] != '>' {
			if strings.ContainsRune(" \t\r\n\f/", rune(page[j])) {
				j++
				continue
			}
			s := j
			for j < len(page) && !strings.ContainsRune(" \t\r\n\f/>=", rune(page[j])) {
				j++
			}
			an := strings.ToLower(page[s:j])
			for j < len(page) && strings.ContainsRune(" \t\r\n\f", rune(page[j])) {
				j++
			}
			val := ""
			if j < len(page) && page[j] == '=' {
				j++
				for j < len(page) && strings.ContainsRune(" \t\r\n\f", rune(page[j])) {
					j++
				}
				if j < len(page) && (page[j] == '"' || page[j] == '\'') {
					q := page[j]
					e := strings.IndexByte(page[j+1:], q)
					if e < 0 {
						return append(skel, sk+" unterminated"), href, text, false
					}
					val = page[j+1 : j+1+e]
					j += e + 2
				} else {
					s := j
					for j < len(page) && !strings.ContainsRune(" \t\r\n\f>", rune(page[j])) {
						j++
					}
					val = page[s:j]
				}
				if name == "a" && an == "href" {
					href = val
					val = "*"
				}
				sk += " " + an + "=" + val
			} else {
				sk += " " + an
			}
		}
		if j >= len(page) {
			return append(skel, sk+" unterminated"), href, text, false
		}
		i = j + 1
		skel = append(skel, sk+">")
		switch name {
		case "a":
			inA = true
			nA++
		case "/a":
			inA = false
		}
		textStart = i
	}
	return skel, href, text, nA == 1 && !inA
}

func isAlpha(b byte) bool { return b|0x20 >= 'a' && b|0x20 <= 'z' }

func cl(h http.Header) string {
	v := h["Content-Length"]
	if len(v) != 1 {
		return fmt.Sprintf("%q", v)
	}
	return v[0]
}

func checkRedirect(code int, given, loc string, status int, h http.Header, p []byte, builder bool, base []string) *mc.Fail {
	what := fmt.Sprintf("redirect %d to %q", code, given)
	if builder && status != code {
		return mc.Failf("redirect", "%s has status %d", what, status)
	}
	if v := h["Location"]; len(v) != 1 || v[0] != loc {
		return mc.Failf("redirect", "%s has Location %q, want %q", what, v, loc)
	}
	if cl(h) != strconv.Itoa(len(p)) {
		return mc.Failf("redirect", "%s has Content-Length %s for a body of %d bytes", what, cl(h), len(p))
	}
	if ct := h.Get("Content-Type"); !strings.HasPrefix(ct, "text/html") {
		return mc.Failf("redirect", "%s has Content-Type %q", what, ct)
	}
	sk, href, text, ok := tags(string(p))
	if !ok || !reflect.DeepEqual(sk, base) {
		return mc.Failf("redirect", "%s: the page's markup is %q, for a harmless location it is %q", what, sk, base)
	}
	if u := html.UnescapeString(href); u != loc {
		return mc.Failf("redirect", "%s: the link target decodes to %q", what, u)
	}
	if u := html.UnescapeString(text); u != loc {
		return mc.Failf("redirect", "%s: the link text decodes to %q", what, u)
	}
	return nil
}

// farCodes are status codes far outside the permitted range, also ones that
// look permitted in a narrower integer type.
var farCodes = []int{math.MinInt64, math.MinInt32, -32768, -404, -302, -200, 1<<8 + 1000, 1<<16 + 200, 1<<16 + 302, 1<<32 + 200, 1<<32 + 302, 1<<40 + 404, math.MaxInt32, math.MaxInt64}

var longSizes = []int{60, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 70000}

// longLocation is a location of the given size with atom at the start, the
// end, the middle, everywhere, or next to the start and the end.
func longLocation(atom string, size, at int) string {
	fill := func(n int) string {
		const f = "/path/to/some-page.html"
		if n <= 0 {
			return ""
		}
		return strings.Repeat(f, n/len(f)+1)[:n]
	}
	r := size - len(atom)
	switch at {
	case 0:
		return atom + fill(r)
	case 1:
		return fill(r) + atom
	case 2:
		return fill(r/2) + atom + fill(r-r/2)
	case 3:
		return strings.Repeat(atom, size/len(atom))
	}
	return "/" + atom + fill(size-2*len(atom)-2) + atom + "z"
}

func r05units(tier string) []*mc.Unit {
	atoms := []string{"<", ">", "\"", "'", "&", "/", " ", "\t", "\r", "\n", "\x00", "a", "=", ":", "`", "é", "\xff", "&lt;", "&#34;", "<script>", "%22", "?", "#", ";", "\u00a0", "\u2028", "-", "!"}
	n := pick(tier, 3, 4)
	h0, b0 := response.DefaultPageGenerator.GenerateRedirectPage(302, "x")
	p0, _ := io.ReadAll(b0)
	base, _, _, ok := tags(string(p0))
	_ = h0
	var out []*mc.Unit
	one := func(code int, given string) *mc.Fail {
		loc := strings.TrimSpace(given)
		b := response.NewBuilder().WithStatus(404).WithError(r01errA).WithHeader("X-Old", "o", false)
		pv := try(func() { b.RedirectPage(code, given) })
		refuse := code < 300 || code > 399 || loc == ""
		if refuse {
			if pv == nil {
				return mc.Failf("refuse", "RedirectPage(%d, %q) was accepted", code, given)
			}
			return nil
		}
		if pv != nil {
			return mc.Failf("refuse", "RedirectPage(%d, %q) panicked: %v", code, given, pv)
		}
		resp := b.Build()
		p, f := readCopy(resp.Body())
		if f != nil {
			return f
		}
		if resp.Err() != nil {
			return mc.Failf("redirect", "redirect %d to %q keeps the builder's old error %v", code, given, resp.Err())
		}
		if f := checkRedirect(code, given, loc, resp.Status(), resp.Headers(), p, true, base); f != nil {
			return f
		}
		if v := resp.Headers()["X-Old"]; v != nil {
			return mc.Failf("redirect", "redirect %d to %q keeps the builder's old header X-Old", code, given)
		}
		h, bd := response.DefaultPageGenerator.GenerateRedirectPage(code, given)
		q, err := io.ReadAll(bd)
		if err != nil {
			return mc.Failf("redirect", "page body: %v", err)
		}
		return checkRedirect(code, given, given, 0, h, q, false, base)
	}
	for i := range atoms {
		i := i
		out = append(out, &mc.Unit{Name: fmt.Sprintf("strings/len<=%d#%d", n, i), Run: func(c *mc.Ctl) (f *mc.Fail) {
			defer guard(&f)
			if !ok || len(base) == 0 {
				return mc.Failf("redirect", "the page for location \"x\" does not contain exactly one link: %q", p0)
			}
			s := atoms[i]
			for k := 1; k < n; k++ {
				a := c.Choose(len(atoms)+1, mc.Free)
				if a == 0 {
					break
				}
				s += atoms[a-1]
			}
			c.Logf("RedirectPage(307, %q)", s)
			c.State(uint64(mc.NewHash().S(s)))
			c.Trans(uint64(mc.NewHash().S(s).I(307)))
			return one(307, s)
		}})
	}
	out = append(out, &mc.Unit{Name: "single bytes and runes", Run: func(c *mc.Ctl) (f *mc.Fail) {
		defer guard(&f)
		k := c.Choose(256+0x300, mc.Free)
		s := string([]byte{byte(k)})
		if k >= 256 {
			s = string(rune(k - 256 + 0x80))
			if k-256 >= 0x280 {
				s = string(rune(0x2000 + (k - 256 - 0x280)))
			}
		}
		for _, t := range []string{s, "/" + s + "x", s + s, "x" + s, s + "x"} {
			if f := one(301, t); f != nil {
				return f
			}
			c.Trans(uint64(mc.NewHash().S(t)))
		}
		c.State(uint64(mc.NewHash().S(s)))
		return nil
	}})
	for _, size := range longSizes {
		size := size
		out = append(out, &mc.Unit{Name: fmt.Sprintf("long/len=%d", size), Run: func(c *mc.Ctl) (f *mc.Fail) {
			defer guard(&f)
			a := c.Choose(len(atoms), mc.Free)
			at := c.Choose(5, mc.Free)
			loc := longLocation(atoms[a], size, at)
			c.State(uint64(mc.NewHash().I(int64(a)).I(int64(at)).I(int64(size))))
			c.Trans(uint64(mc.NewHash().I(int64(a)).I(int64(at)).I(int64(size)).I(308)))
			c.Logf("RedirectPage(308, a location of %d bytes with %q)", len(loc), atoms[a])
			return one(308, loc)
		}})
	}
	out = append(out, &mc.Unit{Name: "statuses", Run: func(c *mc.Ctl) (f *mc.Fail) {
		defer guard(&f)
		code := c.Choose(1103+len(farCodes), mc.Free) - 2
		if code > 1100 {
			code = farCodes[code-1101]
		}
		c.State(uint64(code))
		for _, l := range []string{"/x", "", " ", "\t\r\n", " y "} {
			c.Trans(uint64(mc.NewHash().S(l).I(int64(code))))
			if f := one(code, l); f != nil {
				return f
			}
		}
		return nil
	}})
	return append(out, pageSeqs(tier, true, base)...)
}

type leakErr struct{ msg string }

func (e *leakErr) Error() string    { return e.msg }
func (e *leakErr) String() string   { return e.msg }
func (e *leakErr) GoString() string { return e.msg }

// statusErr also offers what some error types tell about the response.
type statusErr struct{ leakErr }

func (e *statusErr) StatusCode() int { return 418 }
func (e *statusErr) Status() int     { return 418 }
func (e *statusErr) Code() int       { return 418 }
func (e *statusErr) Timeout() bool   { return true }
func (e *statusErr) Temporary() bool { return true }
func (e *statusErr) Title() string   { return e.msg }
func (e *statusErr) Message() string { return e.msg }

const secret = "S3CR3T-db-password"

func checkErrorPage(what string, code, status int, h http.Header, p []byte) *mc.Fail {
	if status != code {
		return mc.Failf("error-page", "%s has status %d", what, status)
	}
	want := strings.TrimSpace(strconv.Itoa(code) + " " + http.StatusText(code))
	if strings.TrimSpace(string(p)) != want {
		return mc.Failf("error-page", "%s has body %q, want %q", what, p, want)
	}
	if cl(h) != strconv.Itoa(len(p)) {
		return mc.Failf("error-page", "%s has Content-Length %s for %d body bytes", what, cl(h), len(p))
	}
	if ct := h.Get("Content-Type"); !strings.HasPrefix(ct, "text/plain") {
		return mc.Failf("error-page", "%s has Content-Type %q", what, ct)
	}
	cc := h.Get("Cache-Control")
	if !strings.Contains(cc, "no-cache") && !strings.Contains(cc, "no-store") {
		return mc.Failf("error-page", "%s is cacheable: Cache-Control %q", what, cc)
	}
	if bytes.Contains(p, []byte(secret)) || strings.Contains(hdrString(h), secret) {
		return mc.Failf("error-page", "%s leaks the error text: headers %s body %q", what, hdrString(h), p)
	}
	return nil
}

func r06units(tier string) []*mc.Unit {
	errs := []error{errors.New(secret), &leakErr{secret}, fmt.Errorf("wrap: %w", errors.New(secret)), fmt.Errorf("\r\nX-Inj: %s", secret), &http.ProtocolError{ErrorString: secret}, http.ErrAbortHandler,
		&fs.PathError{Op: "open", Path: "/srv/" + secret, Err: fs.ErrNotExist}, fmt.Errorf("%s: %w", secret, fs.ErrPermission), fmt.Errorf("%s: %w", secret, context.DeadlineExceeded), fmt.Errorf("%s: %w", secret, io.EOF),
		&statusErr{leakErr{secret}}, errors.New("")}
	run := func(c *mc.Ctl, code int, e error, via int) *mc.Fail {
		what := fmt.Sprintf("error page %d for %T", code, e)
		var h http.Header
		var bd body.Body
		status := code
		refuse := code < 200 || code > 999
		if via == 1 {
			if refuse {
				return nil
			}
			h, bd = response.DefaultPageGenerator.GenerateErrorPage(code, e)
		} else {
			b := response.NewBuilder().WithStatus(201).WithHeader("X-Old", "o", false).WithBody(body.FromString("old body"))
			pv := try(func() { b.ErrorPage(code, e) })
			if refuse {
				if pv == nil {
					return mc.Failf("refuse", "ErrorPage(%d) was accepted", code)
				}
				return nil
			}
			if pv != nil {
				return mc.Failf("refuse", "ErrorPage(%d) panicked: %v", code, pv)
			}
			resp := b.Build()
			h, bd, status = resp.Headers(), resp.Body(), resp.Status()
			if resp.Err() != e {
				return mc.Failf("error-page", "%s records error %v, want the given one", what, resp.Err())
			}
			if h["X-Old"] != nil {
				return mc.Failf("error-page", "%s keeps the old header", what)
			}
		}
		p, f := readCopy(bd)
		if f != nil {
			return f
		}
		return checkErrorPage(what, code, status, h, p)
	}
	var out []*mc.Unit
	for i := range errs {
		for via := 0; via < 2; via++ {
			i, via := i, via
			out = append(out, &mc.Unit{Name: fmt.Sprintf("error#%d/via=%d", i, via), Run: func(c *mc.Ctl) (f *mc.Fail) {
				defer guard(&f)
				code := c.Choose(1103+len(farCodes), mc.Free) - 2
				if code > 1100 {
					code = farCodes[code-1101]
				}
				c.State(uint64(mc.NewHash().I(int64(code)).I(int64(i))))
				c.Trans(uint64(mc.NewHash().I(int64(code)).I(int64(i)).I(int64(via))))
				c.Logf("error page %d for error #%d", code, i)
				return run(c, code, errs[i], via)
			}})
		}
	}
	// sequences: a builder reused for several pages
	out = append(out, &mc.Unit{Name: "reuse", Run: func(c *mc.Ctl) (f *mc.Fail) {
		defer guard(&f)
		codes := []int{200, 204, 304, 400, 404, 418, 500, 503, 599, 999}
		b := response.NewBuilder()
		for k := 0; k < 3; k++ {
			code := codes[c.Choose(len(codes), mc.Free)]
			e := errs[c.Choose(2, mc.Free)]
			if c.Choose(2, mc.Free) == 1 {
				b.RedirectPage(302, "/elsewhere?"+secret)
			}
			resp := b.ErrorPage(code, e).Build()
			p, f := readCopy(resp.Body())
			if f != nil {
				return f
			}
			if resp.Status() != code || resp.Err() != e || strings.TrimSpace(string(p)) != strings.TrimSpace(strconv.Itoa(code)+" "+http.StatusText(code)) || cl(resp.Headers()) != strconv.Itoa(len(p)) || strings.Contains(hdrString(resp.Headers()), secret) {
				return mc.Failf("error-page", "page %d of a reused builder: status %d, error %v, headers %s, body %q", k, resp.Status(), resp.Err(), hdrString(resp.Headers()), p)
			}
			c.State(uint64(mc.NewHash().I(int64(code)).I(int64(k))))
			c.Trans(uint64(mc.NewHash().I(int64(code)).I(int64(k)).I(1)))
		}
		return nil
	}})
	return append(out, pageSeqs(tier, false, nil)...)
}

// pageSeqs keeps several generated pages of all sorts before looking at any of
// them; those of one sort are then checked.
func pageSeqs(tier string, redirects bool, base []string) []*mc.Unit {
	locs := []string{"/aaa", "/<b>", "/c?d=\"e\"&f", "/" + strings.Repeat("long&", 900)}
	codes := []int{404, 503, 200, 999, 302}
	type kept struct {
		code int
		loc  string
		resp *response.Response
		h    http.Header
		b    body.Body
		err  error
	}
	var out []*mc.Unit
	for first := 0; first < len(locs)+len(codes); first++ {
		first := first
		out = append(out, &mc.Unit{Name: fmt.Sprintf("several/#%d", first), Run: func(c *mc.Ctl) (f *mc.Fail) {
			mc.SeqMode = true
			defer func() { mc.SeqMode = false }()
			defer guard(&f)
			shared := response.NewBuilder()
			var l []kept
			trail := ""
			for d := 0; d < pick(tier, 3, 4); d++ {
				k := first
				if d > 0 {
					k = c.Choose(len(locs)+len(codes), mc.Free)
				}
				way := c.Choose(4, mc.Free)   // own builder, shared builder, copy of the shared builder, the generator itself
				spoil := c.Choose(3, mc.Free) // the page is kept, or its headers are changed and its body used up, or it is served to such a writer
				e := fmt.Errorf("%s %d", secret, d)
				pg := kept{code: 301 + d, err: e}
				if k < len(locs) {
					pg.loc = locs[k]
				} else {
					pg.code = codes[k-len(locs)]
				}
				trail += fmt.Sprintf("; page %d %.20q (way %d, then %d)", pg.code, pg.loc, way, spoil)
				c.Logf("page %d %.20q (way %d, then %d)", pg.code, pg.loc, way, spoil)
				var b *response.Builder
				switch way {
				case 0:
					b = response.NewBuilder()
				case 1:
					b = shared
				case 2:
					b2, err := shared.Copy()
					if err != nil {
						return mc.Failf("body", "copying a builder: %v", err)
					}
					b = b2
				default:
					if pg.loc != "" {
						pg.h, pg.b = response.DefaultPageGenerator.GenerateRedirectPage(pg.code, pg.loc)
					} else {
						pg.h, pg.b = response.DefaultPageGenerator.GenerateErrorPage(pg.code, e)
					}
				}
				if b != nil {
					if pg.loc != "" {
						b.RedirectPage(pg.code, pg.loc)
					} else {
						b.ErrorPage(pg.code, e)
					}
					if spoil == 1 {
						mangle(b.Headers())
					}
					pg.resp = b.Build()
					pg.h, pg.b = pg.resp.Headers(), pg.resp.Body()
				} else if spoil == 1 {
					mangle(pg.h)
				}
				switch {
				case spoil == 1:
					io.Copy(io.Discard, pg.b)
					pg.b.Close()
				case spoil == 2 && pg.resp != nil:
					w := fakew.New(nil, fakew.Menu{})
					w.MutateHeaders = mangle
					if err := pg.resp.Serve(w.As(fakew.All)); err != nil {
						return mc.Failf("body", "serving%s: %v", trail, err)
					}
					mangle(w.H)
				case spoil == 2:
					return nil
				default:
					l = append(l, pg)
				}
				h := mc.NewHash().I(int64(first))
				for _, pg := range l {
					h = h.I(int64(pg.code)).S(pg.loc)
				}
				c.State(uint64(h))
				c.Trans(uint64(h.I(int64(k)).I(int64(way)).I(int64(spoil))))
			}
			for i, pg := range l {
				if (pg.loc != "") != redirects {
					continue
				}
				st := pg.code
				if pg.resp != nil {
					st = pg.resp.Status()
				}
				p, f := readCopy(pg.b)
				if f != nil {
					f.Msg = "after" + trail + ": " + f.Msg
					return f
				}
				if redirects {
					f = checkRedirect(pg.code, pg.loc, pg.loc, st, pg.h, p, true, base)
				} else {
					f = checkErrorPage(fmt.Sprintf("error page %d", pg.code), pg.code, st, pg.h, p)
					if f == nil && pg.resp != nil && pg.resp.Err() != pg.err {
						f = mc.Failf("error-page", "error page %d records %v, want %v", pg.code, pg.resp.Err(), pg.err)
					}
				}
				if f != nil {
					f.Msg = fmt.Sprintf("kept page %d after%s: %s", i, trail, f.Msg)
					return f
				}
			}
			return nil
		}})
	}
	return out
}

var _ = env.Bytes

func init() {
	register(&Prop{ID: "R01", Judge: judge("builder build refuse body"), Units: r01units,
		Rule:        "an execution is one sequence of builder calls from the whole method set, each call and each Build compared with a model of the builder; refused calls must panic and leave the builder as it was",
		Bounds:      map[string]string{"quick": "all sequences of up to 4 calls over 49 calls", "thorough": "also all sequences of up to 6 calls over 16 calls"},
		Assumptions: []string{"header maps passed in use canonical keys"}})
	register(&Prop{ID: "R05", Judge: judge("redirect refuse body"), Units: r05units,
		Rule:        "an execution is one location (built from 28 significant characters and fragments) and status; the page is tokenised as HTML and compared with the page for a harmless location, link target and text are decoded",
		Bounds:      map[string]string{"quick": "all locations of up to 3 atoms; every byte and 768 code points alone and in 4 contexts; every status from -2 to 1100", "thorough": "all locations of up to 4 atoms"},
		Assumptions: []string{"entity decoding by package html"}})
	register(&Prop{ID: "R06", Judge: judge("error-page refuse body"), Units: r06units,
		Rule:        "an execution is one status and error value, directly and through the builder, or one sequence of three pages from one reused builder",
		Bounds:      map[string]string{"quick": "every status from -2 to 1100 x 6 error values x 2 ways; all sequences of 3 pages over 10 statuses", "thorough": "the same (complete)"},
		Assumptions: nil})
}
