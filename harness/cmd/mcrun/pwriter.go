//go:build go1.22

package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"reflect"
	"strings"

	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/fakew"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)

// ---- W01 / W02 ----

// scriptReader hands out its pieces one per Read, then fails with err or ends.
type scriptReader struct {
	pieces []string
	err    error
	joint  bool // the last piece comes together with the end
	reads  int
}

func (r *scriptReader) Read(p []byte) (int, error) {
	r.reads++
	end := r.err
	if end == nil {
		end = io.EOF
	}
	if len(r.pieces) == 0 {
		return 0, end
	}
	n := copy(p, r.pieces[0])
	r.pieces[0] = r.pieces[0][n:]
	if r.pieces[0] == "" {
		r.pieces = r.pieces[1:]
		if len(r.pieces) == 0 && r.joint {
			return n, end
		}
	}
	return n, nil
}

// sameErr compares errors of any type.
func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

// carries reports whether err is want or wraps it.
func carries(err, want error) bool {
	for ; err != nil; err = errors.Unwrap(err) {
		if sameErr(err, want) {
			return true
		}
	}
	return false
}

var errReader = errors.New("the copied reader failed")

type readerKind struct {
	name   string
	pieces []string
	err    error
	joint  bool
}

var readerKinds = []readerKind{
	{"two pieces", []string{"pq", "rst"}, nil, false},
	{"joint eof", []string{"xyz"}, nil, true},
	{"empty", nil, nil, false},
	{"fails at once", nil, errReader, false},
	{"fails midway", []string{"uv"}, errReader, false},
	{"data with failure", []string{"wx"}, errReader, true},
}

// wmodel is what the wrapping writer must have done so far.
type wmodel struct {
	status   int
	head     bool
	bytes    int64
	body     string
	mustErr  bool // an underlying write failed
	repeated bool // a second header was refused
	mayErr   bool
	hdr      http.Header
	sent     http.Header
}

func (m *wmodel) commit(s int) {
	if m.status == 0 {
		m.status = s
		m.sent = m.hdr.Clone()
	}
}

func (m *wmodel) bodyless() bool {
	return m.head || m.status == 204 || m.status == 304
}

type wrun struct {
	c  *mc.Ctl
	w  *fakew.W
	ww response.Writer
	m  *wmodel
	n  int
}

type wop struct {
	name string
	do   func(s *wrun) *mc.Fail
}

func (s *wrun) header(st int, maybe bool) *mc.Fail {
	pv := try(func() {
		if maybe {
			s.ww.MaybeWriteHeader(st)
		} else {
			s.ww.WriteHeader(st)
		}
	})
	if st < 100 || st > 999 {
		s.m.mayErr = true // refused in whatever way, but not forwarded
		return nil
	}
	if s.m.status != 0 && !maybe {
		s.m.repeated = true
		return nil
	}
	if pv != nil {
		return mc.Failf("header", "a permitted header call panicked: %v", pv)
	}
	s.m.commit(st)
	return nil
}

func (s *wrun) write(p string) *mc.Fail { return s.writeBy(p, false) }

func (s *wrun) writeBy(p string, str bool) *mc.Fail {
	s.m.commit(200)
	b0, e0 := len(s.w.Body), len(s.w.Errs)
	var n int
	var err error
	if str {
		n, err = io.WriteString(s.ww, p)
	} else {
		n, err = s.ww.Write([]byte(p))
	}
	if s.m.bodyless() {
		if n != len(p) || err != nil {
			return mc.Failf("count", "writing %d bytes where no body is allowed returned %d, %v, want them accepted", len(p), n, err)
		}
		return nil
	}
	acc := len(s.w.Body) - b0
	s.m.body += p[:min(acc, len(p))]
	if n != acc {
		return mc.Failf("count", "Write returned %d, the underlying writer accepted %d", n, acc)
	}
	if len(s.w.Errs) > e0 {
		s.m.mustErr = true
		if !carries(err, s.w.Errs[len(s.w.Errs)-1]) {
			return mc.Failf("count", "the underlying write failed, Write returned %v", err)
		}
		return nil
	}
	if err != nil || n != len(p) {
		return mc.Failf("count", "Write of %d bytes returned %d, %v although nothing failed", len(p), n, err)
	}
	return nil
}

func (s *wrun) copy(k readerKind, direct bool) *mc.Fail {
	r := &scriptReader{pieces: append([]string(nil), k.pieces...), err: k.err, joint: k.joint}
	all := strings.Join(k.pieces, "")
	was := s.m.status
	b0, e0 := len(s.w.Body), len(s.w.Errs)
	var n int64
	var err error
	if direct {
		n, err = s.ww.(io.ReaderFrom).ReadFrom(r)
	} else {
		n, err = io.Copy(s.ww, r)
	}
	// an empty transfer may or may not send the header
	if all != "" || was != 0 || s.ww.Status() == 200 {
		s.m.commit(200)
	}
	acc := len(s.w.Body) - b0
	failed := len(s.w.Errs) > e0
	if s.m.bodyless() {
		if n != int64(len(all)) || !sameErr(err, k.err) {
			return mc.Failf("count", "copying %d bytes where no body is allowed returned %d, %v, want them accepted", len(all), n, err)
		}
		if len(r.pieces) > 0 {
			return mc.Failf("count", "copying where no body is allowed left %q unread", r.pieces)
		}
		if k.err != nil {
			s.m.mayErr = true
		}
		return nil
	}
	s.m.body += all[:min(acc, len(all))]
	if n != int64(acc) {
		return mc.Failf("count", "the copy returned %d, the underlying writer accepted %d", n, acc)
	}
	switch {
	case failed:
		s.m.mustErr = true
		if !carries(err, s.w.Errs[len(s.w.Errs)-1]) {
			return mc.Failf("count", "the underlying write failed, the copy returned %v", err)
		}
	case k.err != nil:
		s.m.mayErr = true
		if !sameErr(err, k.err) || acc != len(all) {
			return mc.Failf("count", "the reader failed after %d bytes with %v, the copy passed %d on and returned %v", len(all), k.err, acc, err)
		}
	case err != nil || acc != len(all):
		return mc.Failf("count", "the copy of %d bytes passed on %d and returned %v although nothing failed", len(all), acc, err)
	}
	return nil
}

func (s *wrun) ops() []wop {
	var l []wop
	add := func(name string, do func(s *wrun) *mc.Fail) { l = append(l, wop{name, do}) }
	for _, p := range []string{"ab", "", "cde"} {
		p := p
		add(fmt.Sprintf("Write(%q)", p), func(s *wrun) *mc.Fail { return s.write(p) })
	}
	if _, ok := s.ww.(io.StringWriter); ok {
		add("WriteString", func(s *wrun) *mc.Fail { return s.writeBy("fg", true) })
	}
	for _, st := range []int{200, 404, 204, 304} {
		st := st
		add(fmt.Sprintf("WriteHeader(%d)", st), func(s *wrun) *mc.Fail { return s.header(st, false) })
		add(fmt.Sprintf("MaybeWriteHeader(%d)", st), func(s *wrun) *mc.Fail { return s.header(st, true) })
	}
	for _, st := range []int{999, 99, 1000, -1, 0} {
		st := st
		if st == 999 {
			add(fmt.Sprintf("WriteHeader(%d)", st), func(s *wrun) *mc.Fail { return s.header(st, false) })
			continue
		}
		add(fmt.Sprintf("WriteHeader(%d)", st), func(s *wrun) *mc.Fail { return s.header(st, false) })
		if st != -1 {
			add(fmt.Sprintf("MaybeWriteHeader(%d)", st), func(s *wrun) *mc.Fail { return s.header(st, true) })
		}
	}
	for _, k := range readerKinds {
		k := k
		add("copy("+k.name+")", func(s *wrun) *mc.Fail { return s.copy(k, false) })
	}
	if _, ok := s.ww.(io.ReaderFrom); ok {
		add("ReadFrom(two pieces)", func(s *wrun) *mc.Fail { return s.copy(readerKinds[0], true) })
	}
	if f, ok := s.ww.(http.Flusher); ok {
		add("Flush", func(s *wrun) *mc.Fail {
			n := 0
			for _, k := range s.w.Calls {
				if k.Name == "Flush" {
					n++
				}
			}
			f.Flush()
			s.m.commit(200)
			for _, k := range s.w.Calls {
				if k.Name == "Flush" {
					n--
				}
			}
			if n != -1 {
				return mc.Failf("forward", "one Flush reached the underlying writer %d times", -n)
			}
			return nil
		})
	}
	add("Header().Add", func(s *wrun) *mc.Fail {
		v := fmt.Sprint(s.n)
		s.ww.Header().Add("X-A", v)
		s.m.hdr.Add("X-A", v)
		return nil
	})
	add("Push", func(s *wrun) *mc.Fail {
		s.ww.Push("/p", nil)
		return nil
	})
	if n, ok := s.ww.(http.CloseNotifier); ok {
		add("CloseNotify", func(s *wrun) *mc.Fail { n.CloseNotify(); return nil })
	}
	if h, ok := s.ww.(http.Hijacker); ok {
		add("Hijack", func(s *wrun) *mc.Fail { h.Hijack(); return nil })
	}
	return l
}

// check compares the wrapper and everything the underlying writer received.
func (s *wrun) check() *mc.Fail {
	m, w := s.m, s.w
	if g := s.ww.Status(); g != m.status {
		return mc.Failf("header", "Status() is %d, want %d", g, m.status)
	}
	nh := 0
	for i, k := range w.Calls {
		switch k.Name {
		case "WriteHeader":
			nh++
			if nh > 1 {
				return mc.Failf("header", "the underlying writer received %d header calls", nh)
			}
			if k.Status != m.status {
				return mc.Failf("header", "the underlying writer received status %d, want %d", k.Status, m.status)
			}
			for _, e := range w.Calls[:i] {
				if e.Name == "Write" || e.Name == "ReadFrom" || e.Name == "Flush" {
					return mc.Failf("header", "the underlying writer received the header after %v", e)
				}
			}
		}
	}
	if m.status == 0 {
		if w.Sent != nil {
			return mc.Failf("header", "the header went out with status %d, but Status() is 0", w.Status)
		}
	} else {
		if w.Sent == nil {
			return mc.Failf("header", "no header went out, but Status() is %d", m.status)
		}
		if w.Status != m.status {
			return mc.Failf("header", "the client saw status %d, Status() is %d", w.Status, m.status)
		}
		if !hdrEqual(w.Sent, m.sent) {
			return mc.Failf("header", "headers sent %s, want %s", hdrString(w.Sent), hdrString(m.sent))
		}
	}
	if g := s.ww.BytesWritten(); g != int64(len(w.Body)) {
		return mc.Failf("count", "BytesWritten() is %d, the underlying writer accepted %d", g, len(w.Body))
	}
	if string(w.Body) != m.body {
		return mc.Failf("count", "the underlying writer received body %q, want %q", w.Body, m.body)
	}
	if g := s.ww.SawError(); m.mustErr && !g {
		return mc.Failf("flag-write", "SawError() is false after a failed write")
	} else if m.repeated && !g {
		return mc.Failf("flag", "SawError() is false after a repeated header call")
	} else if g && !m.mustErr && !m.repeated && !m.mayErr {
		return mc.Failf("flag-write", "SawError() is true although nothing failed")
	}
	return nil
}

var fancyCaps = fakew.All &^ fakew.Pusher

func w01units(tier string) []*mc.Unit {
	var out []*mc.Unit
	type cfg struct {
		caps  int
		depth int
	}
	cfgs := []cfg{{0, 3}, {fakew.Flusher, 3}, {fakew.ReaderFrom | fakew.Flusher, 3}, {fancyCaps, 4}, {fakew.All, 3}, {fakew.Pusher | fakew.ReaderFrom, 3}}
	if tier == "thorough" {
		for i := range cfgs {
			cfgs[i].depth = 4
		}
	}
	for _, cf := range cfgs {
		for _, method := range []string{"GET", "HEAD", "POST"} {
			depth := cf.depth
			if method == "POST" {
				depth--
			}
			probe := &wrun{ww: response.NewWriter(fakew.New(nil, fakew.Menu{}).As(cf.caps), &http.Request{Method: method})}
			for first := range probe.ops() {
				cf, method, depth, first := cf, method, depth, first
				out = append(out, &mc.Unit{Name: fmt.Sprintf("%s/%s/depth=%d#%d", fakew.CapNames(cf.caps), method, depth, first), Bounds: mc.Bounds{Env: pick(tier, 1, 2)}, Run: func(c *mc.Ctl) (f *mc.Fail) {
					mc.SeqMode = true
					defer func() { mc.SeqMode = false }()
					w := fakew.New(c, fakew.Menu{WriteErr: true, WritePart: true})
					w.TornReadFrom = true
					w.NoPush = true
					w.H["X-A"] = []string{"before"}
					s := &wrun{c: c, w: w, m: &wmodel{head: method == "HEAD", hdr: http.Header{"X-A": {"before"}}}}
					var trail []string
					defer func() {
						if f != nil {
							f.Msg = fmt.Sprintf("%s request, %s writer, after %s: %s; the writer received [%s]", method, fakew.CapNames(cf.caps), strings.Join(trail, ", "), f.Msg, w.Trace())
						}
					}()
					defer guard(&f)
					s.ww = response.NewWriter(w.As(cf.caps), &http.Request{Method: method})
					for d := 0; d < depth; d++ {
						s.n = d
						ops := s.ops()
						k := first
						if d == 0 {
							if f := s.check(); f != nil {
								return f
							}
							if first >= len(ops) {
								return nil
							}
						} else {
							k = c.Choose(len(ops), mc.Free)
						}
						trail = append(trail, ops[k].name)
						c.Logf("%s", ops[k].name)
						if f := ops[k].do(s); f != nil {
							return f
						}
						if f := s.check(); f != nil {
							return f
						}
						h := mc.NewHash().I(int64(s.m.status)).S(s.m.body).B(s.m.mustErr).B(s.m.repeated).B(s.m.mayErr).S(hdrString(s.m.hdr)).S(hdrString(s.m.sent)).S(method).I(int64(cf.caps))
						c.State(uint64(h))
						c.Trans(uint64(h.S(ops[k].name)))
					}
					return nil
				}})
			}
		}
	}
	return append(out, wmore(tier)...)
}

// wmore makes units of the W01/W02 kind with a body of their own.
func wmore(tier string) []*mc.Unit {
	var out []*mc.Unit
	unit := func(name string, b mc.Bounds, run func(c *mc.Ctl) *mc.Fail) {
		out = append(out, &mc.Unit{Name: name, Bounds: b, Run: func(c *mc.Ctl) (f *mc.Fail) {
			mc.SeqMode = true
			defer func() { mc.SeqMode = false }()
			defer guard(&f)
			return run(c)
		}})
	}
	var req *http.Request // when nil, one with nothing but its method
	start := func(c *mc.Ctl, menu fakew.Menu, caps int, method string) *wrun {
		w := fakew.New(c, menu)
		w.TornReadFrom = true
		w.NoPush = true
		w.H["X-A"] = []string{"before"}
		s := &wrun{c: c, w: w, m: &wmodel{head: method == "HEAD", hdr: http.Header{"X-A": {"before"}}}}
		r := req
		if r == nil {
			r = &http.Request{}
		}
		r.Method = method
		s.ww = response.NewWriter(w.As(caps), r)
		return s
	}
	explain := func(f *mc.Fail, s *wrun, caps int, method, trail string) *mc.Fail {
		if f != nil {
			f.Msg = fmt.Sprintf("%s request, %s writer, after %s: %s; the writer received [%s]", method, fakew.CapNames(caps), trail, f.Msg, head(s.w.Trace()))
		}
		return f
	}
	state := func(s *wrun, caps int, method, op string) {
		h := mc.NewHash().I(int64(s.m.status)).S(s.m.body).B(s.m.mustErr).B(s.m.repeated).B(s.m.mayErr).S(method).I(int64(caps))
		s.c.State(uint64(h))
		s.c.Trans(uint64(h.S(op)))
	}
	capsets := []int{0, fakew.Flusher, fancyCaps, fakew.All}
	methods := []string{"GET", "HEAD", "POST", "PUT", "OPTIONS", "TRACE", "CONNECT", "DELETE", "PATCH", "", "head", "Head", "HEADER", "PROPFIND"}
	var codes []int
	for s := -2; s <= 1100; s++ {
		if s < 100 || s > 199 {
			codes = append(codes, s)
		}
	}
	codes = append(codes, farCodes...)
	// every status, every method: what a header call, a body and another
	// header call do
	for _, caps := range capsets {
		caps := caps
		unit("statuses/"+fakew.CapNames(caps), mc.Bounds{}, func(c *mc.Ctl) *mc.Fail {
			code := codes[c.Choose(len(codes), mc.Free)]
			method := methods[c.Choose(3, mc.Free)]
			way := c.Choose(4, mc.Free)
			s := start(c, fakew.Menu{}, caps, method)
			var trail []string
			do := func(name string, f *mc.Fail) *mc.Fail {
				trail = append(trail, name)
				c.Logf("%s", name)
				if f == nil {
					f = s.check()
				}
				state(s, caps, method, name)
				return explain(f, s, caps, method, strings.Join(trail, ", "))
			}
			steps := []func() *mc.Fail{
				func() *mc.Fail {
					return do(fmt.Sprintf("header(%d, conditional=%v)", code, way&1 == 1), s.header(code, way&1 == 1))
				},
				func() *mc.Fail {
					if way&2 == 0 {
						return do("Write", s.write("ab"))
					}
					return do("copy", s.copy(readerKinds[0], false))
				},
				func() *mc.Fail { return do("Write", s.write("")) },
				func() *mc.Fail {
					return do(fmt.Sprintf("conditional header(%d)", code), s.header(code, true))
				},
				func() *mc.Fail { return do("copy", s.copy(readerKinds[1], false)) },
				func() *mc.Fail { return do(fmt.Sprintf("header(%d)", code), s.header(code, false)) },
			}
			for _, st := range steps {
				if f := st(); f != nil {
					return f
				}
			}
			return nil
		})
		unit("methods/"+fakew.CapNames(caps), mc.Bounds{}, func(c *mc.Ctl) *mc.Fail {
			method := methods[c.Choose(len(methods), mc.Free)]
			code := []int{0, 200, 201, 204, 205, 206, 304, 404}[c.Choose(8, mc.Free)]
			s := start(c, fakew.Menu{}, caps, method)
			trail := fmt.Sprintf("status %d", code)
			var f *mc.Fail
			if code != 0 {
				f = s.header(code, false)
			}
			for i := 0; i < pick(tier, 2, 3) && f == nil; i++ {
				ops := s.ops()
				k := c.Choose(len(ops), mc.Free)
				if strings.Contains(ops[k].name, "eader(") && i > 0 {
					return nil
				}
				trail += ", " + ops[k].name
				f = ops[k].do(s)
				if f == nil {
					f = s.check()
				}
				state(s, caps, method, ops[k].name)
			}
			return explain(f, s, caps, method, trail)
		})
	}
	// whatever else the request says
	for _, caps := range capsets {
		caps := caps
		unit("requests/"+fakew.CapNames(caps), mc.Bounds{}, func(c *mc.Ctl) *mc.Fail {
			rs := requests()
			k := c.Choose(len(rs), mc.Free)
			method := methods[c.Choose(3, mc.Free)]
			code := []int{0, 200, 204, 206, 304, 404}[c.Choose(6, mc.Free)]
			req = rs[k]
			s := start(c, fakew.Menu{}, caps, method)
			req = nil
			trail := fmt.Sprintf("request #%d, status %d", k, code)
			var f *mc.Fail
			if code != 0 {
				f = s.header(code, false)
			}
			for i := 0; i < 2 && f == nil; i++ {
				ops := s.ops()
				k := c.Choose(len(ops), mc.Free)
				if strings.Contains(ops[k].name, "eader(") && i > 0 {
					return nil
				}
				trail += ", " + ops[k].name
				f = ops[k].do(s)
				if f == nil {
					f = s.check()
				}
				state(s, caps, method, ops[k].name)
			}
			return explain(f, s, caps, method, trail)
		})
	}
	// every shape of failure, of the writer and of a copied reader
	for kind := 1; kind < env.WErrKinds; kind++ {
		for _, caps := range capsets[1:] {
			kind, caps := kind, caps
			unit(fmt.Sprintf("shape%d/%s", kind, fakew.CapNames(caps)), mc.Bounds{Env: pick(tier, 1, 2)}, func(c *mc.Ctl) *mc.Fail {
				method := methods[c.Choose(2, mc.Free)]
				s := start(c, fakew.Menu{WriteErr: true, WritePart: true, WriteJoint: true, ErrKind: kind}, caps, method)
				e := env.NewErr(kind, "reader")
				trail := ""
				for d := 0; d < 3; d++ {
					k := c.Choose(7, mc.Free)
					if e == io.EOF && k >= 2 && k < 5 {
						continue
					}
					var f *mc.Fail
					var name string
					switch k {
					case 0:
						name, f = "Write", s.write("abc")
					case 1:
						name, f = "copy", s.copy(readerKinds[0], false)
					case 2:
						name, f = "copy(failing)", s.copy(readerKind{"failing", []string{"uv"}, e, false}, false)
					case 3:
						name, f = "copy(data with failure)", s.copy(readerKind{"failing", []string{"wx"}, e, true}, false)
					case 4:
						if _, ok := s.ww.(io.ReaderFrom); !ok {
							continue
						}
						name, f = "ReadFrom(failing)", s.copy(readerKind{"failing", []string{"uv"}, e, false}, true)
					case 5:
						name, f = "MaybeWriteHeader(304)", s.header(304, true)
					case 6:
						name, f = "WriteHeader(200)", s.header(200, false)
					}
					trail += ", " + name
					if f == nil {
						f = s.check()
					}
					state(s, caps, method, name)
					if f != nil {
						return explain(f, s, caps, method, trail)
					}
				}
				return nil
			})
		}
	}
	// two wrapping writers in turn, and one after the other
	pairCaps := [][2]int{{0, 0}, {fakew.Flusher, 0}, {fancyCaps, fancyCaps}, {fakew.All, fakew.Flusher}}
	for _, pc := range pairCaps {
		pc := pc
		unit(fmt.Sprintf("pairs/%s, %s", fakew.CapNames(pc[0]), fakew.CapNames(pc[1])), mc.Bounds{Env: 1}, func(c *mc.Ctl) *mc.Fail {
			var ss [2]*wrun
			var ms [2]string
			trail := ""
			for d := 0; d < pick(tier, 4, 5); d++ {
				i := c.Choose(2, mc.Free)
				k := c.Choose(7, mc.Free)
				if ss[i] == nil || k == 6 {
					ms[i] = methods[c.Choose(2, mc.Free)]
					ss[i] = start(c, fakew.Menu{WriteErr: true, WritePart: true}, pc[i], ms[i])
					trail += fmt.Sprintf(", writer %d made for %s", i, ms[i])
					if k == 6 {
						k = 7
					}
				}
				s := ss[i]
				var f *mc.Fail
				var name string
				switch k {
				case 0:
					name, f = "Write", s.write("ab")
				case 1:
					name, f = "copy", s.copy(readerKinds[0], false)
				case 2:
					name, f = "header(204)", s.header(204, true)
				case 3:
					name, f = "header(404)", s.header(404, false)
				case 4:
					s.n = d
					s.ww.Header().Add("X-A", fmt.Sprint(d))
					s.m.hdr.Add("X-A", fmt.Sprint(d))
					name = "Header().Add"
				case 5:
					name = "Flush"
					if fl, ok := s.ww.(http.Flusher); ok {
						fl.Flush()
						s.m.commit(200)
					}
				default:
					name = "nothing"
				}
				trail += fmt.Sprintf(", writer %d %s", i, name)
				for j := 0; j < 2 && f == nil; j++ {
					if ss[j] != nil {
						if f = ss[j].check(); f != nil {
							i = j
						}
					}
				}
				state(s, pc[i], ms[i], name)
				if f != nil {
					f.Msg = fmt.Sprintf("writer %d: %s", i, f.Msg)
					return explain(f, ss[i], pc[i], ms[i], trail)
				}
			}
			return nil
		})
	}
	// one thing many times
	for _, caps := range capsets {
		caps := caps
		unit("many/"+fakew.CapNames(caps), mc.Bounds{}, func(c *mc.Ctl) *mc.Fail {
			method := methods[c.Choose(2, mc.Free)]
			s := start(c, fakew.Menu{}, caps, method)
			ops := s.ops()
			k := c.Choose(len(ops), mc.Free)
			n := []int{100, 300, 1100, 5000}[c.Choose(4, mc.Free)]
			trail := fmt.Sprintf("%s up to %d times", ops[k].name, n)
			for i := 1; i <= n; i++ {
				s.n = i
				if f := ops[k].do(s); f != nil {
					return explain(f, s, caps, method, trail)
				}
				if i == n || i&(i-1) == 0 {
					if f := s.check(); f != nil {
						return explain(f, s, caps, method, trail)
					}
				}
			}
			state(s, caps, method, trail)
			f := s.write("end")
			if f == nil {
				f = s.check()
			}
			return explain(f, s, caps, method, trail+", Write")
		})
	}
	// body sizes around the sizes of buffers, copied and written
	for _, caps := range capsets {
		caps := caps
		unit("sizes/"+fakew.CapNames(caps), mc.Bounds{Env: pick(tier, 1, 2)}, func(c *mc.Ctl) *mc.Fail {
			method := methods[c.Choose(2, mc.Free)]
			sizes := []int{1, 255, 256, 511, 512, 513, 2047, 2048, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65536, 65537, 131072, 1 << 20, 5 << 20}
			size := sizes[c.Choose(len(sizes), mc.Free)]
			s := start(c, fakew.Menu{WriteErr: true, WritePart: true}, caps, method)
			s.w.TornReadFrom = false
			if code := []int{0, 204, 304}[c.Choose(3, mc.Free)]; code != 0 {
				if f := s.header(code, false); f != nil {
					return f
				}
			}
			data := string(env.BytesAt(0, int64(size)))
			trail := ""
			for d := 0; d < 2; d++ {
				var f *mc.Fail
				name := ""
				switch c.Choose(4, mc.Free) {
				case 0:
					name, f = "Write", s.write(data)
				case 1:
					name, f = "copy", s.copy(readerKind{"one piece", []string{data}, nil, false}, false)
				case 2:
					name, f = "copy(joint)", s.copy(readerKind{"pieces", []string{data[:size/2], data[size/2:]}, nil, true}, false)
				case 3:
					if _, ok := s.ww.(io.ReaderFrom); !ok {
						return nil
					}
					name, f = "ReadFrom(failing)", s.copy(readerKind{"failing", []string{data}, errReader, false}, true)
				}
				trail += fmt.Sprintf(", %s of %d bytes", name, size)
				if f == nil {
					f = s.check()
				}
				if f != nil {
					f.Msg = head(f.Msg)
					return explain(f, s, caps, method, trail)
				}
				if size > 70000 {
					return nil
				}
				c.State(uint64(mc.NewHash().I(int64(len(s.m.body))).I(int64(caps)).S(method)))
				c.Trans(uint64(mc.NewHash().I(int64(len(s.m.body))).S(trail)))
			}
			return nil
		})
	}
	// counts beyond 2 and 4 GiB: a writer that only counts
	for _, rf := range []bool{false, true} {
		for _, method := range []string{"GET", "HEAD"} {
			rf, method := rf, method
			unit(fmt.Sprintf("huge/%s/readfrom=%v", method, rf), mc.Bounds{}, func(c *mc.Ctl) *mc.Fail {
				var u http.ResponseWriter
				cw := &countW{h: http.Header{}}
				u = cw
				if rf {
					u = &countRF{cw}
				}
				ww := response.NewWriter(u, &http.Request{Method: method})
				buf := hugeBuf()
				var want int64
				trail := ""
				for d := 0; d < 3; d++ {
					sizes := []int64{1, 1<<31 - 1, 1 << 31, 1<<32 + 5, 5 << 30}
					size := sizes[c.Choose(len(sizes), mc.Free)]
					if d == 2 && size != 1 {
						return nil
					}
					way := c.Choose(2, mc.Free)
					trail += fmt.Sprintf(", %d bytes (way %d)", size, way)
					if way == 0 {
						for left := size; left > 0; {
							p := buf[:min(left, int64(len(buf)))]
							n, err := ww.Write(p)
							if n != len(p) || err != nil {
								return mc.Failf("count", "%s request, after %s: Write of %d bytes returned %d, %v", method, trail, len(p), n, err)
							}
							left -= int64(n)
						}
					} else {
						n, err := io.Copy(ww, &io.LimitedReader{R: zeroes{}, N: size})
						if n != size || err != nil {
							return mc.Failf("count", "%s request, after %s: the copy of %d bytes returned %d, %v", method, trail, size, n, err)
						}
					}
					if method != "HEAD" {
						want += size
					}
					if ww.BytesWritten() != want || cw.n != want || ww.SawError() {
						return mc.Failf("count", "%s request, after %s: BytesWritten() is %d, the underlying writer accepted %d, want %d, SawError() is %v", method, trail, ww.BytesWritten(), cw.n, want, ww.SawError())
					}
					c.State(uint64(mc.NewHash().I(want).S(method).B(rf)))
					c.Trans(uint64(mc.NewHash().S(trail).S(method).B(rf)))
				}
				return nil
			})
		}
	}
	return out
}

// countW accepts anything and only counts it.
type countW struct {
	h http.Header
	n int64
}

func (w *countW) Header() http.Header         { return w.h }
func (w *countW) WriteHeader(int)             {}
func (w *countW) Write(p []byte) (int, error) { w.n += int64(len(p)); return len(p), nil }

// countRF offers the full set of interfaces.
type countRF struct{ *countW }

func (w *countRF) Flush()                   {}
func (w *countRF) CloseNotify() <-chan bool { return nil }
func (w *countRF) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return nil, nil, http.ErrNotSupported
}
func (w *countRF) ReadFrom(r io.Reader) (int64, error) {
	buf := hugeBuf()
	var t int64
	for {
		n, err := r.Read(buf)
		t += int64(n)
		w.n += int64(n)
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

// zeroes delivers without end, writing nothing.
type zeroes struct{}

func (zeroes) Read(p []byte) (int, error) { return len(p), nil }

var hugeBufV []byte

func hugeBuf() []byte {
	if hugeBufV == nil {
		hugeBufV = make([]byte, 64<<20)
	}
	return hugeBufV
}

// ---- W03 ----

// otherWriter is a foreign implementation of response.Writer.
type otherWriter struct{ http.ResponseWriter }

func (otherWriter) Push(string, *http.PushOptions) error { return nil }
func (otherWriter) MaybeWriteHeader(int)                 {}
func (otherWriter) Status() int                          { return 0 }
func (otherWriter) BytesWritten() int64                  { return 0 }
func (otherWriter) SawError() bool                       { return false }
func (otherWriter) Unwrap() http.ResponseWriter          { return nil }

type pipeConn struct{ net.Conn }

// Underlying writers that themselves wrap another one and say so.
type (
	plainLayer struct{ http.ResponseWriter }
	flushLayer struct {
		http.ResponseWriter
		http.Flusher
	}
	fancyLayer struct {
		http.ResponseWriter
		http.Flusher
		http.Hijacker
		http.CloseNotifier
		io.ReaderFrom
	}
)

func (l *plainLayer) Unwrap() http.ResponseWriter { return l.ResponseWriter }
func (l *flushLayer) Unwrap() http.ResponseWriter { return l.ResponseWriter }
func (l *fancyLayer) Unwrap() http.ResponseWriter { return l.ResponseWriter }

func w03units(tier string) []*mc.Unit {
	var out []*mc.Unit
	for caps := 0; caps <= fakew.All; caps++ {
		for _, method := range []string{"GET", "HEAD"} {
			for _, layers := range []int{1, 2} {
				caps, method, layers := caps, method, layers
				depth := pick(tier, 3, 4)
				out = append(out, &mc.Unit{Name: fmt.Sprintf("%s/%s/layers=%d", fakew.CapNames(caps), method, layers), Bounds: mc.Bounds{Env: pick(tier, 1, 2)}, Run: func(c *mc.Ctl) (f *mc.Fail) {
					mc.SeqMode = true
					defer func() { mc.SeqMode = false }()
					defer guard(&f)
					return w03run(c, caps, method, layers, depth)
				}})
			}
		}
	}
	return out
}

func w03run(c *mc.Ctl, caps int, method string, layers, depth int) *mc.Fail {
	what := fmt.Sprintf("%s request, %s writer", method, fakew.CapNames(caps))
	w := fakew.New(c, fakew.Menu{PushMenu: true, WriteErr: true, WritePart: true})
	w.H["X-A"] = []string{"before"}
	under := w.As(caps)
	req := &http.Request{Method: method}
	ww := response.NewWriter(under, req)
	for i := 1; i < layers; i++ {
		// wrapping again, for whatever request, changes nothing
		m2 := []string{"GET", "HEAD"}[c.Choose(2, mc.Free)]
		w2 := response.NewWriter(ww, &http.Request{Method: m2})
		if w2 != ww {
			return mc.Failf("wrap", "%s: wrapping a wrapped writer gave another writer", what)
		}
		ow := otherWriter{under}
		if g := response.NewWriter(ow, req); g != response.Writer(ow) {
			return mc.Failf("wrap", "%s: wrapping another implementation of Writer gave another writer", what)
		}
	}
	full := caps&fancyCaps == fancyCaps
	fl, isFl := ww.(http.Flusher)
	hj, isHj := ww.(http.Hijacker)
	cn, isCn := ww.(http.CloseNotifier)
	rf, isRf := ww.(io.ReaderFrom)
	if isFl != (caps&fakew.Flusher != 0) {
		return mc.Failf("caps", "%s: flushing offered=%v", what, isFl)
	}
	for _, x := range []struct {
		name string
		got  bool
		bit  int
	}{{"hijacking", isHj, fakew.Hijacker}, {"close notification", isCn, fakew.CloseNotifier}, {"read-from", isRf, fakew.ReaderFrom}} {
		if x.got && caps&x.bit == 0 {
			return mc.Failf("caps", "%s: %s offered although the writer lacks it", what, x.name)
		}
		if full && !x.got {
			return mc.Failf("caps", "%s: %s not offered", what, x.name)
		}
	}
	layered := []http.ResponseWriter{&plainLayer{under}}
	if caps&fakew.Flusher != 0 {
		layered = append(layered, &flushLayer{under, under.(http.Flusher)})
	}
	if full {
		layered = append(layered, &fancyLayer{under, under.(http.Flusher), under.(http.Hijacker), under.(http.CloseNotifier), under.(io.ReaderFrom)})
	}
	for _, l := range layered {
		if g := response.NewWriter(l, req).Unwrap(); g != l {
			return mc.Failf("wrap", "%s inside a %T: Unwrap gave a %T", what, l, g)
		}
	}
	check := func() *mc.Fail {
		if ww.Unwrap() != under {
			return mc.Failf("wrap", "%s: Unwrap returned %v", what, ww.Unwrap())
		}
		if !sameMap(ww.Header(), w.H) {
			return mc.Failf("wrap", "%s: Header is not the underlying writer's map", what)
		}
		return nil
	}
	if f := check(); f != nil {
		return f
	}
	if len(w.Calls) != 0 {
		return mc.Failf("forward", "%s: wrapping made calls [%s]", what, w.Trace())
	}
	var trail []string
	type op struct {
		name string
		do   func() *mc.Fail
	}
	fresh := 0
	count := func(name string) int {
		n := 0
		for _, k := range w.Calls[fresh:] {
			if k.Name == name {
				n++
			}
		}
		return n
	}
	ops := []op{
		{"WriteHeader(404)", func() *mc.Fail {
			if w.Sent == nil {
				ww.WriteHeader(404)
			}
			return nil
		}},
		{"Write", func() *mc.Fail { ww.Write([]byte("ab")); return nil }},
		{"Push", func() *mc.Fail {
			url, o := fmt.Sprintf("/u%d", len(trail)), &http.PushOptions{Method: "GET"}
			if len(trail) == 1 {
				switch c.Choose(4, mc.Free) {
				case 1:
					o = nil
				case 2:
					url, o = "", &http.PushOptions{}
				case 3:
					url, o = "https://example.com/a b?c#d", &http.PushOptions{Method: "HEAD", Header: http.Header{"X": {"y"}}}
				}
			}
			e0, p0 := len(w.Errs), len(w.PushO)
			err := ww.Push(url, o)
			if caps&fakew.Pusher == 0 {
				if !errors.Is(err, http.ErrNotSupported) || count("Push") != 0 {
					return mc.Failf("forward", "pushing through a writer that cannot push returned %v", err)
				}
				return nil
			}
			if len(w.PushO) != p0+1 || w.PushO[p0] != o || count("Push") != 1 || w.Calls[len(w.Calls)-1].URL != url {
				return mc.Failf("forward", "Push(%q) was not forwarded as it is", url)
			}
			var want error
			if len(w.Errs) > e0 {
				want = w.Errs[e0]
			} else if len(w.LastPush) > 0 {
				want = w.LastPush[len(w.LastPush)-1]
			}
			if !sameErr(err, want) {
				return mc.Failf("forward", "Push returned %v, the underlying writer %v", err, want)
			}
			return nil
		}},
	}
	if isFl {
		ops = append(ops, op{"Flush", func() *mc.Fail {
			fl.Flush()
			if count("Flush") != 1 || w.Calls[len(w.Calls)-1].Name != "Flush" {
				return mc.Failf("forward", "Flush reached the underlying writer as [%s]", w.Trace())
			}
			return nil
		}})
	}
	if isHj {
		ops = append(ops, op{"Hijack", func() *mc.Fail {
			w.Conn, w.RW, w.HijackErr = &pipeConn{}, &bufio.ReadWriter{}, nil
			switch c.Choose(4, mc.Free) {
			case 1:
				w.Conn, w.RW, w.HijackErr = nil, nil, errors.New("cannot hijack")
			case 2: // odd but its business
				w.HijackErr = env.NewErr(3, "hijack")
			case 3:
				w.RW = nil
			}
			cc, rw, err := hj.Hijack()
			if cc != w.Conn || rw != w.RW || !sameErr(err, w.HijackErr) || len(w.Calls)-fresh != 1 || count("Hijack") != 1 {
				return mc.Failf("forward", "Hijack returned %v %v %v, the underlying writer %v %v %v", cc, rw, err, w.Conn, w.RW, w.HijackErr)
			}
			return nil
		}})
	}
	if isCn {
		ops = append(ops, op{"CloseNotify", func() *mc.Fail {
			ch := cn.CloseNotify()
			if ch != (<-chan bool)(w.Chan) || len(w.Calls)-fresh != 1 || count("CloseNotify") != 1 {
				return mc.Failf("forward", "CloseNotify was not forwarded as it is")
			}
			return nil
		}})
	}
	if isRf {
		ops = append(ops, op{"ReadFrom", func() *mc.Fail {
			r := &scriptReader{pieces: []string{"pq", "rst"}}
			b0, e0 := len(w.Body), len(w.Errs)
			n, err := rf.ReadFrom(r)
			if method == "HEAD" {
				return nil
			}
			if count("ReadFrom") != 1 || w.LastReader != io.Reader(r) {
				return mc.Failf("forward", "ReadFrom did not reach the underlying writer with the given reader")
			}
			var want error
			if len(w.Errs) > e0 {
				want = w.Errs[e0]
			}
			if n != int64(len(w.Body)-b0) || !sameErr(err, want) {
				return mc.Failf("forward", "ReadFrom returned %d %v, the underlying writer %d %v", n, err, len(w.Body)-b0, want)
			}
			return nil
		}})
	}
	for d := 0; d < depth; d++ {
		o := ops[c.Choose(len(ops), mc.Free)]
		trail = append(trail, o.name)
		fresh = len(w.Calls)
		c.Logf("%s", o.name)
		f := o.do()
		if f == nil {
			f = check()
		}
		if f != nil {
			f.Msg = fmt.Sprintf("%s, after %s: %s", what, strings.Join(trail, ", "), f.Msg)
			return f
		}
		h := mc.NewHash().S(w.Trace()).I(int64(caps)).S(method)
		c.State(uint64(h))
		c.Trans(uint64(h.S(o.name)))
	}
	return nil
}

func sameMap(a, b http.Header) bool {
	a["X-Probe"] = []string{"1"}
	_, ok := b["X-Probe"]
	delete(a, "X-Probe")
	_, still := b["X-Probe"]
	return ok && !still
}

func init() {
	bounds := map[string]string{
		"quick":    "all sequences of 3 calls (4 for the full interface set) over 23-29 calls x 6 capability sets x GET/HEAD, 1 shorter for POST, a failed or partial underlying write at every single place",
		"thorough": "all sequences of 4 calls, failures at every pair of places",
	}
	rule := "an execution is one sequence of calls on a wrapping writer (header calls with permitted and refused statuses, writes, copies from readers that end or fail in different ways, flush, push, hijack, close-notify, header changes) with failures of the underlying writer; after every call the wrapper's own report and everything the underlying writer received are compared with a model"
	assume := []string{"a wrapping writer is used by one goroutine at a time, as http.ResponseWriter demands", "informational (1xx) statuses are outside the property", "an empty copy may or may not send the header"}
	register(&Prop{ID: "W01", Judge: judge("header flag panic"), Units: w01units, Rule: rule, Bounds: bounds, Assumptions: assume})
	register(&Prop{ID: "W02", Judge: judge("count flag-write panic"), Units: w01units, Rule: rule, Bounds: bounds, Assumptions: assume})
	register(&Prop{ID: "W03", Judge: judge("wrap caps forward panic"), Units: w03units,
		Rule:        "an execution is one sequence of calls on a wrapper around a writer with one of the 32 possible sets of optional interfaces; interface offers, forwarded arguments, results and identities are compared with what the underlying writer saw and returned",
		Bounds:      map[string]string{"quick": "32 capability sets x GET/HEAD x wrapped once or twice x all sequences of 3 calls, every push result and a failure at every single place", "thorough": "all sequences of 4 calls, failures at every pair"},
		Assumptions: []string{"a writer offers an interface exactly when it has its methods"}})
}
