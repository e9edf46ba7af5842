//go:build go1.22

package main

import (
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"reflect"
	"runtime"
	"strings"
	"time"
	"weak"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zz_verif/fakew"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)

// ---- B15: closing lets go ----

const freeLen = 70000 // more than one block of a stream

// freeSrc is a reader that remembers weakly which buffers it was given.
type freeSrc struct {
	pos, n int64
	bufs   *[]weak.Pointer[byte]
	fail   bool
	closed *int
}

func (s *freeSrc) Read(p []byte) (int, error) {
	if len(p) > 0 && s.bufs != nil {
		*s.bufs = append(*s.bufs, weak.Make(&p[0]))
	}
	if s.pos >= s.n {
		if s.fail {
			return 0, errReader
		}
		return 0, io.EOF
	}
	k := min(int64(len(p)), s.n-s.pos)
	s.pos += k
	return int(k), nil
}

func (s *freeSrc) Close() error {
	*s.closed++
	return nil
}

func (s *freeSrc) Seek(o int64, w int) (int64, error) {
	switch w {
	case io.SeekCurrent:
		o += s.pos
	case io.SeekEnd:
		o += s.n
	}
	if o < 0 {
		return -1, fs.ErrInvalid
	}
	s.pos = o
	return o, nil
}

func (s *freeSrc) ReadAt(p []byte, o int64) (int, error) {
	k := max(min(int64(len(p)), s.n-o), 0)
	if k < int64(len(p)) {
		return int(k), io.EOF
	}
	return int(k), nil
}

func (s *freeSrc) Stat() (fs.FileInfo, error) { return freeInfo{s.n}, nil }

type freeInfo struct{ n int64 }

func (i freeInfo) Name() string       { return "f" }
func (i freeInfo) Size() int64        { return i.n }
func (i freeInfo) Mode() fs.FileMode  { return 0o644 }
func (i freeInfo) ModTime() time.Time { return time.Time{} }
func (i freeInfo) IsDir() bool        { return false }
func (i freeInfo) Sys() interface{}   { return nil }

// freeBody is one way to make a body, with weak references to what it holds.
type freeBody struct {
	name string
	mk   func() (b body.Body, held []weak.Pointer[byte], bufs *[]weak.Pointer[byte])
}

func weakOf(x interface{}) weak.Pointer[byte] {
	return weak.Make((*byte)(reflect.ValueOf(x).UnsafePointer()))
}

func freeBodies() []freeBody {
	var l []freeBody
	rdr := func(name string, d int64, fail bool, wrap func(s *freeSrc) io.Reader) {
		l = append(l, freeBody{name, func() (body.Body, []weak.Pointer[byte], *[]weak.Pointer[byte]) {
			s := &freeSrc{n: freeLen, bufs: new([]weak.Pointer[byte]), fail: fail, closed: new(int)}
			b, err := body.FromReaderAndLength(wrap(s), d)
			if err != nil {
				panic(err)
			}
			return b, []weak.Pointer[byte]{weakOf(s)}, s.bufs
		}})
	}
	type rc struct{ io.ReadCloser }
	stream := func(s *freeSrc) io.Reader { return &rc{s} }
	rdr("stream", -1, false, stream)
	rdr("stream-known", freeLen, false, stream)
	rdr("stream-failing", -1, true, stream)
	rdr("stream-noclose", -1, false, func(s *freeSrc) io.Reader { return struct{ io.Reader }{s} })
	rdr("seeker", -1, false, func(s *freeSrc) io.Reader {
		return &struct{ io.ReadSeekCloser }{s}
	})
	rdr("seeker-noclose", -1, false, func(s *freeSrc) io.Reader {
		return struct{ io.ReadSeeker }{s}
	})
	type ras struct {
		io.ReadSeekCloser
		io.ReaderAt
	}
	rdr("readerat", -1, false, func(s *freeSrc) io.Reader { return &ras{s, s} })
	rdr("file", -1, false, func(s *freeSrc) io.Reader { return s })
	l = append(l, freeBody{"bytes", func() (body.Body, []weak.Pointer[byte], *[]weak.Pointer[byte]) {
		p := make([]byte, freeLen)
		w := weak.Make(&p[0])
		return body.FromBytes(p), []weak.Pointer[byte]{w}, nil
	}})
	return l
}

type freeOp struct{ h, k int }

var freeOpNames = []string{"Read(100)", "ReadAll", "Copy()", "Close()", "Seek(10, start)", "ReadAt(100, 7)", "io.Copy to a failing writer", "BytesRemaining(), Unwrap()"}

// stillThere forces collections and returns what outlived them. Pools empty
// themselves within a few collections.
func stillThere(l []weak.Pointer[byte]) (n int) {
	for i := 0; i < 4; i++ {
		runtime.GC()
		n = 0
		for _, w := range l {
			if w.Value() != nil {
				n++
			}
		}
		if n == 0 {
			return 0
		}
	}
	return n
}

// freeState is a body after a history.
type freeState struct {
	hs   []body.Body
	open map[int]bool
	gone []weak.Pointer[byte] // handles closed and dropped
	held []weak.Pointer[byte] // reader, data
	bufs *[]weak.Pointer[byte]
	keep bool
}

func (x *freeState) drop(i int) {
	x.hs[i].Close()
	delete(x.open, i)
	if !x.keep {
		x.gone = append(x.gone, weakOf(x.hs[i]))
		x.hs[i] = nil
	}
}

func freeStart(fb freeBody, ops []freeOp, keep bool) *freeState {
	b, held, bufs := fb.mk()
	x := &freeState{hs: []body.Body{b}, open: map[int]bool{0: true}, held: held, bufs: bufs, keep: keep}
	for _, o := range ops {
		h := x.hs[o.h]
		switch o.k {
		case 0:
			h.Read(make([]byte, 100))
		case 1:
			io.Copy(io.Discard, struct{ io.Reader }{h})
		case 2:
			n, err := h.Copy()
			if err != nil {
				panic(err)
			}
			x.open[len(x.hs)] = true
			x.hs = append(x.hs, n)
		case 3:
			x.drop(o.h)
		case 4:
			if s, ok := h.(io.Seeker); ok {
				s.Seek(10, io.SeekStart)
			}
		case 5:
			if r, ok := h.(io.ReaderAt); ok {
				r.ReadAt(make([]byte, 100), 7)
			}
		case 6:
			io.Copy(freeSink{}, h)
		case 7:
			h.BytesRemaining()
			h.Unwrap()
		}
	}
	return x
}

func (x *freeState) finish(reverse bool) {
	for i := range x.hs {
		if reverse {
			i = len(x.hs) - 1 - i
		}
		if x.open[i] {
			x.drop(i)
		}
	}
	if x.bufs != nil {
		x.held = append(x.held, *x.bufs...)
	}
}

// freeRun performs histories, each on a new body, and returns what outlived
// closing: handles that were closed and dropped while other copies are open
// (when keep is false), and the reader, data and buffers after the last close
// while the closed handles are still around (when keep is true).
func freeRun(fb freeBody, list [][]freeOp, keep, reverse bool) (what string) {
	var xs []*freeState
	var gone, held []weak.Pointer[byte]
	for _, ops := range list {
		x := freeStart(fb, ops, keep)
		xs = append(xs, x)
		if len(x.open) > 0 {
			gone = append(gone, x.gone...)
		}
	}
	if n := stillThere(gone); n > 0 {
		runtime.KeepAlive(xs)
		return fmt.Sprintf("%d of %d closed copies are kept alive by the copies still open", n, len(gone))
	}
	for i, x := range xs {
		x.finish(reverse != (i%2 == 1))
		held = append(append(held, x.held...), x.gone...)
	}
	n := stillThere(held)
	runtime.KeepAlive(xs)
	if n > 0 {
		return fmt.Sprintf("after every copy was closed %d of %d objects (reader, data, buffers) are kept alive", n, len(held))
	}
	return ""
}

func freeHash(l []freeOp) mc.Hash {
	h := mc.NewHash()
	for _, o := range l {
		h = h.I(int64(o.h)).I(int64(o.k))
	}
	return h
}

type freeSink struct{}

func (freeSink) Write(p []byte) (int, error) { return len(p) / 2, errReader }

// leaks repeats a history that left something behind: only if it does so
// (nearly) every time, in the same process, does it count; a cache of bounded
// size does not.
func leaks(what string, again func() string) string {
	if what == "" {
		return ""
	}
	bad := 0
	for i := 0; i < 24; i++ {
		if again() != "" {
			bad++
		}
	}
	if bad < 20 {
		return ""
	}
	return what
}

func b15units(tier string) []*mc.Unit {
	var out []*mc.Unit
	depth := pick(tier, 4, 5)
	for _, fb := range freeBodies() {
		for _, keep := range []bool{true, false} {
			for first := range freeOpNames {
				fb, keep, first := fb, keep, first
				seekable := !strings.HasPrefix(fb.name, "stream")
				if !seekable && (first == 4 || first == 5) {
					continue
				}
				out = append(out, &mc.Unit{Name: fmt.Sprintf("%s/keep=%v/depth=%d/first=%s", fb.name, keep, depth, freeOpNames[first]), Run: func(c *mc.Ctl) (f *mc.Fail) {
					mc.SeqMode = true
					defer func() { mc.SeqMode = false }()
					defer guard(&f)
					ops := []freeOp{{0, first}}
					open := []bool{true}
					apply := func(o freeOp) {
						if o.k == 2 {
							open = append(open, true)
						}
						if o.k == 3 {
							open[o.h] = false
						}
						hh := mc.NewHash()
						for _, x := range open {
							hh = hh.B(x)
						}
						c.State(uint64(hh))
					}
					menu := func() (l []freeOp) {
						for h := range open {
							if !open[h] {
								continue
							}
							for k := range freeOpNames {
								if k == 2 && len(open) >= 3 || !seekable && (k == 4 || k == 5) {
									continue
								}
								l = append(l, freeOp{h, k})
							}
						}
						return l
					}
					apply(ops[0])
					for len(ops) < depth-1 {
						m := menu()
						if len(m) == 0 {
							break
						}
						ops = append(ops, m[c.Choose(len(m), mc.Free)])
						apply(ops[len(ops)-1])
					}
					// all last steps at once, with both orders of closing the rest
					list := [][]freeOp{ops, ops}
					for _, o := range menu() {
						h := append(append([]freeOp(nil), ops...), o)
						list = append(list, h, h)
					}
					for _, o := range ops {
						c.Logf("h%d.%s", o.h, freeOpNames[o.k])
					}
					for _, h := range list {
						c.Trans(uint64(freeHash(h)))
					}
					if freeRun(fb, list, keep, false) == "" {
						return nil
					}
					for i, h := range list {
						one := func() string { return freeRun(fb, [][]freeOp{h}, keep, i%2 == 1) }
						if w := leaks(one(), one); w != "" {
							if len(h) > len(ops) {
								o := h[len(h)-1]
								c.Logf("h%d.%s", o.h, freeOpNames[o.k])
							}
							return mc.Failf("leak", "%s body: %s", fb.name, w)
						}
					}
					return nil
				}})
			}
		}
		for _, keep := range []bool{true, false} {
			fb, keep := fb, keep
			out = append(out, &mc.Unit{Name: fmt.Sprintf("served/%s/keep=%v", fb.name, keep), Run: func(c *mc.Ctl) (f *mc.Fail) {
				mc.SeqMode = true
				defer func() { mc.SeqMode = false }()
				defer guard(&f)
				var ch []int
				for i := 0; i < 3; i++ {
					ch = append(ch, c.Choose(7, mc.Free))
				}
				hh := mc.NewHash()
				for _, x := range ch {
					hh = hh.I(int64(x))
				}
				c.State(uint64(hh))
				c.Trans(uint64(hh.B(keep)))
				w := leaks(freeServe(fb, ch, keep, c.Logf), func() string { return freeServe(fb, ch, keep, func(string, ...interface{}) {}) })
				if w != "" {
					return mc.Failf("leak", "response with a %s body: %s", fb.name, w)
				}
				return nil
			}})
		}
	}
	return out
}

// freeServe builds a response, uses copies of it as told and serves it at the
// end; the response, its builder and the copies stay around.
func freeServe(fb freeBody, ch []int, keep bool, log func(string, ...interface{})) string {
	b, held, bufs := fb.mk()
	bld := response.NewBuilder().WithBody(b).WithHeader("X-A", "1", false)
	b = nil
	resp := bld.Build()
	var all []*response.Response
	serve := func(r *response.Response, fail bool) {
		w := fakew.New(nil, fakew.Menu{})
		var rw http.ResponseWriter = w.As(fakew.All)
		if fail {
			rw = &freeWriter{rw}
		}
		r.Serve(response.NewWriter(rw, &http.Request{Method: "GET"}))
	}
	var gone []weak.Pointer[byte]
	for _, k := range ch {
		name := []string{"copy, serve", "copy, serve to a failing client", "copy, close", "copy the body, read, close", "describe", "copy, read midway, serve", "copy, serve the original, go on with the copy"}[k]
		log("%s", name)
		if k == 4 {
			_ = resp.String()
			continue
		}
		if k == 3 {
			b, err := resp.Body().Copy()
			if err != nil {
				return "copy failed"
			}
			io.ReadFull(b, make([]byte, 100))
			b.Close()
			gone = append(gone, weakOf(b))
			continue
		}
		r, err := resp.Copy()
		if err != nil {
			return "copy failed"
		}
		switch k {
		case 6:
			serve(resp, false)
		case 2:
			r.Body().Close()
		case 5:
			io.ReadFull(r.Body(), make([]byte, 100))
			fallthrough
		default:
			serve(r, k == 1)
		}
		if k == 6 {
			// the copy takes the original's place
			r, resp = resp, r
		}
		if keep {
			all = append(all, r)
		} else {
			gone = append(gone, weakOf(r), weakOf(r.Body()))
		}
	}
	if n := stillThere(gone); n > 0 {
		return fmt.Sprintf("%d of %d served or closed copies are kept alive by the response", n, len(gone))
	}
	serve(resp, false)
	if keep {
		all = append(all, resp)
	}
	if bufs != nil {
		held = append(held, *bufs...)
	}
	n := stillThere(held)
	runtime.KeepAlive(all)
	runtime.KeepAlive(bld)
	if n > 0 {
		return fmt.Sprintf("after it and all its copies were served or closed %d of %d objects (reader, data, buffers) are kept alive", n, len(held))
	}
	return ""
}

type freeWriter struct{ http.ResponseWriter }

func (w *freeWriter) Write(p []byte) (int, error) { return 0, errReader }

func init() {
	register(&Prop{ID: "B15", Judge: judge("leak"), Units: b15units, Timing: true,
		Rule:        "an execution is one prefix of a history, continued by every possible last step on a new body each, with both orders of closing the rest (a history consists of reads, copies, seeks, random-access reads, failed transfers and closes over up to three handles), or one sequence of uses of a response and its copies; afterwards the collector runs and weak references tell whether closed copies, the reader, the data and every buffer the reader was handed are really unreachable while what the caller still holds is kept; a history that leaves something behind is repeated 24 times and counts only if it does so nearly always, so that caches of bounded size and pools do not",
		Bounds:      map[string]string{"quick": "histories of 4 operations over up to 3 handles of 9 kinds, both orders of closing the rest, with the closed handles kept and dropped; sequences of 3 uses of a response", "thorough": "histories of 5 operations"},
		Assumptions: []string{"what the garbage collector frees is taken as released; objects still referenced after four collections count as kept"}})
}
