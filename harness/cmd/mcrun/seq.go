//go:build go1.22

package main

import (
	"fmt"
	"io"
	"io/fs"
	"math"
	"sync/atomic"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
	rb "github.com/chronos-tachyon/morehttp/zz_verif/refbody"
)

// build describes how a body is made and what its model is.
type build struct {
	name string
	kind rb.Kind
	n    int64 // bytes the source has
	d    int64 // length passed to the constructor, -1 none
	md   int64 // length the body is entitled to assume, -1 unknown
	caps env.Caps
	str  bool // Mem: from a string
	base int64
}

func (b build) String() string { return b.name }

// inst is one body under test with its model and source.
type inst struct {
	m   *rb.Model
	src *env.Src
	hs  []body.Body
	b   build

	touch bool // judge what the source is asked for
}

func (b build) make(c *mc.Ctl, menu env.Menu, seekMenu bool, closeErr error) (*inst, *mc.Fail) {
	x := &inst{b: b}
	m := rb.New(b.kind, b.n, b.md)
	m.Base = b.base
	x.m = m
	var bd body.Body
	var err error
	switch b.kind {
	case rb.Closed:
		bd = body.AlreadyClosed()
	case rb.Empty:
		bd = body.Empty()
	case rb.Mem:
		if b.str {
			bd = body.FromString(string(env.BytesAt(b.base, b.n)))
		} else {
			bd = body.FromBytes(env.BytesAt(b.base, b.n))
		}
	default:
		src := &env.Src{Ctl: c, N: b.n, Base: b.base, SizeVal: b.n, Mode: 0o444}
		x.src = src
		if b.caps.Close || b.caps.Stat {
			src.CloseE = closeErr
			m.CloseE = closeErr
		}
		r := src.Reader(b.caps)
		m.HasRdr, m.Rdr = true, r
		bd, err = body.FromReaderAndLength(r, b.d)
		if err != nil || bd == nil {
			return nil, mc.Failf("construct", "FromReaderAndLength(%v, %d) = %v, %v", b.caps, b.d, bd, err)
		}
		src.Menu, src.SeekMenu = menu, seekMenu
	}
	x.hs = []body.Body{bd}
	return x, nil
}

// judged tells whether the property being decided is about this failure.
var judged = func(*mc.Fail) bool { return true }

// soft tells whether a history can go on after op answered wrongly: when the
// property being decided is about something else, it has to.
func soft(op rb.Op, closed bool) bool {
	switch op.K {
	case rb.ORemain, rb.OUnwrap, rb.OReadAt, rb.OClose:
		return true
	case rb.OCopy:
		return false
	}
	return closed
}

// beats counts operations completed inside executions of many, so that a slow
// one is not taken for a hanging one.
var beats int64

// step performs one operation and checks it.
func (x *inst) step(c *mc.Ctl, op rb.Op, scratch *[]byte) (*rb.Obs, *mc.Fail) {
	atomic.AddInt64(&beats, 1)
	var sink *env.Sink
	if op.K == rb.OWriteTo || op.K == rb.OIOCopy {
		sink = &env.Sink{Cap: op.A, Err: env.NewErr(int(op.B>>1), "writer"), Joint: op.B&1 == 1}
	}
	var before rb.H
	var had int64
	if x.src != nil {
		x.src.BeginOp()
		if x.touch {
			before = x.m.Hs[op.H]
			before.Pos = append([]int64(nil), before.Pos...)
			had = x.src.MaxPos
		}
	}
	o := rb.Do(x.hs[op.H], op, scratch, sink)
	if x.src != nil {
		o.Inj, o.Zero, o.StreamAt = x.src.OpErrs, x.src.OpZero, x.src.Pos
	}
	if c.Verbose {
		c.Logf("%v -> %v", op, &o)
	}
	if x.touch && x.src != nil {
		if f := x.touched(op, before, had); f != nil {
			return &o, f
		}
	}
	was := x.m.Hs[op.H].Closed
	if f := x.m.Accept(op, &o); f != nil && (judged(f) || !soft(op, was)) {
		return &o, f
	}
	if op.K == rb.OCopy {
		if o.New == nil {
			return &o, mc.Failf("copy", "%v returned no body", op)
		}
		if a, b := rb.CapsOf(x.hs[op.H]), rb.CapsOf(o.New); !x.m.Hs[op.H].Closed && a != b {
			if f := mc.Failf("copy", "%v: the copy offers ReaderAt/Seeker/WriterTo=%v, the original %v", op, b, a); judged(f) {
				return &o, f
			}
		} else if x.m.Hs[op.H].Closed && b != [3]bool{true, true, true} {
			return &o, mc.Failf("closed", "%v: the copy of a closed body offers ReaderAt/Seeker/WriterTo=%v", op, b)
		}
		for i, h := range x.hs {
			if h == o.New && !x.m.Hs[op.H].Closed {
				return &o, mc.Failf("copy", "%v returned handle h%d itself", op, i)
			}
		}
		x.hs = append(x.hs, o.New)
	}
	if f := x.invariants(op); f != nil && judged(f) {
		return &o, f
	}
	hh := x.m.Key(mc.NewHash())
	c.State(uint64(hh))
	c.Trans(uint64(hh.I(int64(op.K)).I(int64(op.H)).I(op.A).I(op.B).I(int64(op.W)).I(o.N).B(o.Err != nil)))
	return &o, nil
}

// touched judges what the operation asked the source for; h is the handle as
// it was before, had what a stream had delivered.
func (x *inst) touched(op rb.Op, h rb.H, had int64) *mc.Fail {
	s := x.src
	if s.OpData == 0 && s.OpSeeks == 0 {
		return nil
	}
	asked := fmt.Sprintf("%d data calls (bytes %d to %d), %d seeks", s.OpData, s.Lo, s.Hi, s.OpSeeks)
	data := false
	switch op.K {
	case rb.ORead, rb.OReadAt, rb.OWriteTo, rb.OIOCopy:
		data = !h.Closed
	}
	if s.OpData > 0 && !data {
		return mc.Failf("touch", "%v asked the reader for data: %s", op, asked)
	}
	if x.b.kind == rb.FileAt && (s.OpSeeks > 0 || s.OpReads > 0) {
		return mc.Failf("touch", "%v moved the cursor of a reader that offers random access: %s", op, asked)
	}
	if x.b.kind == rb.Stream && s.OpLate {
		return mc.Failf("touch", "%v asked the stream for more after it had ended or failed", op)
	}
	if s.Lo > s.Hi || s.OpData == 0 {
		return nil
	}
	if d := x.b.md; d >= 0 && s.Hi > d {
		return mc.Failf("touch", "%v asked for bytes beyond the length of %d: %s", op, d, asked)
	}
	lo, hi := h.Pos[0], h.Pos[0]
	for _, p := range h.Pos {
		lo, hi = min(lo, p), max(hi, p)
	}
	switch op.K {
	case rb.ORead:
		hi += op.A
	case rb.OReadAt:
		lo, hi = op.B, op.B+op.A
	default:
		hi = math.MaxInt64
	}
	if x.b.kind == rb.Stream {
		if hi <= had {
			return mc.Failf("touch", "%v asked the stream for more although it has already delivered %d bytes: %s", op, had, asked)
		}
		return nil
	}
	if s.Lo < lo || s.Hi > hi {
		return mc.Failf("touch", "%v asked for other bytes than %d to %d: %s", op, lo, hi, asked)
	}
	return nil
}

func (x *inst) invariants(op rb.Op) *mc.Fail {
	s := x.src
	if s == nil {
		return nil
	}
	if s.Bad != nil {
		return s.Bad
	}
	want := 0
	if x.m.Closed && (x.b.caps.Close || x.b.caps.Stat) {
		want = 1
	}
	if s.Closed != want {
		return mc.Failf("close-count", "after %v with %d open handles the reader was closed %d times, want %d", op, x.m.Open(), s.Closed, want)
	}
	if x.b.kind == rb.Stream && x.b.d >= 0 && s.MaxPos > x.b.d {
		return mc.Failf("overread", "after %v the stream was consumed up to %d, beyond the declared length %d", op, s.MaxPos, x.b.d)
	}
	return nil
}

func (x *inst) probe(c *mc.Ctl) *mc.Fail {
	for i := range x.hs {
		if _, f := x.step(c, rb.Op{K: rb.ORemain, H: i}, nil); f != nil {
			return f
		}
	}
	return nil
}

// drain reads every open handle to its end and closes it.
func (x *inst) drain(c *mc.Ctl, chunk int64, scratch *[]byte, doClose bool) *mc.Fail {
	q := c.Quiet
	c.Quiet = true
	defer func() { c.Quiet = q }()
	if x.src != nil {
		x.src.Broken = nil
	}
	for i := range x.hs {
		if x.m.Hs[i].Closed {
			continue
		}
		if x.b.kind != rb.Stream || x.b.md >= 0 {
			if _, f := x.step(c, rb.Op{K: rb.ORemain, H: i}, nil); f != nil {
				return f
			}
		}
		limit := x.m.L()/chunk + 6
		for k := int64(0); ; k++ {
			if k > limit {
				return mc.Failf("progress", "draining h%d did not finish after %d reads of %d", i, k, chunk)
			}
			o, f := x.step(c, rb.Op{K: rb.ORead, H: i, A: chunk}, scratch)
			if f != nil {
				return f
			}
			if o.Err != nil {
				break
			}
		}
		if _, f := x.step(c, rb.Op{K: rb.ORemain, H: i}, nil); f != nil {
			return f
		}
	}
	if !doClose {
		return nil
	}
	for i := range x.hs {
		if !x.m.Hs[i].Closed {
			if _, f := x.step(c, rb.Op{K: rb.OClose, H: i}, nil); f != nil {
				return f
			}
		}
	}
	return nil
}

// seqCfg is a family of sequential explorations.
type seqCfg struct {
	b        build
	menu     env.Menu
	seekMenu bool
	closeErr bool
	bounds   mc.Bounds
	depth    int
	maxH     int
	probe    bool
	noDrain  bool
	chunk    int64
	ops      func(m *rb.Model) []rb.Op
	tag      string
	final    func(c *mc.Ctl, x *inst, scratch *[]byte) *mc.Fail
	noStop   bool
	errKind  int
	clKind   int // shape of the close error
	touch    bool
}

func (s seqCfg) name() string {
	return fmt.Sprintf("%s%s/n=%d/d=%d/depth=%d/env=%d", s.tag, s.b.name, s.b.n, s.b.d, s.depth, s.bounds.Env)
}

func errCloseInjected() error { return &env.InjErr{ID: "close"} }

func catchCtl(f *mc.Fail) *mc.Fail { return f }

func (s seqCfg) run(c *mc.Ctl, first int) (f *mc.Fail) {
	mc.SeqMode = true
	defer func() { mc.SeqMode = false }()
	defer guard(&f)
	var ce error
	if s.closeErr {
		ce = env.NewErr(s.clKind, "close")
	}
	x, f := s.b.make(c, s.menu, s.seekMenu, ce)
	if f != nil {
		return f
	}
	if x.src != nil {
		x.src.ErrKind = s.errKind
	}
	if s.touch {
		if x.src != nil && x.src.NData > 0 {
			return mc.Failf("touch", "building the body asked the reader for data %d times", x.src.NData)
		}
		x.touch = true
	}
	chunk := s.chunk
	if chunk == 0 {
		chunk = 2
	}
	var scratch []byte
	oc := mc.NewHash()
	for d := 0; d < s.depth; d++ {
		ops := s.ops(x.m)
		if len(x.hs) >= s.maxH {
			ops = without(ops, rb.OCopy)
		}
		if len(ops) == 0 {
			break
		}
		var k int
		if d == 0 && first >= 0 {
			if first >= len(ops) {
				return nil
			}
			k = first
		} else if s.noStop {
			k = c.Choose(len(ops), mc.Free)
		} else {
			k = c.Choose(len(ops)+1, mc.Free) - 1
			if k < 0 {
				break
			}
		}
		o, f := x.step(c, ops[k], &scratch)
		if f != nil {
			return f
		}
		oc = oc.I(o.N).B(o.Err != nil)
		if s.probe {
			if f := x.probe(c); f != nil {
				return f
			}
		}
	}
	if s.final != nil {
		if f := s.final(c, x, &scratch); f != nil {
			return f
		}
	}
	if !s.noDrain {
		if f := x.drain(c, chunk, &scratch, true); f != nil {
			return f
		}
	}
	c.Outcome(uint64(oc))
	return nil
}

func without(ops []rb.Op, k rb.OpK) []rb.Op {
	out := ops[:0:0]
	for _, o := range ops {
		if o.K != k {
			out = append(out, o)
		}
	}
	return out
}

// guard turns a panic of an execution into a failure.
func guard(f **mc.Fail) {
	if r := recover(); r != nil {
		if mc.IsControl(r) {
			panic(r)
		}
		if lp, ok := r.(mc.LockPanic); ok {
			*f = mc.Failf("livelock", "%v", lp.Msg)
			return
		}
		*f = mc.Failf("panic", "%v", r)
	}
}

// units splits the exploration by its first operation.
func (s seqCfg) units() []*mc.Unit {
	m := rb.New(s.b.kind, s.b.n, s.b.md)
	nops := len(s.ops(m))
	if s.maxH <= 1 {
		nops = len(without(s.ops(m), rb.OCopy))
	}
	var out []*mc.Unit
	for i := 0; i < nops; i++ {
		i := i
		out = append(out, &mc.Unit{Name: fmt.Sprintf("%s#%d", s.name(), i), Bounds: s.bounds,
			Run: func(c *mc.Ctl) *mc.Fail { return s.run(c, i) }})
	}
	return out
}

// pairCfg explores two unrelated bodies used alternately.
type pairCfg struct {
	tag    string
	a, b   build
	depth  int
	maxH   int
	chunk  int64
	ops    func(b build) func(m *rb.Model) []rb.Op
	bounds mc.Bounds
	menu   env.Menu
}

func (s pairCfg) units() []*mc.Unit {
	s.b.base = 1 << 18
	var out []*mc.Unit
	n := len(s.ops(s.a)(rb.New(s.a.kind, s.a.n, s.a.md)))
	for i := 0; i < n; i++ {
		i := i
		out = append(out, &mc.Unit{Name: fmt.Sprintf("%s%s/n=%d/d=%d+%s/n=%d/d=%d/depth=%d#%d", s.tag, s.a.name, s.a.n, s.a.d, s.b.name, s.b.n, s.b.d, s.depth, i), Bounds: s.bounds,
			Run: func(c *mc.Ctl) *mc.Fail { return s.run(c, i) }})
	}
	return out
}

func (s pairCfg) run(c *mc.Ctl, first int) (f *mc.Fail) {
	mc.SeqMode = true
	defer func() { mc.SeqMode = false }()
	defer guard(&f)
	var xs [2]*inst
	var gens [2]func(m *rb.Model) []rb.Op
	for i, b := range []build{s.a, s.b} {
		if xs[i], f = b.make(c, s.menu, false, nil); f != nil {
			return f
		}
		gens[i] = s.ops(b)
	}
	var scratch []byte
	oc := mc.NewHash()
	for d := 0; d < s.depth; d++ {
		var l [2][]rb.Op
		for i, x := range xs {
			l[i] = gens[i](x.m)
			if len(x.hs) >= s.maxH {
				l[i] = without(l[i], rb.OCopy)
			}
		}
		k := first
		if d > 0 {
			if k = c.Choose(len(l[0])+len(l[1])+1, mc.Free) - 1; k < 0 {
				break
			}
		}
		w := 0
		if k >= len(l[0]) {
			w, k = 1, k-len(l[0])
		}
		if c.Verbose {
			c.Logf("body %d:", w)
		}
		o, f := xs[w].step(c, l[w][k], &scratch)
		if f != nil {
			return f
		}
		oc = oc.I(int64(w)).I(o.N).B(o.Err != nil)
	}
	// read out alternately
	q := c.Quiet
	c.Quiet = true
	defer func() { c.Quiet = q }()
	for more := true; more; {
		more = false
		for _, x := range xs {
			for i := range x.hs {
				h := &x.m.Hs[i]
				if h.Closed {
					continue
				}
				o, f := x.step(c, rb.Op{K: rb.ORead, H: i, A: s.chunk}, &scratch)
				if f != nil {
					return f
				}
				if o.Err == nil {
					more = true
					continue
				}
				if _, f := x.step(c, rb.Op{K: rb.OClose, H: i}, nil); f != nil {
					return f
				}
			}
		}
	}
	c.Outcome(uint64(oc))
	return nil
}

// one unit for the whole family (cheap ones).
func (s seqCfg) unit() *mc.Unit {
	return &mc.Unit{Name: s.name(), Bounds: s.bounds, Run: func(c *mc.Ctl) *mc.Fail { return s.run(c, -1) }}
}

// ---- builds ----

func memB(n int64) build { return build{"memory", rb.Mem, n, n, n, env.Caps{}, false, 0} }
func strB(n int64) build { return build{"string", rb.Mem, n, n, n, env.Caps{}, true, 0} }
func emptyB() build      { return build{"empty", rb.Empty, 0, 0, 0, env.Caps{}, false, 0} }

// readerat with declared length d
func atB(n, d int64) build {
	return build{"readerat", rb.FileAt, n, d, d, env.Caps{At: true, Close: true}, false, 0}
}
func atSeekB(n int64) build {
	return build{"readerat+seek", rb.FileAt, n, -1, n, env.Caps{At: true, Seek: true, Close: true}, false, 0}
}
func atNoCloseB(n, d int64) build {
	return build{"readerat-noclose", rb.FileAt, n, d, d, env.Caps{At: true}, false, 0}
}
func skB(n, d int64) build {
	md := d
	if d < 0 {
		md = n
	}
	return build{"seeker", rb.FileSk, n, d, md, env.Caps{Seek: true, Close: true}, false, 0}
}
func skNoCloseB(n int64) build {
	return build{"seeker-noclose", rb.FileSk, n, -1, n, env.Caps{Seek: true}, false, 0}
}
func stB(n, d int64) build {
	return build{"stream", rb.Stream, n, d, d, env.Caps{Close: true}, false, 0}
}
func stNoCloseB(n, d int64) build {
	return build{"stream-noclose", rb.Stream, n, d, d, env.Caps{}, false, 0}
}
func stStatB(n int64) build {
	return build{"stream+stat", rb.Stream, n, -1, n, env.Caps{Stat: true, Close: true}, false, 0}
}

// ---- alphabets ----

type alpha struct {
	reads  []int64
	seeks  [][2]int64 // offset, whence
	ats    [][2]int64 // size, offset
	copy   bool
	close  bool
	remain bool
	unwrap bool
	wto    []int64
	iocp   []int64
	closed bool  // also operate on closed handles
	shape  int64 // of the writer's failure: kind<<1, +1 if reported with the last accepted byte
}

func (a alpha) gen() func(m *rb.Model) []rb.Op {
	return func(m *rb.Model) []rb.Op {
		var out []rb.Op
		seekable := m.Kind != rb.Stream
		for h := range m.Hs {
			if m.Hs[h].Closed && !a.closed {
				continue
			}
			sk := seekable || m.Hs[h].Closed
			for _, k := range a.reads {
				out = append(out, rb.Op{K: rb.ORead, H: h, A: k})
			}
			if sk {
				for _, s := range a.seeks {
					out = append(out, rb.Op{K: rb.OSeek, H: h, A: s[0], W: int(s[1])})
				}
				for _, s := range a.ats {
					out = append(out, rb.Op{K: rb.OReadAt, H: h, A: s[0], B: s[1]})
				}
			}
			if a.copy {
				out = append(out, rb.Op{K: rb.OCopy, H: h})
			}
			if a.close {
				out = append(out, rb.Op{K: rb.OClose, H: h})
			}
			if a.remain {
				out = append(out, rb.Op{K: rb.ORemain, H: h})
			}
			if a.unwrap {
				out = append(out, rb.Op{K: rb.OUnwrap, H: h})
			}
			if m.Kind == rb.Mem || m.Kind == rb.Empty || m.Kind == rb.Closed {
				for _, k := range a.wto {
					out = append(out, rb.Op{K: rb.OWriteTo, H: h, A: k, B: a.shape})
				}
			}
			for _, k := range a.iocp {
				out = append(out, rb.Op{K: rb.OIOCopy, H: h, A: k, B: a.shape})
			}
		}
		return out
	}
}

var _ io.Reader
var _ fs.File
