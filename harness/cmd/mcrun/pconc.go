//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
	rb "github.com/chronos-tachyon/morehttp/zz_verif/refbody"
)

// Concurrent executions. Handles live in slots; a thread's program is a list
// of operations on slots, a copy goes to a fresh slot of its thread.

type cop struct {
	op   rb.Op // H is the slot
	dst  int   // slot for OCopy
	note string
}

type crec struct {
	cop
	t        int
	inv, ret int
	obs      rb.Obs
	done     bool
}

type cexec struct {
	c     *mc.Ctl
	b     build
	src   *env.Src
	m     *rb.Model // model after setup
	slots map[int]body.Body
	mslot map[int]int // slot -> model handle, after setup
	recs  []*crec
	clock int
	bufs  *bufPool
	nSeq  int
}

type bufPool struct{ b [8][12][]byte }

const maxSlots = 40

//go:norace
func (x *cexec) tick() int { x.clock++; return x.clock }

func newCexec(c *mc.Ctl, b build, closeErr error, bufs *bufPool) (*cexec, *mc.Fail) {
	in, f := b.make(c, env.Menu{}, false, closeErr)
	if f != nil {
		return nil, f
	}
	return &cexec{c: c, b: b, src: in.src, m: in.m, slots: map[int]body.Body{0: in.hs[0]}, mslot: map[int]int{0: 0}, bufs: bufs}, nil
}

// seq performs one operation in the single-threaded setup and checks it.
func (x *cexec) seq(o cop) *mc.Fail {
	if x.src != nil {
		x.src.BeginOp()
	}
	var scratch []byte
	obs := rb.Do(x.slots[o.op.H], o.op, &scratch, nil)
	x.fillEnv(&obs, -1)
	mo := o.op
	mo.H = x.mslot[o.op.H]
	if x.c.Verbose {
		x.c.Logf("setup: %v -> %v", o.op, &obs)
	}
	was := x.m.Hs[mo.H].Closed
	if f := x.m.Accept(mo, &obs); f != nil && (judged(f) || !soft(mo, was)) {
		return f
	}
	if o.op.K == rb.OCopy {
		if obs.New == nil {
			return mc.Failf("copy", "copy returned nil")
		}
		x.slots[o.dst] = obs.New
		x.mslot[o.dst] = len(x.m.Hs) - 1
	}
	return nil
}

//go:norace
func (x *cexec) fillEnv(o *rb.Obs, t int) {
	if x.src == nil {
		return
	}
	if t < 0 {
		o.Inj, o.Zero, o.StreamAt = x.src.OpErrs, x.src.OpZero, x.src.Pos
		return
	}
	o.Inj, o.Zero, o.StreamAt = x.src.TErrs[t], x.src.TZero[t], x.src.TPos[t]
}

//go:norace
func (x *cexec) clearEnv(t int) {
	if x.src != nil {
		x.src.TErrs[t], x.src.TZero[t] = nil, false
	}
}

// doOp runs one operation in thread t.
func (x *cexec) doOp(r *crec, i int) {
	mc.Yield()
	x.clearEnv(r.t)
	r.inv = x.tick()
	var sink *env.Sink
	if r.op.K == rb.OWriteTo || r.op.K == rb.OIOCopy {
		sink = &env.Sink{Cap: r.op.A, Err: &env.InjErr{ID: "writer"}, Yields: true}
	}
	obs := rb.Do(x.getSlot(r.op.H), r.op, &x.bufs.b[r.t][i], sink)
	r.ret = x.tick()
	x.fillEnv(&obs, r.t)
	r.obs = obs
	if r.op.K == rb.OCopy && obs.New != nil {
		x.setSlot(r.dst, obs.New)
	}
	r.done = true
}

// Slots of different threads are disjoint or set up before the threads start.
//
//go:norace
func (x *cexec) getSlot(i int) body.Body { return x.slotArr()[i] }

//go:norace
func (x *cexec) setSlot(i int, b body.Body) { x.slotArr()[i] = b }

var slotStore [maxSlots]body.Body

//go:norace
func (x *cexec) slotArr() *[maxSlots]body.Body { return &slotStore }

// run executes the thread programs under the scheduler.
func (x *cexec) run(progs [][]cop) *mc.Fail {
	slotStore = [maxSlots]body.Body{}
	for k, v := range x.slots {
		slotStore[k] = v
	}
	if x.src != nil {
		x.src.Yields = true
		x.src.BeginOp()
	}
	var fns []func()
	for t, p := range progs {
		recs := make([]*crec, len(p))
		for i := range p {
			recs[i] = &crec{cop: p[i], t: t}
			x.recs = append(x.recs, recs[i])
		}
		fns = append(fns, func() {
			for i, r := range recs {
				x.doOp(r, i)
			}
		})
	}
	races := mc.RaceErrors()
	mc.SeqMode = false
	res := mc.RunThreads(x.c, fns)
	if x.src != nil {
		x.src.Yields = false
	}
	if n := mc.RaceErrors() - races; n > 0 {
		return mc.Failf("race", "%d data race(s) reported by the race detector while running %s", n, progString(progs))
	}
	if x.c.Verbose {
		rs := append([]*crec(nil), x.recs...)
		sort.SliceStable(rs, func(i, j int) bool { return rs[i].inv < rs[j].inv })
		for _, r := range rs {
			x.c.Logf("thread %d: %v -> %v   [%d,%d]", r.t, r.op, &r.obs, r.inv, r.ret)
		}
	}
	if f := threadFail(res); f != nil {
		f.Msg += " while running " + progString(progs)
		return f
	}
	for _, r := range x.recs {
		if r.obs.Panic != "" {
			return mc.Failf("panic", "thread %d: %v panicked: %s", r.t, r.op, r.obs.Panic)
		}
		if r.op.K == rb.OCopy && r.obs.New != nil {
			x.slots[r.dst] = r.obs.New
		}
	}
	if x.src != nil && x.src.Bad != nil {
		return x.src.Bad
	}
	return nil
}

// drain reads every slot to its end and closes it, recording the operations.
func (x *cexec) drain(chunk int64) {
	mc.SeqMode = true
	if x.src != nil {
		x.src.Broken = nil
	}
	var ks []int
	for k := range x.slots {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	n := 0
	do := func(op rb.Op) *crec {
		r := &crec{cop: cop{op: op}, t: 7, inv: x.tick()}
		if x.src != nil {
			x.src.BeginOp()
		}
		var own []byte
		buf := &own
		if n < 12 {
			buf = &x.bufs.b[7][n]
		}
		n++
		r.obs = rb.Do(x.slots[op.H], op, buf, nil)
		x.fillEnv(&r.obs, -1)
		r.ret = x.tick()
		x.recs = append(x.recs, r)
		if x.c.Verbose {
			x.c.Logf("afterwards: %v -> %v", op, &r.obs)
		}
		return r
	}
	for _, k := range ks {
		do(rb.Op{K: rb.ORemain, H: k})
		for i := int64(0); i <= x.b.n/chunk+4; i++ {
			if r := do(rb.Op{K: rb.ORead, H: k, A: chunk}); r.obs.Err != nil {
				break
			}
		}
		do(rb.Op{K: rb.ORemain, H: k})
	}
	for _, k := range ks {
		do(rb.Op{K: rb.OClose, H: k})
	}
}

// linearize searches for a sequential order of the recorded operations that
// respects real time and that the reference model accepts.
func (x *cexec) linearize() *mc.Fail {
	n := len(x.recs)
	done := make([]bool, n)
	best, bestFail := 0, (*mc.Fail)(nil)
	var dfs func(m *rb.Model, slot map[int]int, left int) bool
	dfs = func(m *rb.Model, slot map[int]int, left int) bool {
		if left == 0 {
			return true
		}
		minRet := int(^uint(0) >> 1)
		for i, r := range x.recs {
			if !done[i] && r.ret < minRet {
				minRet = r.ret
			}
		}
		cand := 0
		for i, r := range x.recs {
			if !done[i] && r.inv < minRet {
				cand++
				_ = i
			}
		}
		for i, r := range x.recs {
			if done[i] || r.inv >= minRet {
				continue
			}
			h, ok := slot[r.op.H]
			if !ok {
				continue
			}
			mm, ss := m, slot
			if cand > 1 {
				mm = m.Clone()
			}
			op := r.op
			op.H = h
			obs := r.obs
			if f := mm.Accept(op, &obs); f != nil {
				if d := n - left; d >= best {
					best, bestFail = d, f
				}
				continue
			}
			if r.op.K == rb.OCopy {
				ss = map[int]int{}
				for k, v := range slot {
					ss[k] = v
				}
				ss[r.dst] = len(mm.Hs) - 1
			}
			done[i] = true
			if dfs(mm, ss, left-1) {
				return true
			}
			done[i] = false
		}
		return false
	}
	if dfs(x.m.Clone(), x.mslot, n) {
		return nil
	}
	var sb strings.Builder
	for _, r := range x.recs {
		if r.t != 7 {
			fmt.Fprintf(&sb, "; thread %d: %v -> %v [%d,%d]", r.t, r.op, &r.obs, r.inv, r.ret)
		}
	}
	return mc.Failf("linearize", "no sequential order of the operations explains the results (last obstacle: %v)%s", bestFail, sb.String())
}

// finalReader checks the close count at the very end.
func (x *cexec) finalReader() *mc.Fail {
	if x.src == nil {
		return nil
	}
	if x.src.Bad != nil {
		return x.src.Bad
	}
	if (x.b.caps.Close || x.b.caps.Stat) && x.src.Closed != 1 {
		return mc.Failf("close-count", "after every handle was closed the reader had been closed %d times", x.src.Closed)
	}
	if x.b.kind == rb.Stream && x.b.d >= 0 && x.src.MaxPos > x.b.d {
		return mc.Failf("overread", "the stream was consumed up to %d, beyond the declared length %d", x.src.MaxPos, x.b.d)
	}
	return nil
}

// direct checks results that need no linearization: who got the close error,
// and that data of random-access reads is the content at their offset.
func (x *cexec) direct() *mc.Fail {
	nErr := 0
	for _, r := range x.recs {
		if r.obs.Err != nil && x.m.CloseE != nil && errors.Is(r.obs.Err, x.m.CloseE) {
			nErr++
		}
		if r.op.K == rb.OReadAt && r.obs.N > 0 && (r.op.B+r.obs.N > x.m.L() || !env.Equal(r.obs.Data[:r.obs.N], r.op.B)) {
			return mc.Failf("readat", "thread %d: %v returned %d bytes that are not the content at that offset: %q", r.t, r.op, r.obs.N, r.obs.Data[:r.obs.N])
		}
	}
	if x.m.CloseE != nil && nErr != 1 {
		return mc.Failf("close-err", "the reader's close error was returned by %d calls, want 1", nErr)
	}
	return nil
}

func progString(progs [][]cop) string {
	var s []string
	for t, p := range progs {
		var l []string
		for _, o := range p {
			l = append(l, o.op.String())
		}
		s = append(s, fmt.Sprintf("T%d: %s", t, strings.Join(l, ", ")))
	}
	return strings.Join(s, " || ")
}

// concCfg is a family of concurrent scenarios: every program of every thread
// over the alphabet, every setup, every schedule within the bound.
type concCfg struct {
	tag     string
	b       build
	shared  bool // all threads use slot 0
	threads int
	ops     int // operations per thread
	setups  int // number of setup variants used
	alpha   []rb.Op
	menu    env.Menu
	bounds  mc.Bounds
	chunk   int64
	closeE  bool
	check   string // "linearize" or "direct" or ""
	dribble int64  // the source delivers at most this many bytes per read
	ownCopy bool   // operations after a copy may go to the copy
	cold    bool   // every execution in a fresh process
}

func (k concCfg) name() string {
	w := "copies"
	if k.shared {
		w = "shared"
	}
	return fmt.Sprintf("%s%s/%s/n=%d/d=%d/%dx%d/preempt=%d", k.tag, w, k.b.name, k.b.n, k.b.d, k.threads, k.ops, k.bounds.Preempt)
}

func (k concCfg) units() []*mc.Unit {
	var out []*mc.Unit
	for s := 0; s < k.setups; s++ {
		for first := range k.alpha {
			s, first := s, first
			bufs := &bufPool{}
			out = append(out, &mc.Unit{Name: fmt.Sprintf("%s#%d.%d", k.name(), s, first), Bounds: k.bounds, Cold: k.cold,
				Run: func(c *mc.Ctl) *mc.Fail { return k.run(c, s, first, bufs) }})
		}
	}
	return out
}

func (k concCfg) run(c *mc.Ctl, setup, first int, bufs *bufPool) (f *mc.Fail) {
	mc.SeqMode = true
	defer func() { mc.SeqMode = false }()
	defer guard(&f)
	var ce error
	if k.closeE {
		ce = errCloseInjected()
	}
	// programs first: they do not depend on the schedule
	progs := make([][]cop, k.threads)
	choice := make([][]int, k.threads)
	for t := range progs {
		slot := t
		if k.shared {
			slot = 0
		}
		mine := 10 + 8*t
		tgt := []int{slot}
		for i := 0; i < k.ops; i++ {
			n := len(k.alpha) * len(tgt)
			var q int
			switch {
			case t == 0 && i == 0:
				q = first
			case t > 0 && i == 0 && k.shared:
				// threads are interchangeable: order them by their first op
				lo := choice[t-1][0]
				q = lo + c.Choose(len(k.alpha)-lo, mc.Free)
			default:
				q = c.Choose(n, mc.Free)
			}
			choice[t] = append(choice[t], q)
			op := k.alpha[q%len(k.alpha)]
			op.H = tgt[q/len(k.alpha)]
			o := cop{op: op}
			if op.K == rb.OCopy {
				o.dst = mine
				mine++
				if k.ownCopy {
					tgt = []int{slot, o.dst}
				}
			}
			progs[t] = append(progs[t], o)
		}
	}
	x, f := newCexec(c, k.b, ce, bufs)
	if f != nil {
		return f
	}
	if f := x.setup(k, setup); f != nil {
		return f
	}
	if x.src != nil {
		x.src.Menu, x.src.MaxRead = k.menu, k.dribble
		x.src.Tolerant = k.check == "linearize"
	}
	if f := x.run(progs); f != nil {
		return f
	}
	if x.src != nil {
		x.src.Menu = env.Menu{}
	}
	x.drain(k.chunk)
	switch k.check {
	case "linearize":
		if f := x.linearize(); f != nil {
			return f
		}
	case "direct":
		if f := x.direct(); f != nil {
			return f
		}
	}
	if f := x.finalReader(); f != nil {
		return f
	}
	oc := mc.NewHash()
	for _, r := range x.recs {
		oc = oc.I(r.obs.N).B(r.obs.Err != nil)
	}
	c.Outcome(uint64(oc))
	return nil
}

// setup variants: 0 — nothing read; 1 — the first handle has read one byte
// (one block for block contents) after the copies were made; 2 — copies made
// in the middle; 3 — copies at end-of-file except the last one.
func (x *cexec) setup(k concCfg, v int) *mc.Fail {
	var list []cop
	cp := func() {
		if !k.shared {
			for t := 1; t < k.threads; t++ {
				list = append(list, cop{op: rb.Op{K: rb.OCopy, H: 0}, dst: t})
			}
		}
	}
	rd := func(h int, n int64) { list = append(list, cop{op: rb.Op{K: rb.ORead, H: h, A: n}}) }
	unit := int64(1)
	if k.b.n > blk {
		unit = blk
	}
	switch v {
	case 0:
		cp()
	case 1:
		if k.shared {
			// an extra copy stays behind, holding the buffer
			list = append(list, cop{op: rb.Op{K: rb.OCopy, H: 0}, dst: 5})
		}
		cp()
		rd(0, unit)
	case 2:
		rd(0, unit)
		cp()
	case 3:
		cp()
		for i := int64(0); i*unit <= k.b.n; i++ {
			rd(0, unit+1)
		}
	}
	for _, o := range list {
		if f := x.seq(o); f != nil {
			return f
		}
	}
	return nil
}

func rd(n int64) rb.Op          { return rb.Op{K: rb.ORead, A: n} }
func sk(off int64, w int) rb.Op { return rb.Op{K: rb.OSeek, A: off, W: w} }
func ra(size, off int64) rb.Op  { return rb.Op{K: rb.OReadAt, A: size, B: off} }
func wt(n int64) rb.Op          { return rb.Op{K: rb.OWriteTo, A: n} }
func ops(l ...rb.Op) []rb.Op    { return l }
func isSeekable(b build) bool   { return b.kind != rb.Stream }
func isMem(b build) bool        { return b.kind == rb.Mem || b.kind == rb.Empty || b.kind == rb.Closed }

var (
	opCopy   = rb.Op{K: rb.OCopy}
	opClose  = rb.Op{K: rb.OClose}
	opRemain = rb.Op{K: rb.ORemain}
	opUnwrap = rb.Op{K: rb.OUnwrap}
)

// concAlpha is the operation alphabet for one kind.
func concAlpha(b build, wide bool) []rb.Op {
	unit := int64(1)
	if b.n > blk {
		unit = blk
	}
	a := ops(rd(unit), rd(b.n+1), opCopy, opClose)
	if wide {
		a = append(a, opRemain)
	}
	if isSeekable(b) {
		a = append(a, sk(1, 0), ra(2, 0))
		if wide {
			if b.d > b.n {
				a = append(a, sk(0, 2), ra(2, b.n-1))
			} else {
				a = append(a, sk(-1, 1), ra(2, b.n-1))
			}
		}
	}
	if isMem(b) {
		a = append(a, wt(-1), wt(1))
	}
	return a
}

// ioCopyAlpha is for whole transfers by io.Copy, which on bodies that are not
// in memory are many reads and no single step.
func ioCopyAlpha(b build) []rb.Op {
	a := ops(rb.Op{K: rb.OIOCopy, A: -1}, rb.Op{K: rb.OIOCopy, A: 1}, rd(b.n+1), opClose)
	if isSeekable(b) {
		a = append(a, sk(1, 0), ra(2, 0))
	}
	return a
}

func concBuilds() []build {
	return []build{atB(3, 3), atB(3, 5), skB(3, -1), skB(3, 5), stB(3, -1), stB(3, 3), stB(3, 2), stB(3, 5)}
}

func concUnits(cf []concCfg) []*mc.Unit {
	var out []*mc.Unit
	for _, k := range cf {
		out = append(out, k.units()...)
	}
	return out
}

var concAssume = []string{
	"scheduling points: before every lock acquisition and atomic operation, at operation boundaries, and twice inside every call of the reader or writer; plain memory accesses between two points are not interleaved here (that they are ordered is C04)",
	"blocking switches are free, other switches count as preemptions",
	"sources answer in full unless the family says otherwise",
}

func init() {
	register(&Prop{ID: "C01", Threads: true, Judge: judge("linearize deadlock copy"),
		Units: func(tier string) []*mc.Unit {
			var cf []concCfg
			for _, b := range append(concBuilds(), memB(3), emptyB()) {
				su, pre := 4, pick(tier, 2, 3)
				if tier == "quick" && isSeekable(b) {
					su = 2
					if isMem(b) {
						pre = 1
					}
				}
				cf = append(cf, concCfg{b: b, threads: 2, ops: 2, setups: su, alpha: concAlpha(b, true), bounds: mc.Bounds{Preempt: pre}, chunk: 2, check: "linearize", ownCopy: true})
				if !isMem(b) {
					cf = append(cf, concCfg{tag: "iocopy/", b: b, threads: 2, ops: pick(tier, 1, 2), setups: 4, alpha: ioCopyAlpha(b), bounds: mc.Bounds{Preempt: 2}, chunk: 2, check: "linearize"})
				}
				if !isSeekable(b) {
					cf = append(cf, concCfg{tag: "dribble/", b: b, threads: 2, ops: 3, setups: 4, dribble: 1, alpha: concAlpha(b, true), bounds: mc.Bounds{Preempt: pick(tier, 1, 2)}, chunk: 2, check: "linearize"})
				}
				if tier == "thorough" {
					cf = append(cf, concCfg{b: b, threads: 2, ops: 3, setups: 3, alpha: concAlpha(b, false), bounds: mc.Bounds{Preempt: 2}, chunk: 2, check: "linearize"})
				}
			}
			for _, b := range []build{atB(3, 5), skB(3, -1), stB(3, -1), stB(3, 5)} {
				cf = append(cf, concCfg{b: b, threads: 3, ops: pick(tier, 1, 2), setups: 3, alpha: concAlpha(b, tier == "quick"), bounds: mc.Bounds{Preempt: 2}, chunk: 2, check: "linearize"})
			}
			for _, b := range []build{stB(3*blk+5, -1), stB(3*blk+5, 4*blk)} {
				cf = append(cf, concCfg{tag: "blocks/", b: b, threads: 2, ops: 2, setups: 3, alpha: concAlpha(b, false), bounds: mc.Bounds{Preempt: pick(tier, 1, 2)}, chunk: 70000, check: "linearize"})
			}
			for _, b := range []build{stB(3, -1), stB(3, 3), skB(3, -1), atB(3, 3)} {
				cf = append(cf, concCfg{tag: "faults/", b: b, threads: 2, ops: 2, setups: 2, alpha: concAlpha(b, false), menu: env.Menu{Err: true, PartErr: true, Persist: b.kind == rb.Stream, Short: true}, bounds: mc.Bounds{Preempt: pick(tier, 1, 2), Env: 1}, chunk: 2, check: "linearize"})
			}
			return concUnits(cf)
		},
		Rule:        "an execution is one choice of thread programs and one schedule; the recorded results, followed by a read-out of every handle, must be explained by a sequential order that respects real time and that the reference model accepts (found by exhaustive search)",
		Bounds:      map[string]string{"quick": "2 threads x 2 operations over the full alphabet, 4 starting situations, every kind, up to 2 preemptions; 3 threads x 1 operation; one source failure or short read anywhere with 1 preemption; contents of three 64 KiB blocks with 1 preemption; io.Copy against one operation with 2 preemptions", "thorough": "3 preemptions; 2 threads x 3 operations and 3 threads x 2 operations with 2 preemptions"},
		Assumptions: concAssume})

	register(&Prop{ID: "C02", Threads: true, Judge: judge("linearize deadlock copy"),
		Units: func(tier string) []*mc.Unit {
			var cf []concCfg
			for _, b := range append(concBuilds(), memB(3), strB(2), emptyB()) {
				cf = append(cf, concCfg{b: b, shared: true, threads: 2, ops: 2, setups: 4, alpha: concAlpha(b, true), bounds: mc.Bounds{Preempt: pick(tier, 2, 3)}, chunk: 2, check: "linearize", ownCopy: true})
				if !isSeekable(b) {
					cf = append(cf, concCfg{tag: "dribble/", b: b, shared: true, threads: 2, ops: 3, setups: 4, dribble: 1, alpha: concAlpha(b, true), bounds: mc.Bounds{Preempt: pick(tier, 1, 2)}, chunk: 2, check: "linearize"})
				}
				cf = append(cf, concCfg{b: b, shared: true, threads: 3, ops: 1, setups: 3, alpha: concAlpha(b, true), bounds: mc.Bounds{Preempt: pick(tier, 2, 3)}, chunk: 2, check: "linearize"})
				if tier == "thorough" {
					cf = append(cf, concCfg{b: b, shared: true, threads: 3, ops: 2, setups: 2, alpha: concAlpha(b, false), bounds: mc.Bounds{Preempt: 1}, chunk: 2, check: "linearize"})
				}
			}
			for _, b := range []build{stB(3*blk+5, -1), stB(3*blk+5, 4*blk)} {
				cf = append(cf, concCfg{tag: "blocks/", b: b, shared: true, threads: 2, ops: 2, setups: 2, alpha: concAlpha(b, false), bounds: mc.Bounds{Preempt: pick(tier, 1, 2)}, chunk: 70000, check: "linearize"})
			}
			for _, b := range []build{stB(3, -1), stB(3, 3), skB(3, -1), atB(3, 3)} {
				cf = append(cf, concCfg{tag: "faults/", b: b, shared: true, threads: 2, ops: 2, setups: 2, alpha: concAlpha(b, false), menu: env.Menu{Err: true, PartErr: true, Persist: b.kind == rb.Stream, Short: true}, bounds: mc.Bounds{Preempt: pick(tier, 1, 2), Env: 1}, chunk: 2, check: "linearize"})
			}
			return concUnits(cf)
		},
		Rule:        "as C01, with all threads on one handle",
		Bounds:      map[string]string{"quick": "2 threads x 2 operations on one handle (and on copies made meanwhile), 4 starting situations, every kind including in-memory ones, up to 2 preemptions; 3 threads x 1 operation; one source failure or short read anywhere with 1 preemption; block contents", "thorough": "3 preemptions; 3 threads x 2 operations"},
		Assumptions: concAssume})

	register(&Prop{ID: "C03", Threads: true, Judge: judge("overlap after-close protocol close-count close-err readat overread deadlock"),
		Units: func(tier string) []*mc.Unit {
			var cf []concCfg
			bs := []build{atB(3, 3), atSeekB(3), skB(3, -1), skB(3, 5), stB(3, -1), stB(3, 2), stB(3, 5)}
			for _, b := range bs {
				for _, sh := range []bool{false, true} {
					for _, ce := range []bool{false, true} {
						cf = append(cf, concCfg{tag: fmt.Sprintf("closeErr=%v/", ce), b: b, shared: sh, threads: 2, ops: pick(tier, 2, 3), setups: 3, closeE: ce, alpha: concAlpha(b, false), bounds: mc.Bounds{Preempt: 2}, chunk: 2, check: "direct", ownCopy: tier == "quick"})
					}
					if b.kind == rb.Stream {
						cf = append(cf, concCfg{tag: "dribble/", b: b, shared: sh, threads: 2, ops: 3, setups: 3, dribble: 1, closeE: true, alpha: concAlpha(b, false), bounds: mc.Bounds{Preempt: pick(tier, 1, 2)}, chunk: 2, check: "direct"})
					}
					cf = append(cf, concCfg{tag: "iocopy/", b: b, shared: sh, threads: 2, ops: pick(tier, 1, 2), setups: 3, closeE: true, alpha: ioCopyAlpha(b), bounds: mc.Bounds{Preempt: 2}, chunk: 2, check: "direct"})
					cf = append(cf, concCfg{tag: "three/", b: b, shared: sh, threads: 3, ops: 1, setups: 3, closeE: true, alpha: concAlpha(b, false), bounds: mc.Bounds{Preempt: pick(tier, 2, 4)}, chunk: 2, check: "direct"})
					if tier == "thorough" {
						cf = append(cf, concCfg{tag: "three/", b: b, shared: sh, threads: 3, ops: 2, setups: 1, closeE: true, alpha: concAlpha(b, false), bounds: mc.Bounds{Preempt: 1}, chunk: 2, check: "direct"})
					}
				}
			}
			return concUnits(cf)
		},
		Rule:        "an execution is one choice of thread programs and one schedule; the reader itself watches for overlapping calls and calls after Close, and is a scheduling point before, inside and after every call; at the end all handles are closed and closes and close errors are counted",
		Bounds:      map[string]string{"quick": "2 threads x 2 operations (3 threads x 1), copies and shared handle, reader's Close succeeding and failing, every reader-backed kind, up to 2 preemptions; io.Copy against one operation", "thorough": "2 x 3 with 2 preemptions; 3 x 1 with 4; 3 x 2 with 1"},
		Assumptions: concAssume})

	register(&Prop{ID: "C04", Threads: true, Race: true, Judge: judge("race deadlock"),
		Units: func(tier string) []*mc.Unit {
			var cf []concCfg
			for _, b := range append(concBuilds(), memB(3), strB(2), emptyB()) {
				if b.d == 2 || b.d == 3 && b.kind == rb.Stream {
					continue
				}
				for _, sh := range []bool{false, true} {
					cf = append(cf, concCfg{b: b, shared: sh, threads: 2, ops: 1, setups: 4, alpha: append(concAlpha(b, true), opUnwrap), bounds: mc.Bounds{Preempt: pick(tier, 2, 4)}, chunk: 2})
					cf = append(cf, concCfg{b: b, shared: sh, threads: 2, ops: 2, setups: pick(tier, 2, 4), alpha: concAlpha(b, true), bounds: mc.Bounds{Preempt: pick(tier, 0, 1)}, chunk: 2, ownCopy: true})
					if tier == "thorough" {
						cf = append(cf, concCfg{b: b, shared: sh, threads: 3, ops: 1, setups: 3, alpha: concAlpha(b, true), bounds: mc.Bounds{Preempt: 1}, chunk: 2})
					}
					if !isMem(b) {
						cf = append(cf, concCfg{tag: "iocopy/", b: b, shared: sh, threads: 2, ops: 1, setups: pick(tier, 2, 4), alpha: ioCopyAlpha(b), bounds: mc.Bounds{Preempt: pick(tier, 1, 2)}, chunk: 2})
					}
					if tier == "thorough" || sh == (b.kind == rb.Stream) {
						cf = append(cf, concCfg{tag: "cold/", b: b, shared: sh, threads: 2, ops: 1, setups: pick(tier, 1, 3), alpha: concAlpha(b, tier == "thorough"), chunk: 2, cold: true})
					}
				}
			}
			return append(concUnits(cf), apartUnits(tier, false)...)
		},
		Rule:        "an execution is one choice of thread programs and one schedule, run once in the plain build (deadlocks, panics) and once under the race detector with the explorer's hand-offs hidden from it, so that only the program's own synchronisation orders accesses",
		Bounds:      map[string]string{"quick": "2 threads x 1 operation with 2 preemptions and 2 x 2 without (switches at thread ends and blocking points), copies and shared handle, every kind; two threads each making and using a body of their own (66 pairs of kinds and encoders, 16 pairs of programs, 1 preemption), also as the first uses in a process", "thorough": "2 x 1 with 4 preemptions, 2 x 2 with 1, 3 x 1 with 1; own bodies with 2 preemptions"},
		Assumptions: append([]string{"the race detector reports every race of the executed interleaving within its history window"}, concAssume[:2]...)})
}
