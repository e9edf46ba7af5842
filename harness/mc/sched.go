//go:build go1.22

package mc

import (
	"fmt"
	"unsafe"
)

// Cooperative scheduler. Threads are goroutines of which exactly one runs at a
// time; a thread hands control to the scheduler at every Point (before a lock
// acquisition, before an atomic operation, at operation boundaries and inside
// reader calls), and the scheduler picks the next thread through Ctl.Choose.
// In race builds the hand-offs are hidden from the race detector, so that it
// judges each explored interleaving by the program's own synchronisation only.

// LockState is the scheduler-visible part of a (RW)mutex.
type LockState struct {
	Writer  bool
	Readers int32
	Owner   int32
}

const (
	opRun   = 0
	opLockW = 1
	opLockR = 2
	opCond  = 3
)

type sthread struct {
	id      int
	resume  chan struct{}
	op      int
	lock    *LockState
	cond    func() bool
	done    bool
	abort   bool
	blocked bool
	panicV  string
	points  int
	edge    byte
}

type Sched struct {
	ctl     *Ctl
	threads []*sthread
	toMain  chan struct{}
	running *sthread
	aborted bool
	MaxPts  int
}

// Cur is the scheduler threads run under, nil outside.
var Cur *Sched

// SeqMode makes the lock shim panic instead of blocking when no scheduler is
// active (single-threaded phases).
var SeqMode bool

type abortSignal struct{}

// LockPanic is raised by the shim for misuse that would be fatal or hang.
type LockPanic struct{ Msg string }

func (e LockPanic) Error() string { return "lock misuse: " + e.Msg }

//go:norace
func (s *Sched) point(op int, l *LockState, cond func() bool) {
	t := s.running
	t.points++
	t.op, t.lock, t.cond = op, l, cond
	raceDisable()
	s.toMain <- struct{}{}
	<-t.resume
	raceEnable()
	if t.abort {
		panic(abortSignal{})
	}
}

// Yield is an explicit scheduling point.
//
//go:norace
func Yield() {
	if s := Cur; s != nil && !s.aborted {
		s.point(opRun, nil, nil)
	}
}

// WaitUntil blocks the running thread until cond holds (scheduler mode only).
//
//go:norace
func WaitUntil(cond func() bool) {
	if s := Cur; s != nil && !s.aborted {
		s.point(opCond, nil, cond)
		return
	}
	if !cond() {
		panic(LockPanic{"would block forever"})
	}
}

// ThreadID of the running thread, or -1.
//
//go:norace
func ThreadID() int {
	if s := Cur; s != nil && s.running != nil {
		return s.running.id
	}
	return -1
}

// AcquireW acquires l exclusively; reports whether it handled the request.
//
//go:norace
func AcquireW(l *LockState) bool {
	if s := Cur; s != nil {
		if s.aborted {
			l.Writer = true
			return true
		}
		s.point(opLockW, l, nil)
		l.Writer = true
		l.Owner = int32(s.running.id)
		return true
	}
	if SeqMode {
		if l.Writer || l.Readers > 0 {
			panic(LockPanic{"self-deadlock: Lock of a lock that is already held"})
		}
		l.Writer = true
		return true
	}
	return false
}

//go:norace
func TryAcquireW(l *LockState) (ok, handled bool) {
	if s := Cur; s != nil {
		if !s.aborted {
			s.point(opRun, nil, nil)
		}
	} else if !SeqMode {
		return false, false
	}
	if l.Writer || l.Readers > 0 {
		return false, true
	}
	l.Writer = true
	return true, true
}

//go:norace
func ReleaseW(l *LockState) bool {
	if Cur == nil && !SeqMode {
		return false
	}
	if !l.Writer {
		if s := Cur; s != nil && s.aborted {
			return true
		}
		panic(LockPanic{"Unlock of unlocked mutex"})
	}
	l.Writer = false
	return true
}

//go:norace
func AcquireR(l *LockState) bool {
	if s := Cur; s != nil {
		if s.aborted {
			l.Readers++
			return true
		}
		s.point(opLockR, l, nil)
		l.Readers++
		return true
	}
	if SeqMode {
		if l.Writer {
			panic(LockPanic{"self-deadlock: RLock while write-locked"})
		}
		l.Readers++
		return true
	}
	return false
}

//go:norace
func TryAcquireR(l *LockState) (ok, handled bool) {
	if s := Cur; s != nil {
		if !s.aborted {
			s.point(opRun, nil, nil)
		}
	} else if !SeqMode {
		return false, false
	}
	if l.Writer {
		return false, true
	}
	l.Readers++
	return true, true
}

//go:norace
func ReleaseR(l *LockState) bool {
	if Cur == nil && !SeqMode {
		return false
	}
	if l.Readers <= 0 {
		if s := Cur; s != nil && s.aborted {
			return true
		}
		panic(LockPanic{"RUnlock of unlocked RWMutex"})
	}
	l.Readers--
	return true
}

//go:norace
func (t *sthread) enabled() bool {
	if t.done {
		return false
	}
	switch t.op {
	case opLockW:
		return !t.lock.Writer && t.lock.Readers == 0
	case opLockR:
		return !t.lock.Writer
	case opCond:
		return t.cond()
	}
	return true
}

// RunResult of one scheduled execution.
type RunResult struct {
	Deadlock bool
	Horizon  bool
	Panics   []string // per thread, "" if none
	Points   int
	Switches int
}

const horizon = 5000

// RunThreads executes the thread bodies to completion under c.
func RunThreads(c *Ctl, fns []func()) (res RunResult) {
	s := &Sched{ctl: c, toMain: make(chan struct{})}
	for i := range fns {
		s.threads = append(s.threads, &sthread{id: i, resume: make(chan struct{})})
	}
	res.Panics = make([]string, len(fns))
	Cur = s
	for i := range fns {
		go runThread(s, s.threads[i], fns[i])
	}
	var last *sthread
	for {
		var en []*sthread
		if last != nil && last.enabled() {
			en = append(en, last)
		}
		lastEnabled := len(en) > 0
		for _, t := range s.threads {
			if t != last && t.enabled() {
				en = append(en, t)
			}
		}
		if len(en) == 0 {
			for _, t := range s.threads {
				if !t.done {
					res.Deadlock = true
				}
			}
			break
		}
		cls := uint8(Free)
		if lastEnabled {
			cls = Preempt
		}
		var k int
		func() {
			defer func() {
				if r := recover(); r != nil {
					s.unwind()
					Cur = nil
					panic(r)
				}
			}()
			k = c.Choose(len(en), cls)
		}()
		t := en[k]
		if last != nil && t != last {
			res.Switches++
		}
		last = t
		s.dispatch(t)
		res.Points++
		if c.Verbose {
			c.Logf("    [schedule] thread %d runs to its point #%d%s", t.id, t.points, doneStr(t))
		}
		h := NewHash()
		for _, t := range s.threads {
			h = h.I(int64(t.points)).I(int64(t.op)).B(t.done)
		}
		c.State(uint64(h))
		c.Trans(uint64(h.I(int64(t.id))))
		if res.Points > horizon {
			res.Horizon = true
			break
		}
	}
	if res.Deadlock || res.Horizon {
		if c.Verbose {
			for _, t := range s.threads {
				if !t.done {
					c.Logf("    thread %d is blocked at point #%d", t.id, t.points)
				}
			}
		}
		s.unwind()
	}
	Cur = nil
	for i, t := range s.threads {
		RaceAcquire(unsafe.Pointer(&t.edge))
		res.Panics[i] = t.panicV
	}
	return res
}

func doneStr(t *sthread) string {
	if t.done {
		return " (finished)"
	}
	return ""
}

//go:norace
func (s *Sched) dispatch(t *sthread) {
	s.running = t
	raceDisable()
	t.resume <- struct{}{}
	<-s.toMain
	raceEnable()
}

//go:norace
func (s *Sched) unwind() {
	s.aborted = true
	for _, t := range s.threads {
		if !t.done {
			t.abort = true
			s.dispatch(t)
		}
	}
}

//go:norace
func runThread(s *Sched, t *sthread, fn func()) {
	raceDisable()
	<-t.resume
	raceEnable()
	defer finishThread(s, t)
	if t.abort {
		return
	}
	fn()
}

//go:norace
func finishThread(s *Sched, t *sthread) {
	if r := recover(); r != nil {
		switch v := r.(type) {
		case abortSignal:
		case divergence:
			t.panicV = "divergence: " + v.msg
		default:
			t.panicV = fmt.Sprint(r)
		}
	}
	t.done = true
	RaceRelease(unsafe.Pointer(&t.edge))
	raceDisable()
	s.toMain <- struct{}{}
	raceEnable()
}

// IsControl reports whether a recovered value belongs to the explorer.
func IsControl(r interface{}) bool {
	switch r.(type) {
	case abortSignal, divergence:
		return true
	}
	return false
}
