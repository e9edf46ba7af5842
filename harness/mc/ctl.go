//go:build go1.22

// Package mc is a small stateless model checker: a depth-first enumerator of
// choice sequences with per-class deviation budgets (ctl.go) and a cooperative
// scheduler that turns thread interleavings into such choices (sched.go).
package mc

import "fmt"

// Choice classes. Taking alternative 0 is always free; taking another one
// costs one unit of the class's budget (class Free has no budget).
const (
	Free    = 0 // operation choice: every alternative explored
	Env     = 1 // environment deviation (short read, error, ...)
	Preempt = 2 // switching away from a runnable thread
	nClass  = 3
)

// Bounds gives the budget per class. Negative means unbounded.
type Bounds struct{ Env, Preempt int }

func (b Bounds) of(class uint8) int {
	switch class {
	case Env:
		return b.Env
	case Preempt:
		return b.Preempt
	}
	return -1
}

type pt struct {
	n, chosen int
	class     uint8
}

// Ctl drives one execution and remembers the choices made.
type Ctl struct {
	prefix []pt
	pts    []pt
	Quiet  bool // no environment deviations while set (used for draining)

	NoState    bool // record no states and transitions
	Steps      int64
	states     map[uint64]struct{}
	trans      map[uint64]struct{}
	outcomes   map[uint64]struct{}
	Note       []string // human readable trace, filled only when Verbose
	Verbose    bool
	Divergence string
	replay     []int // raw replay
	isReplay   bool
	allowShort bool
}

type divergence struct{ msg string }

// diverge gives up on the execution; it is remembered, as the code under test
// may recover from panics.
func (c *Ctl) diverge(msg string) {
	c.Divergence = msg
	panic(divergence{msg})
}

// Choose picks one of n alternatives.
func (c *Ctl) Choose(n int, class uint8) int {
	if n <= 0 {
		panic(fmt.Sprintf("mc: Choose(%d)", n))
	}
	if class == Env && c.Quiet {
		return 0
	}
	if n == 1 {
		return 0
	}
	i := len(c.pts)
	ch := 0
	if c.isReplay {
		if i < len(c.replay) {
			ch = c.replay[i]
			if ch < 0 || ch >= n {
				c.diverge(fmt.Sprintf("replay: choice %d has %d alternatives, want %d", i, n, ch))
			}
		} else {
			c.allowShort = true
		}
	} else if i < len(c.prefix) {
		p := c.prefix[i]
		if p.n != n || p.class != class {
			c.diverge(fmt.Sprintf("choice point %d changed: had %d/%d alternatives/class, now %d/%d", i, p.n, p.class, n, class))
		}
		ch = p.chosen
	}
	c.pts = append(c.pts, pt{n, ch, class})
	return ch
}

// Fresh reports whether execution has passed the replayed prefix.
func (c *Ctl) Fresh() bool { return len(c.pts) >= len(c.prefix) }

func (c *Ctl) State(h uint64) {
	if c.NoState {
		return
	}
	if c.states != nil {
		c.states[h] = struct{}{}
	}
}
func (c *Ctl) Trans(h uint64) {
	if c.NoState {
		return
	}
	c.Steps++
	if c.trans != nil {
		c.trans[h] = struct{}{}
	}
}
func (c *Ctl) Outcome(h uint64) {
	if c.outcomes != nil {
		c.outcomes[h] = struct{}{}
	}
}

// Logf adds to the readable trace of the execution (only when replaying).
func (c *Ctl) Logf(format string, a ...interface{}) {
	if c.Verbose {
		c.Note = append(c.Note, fmt.Sprintf(format, a...))
	}
}

// Choices returns the raw choice list of the execution.
func (c *Ctl) Choices() []int {
	out := make([]int, len(c.pts))
	for i, p := range c.pts {
		out[i] = p.chosen
	}
	return out
}

// Fail describes a property violation seen in one execution.
type Fail struct {
	Cat string // oracle category
	Msg string
}

func (f *Fail) Error() string { return f.Cat + ": " + f.Msg }

// Failf builds a Fail.
func Failf(cat, format string, a ...interface{}) *Fail {
	return &Fail{cat, fmt.Sprintf(format, a...)}
}

// Unit is one independent exploration.
type Unit struct {
	Name   string
	Bounds Bounds
	// Run executes the scenario once under the control of c.
	Run func(c *Ctl) *Fail
	// Cold units run every execution in a process of its own, so that each meets
	// the package state of a program that has just started.
	Cold bool
	// Once marks units with no choice points worth counting (plain enumerations
	// done inside Run); Run must count via c.Trans/State itself.
}

// Stats of a unit exploration.
type Stats struct {
	Unit        string   `json:"unit"`
	Execs       int64    `json:"execs"`
	Steps       int64    `json:"steps"`
	States      int64    `json:"states"`
	Transitions int64    `json:"transitions"`
	Outcomes    int64    `json:"outcomes"`
	Ignored     int64    `json:"ignored"` // executions stopped by an oracle this property does not judge
	IgnoredMsg  string   `json:"ignored_msg,omitempty"`
	Diverged    int64    `json:"diverged"`
	DivMsg      string   `json:"div_msg,omitempty"`
	Capped      bool     `json:"capped"`
	Known       []string `json:"known,omitempty"`
	Sample      []string `json:"sample,omitempty"`
	FailCat     string   `json:"fail_cat,omitempty"`
	FailMsg     string   `json:"fail_msg,omitempty"`
	FailChoices []int    `json:"fail_choices,omitempty"`
	FailTrace   []string `json:"fail_trace,omitempty"`
	Reproduced  int      `json:"reproduced,omitempty"`
	MaxPts      int      `json:"max_points"`
	Hashes      []uint64 `json:"hashes,omitempty"`
}

// RunOne executes the unit once. A nil *Fail with non-empty div means the
// execution diverged from its prefix.
func RunOne(u *Unit, c *Ctl) (f *Fail, div string) {
	defer func() {
		if r := recover(); r != nil {
			if d, ok := r.(divergence); ok {
				f, div = nil, d.msg
				return
			}
			panic(r)
		}
	}()
	f = u.Run(c)
	if c.Divergence != "" {
		return nil, c.Divergence
	}
	return f, ""
}

// Replay re-executes the unit with a raw choice list.
func Replay(u *Unit, choices []int, verbose bool) (*Ctl, *Fail, string) {
	c := &Ctl{isReplay: true, replay: choices, Verbose: verbose}
	f, div := RunOne(u, c)
	return c, f, div
}

// Explore enumerates every execution of the unit within its bounds.
// judge says whether a failure counts for the property being checked; known
// returns a non-empty key for a failure listed as a known finding.
func Explore(u *Unit, maxExecs int64, judge func(*Fail) bool, known func(*Fail) string, beat func(choices func() []int)) Stats {
	st := Stats{Unit: u.Name}
	states := map[uint64]struct{}{}
	trans := map[uint64]struct{}{}
	outs := map[uint64]struct{}{}
	knownSeen := map[string]bool{}
	var prefix []pt
	for {
		c := &Ctl{prefix: prefix, states: states, trans: trans, outcomes: outs}
		if cap(c.pts) == 0 {
			c.pts = make([]pt, 0, len(prefix)+16)
		}
		if beat != nil {
			pf := prefix
			beat(func() []int {
				out := make([]int, len(pf))
				for i := range pf {
					out[i] = pf[i].chosen
				}
				return out
			})
		}
		f, div := RunOne(u, c)
		st.Execs++
		st.Steps += c.Steps
		if len(c.pts) > st.MaxPts {
			st.MaxPts = len(c.pts)
		}
		if div != "" {
			st.Diverged++
			st.DivMsg = div
		} else if f != nil {
			if k := known(f); k != "" {
				if !knownSeen[k] {
					knownSeen[k] = true
					st.Known = append(st.Known, k)
				}
			} else if judge(f) {
				st.FailCat, st.FailMsg, st.FailChoices = f.Cat, f.Msg, c.Choices()
				for i := 0; i < 5; i++ {
					_, g, _ := Replay(u, st.FailChoices, false)
					if g != nil && judge(g) {
						st.Reproduced++
					}
				}
				vc, g, _ := Replay(u, st.FailChoices, true)
				st.FailTrace = vc.Note
				if g != nil {
					st.FailMsg = g.Msg
				}
				break
			} else {
				st.Ignored++
				st.IgnoredMsg = f.Error()
			}
		}
		if maxExecs > 0 && st.Execs >= maxExecs {
			st.Capped = true
			break
		}
		prefix = next(c.pts, u.Bounds)
		if prefix == nil {
			break
		}
	}
	if st.FailCat == "" && st.Execs > 0 {
		// a written-out sample: the last execution's choices re-run verbosely
		c := &Ctl{Verbose: true, prefix: prefix}
		if f, div := RunOne(u, c); f == nil && div == "" {
			st.Sample = c.Note
		}
	}
	st.States = int64(len(states))
	st.Transitions = int64(len(trans))
	st.Outcomes = int64(len(outs))
	return st
}

func next(pts []pt, b Bounds) []pt {
	// cost of the strict prefix before each index
	var cost [nClass]int
	costs := make([][nClass]int, len(pts)+1)
	for i, p := range pts {
		costs[i] = cost
		if p.chosen > 0 {
			cost[p.class]++
		}
	}
	for i := len(pts) - 1; i >= 0; i-- {
		p := pts[i]
		if p.chosen+1 >= p.n {
			continue
		}
		if lim := b.of(p.class); lim >= 0 && costs[i][p.class]+1 > lim {
			continue
		}
		out := append([]pt(nil), pts[:i+1]...)
		out[i].chosen++
		return out
	}
	return nil
}

// PT is a choice point as sent between processes.
type PT struct {
	N, C int
	K    uint8
}

// RunCold performs the single execution of a cold unit that prefix selects.
func RunCold(u *Unit, prefix []PT, verbose bool, judge func(*Fail) bool, known func(*Fail) string) (Stats, []PT) {
	st := Stats{Unit: u.Name, Execs: 1}
	c := &Ctl{states: map[uint64]struct{}{}, trans: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, Verbose: verbose}
	for _, p := range prefix {
		c.prefix = append(c.prefix, pt{p.N, p.C, p.K})
	}
	f, div := RunOne(u, c)
	st.Steps, st.MaxPts = c.Steps, len(c.pts)
	st.States, st.Transitions, st.Outcomes = int64(len(c.states)), int64(len(c.trans)), int64(len(c.outcomes))
	for h := range c.outcomes {
		st.Hashes = append(st.Hashes, h)
	}
	switch {
	case div != "":
		st.Diverged, st.DivMsg = 1, div
	case f != nil && known(f) != "":
		st.Known = []string{known(f)}
	case f != nil && judge(f):
		st.FailCat, st.FailMsg, st.FailChoices = f.Cat, f.Msg, c.Choices()
	case f != nil:
		st.Ignored, st.IgnoredMsg = 1, f.Error()
	}
	if verbose {
		st.FailTrace = c.Note
	}
	var out []PT
	for _, p := range c.pts {
		out = append(out, PT{p.n, p.chosen, p.class})
	}
	return st, out
}

// NextCold is the next execution of a cold unit, nil if there is none.
func NextCold(pts []PT, b Bounds) []PT {
	var in []pt
	for _, p := range pts {
		in = append(in, pt{p.N, p.C, p.K})
	}
	var out []PT
	for _, p := range next(in, b) {
		out = append(out, PT{p.n, p.chosen, p.class})
	}
	return out
}

// Hash helpers (FNV-1a over words).
type Hash uint64

func NewHash() Hash { return 14695981039346656037 }
func (h Hash) U(x uint64) Hash {
	for i := 0; i < 8; i++ {
		h = (h ^ Hash(x&0xff)) * 1099511628211
		x >>= 8
	}
	return h
}
func (h Hash) I(x int64) Hash { return h.U(uint64(x)) }
func (h Hash) B(x bool) Hash {
	if x {
		return (h ^ 1) * 1099511628211
	}
	return (h ^ 2) * 1099511628211
}
func (h Hash) S(s string) Hash {
	for i := 0; i < len(s); i++ {
		h = (h ^ Hash(s[i])) * 1099511628211
	}
	return (h ^ 0xff) * 1099511628211
}
