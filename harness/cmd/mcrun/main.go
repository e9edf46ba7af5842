//go:build go1.22

// Command mcrun checks one property: it enumerates the property's units in
// worker processes, merges their statistics and reports.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)

// Prop is one property's check.
type Prop struct {
	ID    string
	Units func(tier string) []*mc.Unit
	// Judge lists the oracle categories that break this property ("*" all).
	Judge map[string]bool
	// Known maps a failure to the key of a known finding, "" if none.
	Known func(u *mc.Unit, f *mc.Fail) string
	// Bounds describes the explored space in words, per tier.
	Bounds      map[string]string
	Rule        string
	Assumptions []string
	Threads     bool                  // executions run threads (a stuck one is no verdict)
	MaxExecs    int64                 // per unit, 0 = unlimited
	Race        bool                  // needs the race build
	RaceUnits   func(u *mc.Unit) bool // the units to run under the race detector; nil: all
	Timing      bool                  // executions depend on timing or memory figures: no verdict from histories
	Serial      bool                  // units run one at a time (memory or wall-clock sensitive)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func judge(cats string) map[string]bool {
	m := map[string]bool{}
	for _, c := range strings.Fields(cats) {
		m[c] = true
	}
	return m
}

func (p *Prop) judges(f *mc.Fail) bool {
	if f.Cat == "harness" {
		return false
	}
	return p.Judge["*"] || p.Judge[f.Cat] || f.Cat == "panic" || f.Cat == "livelock"
}

type knownEntry struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

var (
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagEv      = flag.String("evidence", "", "evidence file")
	flagReplays = flag.String("replays", "", "directory for replay files")
	flagKnown   = flag.String("known", "", "known findings file")
	flagWorker  = flag.Bool("worker", false, "internal")
	flagTrace   = flag.String("trace", "", "internal: file to write the current choices to")
	flagReplay  = flag.String("replay", "", "replay file to run")
	flagSeconds = flag.Int("seconds", 0, "deadline")
	flagJobs    = flag.Int("jobs", 0, "worker processes")
	flagList    = flag.Bool("list", false, "list units")
	flagOnly    = flag.String("only", "", "only units whose name contains this")
	flagStuck   = flag.Int("stuck", 90, "seconds without progress of one execution")
	flagRace    = flag.String("racebin", "", "race build of this binary (second pass)")
	flagDoc     = flag.Bool("doc", false, "print rules and bounds of all properties as markdown")
	flagCold    = flag.Bool("coldtrace", false, "internal: keep the trace of cold executions")
	flagVerbose = flag.Bool("v", false, "print per-unit statistics")
)

func main() {
	os.Setenv("GODEBUG", "panicnil=0") // a panic with a nil value is a panic, too
	flag.Parse()
	addSweeps()
	if *flagReplay != "" {
		doReplay(*flagReplay)
		return
	}
	if *flagDoc {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			p := props[id]
			fmt.Printf("**%s.** %s.\n  Quick: %s. Thorough: %s.", id, p.Rule, p.Bounds["quick"], p.Bounds["thorough"])
			if len(p.Assumptions) > 0 {
				fmt.Printf(" Assumed: %s.", strings.Join(p.Assumptions, "; "))
			}
			fmt.Print("\n\n")
		}
		return
	}
	p := props[*flagProp]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *flagProp)
		os.Exit(3)
	}
	if *flagWorker {
		worker(p)
		return
	}
	if *flagList {
		for i, u := range p.Units(*flagTier) {
			fmt.Println(i, u.Name, u.Bounds)
		}
		return
	}
	parent(p)
}

// ---- worker ----

type reply struct {
	Unit  int       `json:"unit"`
	Stats *mc.Stats `json:"stats,omitempty"`
	Stuck []int     `json:"stuck,omitempty"`
	IsStk bool      `json:"is_stuck,omitempty"`
	Err   string    `json:"err,omitempty"`
	Race  string    `json:"race,omitempty"`
	Pts   []mc.PT   `json:"pts,omitempty"`
}

func worker(p *Prop) {
	judged = p.judges
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(2)
	units := p.Units(*flagTier)
	known := loadKnown(p.ID)
	out := bufio.NewWriter(os.Stdout)
	var outMu sync.Mutex
	send := func(r reply) {
		outMu.Lock()
		defer outMu.Unlock()
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	var execs int64
	var cur atomic.Value // func() []int
	var curUnit int64 = -1
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			n := atomic.LoadInt64(&execs) + atomic.LoadInt64(&beats)
			if n != last || atomic.LoadInt64(&curUnit) < 0 {
				last, since = n, time.Now()
				continue
			}
			if time.Since(since) > time.Duration(*flagStuck)*time.Second {
				var ch []int
				if f, ok := cur.Load().(func() []int); ok {
					ch = f()
				}
				if *flagVerbose {
					buf := make([]byte, 1<<16)
					fmt.Fprintf(os.Stderr, "stuck:\n%s\n", buf[:runtime.Stack(buf, true)])
				}
				send(reply{Unit: int(atomic.LoadInt64(&curUnit)), IsStk: true, Stuck: ch})
				os.Exit(4)
			}
		}
	}()
	var traceF *os.File
	if *flagTrace != "" {
		traceF, _ = os.Create(*flagTrace)
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<24)
	for in.Scan() {
		num, rest, _ := strings.Cut(strings.TrimSpace(in.Text()), " ")
		i, err := strconv.Atoi(num)
		if err != nil || i < 0 || i >= len(units) {
			send(reply{Unit: i, Err: "bad unit"})
			continue
		}
		u := units[i]
		knownKey := func(f *mc.Fail) string {
			if p.Known == nil {
				return ""
			}
			k := p.Known(u, f)
			if k == "" || known[k] == "" {
				return ""
			}
			return k
		}
		atomic.StoreInt64(&curUnit, int64(i))
		if u.Cold {
			var prefix []mc.PT
			if err := json.Unmarshal([]byte(rest), &prefix); rest != "" && err != nil {
				send(reply{Unit: i, Err: "bad prefix"})
				continue
			}
			st, pts := mc.RunCold(u, prefix, *flagCold, p.judges, knownKey)
			send(reply{Unit: i, Stats: &st, Pts: pts})
			continue
		}
		st := mc.Explore(u, p.MaxExecs,
			func(f *mc.Fail) bool { return p.judges(f) },
			knownKey,
			func(choices func() []int) {
				atomic.AddInt64(&execs, 1)
				cur.Store(choices)
				if traceF != nil {
					b, _ := json.Marshal(choices())
					b = append(b, '\n')
					for len(b) < 4096 {
						b = append(b, ' ')
					}
					traceF.WriteAt(b, 0)
				}
			})
		atomic.StoreInt64(&curUnit, -1)
		send(reply{Unit: i, Stats: &st})
	}
}

// ---- parent ----

type result struct {
	mu       sync.Mutex
	stats    []*mc.Stats
	viol     []violation
	notes    []string
	done     int
	skipped  int
	noAnswer int
}

type violation struct {
	Unit    string
	Idx     int
	Cat     string
	Msg     string
	Choices []int
	Trace   []string
	Repro   int
	Race    bool
}

func loadKnown(id string) map[string]string {
	m := map[string]string{}
	if *flagKnown == "" {
		return m
	}
	b, err := os.ReadFile(*flagKnown)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// known: property=<id> key=<key> <what>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 3 || f[1] != "property="+id || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		m[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
	return m
}

func workerArgs(p *Prop, extra ...string) []string {
	a := []string{"-worker", "-prop", p.ID, "-tier", *flagTier, "-known", *flagKnown, "-stuck", strconv.Itoa(*flagStuck)}
	if *flagVerbose {
		a = append(a, "-v")
	}
	return append(a, extra...)
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		// keep the head (first report) and drop the rest
		t.b = t.b[:1<<16]
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func spawn(bin string, p *Prop, extra ...string) (*proc, error) {
	c := exec.Command(bin, workerArgs(p, extra...)...)
	c.Env = append(os.Environ(), "GORACE=halt_on_error=0 atexit_sleep_ms=0 history_size=2", "GOTRACEBACK=all")
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	t := &tail{}
	c.Stderr = t
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &proc{c, in, bufio.NewReaderSize(out, 1<<20), t}, nil
}

func (w *proc) ask(i int, extra ...string) (*reply, error) {
	if _, err := fmt.Fprintln(w.in, i, strings.Join(extra, " ")); err != nil {
		return nil, err
	}
	l, err := w.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	var r reply
	if err := json.Unmarshal(l, &r); err != nil {
		return nil, err
	}
	return &r, nil
}

func (w *proc) stop() {
	w.in.Close()
	done := make(chan struct{})
	go func() { w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		w.cmd.Process.Kill()
		<-done
	}
}

func parent(p *Prop) {
	start := time.Now()
	secs := *flagSeconds
	if secs == 0 {
		secs = 240
		if *flagTier == "thorough" {
			secs = 660
		}
	}
	deadline := start.Add(time.Duration(secs) * time.Second)
	res := &result{}
	self, _ := os.Executable()
	units := p.Units(*flagTier)
	var order []int
	for i, u := range units {
		if *flagOnly == "" || strings.Contains(u.Name, *flagOnly) {
			order = append(order, i)
		}
	}
	// spread the families over the run, so that a run cut short has touched all
	sort.SliceStable(order, func(i, j int) bool {
		return uint64(mc.NewHash().S(units[order[i]].Name)) < uint64(mc.NewHash().S(units[order[j]].Name))
	})
	runPass(p, self, units, order, deadline, res, false)
	nPlain := res.done
	raceDone := 0
	if *flagRace != "" && len(res.viol) == 0 {
		raceOrder := order
		if p.RaceUnits != nil {
			var some []int
			for _, i := range order {
				if p.RaceUnits(units[i]) {
					some = append(some, i)
				}
			}
			raceOrder = some
		}
		runPass(p, *flagRace, units, raceOrder, deadline, res, true)
		raceDone = res.done - nPlain
	}
	report(p, units, order, res, start, raceDone)
}

func runPass(p *Prop, bin string, units []*mc.Unit, order []int, deadline time.Time, res *result, race bool) {
	jobs := *flagJobs
	if jobs == 0 {
		jobs = runtime.NumCPU()
		if jobs > 8 {
			jobs = 8
		}
	}
	if p.Serial {
		jobs = 1
	}
	if jobs > len(order) {
		jobs = len(order)
	}
	var next int64 = -1
	var stop int32
	var wg sync.WaitGroup
	for j := 0; j < jobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *proc
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for {
				k := int(atomic.AddInt64(&next, 1))
				if k >= len(order) || atomic.LoadInt32(&stop) != 0 {
					return
				}
				i := order[k]
				if time.Now().After(deadline) {
					res.mu.Lock()
					res.skipped++
					res.mu.Unlock()
					continue
				}
				if units[i].Cold {
					runCold(p, bin, units, i, deadline, res, race, &stop)
					continue
				}
				if w == nil {
					var err error
					if w, err = spawn(bin, p); err != nil {
						fmt.Fprintln(os.Stderr, "spawn:", err)
						os.Exit(3)
					}
				}
				timer := time.AfterFunc(time.Until(deadline)+time.Second, func() { w.cmd.Process.Kill() })
				r, err := w.ask(i)
				killed := !timer.Stop()
				if err != nil && killed {
					w.cmd.Wait()
					w = nil
					res.mu.Lock()
					res.skipped++
					res.mu.Unlock()
					continue
				}
				if err != nil || r.IsStk {
					w.cmd.Wait()
					v := confirm(p, bin, units, i, deadline, race)
					res.mu.Lock()
					if v != nil {
						res.viol = append(res.viol, *v)
						atomic.StoreInt32(&stop, 1)
					} else {
						res.noAnswer++
						res.notes = append(res.notes, fmt.Sprintf("unit %s gave no verdict (%v): %s", units[i].Name, err, head(w.err.String())))
					}
					res.mu.Unlock()
					w = nil
					continue
				}
				if r.Err != "" {
					fmt.Fprintln(os.Stderr, "worker:", r.Err)
					os.Exit(3)
				}
				res.mu.Lock()
				res.stats = append(res.stats, r.Stats)
				res.done++
				if r.Stats.FailCat != "" {
					if r.Stats.Reproduced == 5 || race && r.Stats.FailCat == "race" {
						res.viol = append(res.viol, violation{units[i].Name, i, r.Stats.FailCat, r.Stats.FailMsg, r.Stats.FailChoices, r.Stats.FailTrace, r.Stats.Reproduced, race})
						if r.Stats.FailCat == "race" {
							last := &res.viol[len(res.viol)-1]
							time.Sleep(50 * time.Millisecond)
							last.Trace = append(last.Trace, strings.Split(head(w.err.String()), "\n")...)
						}
						atomic.StoreInt32(&stop, 1)
					} else if v := confirmFresh(p, bin, units, i, deadline, race, r.Stats); v != nil {
						res.viol = append(res.viol, *v)
						atomic.StoreInt32(&stop, 1)
					} else {
						res.noAnswer++
						res.notes = append(res.notes, fmt.Sprintf("unit %s: failure %s reproduced only %d/5 times, not reported: %s", units[i].Name, r.Stats.FailCat, r.Stats.Reproduced, r.Stats.FailMsg))
					}
				}
				res.mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

// confirmFresh re-runs a unit from the start in fresh processes. A failure
// that depends on the executions before it (state kept by the package) comes
// back at the same execution each time: two runs settle it. One that depends
// on what the runtime picks (the order of a map) comes back in every run, if
// not at the same execution: four runs must all find it.
func confirmFresh(p *Prop, bin string, units []*mc.Unit, i int, deadline time.Time, race bool, st *mc.Stats) *violation {
	if p.Timing {
		return nil
	}
	note := " (depends on the executions before it in the same process: run the whole unit again)"
	runs := 2
	for n := 0; n < runs; n++ {
		w, err := spawn(bin, p)
		if err != nil {
			return nil
		}
		timer := time.AfterFunc(time.Until(deadline)+time.Second, func() { w.cmd.Process.Kill() })
		r, err := w.ask(i)
		killed := !timer.Stop()
		if err != nil || killed {
			w.cmd.Process.Kill()
			w.cmd.Wait()
			return nil
		}
		w.stop()
		if r.Stats == nil || r.Stats.FailCat != st.FailCat {
			return nil
		}
		if fmt.Sprint(r.Stats.FailChoices) != fmt.Sprint(st.FailChoices) {
			runs = 4
			note = " (not the same execution in each run, but one in every run: run the whole unit again)"
		}
	}
	return &violation{units[i].Name, i, st.FailCat, st.FailMsg + note, st.FailChoices, st.FailTrace, runs + 1, race}
}

// coldOnce performs one execution of a cold unit in a fresh process.
func coldOnce(p *Prop, bin string, i int, prefix []mc.PT, deadline time.Time, trace bool) (r *reply, stderr string, killed bool, err error) {
	var extra []string
	if trace {
		extra = append(extra, "-coldtrace")
	}
	w, err := spawn(bin, p, extra...)
	if err != nil {
		return nil, "", false, err
	}
	timer := time.AfterFunc(time.Until(deadline)+time.Second, func() { w.cmd.Process.Kill() })
	b, _ := json.Marshal(prefix)
	r, err = w.ask(i, string(b))
	killed = !timer.Stop()
	if err != nil {
		w.cmd.Wait()
	} else {
		w.stop()
	}
	return r, w.err.String(), killed, err
}

// runCold enumerates the executions of a cold unit, one process each.
func runCold(p *Prop, bin string, units []*mc.Unit, i int, deadline time.Time, res *result, race bool, stop *int32) {
	u := units[i]
	bounds := u.Bounds
	if race {
		// the detector judges order, not timing: switches at ends suffice
		bounds.Preempt = 0
	}
	sum := mc.Stats{Unit: u.Name}
	outs := map[uint64]bool{}
	var prefix []mc.PT
	note := func(format string, a ...interface{}) {
		res.mu.Lock()
		res.noAnswer++
		res.notes = append(res.notes, fmt.Sprintf(format, a...))
		res.mu.Unlock()
	}
	for {
		if atomic.LoadInt32(stop) != 0 {
			return
		}
		if time.Now().After(deadline) {
			res.mu.Lock()
			res.skipped++
			res.mu.Unlock()
			return
		}
		r, stderr, killed, err := coldOnce(p, bin, i, prefix, deadline, false)
		if killed {
			res.mu.Lock()
			res.skipped++
			res.mu.Unlock()
			return
		}
		bad := func() bool { return err != nil || r.Stats != nil && r.Stats.FailCat != "" }
		if bad() {
			// the same execution must fail again in two more fresh processes
			var ch []int
			for _, c := range prefix {
				ch = append(ch, c.C)
			}
			v := violation{Unit: u.Name, Idx: i, Choices: ch, Race: race, Repro: 1}
			for n := 0; n < 2 && bad() && !killed; n++ {
				pf := prefix
				if err == nil {
					pf = r.Pts
				}
				r, stderr, killed, err = coldOnce(p, bin, i, pf, deadline, true)
				v.Repro++
			}
			switch {
			case killed || !bad() || err == nil && r.Stats.FailCat == "":
				note("unit %s: a failing execution did not fail again in a fresh process", u.Name)
				return
			case err != nil && (stderr == "" || strings.Contains(stderr, "out of memory")):
				note("unit %s gave no verdict (%v)", u.Name, err)
				return
			case err != nil:
				v.Cat, v.Msg, v.Trace = "crash", "the process died: "+firstLine(stderr), strings.Split(head(stderr), "\n")
			default:
				v.Cat, v.Msg, v.Choices, v.Trace = r.Stats.FailCat, r.Stats.FailMsg, r.Stats.FailChoices, r.Stats.FailTrace
				if v.Cat == "race" {
					v.Trace = append(v.Trace, strings.Split(head(stderr), "\n")...)
				}
			}
			res.mu.Lock()
			res.viol = append(res.viol, v)
			res.mu.Unlock()
			atomic.StoreInt32(stop, 1)
			return
		}
		if r.IsStk {
			note("unit %s: one execution did not finish", u.Name)
			return
		}
		if r.Err != "" {
			fmt.Fprintln(os.Stderr, "worker:", r.Err)
			os.Exit(3)
		}
		s := r.Stats
		sum.Execs++
		sum.Steps += s.Steps
		sum.States += s.States
		sum.Transitions += s.Transitions
		sum.Ignored += s.Ignored
		if s.IgnoredMsg != "" {
			sum.IgnoredMsg = s.IgnoredMsg
		}
		sum.Diverged += s.Diverged
		if s.DivMsg != "" {
			sum.DivMsg = s.DivMsg
		}
		if s.MaxPts > sum.MaxPts {
			sum.MaxPts = s.MaxPts
		}
		for _, h := range s.Hashes {
			outs[h] = true
		}
		sum.Known = append(sum.Known, s.Known...)
		if prefix = mc.NextCold(r.Pts, bounds); prefix == nil {
			break
		}
	}
	sum.Outcomes = int64(len(outs))
	res.mu.Lock()
	res.stats = append(res.stats, &sum)
	res.done++
	res.mu.Unlock()
}

func head(s string) string {
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

// confirm re-runs a unit whose worker died or got stuck, alone and recording
// the choices of the running execution. Nil means no verdict.
func confirm(p *Prop, bin string, units []*mc.Unit, i int, deadline time.Time, race bool) *violation {
	if time.Now().After(deadline) {
		return nil
	}
	var last *violation
	for n := 0; n < 2; n++ {
		tf, err := os.CreateTemp("", "mcrun-trace-*")
		if err != nil {
			return nil
		}
		tf.Close()
		defer os.Remove(tf.Name())
		w, err := spawn(bin, p, "-trace", tf.Name())
		if err != nil {
			return nil
		}
		timer := time.AfterFunc(time.Until(deadline)+100*time.Second, func() { w.cmd.Process.Kill() })
		r, err := w.ask(i)
		expired := !timer.Stop()
		if expired {
			w.cmd.Wait()
			return nil
		}
		var ch []int
		b, _ := os.ReadFile(tf.Name())
		json.Unmarshal(b, &ch)
		switch {
		case err != nil:
			w.cmd.Wait()
			st := w.err.String()
			if strings.Contains(st, "out of memory") || st == "" {
				return nil // ended by the system, not by the code
			}
			last = &violation{Unit: units[i].Name, Idx: i, Cat: "crash", Msg: "the process died: " + firstLine(st), Choices: ch, Trace: strings.Split(head(st), "\n"), Repro: n + 1, Race: race}
		case r.IsStk:
			w.cmd.Wait()
			if p.Threads {
				return nil
			}
			last = &violation{Unit: units[i].Name, Idx: i, Cat: "hang", Msg: fmt.Sprintf("one execution made no progress for %d s", *flagStuck), Choices: ch, Repro: n + 1, Race: race}
		default:
			w.stop()
			if r.Stats != nil && r.Stats.FailCat != "" && r.Stats.Reproduced == 5 {
				return &violation{units[i].Name, i, r.Stats.FailCat, r.Stats.FailMsg, r.Stats.FailChoices, r.Stats.FailTrace, 5, race}
			}
			return nil
		}
	}
	return last
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Unit     string   `json:"unit"`
	Index    int      `json:"index"`
	Choices  []int    `json:"choices"`
	Category string   `json:"category"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
	Race     bool     `json:"race_build"`
	How      string   `json:"how"`
}

func report(p *Prop, units []*mc.Unit, order []int, res *result, start time.Time, raceDone int) {
	var execs, steps, states, trans, outs, ignored, diverged int64
	capped := false
	maxPts := 0
	knownKeys := map[string]bool{}
	var samples []interface{}
	sort.Slice(res.stats, func(i, j int) bool { return res.stats[i].Unit < res.stats[j].Unit })
	for _, s := range res.stats {
		execs += s.Execs
		steps += s.Steps
		states += s.States
		trans += s.Transitions
		outs += s.Outcomes
		ignored += s.Ignored
		diverged += s.Diverged
		capped = capped || s.Capped
		if s.MaxPts > maxPts {
			maxPts = s.MaxPts
		}
		for _, k := range s.Known {
			knownKeys[k] = true
		}
		if *flagVerbose {
			fmt.Printf("  %-60s execs=%d steps=%d states=%d trans=%d outcomes=%d ignored=%d %s diverged=%d %s\n", s.Unit, s.Execs, s.Steps, s.States, s.Transitions, s.Outcomes, s.Ignored, s.IgnoredMsg, s.Diverged, s.DivMsg)
		}
		if s.Diverged > 0 {
			res.notes = append(res.notes, "unit "+s.Unit+" diverged: "+s.DivMsg)
		}
		if s.Ignored > 0 {
			res.notes = append(res.notes, "unit "+s.Unit+": executions cut short by an oracle of another property: "+s.IgnoredMsg)
		}
	}
	step := len(res.stats)/4 + 1
	for i := 0; i < len(res.stats); i += step {
		s := res.stats[i]
		if len(s.Sample) > 0 {
			sm := s.Sample
			if len(sm) > 60 {
				sm = append(append([]string(nil), sm[:60]...), "...")
			}
			samples = append(samples, map[string]interface{}{"unit": s.Unit, "execution": sm})
		}
	}
	if len(samples) == 0 {
		for i := 0; i < len(res.stats) && i < 3; i++ {
			samples = append(samples, map[string]interface{}{"unit": res.stats[i].Unit, "executions": res.stats[i].Execs})
		}
	}
	for _, v := range res.viol {
		samples = append(samples, map[string]interface{}{"unit": v.Unit, "violation": v.Cat + ": " + v.Msg, "choices": v.Choices})
	}
	exhaustive := res.skipped == 0 && res.noAnswer == 0 && !capped && diverged == 0 && len(res.viol) == 0
	sort.Strings(res.notes)
	if len(res.notes) > 20 {
		res.notes = append(res.notes[:20], "...")
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := *flagTier
	cov := map[string]interface{}{
		"states":                         states,
		"transitions":                    trans,
		"traces_validated_against_impl":  execs,
		"samples":                        samples,
		"rule":                           p.Rule,
		"exhaustive":                     exhaustive,
		"bounds":                         p.Bounds[tier],
		"units_completed":                res.done,
		"units_not_reached":              res.skipped,
		"units_without_verdict":          res.noAnswer,
		"implementation_steps":           steps,
		"distinct_outcomes":              outs,
		"longest_choice_sequence":        maxPts,
		"diverged_executions":            diverged,
		"executions_cut_by_other_oracle": ignored,
		"notes":                          res.notes,
	}
	if *flagRace != "" {
		cov["units_completed_under_race_detector"] = raceDone
	}
	ev := map[string]interface{}{
		"property":    p.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       "model_checking",
		"coverage":    cov,
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(res.viol),
	}
	if *flagEv != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*flagEv), 0o755)
		if err := os.WriteFile(*flagEv, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	fmt.Printf("%s %s: %d units, %d executions, %d states, %d transitions, %d distinct outcomes, %.1f s, exhaustive=%v\n",
		p.ID, tier, res.done, execs, states, trans, outs, time.Since(start).Seconds(), exhaustive)
	for _, n := range res.notes {
		fmt.Println("  note:", head(n))
	}
	known := loadKnown(p.ID)
	var keys []string
	for k := range known {
		if knownKeys[k] {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, known[k])
	}
	if len(res.viol) == 0 {
		return
	}
	seen := map[string]bool{}
	for n, v := range res.viol {
		if seen[v.Cat] {
			continue
		}
		seen[v.Cat] = true
		path := filepath.Join(*flagReplays, fmt.Sprintf("%s-%s-%d.json", p.ID, tier, n))
		os.MkdirAll(*flagReplays, 0o755)
		rf := replayFile{p.ID, tier, v.Unit, v.Idx, v.Choices, v.Cat, v.Msg, v.Trace, v.Race, "./replay.sh " + path}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("%s: %s\n  unit %s, reproduced %d times\n", v.Cat, head(v.Msg), v.Unit, v.Repro)
		for i, l := range v.Trace {
			if i > 80 {
				fmt.Println("    ...")
				break
			}
			fmt.Println("   ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	os.Exit(1)
}

func doReplay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	p := props[rf.Property]
	if p == nil {
		os.Exit(3)
	}
	judged = p.judges
	for _, u := range p.Units(rf.Tier) {
		if u.Name != rf.Unit {
			continue
		}
		c, f, div := mc.Replay(u, rf.Choices, true)
		for _, l := range c.Note {
			fmt.Println(l)
		}
		if div != "" {
			fmt.Println("diverged:", div)
			os.Exit(3)
		}
		if f != nil {
			fmt.Printf("reproduced: %s: %s\n", f.Cat, f.Msg)
			if p.judges(f) {
				os.Exit(1)
			}
			return
		}
		fmt.Println("not reproduced: the property held in this execution")
		return
	}
	fmt.Println("unit not found")
	os.Exit(3)
}
