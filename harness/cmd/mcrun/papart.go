//go:build go1.22

package main

import (
	"fmt"
	"io"
	"strings"

	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
	rb "github.com/chronos-tachyon/morehttp/zz_verif/refbody"
)

// Two threads, each making and using a body of its own: nothing they do may
// conflict, so every result is the sequential one.

type apartKind struct {
	name string
	run  func(t int, prog []rb.Op) *mc.Fail
}

func apartKinds() []apartKind {
	var out []apartKind
	mk := func(name string, of func(t int) build) {
		out = append(out, apartKind{name, func(t int, prog []rb.Op) *mc.Fail {
			c := &mc.Ctl{NoState: true, Quiet: true}
			mc.Yield()
			x, f := of(t).make(c, env.Menu{}, false, nil)
			if f != nil {
				return f
			}
			if x.src != nil {
				x.src.Yields = true
			}
			var scratch []byte
			for _, op := range prog {
				mc.Yield()
				if op.K == rb.OReadAt || op.K == rb.OSeek {
					if !rb.CapsOf(x.hs[0])[0] {
						continue
					}
				}
				if op.K == rb.OWriteTo && !rb.CapsOf(x.hs[0])[2] {
					op.K = rb.OIOCopy
				}
				if _, f := x.step(c, op, &scratch); f != nil {
					f.Msg = fmt.Sprintf("%s: %s", x.b.name, f.Msg)
					return f
				}
			}
			mc.Yield()
			return x.drain(c, 2, &scratch, true)
		}})
	}
	at := func(b build) func(t int) build {
		return func(t int) build { b := b; b.base = int64(1000 * (t + 1)); return b }
	}
	for _, b := range []build{memB(5), strB(5), emptyB(), atB(5, 5), skB(5, -1), stB(5, -1), stB(5, 5)} {
		mk(fmt.Sprintf("%s/d=%d", b.name, b.d), at(b))
	}
	enc := func(name string, f func(t int) (body.Body, func(string) bool)) {
		out = append(out, apartKind{name, func(t int, prog []rb.Op) *mc.Fail {
			mc.Yield()
			b, ok := f(t)
			mc.Yield()
			p, err := io.ReadAll(b)
			got := string(p)
			if err != nil || !ok(got) {
				return mc.Failf("content", "%s body of thread %d reads %q, %v", name, t, head(got), err)
			}
			mc.Yield()
			if err := b.Close(); err != nil {
				return mc.Failf("close-err", "%s body of thread %d: Close: %v", name, t, err)
			}
			return nil
		}})
	}
	val := func(t int) map[string]interface{} {
		return map[string]interface{}{"t": t, "list": []string{"a", fmt.Sprint("b", t)}}
	}
	enc("json", func(t int) (body.Body, func(string) bool) {
		return body.FromJSON(val(t)), func(s string) bool { return strings.Contains(s, fmt.Sprintf(`"b%d"`, t)) }
	})
	enc("pretty json", func(t int) (body.Body, func(string) bool) {
		return body.FromPrettyJSON(val(t)), func(s string) bool { return strings.Contains(s, fmt.Sprintf(`"b%d"`, t)) }
	})
	enc("protobuf", func(t int) (body.Body, func(string) bool) {
		return body.FromProto(wrapperspb.String(fmt.Sprint("value", t))), func(s string) bool { return strings.HasSuffix(s, fmt.Sprint("value", t)) }
	})
	enc("protobuf text", func(t int) (body.Body, func(string) bool) {
		return body.FromProtoText(wrapperspb.String(fmt.Sprint("value", t)), nil), func(s string) bool { return strings.Contains(s, fmt.Sprintf(`"value%d"`, t)) }
	})
	return out
}

var apartProgs = [][]rb.Op{
	nil,
	{{K: rb.ORead, A: 1}, {K: rb.OCopy}, {K: rb.ORead, A: 9}, {K: rb.ORead, H: 1, A: 2}},
	{{K: rb.ORemain}, {K: rb.OReadAt, A: 2, B: 1}, {K: rb.OSeek, A: 1, W: 0}, {K: rb.OWriteTo, A: 3}},
	{{K: rb.OCopy}, {K: rb.OClose}, {K: rb.OCopy}, {K: rb.ORead, H: 1, A: 3}},
}

func apartUnits(tier string, encodersOnly bool) []*mc.Unit {
	var out []*mc.Unit
	kinds := apartKinds()
	if encodersOnly {
		kinds = kinds[len(kinds)-4:]
	}
	for i := range kinds {
		for j := i; j < len(kinds); j++ {
			for _, cold := range []bool{false, true} {
				i, j := i, j
				tag := ""
				if cold {
					tag = "cold/"
					if tier == "quick" && i != j && (i+j)%3 != 0 {
						continue
					}
				}
				out = append(out, &mc.Unit{Name: fmt.Sprintf("%sapart/%s+%s", tag, kinds[i].name, kinds[j].name), Cold: cold, Bounds: mc.Bounds{Preempt: pick(tier, 1, 2)}, Run: func(c *mc.Ctl) (f *mc.Fail) {
					defer guard(&f)
					var progs [2][]rb.Op
					if !cold || tier == "thorough" {
						progs[0] = apartProgs[c.Choose(len(apartProgs), mc.Free)]
						progs[1] = apartProgs[c.Choose(len(apartProgs), mc.Free)]
					} else {
						progs = [2][]rb.Op{apartProgs[1], apartProgs[2]}
					}
					return apartRun(c, [2]apartKind{kinds[i], kinds[j]}, progs)
				}})
			}
		}
	}
	return out
}

func apartRun(c *mc.Ctl, ks [2]apartKind, progs [2][]rb.Op) *mc.Fail {
	var fs [2]*mc.Fail
	var fns []func()
	for t := range ks {
		t := t
		fns = append(fns, func() { fs[t] = ks[t].run(t, progs[t]) })
	}
	what := fmt.Sprintf("two unrelated bodies (%s with %v, %s with %v), each used by one thread", ks[0].name, progs[0], ks[1].name, progs[1])
	races := mc.RaceErrors()
	res := mc.RunThreads(c, fns)
	if n := mc.RaceErrors() - races; n > 0 {
		return mc.Failf("race", "%d data race(s) reported by the race detector with %s", n, what)
	}
	if f := threadFail(res); f != nil {
		f.Msg += " with " + what
		return f
	}
	h := mc.NewHash().S(what)
	c.State(uint64(h))
	c.Trans(uint64(h.I(int64(len(res.Panics)))))
	c.Outcome(uint64(h))
	for t, f := range fs {
		if f != nil {
			f.Msg = fmt.Sprintf("%s: thread %d: %s", what, t, f.Msg)
			return f
		}
	}
	return nil
}
