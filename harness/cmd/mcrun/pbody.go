//go:build go1.22

package main

import (
	"fmt"
	"io"
	"math"

	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
	rb "github.com/chronos-tachyon/morehttp/zz_verif/refbody"
)

const blk = 65536

func pick(tier string, q, t int) int {
	if tier == "thorough" {
		return t
	}
	return q
}

func allUnits(cfgs []seqCfg) []*mc.Unit {
	var out []*mc.Unit
	for _, s := range cfgs {
		z := s
		z.depth = 0
		z.tag += "start/"
		out = append(out, z.unit())
		out = append(out, s.units()...)
	}
	return out
}

// small builds of every kind, with every relation of declared length to content
func smallBuilds(ns ...int64) []build {
	var out []build
	for _, n := range ns {
		if n == 0 {
			out = append(out, emptyB())
		}
		out = append(out, memB(n), strB(n), atB(n, n), atSeekB(n), skB(n, n), skB(n, -1), stB(n, -1), stB(n, n), stStatB(n))
		if n > 1 {
			out = append(out, atB(n, n-1), skB(n, n-1), stB(n, n-1))
		}
		out = append(out, atB(n, n+2), skB(n, n+2), stB(n, n+2))
	}
	return out
}

func isRdr(b build) bool { return b.kind == rb.FileAt || b.kind == rb.FileSk || b.kind == rb.Stream }

var seqAssume = []string{
	"sources obey the io.Reader, io.ReaderAt and io.Seeker contracts within the stated deviation menu; a source answering (0, nil) forever is outside the space",
	"argument values outside the stated alphabets are not explored; content bytes are position-dependent and otherwise opaque to the code",
	"the shim replacing package sync behaves like package sync in single-threaded use",
}

func init() {
	shortMenu := env.Menu{Short: true, JointEOF: true, Zero: true}
	errMenu := env.Menu{Err: true, PartErr: true}

	register(&Prop{ID: "B01",
		Judge: judge("content progress early-eof error-lost error-identity error-early error-invented overread sticky-error construct"),
		Units: func(tier string) []*mc.Unit {
			var cf []seqCfg
			for _, b := range smallBuilds(0, 1, 3, 5) {
				cf = append(cf, seqCfg{b: b, menu: shortMenu, bounds: mc.Bounds{Env: pick(tier, 2, 4)}, depth: pick(tier, 4, 6), maxH: 1,
					ops: alpha{reads: []int64{1, 2, 0, b.n, b.n + 1, b.n + 3}}.gen(), chunk: 1})
			}
			for _, b := range smallBuilds(4) {
				cf = append(cf, seqCfg{tag: "mixed/", b: b, menu: shortMenu, bounds: mc.Bounds{Env: pick(tier, 1, 2)}, depth: pick(tier, 3, 4), maxH: 2,
					ops: alpha{reads: []int64{1, 3, 5}, seeks: [][2]int64{{1, 0}, {-1, 1}, {0, 2}}, ats: [][2]int64{{2, 1}}, copy: true, close: true}.gen(), chunk: 3})
			}
			big := []build{}
			for _, n := range []int64{blk - 1, blk, blk + 1, 3*blk + 7} {
				big = append(big, stB(n, -1), stB(n, n), stB(n, n+blk), stB(n, n-3))
			}
			big = append(big, skB(3*blk+7, -1), atB(3*blk+7, 3*blk+7), memB(3*blk+7), skB(3*blk+7, 5*blk), atB(3*blk+7, 5*blk))
			for _, b := range big {
				cf = append(cf, seqCfg{tag: "blocks/", b: b, menu: shortMenu, bounds: mc.Bounds{Env: pick(tier, 1, 2)}, depth: pick(tier, 3, 4), maxH: 1,
					ops: alpha{reads: []int64{1, 32768, blk - 1, blk, blk + 1, 2*blk + 1}}.gen(), chunk: 50000})
			}
			// single calls with buffers of megabytes
			const mib = int64(1) << 20
			for _, b := range []build{memB(9*mib + 3), strB(9*mib + 3), atB(9*mib+3, 9*mib+3), atB(9*mib+3, 5*mib), atB(5*mib, 9*mib), skB(9*mib+3, -1), skB(9*mib+3, 9*mib+3), stB(9*mib+3, -1), stB(9*mib+3, 9*mib+3), stB(9*mib+3, 7*mib), stB(5*mib, 9*mib)} {
				cf = append(cf, seqCfg{tag: "large/", b: b, depth: pick(tier, 2, 3), maxH: 1,
					ops: alpha{reads: []int64{1, 1 << 19, mib, mib + 1, 3*mib - 1, 8 * mib, 20 * mib}}.gen(), chunk: 4*mib + 1})
			}
			out := allUnits(cf)
			// two unrelated bodies in turns
			pair := func(b build) func(m *rb.Model) []rb.Op {
				return alpha{reads: []int64{2, b.n + 1}, seeks: [][2]int64{{0, 0}}, ats: [][2]int64{{2, 1}}, copy: true, close: true}.gen()
			}
			ks := []build{memB(3), emptyB(), atB(3, 3), skB(3, -1), stB(3, -1), stB(3, 3), stB(2*blk+5, -1), skB(2*blk+5, -1)}
			for _, a := range ks {
				for _, b := range ks {
					out = append(out, pairCfg{tag: "pairs/", a: a, b: b, depth: pick(tier, 4, 5), maxH: 2, chunk: max(2, a.n/2, b.n/2), ops: pair}.units()...)
				}
			}
			return append(out, append(longUnits(tier, "B01"), farUnits(tier)...)...)
		},
		Rule:        "an execution is one sequence of reads (plus seeks, copies in the mixed family) with one choice of source answers, drained at its end; every returned byte is compared with the source's byte at the model's cursor",
		Bounds:      map[string]string{"quick": "contents 0-5 bytes: all read sequences up to 4 calls with up to 2 deviating source answers; mixed operations up to 3 calls on 2 handles; contents around 1 and 3 blocks of 64 KiB: all sequences of up to 3 reads of 1..131073 bytes with 1 deviation; contents of 5 and 9 MiB read in calls of up to 20 MiB: up to 2", "thorough": "6 reads with 4 deviations; mixed up to 4 calls with 2; block contents up to 4 reads with 2; megabytes up to 3"},
		Assumptions: seqAssume,
	})

	b02alpha := func(b build) alpha {
		a := alpha{reads: []int64{1, 2, b.n + 1}, seeks: [][2]int64{{0, 0}, {1, 0}, {b.n + 4, 0}, {-1, 1}, {0, 2}}, ats: [][2]int64{{2, 1}, {1, b.n + 1}}, copy: true, close: true, remain: true}
		return a
	}
	register(&Prop{ID: "B02",
		Judge: judge("remaining early-eof content progress error-lost error-invented"),
		Units: func(tier string) []*mc.Unit {
			var cf []seqCfg
			for _, b := range smallBuilds(0, 1, 3) {
				cf = append(cf, seqCfg{b: b, depth: pick(tier, 4, 5), maxH: 2, probe: true, ops: b02alpha(b).gen(), chunk: 2})
				if isRdr(b) && b.n == 3 {
					cf = append(cf, seqCfg{tag: "errs/", b: b, menu: errMenu, seekMenu: true, bounds: mc.Bounds{Env: pick(tier, 1, 2)}, depth: pick(tier, 4, 5), maxH: 2, probe: true, ops: alpha{reads: []int64{1, b.n + 1}, seeks: [][2]int64{{0, 0}, {-1, 2}}, ats: [][2]int64{{2, 1}}, copy: true, close: true}.gen(), chunk: 2})
					cf = append(cf, seqCfg{tag: "dev/", b: b, menu: shortMenu, bounds: mc.Bounds{Env: 1}, depth: pick(tier, 3, 4), maxH: 2, probe: true, ops: b02alpha(b).gen(), chunk: 2})
				}
				cf = append(cf, seqCfg{tag: "copies/", b: b, depth: pick(tier, 5, 6), maxH: 3, probe: true, ops: alpha{reads: []int64{1, b.n + 1}, seeks: [][2]int64{{1, 0}}, copy: true, close: true}.gen(), chunk: 2})
			}
			for _, b := range []build{stB(2*blk+5, -1), stB(2*blk+5, 2*blk+5), stB(2*blk+5, 3*blk), stB(2*blk+5, blk)} {
				cf = append(cf, seqCfg{tag: "blocks/", b: b, depth: pick(tier, 4, 5), maxH: 2, probe: true, ops: alpha{reads: []int64{1, blk, 2*blk + 1}, copy: true, close: true}.gen(), chunk: 50000})
			}
			for _, b := range hugeBuilds() {
				cf = append(cf, seqCfg{tag: "huge/", b: b, depth: pick(tier, 4, 5), maxH: 1, probe: true, noDrain: true, ops: hugeAlpha(b).gen()})
			}
			const g = int64(1) << 30
			for _, b := range []build{stB(5*g+3, 5*g+3), stStatB(9*g + 1), stB(5*g+3, -1), stB(5*g, 3*g)} {
				cf = append(cf, seqCfg{tag: "huge/", b: b, depth: pick(tier, 4, 5), maxH: 2, probe: true, noDrain: true, ops: alpha{reads: []int64{3, blk, blk + 1}, copy: true, close: true}.gen()})
			}
			const mib = int64(1) << 20
			for _, b := range []build{memB(5*mib + 3), strB(5*mib + 3), atB(5*mib+3, 5*mib+3), atB(3*mib, 5*mib), skB(5*mib+3, -1), skB(5*mib+3, 3*mib), stB(5*mib+3, -1), stB(5*mib+3, 5*mib+3), stB(5*mib+3, 3*mib)} {
				cf = append(cf, seqCfg{tag: "large/", b: b, depth: pick(tier, 3, 4), maxH: 2, probe: true,
					ops: alpha{reads: []int64{1, mib + 1, 4 * mib}, copy: true, close: true}.gen(), chunk: 3*mib + 1})
			}
			return append(allUnits(cf), longUnits(tier, "B02")...)
		},
		Rule:        "an execution is one operation history; BytesRemaining of every handle is asked after each operation and compared with the number of bytes the model says are left, then the handle is drained and the bytes delivered are counted",
		Bounds:      map[string]string{"quick": "contents 0-3 bytes with declared length absent, exact, too short, too long: all histories of up to 4 operations on 2 handles (5 on 3 handles with a smaller alphabet); one source failure in every history of up to 4; 64 KiB block contents up to 4; contents of 5 MiB up to 3; virtual contents of 5 and 9 GiB up to 4", "thorough": "one operation more in every family"},
		Assumptions: seqAssume,
	})

	register(&Prop{ID: "B03",
		Judge: judge("content progress early-eof remaining seek readat readat-contract readat-eof writeout copy closed close-err close-count sticky-error error-lost error-invented unwrap"),
		Units: func(tier string) []*mc.Unit {
			var cf []seqCfg
			for _, b := range []build{memB(3), strB(2), emptyB(), atB(3, 3), atSeekB(3), skB(3, -1), skB(3, 5), atB(3, 5), stB(3, -1), stB(3, 3), stB(3, 2), stB(3, 5), stB(0, -1), atB(0, 0), skB(0, -1)} {
				cf = append(cf, seqCfg{b: b, depth: pick(tier, 6, 7), maxH: 3, probe: true,
					ops: alpha{reads: []int64{1, b.n + 1}, seeks: [][2]int64{{1, 0}}, copy: true, close: true}.gen(), chunk: 2})
				cf = append(cf, seqCfg{tag: "wide/", b: b, depth: pick(tier, 5, 6), maxH: 2, probe: false,
					ops: alpha{reads: []int64{1, 2, b.n + 1}, seeks: [][2]int64{{0, 0}, {-1, 1}, {0, 2}}, ats: [][2]int64{{2, 0}, {3, 2}}, copy: true, close: true, wto: []int64{-1, 1}}.gen(), chunk: 2})
			}
			for _, b := range []build{stB(3*blk+7, -1), stB(3*blk+7, 3*blk+7), stB(2*blk, -1)} {
				cf = append(cf, seqCfg{tag: "blocks/", b: b, depth: pick(tier, 5, 6), maxH: 3,
					ops: alpha{reads: []int64{1, blk, blk + 1}, copy: true, close: true}.gen(), chunk: 60000})
			}
			// copies megabytes apart
			const mib = int64(1) << 20
			for _, b := range []build{stB(12*mib, -1), stB(12*mib, 12*mib)} {
				cf = append(cf, seqCfg{tag: "apart/", b: b, depth: pick(tier, 5, 6), maxH: 2,
					ops: alpha{reads: []int64{1, 5 * mib}, copy: true}.gen(), chunk: 3 * mib})
			}
			cf = append(cf, seqCfg{tag: "shortreads/", b: stB(4, -1), menu: shortMenu, bounds: mc.Bounds{Env: pick(tier, 1, 2)}, depth: pick(tier, 5, 6), maxH: 3, ops: alpha{reads: []int64{1, 2, 5}, copy: true, close: true}.gen(), chunk: 2})
			cf = append(cf, seqCfg{tag: "shortreads/", b: skB(4, -1), menu: shortMenu, bounds: mc.Bounds{Env: pick(tier, 1, 2)}, depth: pick(tier, 5, 6), maxH: 2, ops: alpha{reads: []int64{1, 2, 5}, seeks: [][2]int64{{1, 0}}, copy: true, close: true}.gen(), chunk: 2})
			return append(append(allUnits(cf), manyUnits(tier)...), append(crowdUnits(tier), churnUnits(tier)...)...)
		},
		Rule:        "an execution is one interleaved history over up to three handles; every handle has its own model cursor, every result is compared with it, and at the end every open handle is drained and compared with the source's bytes from its cursor",
		Bounds:      map[string]string{"quick": "contents 0-3 bytes, all kinds: all histories of up to 6 operations on up to 3 handles (5 with the wide alphabet on 2 handles); contents of 2-3 blocks and of 12 MiB: up to 5 operations; up to 70000 copies closed in several orders", "thorough": "one operation more in every family"},
		Assumptions: seqAssume,
	})

	register(&Prop{ID: "B04",
		Judge: judge("close-err close-count after-close unwrap closed"),
		Units: func(tier string) []*mc.Unit {
			var cf []seqCfg
			for _, b := range []build{atB(2, 2), atSeekB(2), skB(2, -1), stB(2, -1), stB(2, 2), stStatB(2), atB(2, 3), atB(0, 0), skB(0, -1), stB(0, -1)} {
				for _, ce := range []bool{false, true} {
					t := "closeok/"
					if ce {
						t = "closeerr/"
					}
					cf = append(cf, seqCfg{tag: t, b: b, closeErr: ce, depth: pick(tier, 6, 7), maxH: 3,
						ops: alpha{reads: []int64{3}, copy: true, close: true}.gen(), chunk: 2, final: closeAllThenPoke})
					cf = append(cf, seqCfg{tag: t + "wide/", b: b, closeErr: ce, depth: pick(tier, 5, 6), maxH: 2,
						ops: alpha{reads: []int64{1, 3}, seeks: [][2]int64{{1, 0}, {0, 2}}, ats: [][2]int64{{2, 0}}, copy: true, close: true, unwrap: true, closed: true, remain: true}.gen(), chunk: 2, final: closeAllThenPoke})
				}
			}
			for _, b := range []build{atNoCloseB(2, 2), skNoCloseB(2), stNoCloseB(2, -1), memB(2), emptyB()} {
				cf = append(cf, seqCfg{tag: "nocloser/", b: b, depth: pick(tier, 5, 6), maxH: 3, ops: alpha{reads: []int64{3}, copy: true, close: true, unwrap: true, closed: true}.gen(), chunk: 2, final: closeAllThenPoke})
			}
			// every shape of error from the reader's Close
			for _, b := range []build{atB(2, 2), skB(2, -1), stB(2, -1), stB(2, 2)} {
				for k := 1; k < env.WErrKinds; k++ {
					cf = append(cf, seqCfg{tag: fmt.Sprintf("closeshape%d/", k), b: b, closeErr: true, clKind: k, depth: pick(tier, 4, 5), maxH: 2,
						ops: alpha{reads: []int64{1, 3}, copy: true, close: true}.gen(), chunk: 2, final: closeAllThenPoke})
				}
			}
			// every source failure, also at the end of the stream, before the closes
			for _, b := range []build{atB(2, 2), skB(2, -1), stB(2, -1)} {
				cf = append(cf, seqCfg{tag: "faults/", b: b, closeErr: true, menu: errMenu, seekMenu: true, bounds: mc.Bounds{Env: 1}, depth: pick(tier, 5, 6), maxH: 3, ops: alpha{reads: []int64{1, 3}, seeks: [][2]int64{{0, 0}}, copy: true, close: true, unwrap: true}.gen(), chunk: 2, final: closeAllThenPoke})
			}
			return append(allUnits(cf), append(manyUnits(tier), churnUnits(tier)...)...)
		},
		Rule:        "an execution is one history of copies, closes and reads; the reader's Close count is checked after every operation, the rest of the handles is then closed in handle order, and every operation is tried once more on the closed handles",
		Bounds:      map[string]string{"quick": "2-byte and empty contents, every reader-backed kind, reader's Close succeeding and failing: all histories of up to 6 operations on up to 3 handles (5 with the wide alphabet, or with one source failure); up to 70000 copies closed in several orders", "thorough": "7 operations (6 wide)"},
		Assumptions: seqAssume,
	})

	register(&Prop{ID: "B05",
		Judge: judge("seek content early-eof progress remaining error-lost error-invented error-identity sticky-error readat"),
		Units: func(tier string) []*mc.Unit {
			var cf []seqCfg
			for _, b := range []build{memB(3), strB(3), atB(3, 3), atSeekB(3), skB(3, -1), skB(3, 3), atB(3, 2), skB(3, 2), atB(3, 5), skB(3, 5), emptyB(), atB(0, 0), skB(0, -1), memB(1)} {
				n := b.n
				seeks := [][2]int64{{0, 0}, {1, 0}, {n, 0}, {n + 1, 0}, {-1, 0}, {0, 1}, {1, 1}, {-1, 1}, {-n - 1, 1}, {0, 2}, {-1, 2}, {1, 2}, {-n - 6, 2}, {0, 3}, {0, -1}, {1 << 40, 0}, {-(1 << 40), 2}}
				cf = append(cf, seqCfg{b: b, depth: pick(tier, 4, 5), maxH: 1, probe: true, ops: alpha{reads: []int64{1, n + 1}, seeks: seeks, ats: [][2]int64{{1, 1}}}.gen(), chunk: 2})
				cf = append(cf, seqCfg{tag: "copies/", b: b, depth: pick(tier, 6, 7), maxH: 2, ops: alpha{reads: []int64{n + 1}, seeks: [][2]int64{{1, 0}, {-1, 1}, {-1, 2}, {-1, 0}}, copy: true}.gen(), chunk: 2})
			}
			for _, b := range []build{memB(3), atB(3, 3), atSeekB(3), skB(3, -1), skB(3, 3), emptyB(), atB(0, 0), skB(0, -1)} {
				cf = append(cf, seqCfg{tag: "extreme/", b: b, depth: pick(tier, 4, 5), maxH: 1, probe: true, ops: alpha{reads: []int64{1, 4}, seeks: extremeSeeks}.gen(), chunk: 2})
			}
			for _, b := range []build{skB(3, -1), atB(3, 3), skB(3, 5), atB(3, 5), skB(3, 2), atB(3, 2), atSeekB(3)} {
				cf = append(cf, seqCfg{tag: "faults/", b: b, menu: env.Menu{Err: true, PartErr: true, JointEOF: true}, seekMenu: true, bounds: mc.Bounds{Env: pick(tier, 1, 2)}, depth: pick(tier, 5, 6), maxH: 1, ops: alpha{reads: []int64{1, 4}, seeks: [][2]int64{{0, 0}, {1, 0}, {1, 1}, {-1, 2}, {-1, 0}, {0, 7}, {0, 2}, {3, 0}, {5, 0}, {6, 1}, {0, 1}}}.gen(), chunk: 2})
			}
			for _, b := range hugeBuilds() {
				cf = append(cf, seqCfg{tag: "huge/", b: b, depth: pick(tier, 4, 5), maxH: 1, probe: true, noDrain: true, ops: hugeAlpha(b).gen()})
			}
			return allUnits(cf)
		},
		Rule:        "an execution is one history of seeks, reads and copies; returned positions and refusals are compared with the model, and each handle is drained from its cursor at the end",
		Bounds:      map[string]string{"quick": "contents 0-3 bytes, every seekable kind and relation of declared to real length: all histories of up to 4 operations with 17 seek arguments (6 with 4 seek arguments on 2 handles), 5 with one source failure; virtual contents of 5 and 9 GiB: up to 4", "thorough": "one operation more in every family"},
		Assumptions: append([]string{"seek targets that overflow a 64-bit integer are outside the space"}, seqAssume...),
	})

	register(&Prop{ID: "B06",
		Judge: judge("readat readat-contract readat-eof content early-eof remaining progress seek error-lost error-invented sticky-error"),
		Units: func(tier string) []*mc.Unit {
			var cf []seqCfg
			for _, b := range []build{memB(3), strB(3), atB(3, 3), atSeekB(3), skB(3, -1), skB(3, 3), atB(3, 2), skB(3, 2), atB(3, 5), skB(3, 5), emptyB(), atB(0, 0), skB(0, -1)} {
				var ats [][2]int64
				for off := int64(-1); off <= b.n+2; off++ {
					for _, k := range []int64{0, 1, 2, b.n + 1} {
						ats = append(ats, [2]int64{k, off})
					}
				}
				cf = append(cf, seqCfg{b: b, menu: shortMenu, bounds: mc.Bounds{Env: 1}, depth: pick(tier, 3, 4), maxH: 1, probe: true, ops: alpha{reads: []int64{1, b.n + 1}, seeks: [][2]int64{{1, 0}}, ats: ats}.gen(), chunk: 2})
				cf = append(cf, seqCfg{tag: "extreme/", b: b, depth: pick(tier, 3, 4), maxH: 1, probe: true, ops: alpha{reads: []int64{1}, seeks: [][2]int64{{math.MaxInt64, 0}}, ats: extremeAts}.gen(), chunk: 2})
				cf = append(cf, seqCfg{tag: "mixed/", b: b, menu: env.Menu{Short: true, JointEOF: true, Zero: true, Err: true, PartErr: true}, seekMenu: true, bounds: mc.Bounds{Env: pick(tier, 1, 2)}, depth: pick(tier, 4, 4), maxH: 2, probe: true,
					ops: alpha{reads: []int64{1, b.n + 1}, seeks: [][2]int64{{0, 0}}, ats: [][2]int64{{2, 0}, {2, 1}, {1, b.n}}, copy: true}.gen(), chunk: 2})
			}
			for _, b := range hugeBuilds() {
				a := hugeAlpha(b)
				a.reads = []int64{2}
				a.seeks = [][2]int64{{1 << 32, 0}}
				for _, o := range []int64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, b.n - 1, b.n, b.n + 1, 1 << 62} {
					a.ats = append(a.ats, [2]int64{3, o})
				}
				cf = append(cf, seqCfg{tag: "huge/", b: b, depth: pick(tier, 3, 4), maxH: 1, probe: true, noDrain: true, ops: a.gen()})
			}
			// single calls with buffers of megabytes
			const mib = int64(1) << 20
			for _, b := range []build{memB(9*mib + 3), strB(9*mib + 3), atB(9*mib+3, 9*mib+3), atSeekB(9*mib + 3), atB(9*mib+3, 5*mib), atB(5*mib, 9*mib), skB(9*mib+3, -1), skB(9*mib+3, 7*mib), skB(5*mib, 9*mib)} {
				var ats [][2]int64
				for _, o := range []int64{0, 1, 3*mib + 5, b.n - 2*mib} {
					for _, k := range []int64{1 << 19, mib, mib + 1, 4*mib + 3, 20 * mib} {
						ats = append(ats, [2]int64{k, o})
					}
				}
				cf = append(cf, seqCfg{tag: "large/", b: b, depth: 2, maxH: 1, probe: true,
					ops: alpha{reads: []int64{mib}, ats: ats}.gen(), chunk: 4*mib + 1})
			}
			return allUnits(cf)
		},
		Rule:        "an execution is one history of random-access reads mixed with reads, seeks and copies under one choice of source answers; counts, bytes, errors and, after each call, the cursor and remaining length of every handle are compared with the model",
		Bounds:      map[string]string{"quick": "contents 0-3 bytes, every kind: all histories of up to 3 operations with every (size, offset) pair from -1 to past the end, 1 deviating source answer; up to 4 operations on 2 handles with failures; contents of 5 and 9 MiB with calls of up to 20 MiB: up to 2; virtual contents of 5 and 9 GiB up to 3", "thorough": "4 operations, 2 deviations in the mixed family"},
		Assumptions: seqAssume,
	})

	register(&Prop{ID: "B07",
		Judge: judge("content early-eof error-lost error-identity error-early error-invented sticky-error remaining progress seek readat-eof readat-contract readat writeout copy"),
		Units: func(tier string) []*mc.Unit {
			var cf []seqCfg
			for _, b := range []build{atB(3, 3), atSeekB(3), skB(3, -1), skB(3, 2), atB(3, 2), atB(3, 5), skB(3, 5), stB(3, -1), stB(3, 3), stB(3, 2), stB(3, 5), stB(0, -1), stB(0, 2)} {
				for _, persist := range []bool{false, true} {
					mn := errMenu
					mn.Persist = persist
					t := "transient/"
					if persist {
						t = "persistent/"
					}
					cf = append(cf, seqCfg{tag: t, b: b, menu: mn, seekMenu: b.kind == rb.FileSk, bounds: mc.Bounds{Env: pick(tier, 1, 2)}, depth: pick(tier, 5, 6), maxH: 2, probe: true,
						ops: alpha{reads: []int64{1, 2, b.n + 1}, seeks: [][2]int64{{0, 0}, {0, 2}}, ats: [][2]int64{{2, 1}}, copy: true, close: true}.gen(), chunk: 2})
					cf = append(cf, seqCfg{tag: t + "two/", b: b, menu: mn, seekMenu: b.kind == rb.FileSk, bounds: mc.Bounds{Env: 2}, depth: 4, maxH: 2, probe: true,
						ops: alpha{reads: []int64{1, 2, b.n + 1}, seeks: [][2]int64{{0, 0}, {0, 2}}, ats: [][2]int64{{2, 1}}, copy: true, close: true}.gen(), chunk: 2})
					cf = append(cf, seqCfg{tag: t + "3h/", b: b, menu: mn, bounds: mc.Bounds{Env: pick(tier, 1, 2)}, depth: pick(tier, 6, 7), maxH: 3, probe: true,
						ops: alpha{reads: []int64{2}, seeks: [][2]int64{{0, 0}}, copy: true, close: true}.gen(), chunk: 2})
				}
				cf = append(cf, seqCfg{tag: "iocopy/", b: b, menu: errMenu, bounds: mc.Bounds{Env: 1}, depth: 3, maxH: 2, probe: true,
					ops: alpha{reads: []int64{1}, iocp: []int64{-1, 1}, copy: true}.gen(), chunk: 2})
			}
			// failures of unusual shapes
			for kind := 1; kind < env.ErrKinds; kind++ {
				for _, b := range []build{atB(3, 3), skB(3, -1), stB(3, -1), stB(3, 3), stB(3, 5), skB(3, 5)} {
					cf = append(cf, seqCfg{tag: fmt.Sprintf("shape%d/", kind), errKind: kind, b: b, menu: errMenu, seekMenu: b.kind == rb.FileSk, bounds: mc.Bounds{Env: 1}, depth: pick(tier, 4, 5), maxH: 2, probe: true,
						ops: alpha{reads: []int64{2, b.n + 1}, seeks: [][2]int64{{0, 0}}, ats: [][2]int64{{2, 1}, {1, b.n - 1}}, iocp: []int64{-1}, copy: true}.gen(), chunk: 2})
				}
			}
			mn := env.Menu{Err: true, PartErr: true, Short: true}
			for _, b := range []build{stB(2*blk+5, -1), stB(2*blk+5, 2*blk+5), skB(2*blk+5, -1)} {
				cf = append(cf, seqCfg{tag: "blocks/", b: b, menu: mn, bounds: mc.Bounds{Env: pick(tier, 1, 2)}, depth: pick(tier, 5, 6), maxH: 2,
					ops: alpha{reads: []int64{1, blk, blk + 1}, copy: true}.gen(), chunk: 60000})
			}
			const mib = int64(1) << 20
			for _, b := range []build{atB(5*mib+3, 5*mib+3), skB(5*mib+3, -1), stB(5*mib+3, -1), stB(5*mib+3, 5*mib+3), stB(5*mib+3, 3*mib), atB(3*mib, 5*mib), skB(3*mib, 5*mib), stB(3*mib, 5*mib)} {
				cf = append(cf, seqCfg{tag: "large/", b: b, menu: errMenu, bounds: mc.Bounds{Env: 1}, depth: pick(tier, 3, 4), maxH: 2,
					ops: alpha{reads: []int64{mib + 1, 4 * mib}, seeks: [][2]int64{{2 * mib, 0}}, ats: [][2]int64{{2*mib + 1, mib}}, copy: true}.gen(), chunk: 3*mib + 1})
			}
			return allUnits(cf)
		},
		Rule:        "an execution is one history in which the source fails (alone, with partial data, in Seek, once or for good) at a chosen call; errors and bytes of every handle are compared with the model, and at the end every handle is drained with the source working again",
		Bounds:      map[string]string{"quick": "contents 0-3 bytes, every reader-backed kind and declared length: all histories of up to 5 operations on 2 handles (6 on 3 handles, smaller alphabet) with one failure at every call, up to 4 with two; block contents up to 5 operations, contents of 5 MiB up to 3", "thorough": "6 operations (7 on 3 handles) with up to two failures"},
		Assumptions: seqAssume,
	})

	register(&Prop{ID: "B14",
		Judge: judge("touch overread protocol"),
		Units: func(tier string) []*mc.Unit {
			var cf []seqCfg
			for _, b := range []build{atB(3, 3), atSeekB(3), skB(3, -1), skB(3, 3), skB(3, 2), atB(3, 2), atB(3, 5), skB(3, 5), stB(3, -1), stB(3, 3), stB(3, 2), stB(3, 5), stB(0, -1), stB(0, 2), stB(3, 0), skB(3, 0), atB(3, 0), stStatB(3)} {
				n := b.n
				cf = append(cf, seqCfg{touch: true, b: b, depth: pick(tier, 4, 5), maxH: 2,
					ops: alpha{reads: []int64{0, 1, n, n + 1}, seeks: [][2]int64{{0, 0}, {1, 0}, {n + 4, 0}, {-1, 1}, {-1, 2}, {0, 2}}, ats: [][2]int64{{2, 1}, {1, n + 1}, {0, 0}, {n + 2, 0}}, copy: true, close: true, unwrap: true, closed: true, remain: true, wto: []int64{-1, 1}, iocp: []int64{-1, 1}}.gen(), chunk: 2})
				cf = append(cf, seqCfg{tag: "copies/", touch: true, b: b, depth: pick(tier, 6, 7), maxH: 3,
					ops: alpha{reads: []int64{1, n + 1}, seeks: [][2]int64{{1, 0}}, copy: true, close: true}.gen(), chunk: 1})
				cf = append(cf, seqCfg{tag: "faults/", touch: true, b: b, menu: env.Menu{Short: true, JointEOF: true, Zero: true, Err: true, PartErr: true}, seekMenu: b.kind == rb.FileSk, bounds: mc.Bounds{Env: pick(tier, 2, 3)}, depth: pick(tier, 4, 5), maxH: 2,
					ops: alpha{reads: []int64{1, 2, n + 1}, seeks: [][2]int64{{1, 0}}, ats: [][2]int64{{2, 1}}, copy: true, iocp: []int64{-1}}.gen(), chunk: 2})
			}
			const mib = int64(1) << 20
			for _, b := range []build{stB(2*blk+5, -1), stB(2*blk+5, 2*blk+5), stB(2*blk+5, blk), stB(2*blk+5, 3*blk), stB(3*blk, -1), skB(2*blk+5, -1), skB(2*blk+5, blk+1), atB(2*blk+5, blk+1), atB(2*blk+5, 2*blk+5)} {
				cf = append(cf, seqCfg{tag: "blocks/", touch: true, b: b, menu: env.Menu{Short: true, JointEOF: true}, bounds: mc.Bounds{Env: 1}, depth: pick(tier, 4, 5), maxH: 2,
					ops: alpha{reads: []int64{1, blk - 1, blk, blk + 1}, seeks: [][2]int64{{blk - 1, 0}}, ats: [][2]int64{{blk, 3}}, iocp: []int64{-1}, copy: true, close: true}.gen(), chunk: 50000})
			}
			for _, b := range []build{stB(5*mib+3, -1), stB(5*mib+3, 3*mib+1), skB(5*mib+3, -1), skB(5*mib+3, 3*mib+1), atB(5*mib+3, 3*mib+1)} {
				cf = append(cf, seqCfg{tag: "large/", touch: true, b: b, depth: pick(tier, 3, 4), maxH: 2,
					ops: alpha{reads: []int64{1, mib + 1, 4 * mib}, seeks: [][2]int64{{2 * mib, 0}}, ats: [][2]int64{{2*mib + 1, mib}}, iocp: []int64{-1}, copy: true}.gen(), chunk: 3*mib + 1})
			}
			for _, b := range hugeBuilds() {
				cf = append(cf, seqCfg{tag: "huge/", touch: true, b: b, depth: pick(tier, 3, 4), maxH: 1, noDrain: true, ops: hugeAlpha(b).gen()})
			}
			const g = int64(1) << 30
			for _, b := range []build{stB(5*g+3, 5*g+3), stB(5*g+3, -1), stB(5*g, 3*g)} {
				cf = append(cf, seqCfg{tag: "huge/", touch: true, b: b, depth: pick(tier, 3, 4), maxH: 2, noDrain: true, ops: alpha{reads: []int64{3, blk, blk + 1}, copy: true, close: true}.gen()})
			}
			return allUnits(cf)
		},
		Rule:        "an execution is one operation history; the calls the reader receives during each operation are recorded and compared with what the operation is entitled to ask for",
		Bounds:      map[string]string{"quick": "contents 0-3 bytes, every reader-backed kind and relation of declared to real length: all histories of up to 4 operations over the full alphabet on 2 handles, up to 6 on 3 handles over a smaller one, up to 4 with two source deviations or failures; contents around 1-3 blocks of 64 KiB up to 4 with one deviation, of 5 MiB up to 3; virtual contents of 5 and 9 GiB up to 3", "thorough": "one operation more in every family, three deviations"},
		Assumptions: append([]string{"what a reader is asked while a body is being built is limited to its length: construction may seek and ask for file information"}, seqAssume...),
	})

	register(&Prop{ID: "B09",
		Judge: judge("writeout content early-eof progress remaining error-lost error-early error-invented sticky-error"),
		Units: func(tier string) []*mc.Unit {
			var cf []seqCfg
			for _, b := range append(smallBuilds(0, 1, 3), stB(3, -1)) {
				sinks := []int64{-1}
				for k := int64(0); k <= b.n; k++ {
					sinks = append(sinks, k)
				}
				cf = append(cf, seqCfg{b: b, depth: pick(tier, 5, 6), maxH: 2, probe: b.kind != rb.Stream,
					ops: alpha{reads: []int64{1, b.n + 1}, seeks: [][2]int64{{1, 0}, {0, 2}}, wto: sinks, iocp: sinks, copy: true}.gen(), chunk: 2})
				if isRdr(b) {
					cf = append(cf, seqCfg{tag: "faults/", b: b, menu: env.Menu{Short: true, JointEOF: true, Err: true, PartErr: true}, bounds: mc.Bounds{Env: pick(tier, 1, 2)}, depth: 3, maxH: 2,
						ops: alpha{reads: []int64{1}, seeks: [][2]int64{{0, 0}}, iocp: sinks, copy: true}.gen(), chunk: 2})
				}
			}
			const mib = int64(1) << 20
			for _, b := range []build{memB(3*mib + 7), strB(3*mib + 7), atB(3*mib+7, 3*mib+7)} {
				cf = append(cf, seqCfg{tag: "large/", b: b, depth: 2, maxH: 2,
					ops: alpha{reads: []int64{mib}, wto: []int64{-1, mib + 1, 3*mib + 6}, iocp: []int64{-1}, copy: true}.gen(), chunk: 2 * mib})
			}
			for shape := int64(1); shape < 2*env.ErrKinds; shape++ {
				for _, b := range []build{memB(3), strB(2), emptyB(), atB(3, 3), skB(3, -1), stB(3, -1), stB(3, 3)} {
					cf = append(cf, seqCfg{tag: fmt.Sprintf("shape%d/", shape), b: b, depth: pick(tier, 4, 5), maxH: 2, probe: b.kind != rb.Stream,
						ops: alpha{reads: []int64{b.n + 1}, seeks: [][2]int64{{1, 0}}, wto: []int64{-1, 0, 1, b.n}, iocp: []int64{-1, 0, 1, b.n}, copy: true, shape: shape}.gen(), chunk: 2})
				}
			}
			for _, b := range []build{memB(2*blk + 5), skB(2*blk+5, -1), stB(2*blk+5, -1), stB(2*blk+5, 2*blk+5), atB(2*blk+5, 2*blk+5)} {
				cf = append(cf, seqCfg{tag: "blocks/", b: b, depth: 3, maxH: 2,
					ops: alpha{reads: []int64{1, blk}, wto: []int64{-1, 1, blk}, iocp: []int64{-1}, copy: true}.gen(), chunk: 60000})
			}
			return allUnits(cf)
		},
		Rule:        "an execution is one history of reads, seeks, copies and write-outs (WriteTo and io.Copy) to writers accepting k bytes; bytes and count received by the writer, the error, and everything read afterwards are compared with the model",
		Bounds:      map[string]string{"quick": "contents 0-3 bytes, every kind: all histories of up to 5 operations on 2 handles with writers failing after every possible number of bytes; source deviations with up to 3; block contents up to 3", "thorough": "6 operations; two source deviations"},
		Assumptions: seqAssume,
	})

	register(&Prop{ID: "B10",
		Judge: judge("closed after-close close-count close-err content early-eof remaining unwrap"),
		Units: func(tier string) []*mc.Unit {
			var cf []seqCfg
			full := func(b build) alpha {
				return alpha{reads: []int64{0, 1, b.n + 1}, seeks: [][2]int64{{0, 0}, {0, 1}, {-1, 2}, {-1, 0}, {0, 9}}, ats: [][2]int64{{1, 0}, {0, 0}, {2, -1}}, copy: true, close: true, remain: true, unwrap: true, wto: []int64{-1}, iocp: []int64{-1}, closed: true}
			}
			for _, b := range []build{memB(2), strB(2), emptyB(), atB(2, 2), skB(2, -1), stB(2, -1), stB(2, 2), stStatB(2)} {
				cf = append(cf, seqCfg{b: b, depth: pick(tier, 4, 5), maxH: 2, ops: full(b).gen(), chunk: 2, final: closeAllThenPoke})
				cf = append(cf, seqCfg{tag: "narrow/", b: b, depth: pick(tier, 6, 7), maxH: 3, ops: alpha{reads: []int64{1}, copy: true, close: true, closed: true, remain: true}.gen(), chunk: 2, final: closeAllThenPoke})
			}
			c := build{"already-closed", rb.Closed, 0, 0, 0, env.Caps{}, false, 0}
			cf = append(cf, seqCfg{b: c, depth: pick(tier, 5, 6), maxH: 3, ops: full(c).gen(), chunk: 2})
			return allUnits(cf)
		},
		Rule:        "an execution is one history in which closed handles stay usable targets; every call on a closed handle is compared with the closed behaviour, calls reaching the reader after its close are recorded by the reader, and the open copies are drained at the end",
		Bounds:      map[string]string{"quick": "2-byte contents, every kind plus the predefined closed body: all histories of up to 4 operations over the full alphabet on 2 handles, up to 6 operations over read/copy/close/remaining on 3 handles", "thorough": "5 and 7 operations"},
		Assumptions: seqAssume,
	})
}

// Arguments at the ends of their ranges, none of which overflows.
var (
	extremeSeeks = [][2]int64{{1, 0}, {math.MaxInt64, 0}, {math.MaxInt64 - 1, 0}, {1 << 62, 0}, {1 << 31, 0}, {1 << 32, 0}, {math.MinInt64, 0}, {math.MinInt64, 1}, {math.MinInt64, 2}, {-(1 << 32), 2}, {1 << 32, 1}, {1 << 32, 2}, {0, 1 << 32}, {1, 1<<32 + 1}, {0, math.MinInt64}, {0, math.MaxInt64}}
	extremeAts   = [][2]int64{{2, 1}, {2, 1 << 31}, {2, 1 << 32}, {2, 1<<32 + 1}, {0, 1 << 32}, {2, 1 << 62}, {2, math.MaxInt64}, {1, math.MaxInt64 - 1}, {0, math.MaxInt64}, {2, math.MinInt64}, {0, math.MinInt64}, {2, -(1 << 32)}, {1, -(1 << 32) + 1}}
)

func hugeBuilds() []build {
	const g = int64(1) << 30
	return []build{atB(5*g+3, 5*g+3), skB(9*g+1, -1), atSeekB(9*g + 1)}
}

func hugeAlpha(b build) alpha {
	const g = int64(1) << 30
	return alpha{reads: []int64{3}, seeks: [][2]int64{{1<<31 - 1, 0}, {1 << 32, 0}, {1<<32 + 5, 0}, {b.n - 2, 0}, {b.n + 5, 0}, {1 << 32, 1}, {-(1 << 32), 1}, {-2, 2}, {-(1 << 32), 2}, {-b.n - 1, 2}}}
}

// closeAllThenPoke closes the open handles and tries every operation on closed ones.
func closeAllThenPoke(c *mc.Ctl, x *inst, scratch *[]byte) *mc.Fail {
	q := c.Quiet
	c.Quiet = true
	defer func() { c.Quiet = q }()
	for i := range x.hs {
		for _, k := range []rb.OpK{rb.OUnwrap, rb.OClose, rb.OUnwrap} {
			if x.m.Hs[i].Closed && k == rb.OClose {
				continue
			}
			if _, f := x.step(c, rb.Op{K: k, H: i}, scratch); f != nil {
				return f
			}
		}
	}
	n := len(x.hs)
	for i := 0; i < n; i++ {
		for _, op := range []rb.Op{{K: rb.ORead, A: 2}, {K: rb.OReadAt, A: 2}, {K: rb.OSeek, W: io.SeekStart}, {K: rb.ORemain}, {K: rb.OUnwrap}, {K: rb.OWriteTo, A: -1}, {K: rb.OCopy}, {K: rb.OClose}} {
			op.H = i
			if _, f := x.step(c, op, scratch); f != nil {
				return f
			}
		}
	}
	for i := n; i < len(x.hs); i++ {
		for _, op := range []rb.Op{{K: rb.ORead, A: 2}, {K: rb.OReadAt, A: 2}, {K: rb.OSeek, W: io.SeekStart}, {K: rb.ORemain}, {K: rb.OUnwrap}, {K: rb.OWriteTo, A: -1}, {K: rb.OClose}} {
			op.H = i
			if _, f := x.step(c, op, scratch); f != nil {
				return f
			}
		}
	}
	return nil
}
