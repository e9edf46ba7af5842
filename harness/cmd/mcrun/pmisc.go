//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"testing/fstest"
	"time"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/internal/mockreader"
	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
	rb "github.com/chronos-tachyon/morehttp/zz_verif/refbody"
)

func init() {
	register(&Prop{ID: "B08", Judge: judge("*"), Units: b08units,
		Rule:        "an execution is one construction from a reader with a chosen interface set, declared length, file mode, file size, start position and at most the allowed failures of construction calls, followed by a capability check and a full read-out (reads, seek, random access) compared with the content",
		Bounds:      map[string]string{"quick": "12 interface sets x 6 declared lengths x 5 file modes x 4 file sizes x 2 start positions x contents of 0 and 3 bytes x failure of each construction call, complete; real files, pipes, devices, in-memory file systems, strings, buffers and bodies as readers", "thorough": "the same, with contents of 0, 1, 3 and 65537 bytes and read-out histories of 2 operations"},
		Assumptions: []string{"file information of a regular file states its real length unless the unit says otherwise"}})
	register(&Prop{ID: "B11", Timing: true, Judge: judge("memory content progress early-eof"), Units: b11units, Serial: true,
		Rule:        "an execution is one history of 4 MiB reads, copies and closes; after every operation the live heap is measured (collection forced) and compared with what the open copies still need plus 1.5 MiB",
		Bounds:      map[string]string{"quick": "stream bodies of unknown and of declared length: all histories of up to 5 operations on up to 3 handles; in-memory bodies: up to 4", "thorough": "up to 6 operations (5 in memory)"},
		Assumptions: []string{"the garbage collector frees unreachable 4 MiB buffers when forced twice; 1.5 MiB covers everything else that is live", "a buffer is kept until the next fetch from the source even if every copy has passed it, as the property allows"}})
	register(&Prop{ID: "B12", Judge: judge("*"), Units: b12units, Race: true,
		RaceUnits: func(u *mc.Unit) bool {
			return strings.Contains(u.Name, "apart/") || strings.HasPrefix(u.Name, "threads/")
		},
		Rule:        "an execution is one sequence of constructor calls with values from the grammar; all bodies made are read back at the end (copied, sought and written out too) and decoded, and compared with the value given",
		Bounds:      map[string]string{"quick": "every JSON value of depth up to 2 over 9 leaves (arrays and objects of up to 2 members), compact and pretty; all sequences of up to 3 constructor calls over 14 constructor/value pairs; values whose encoding builds other bodies or fails; two goroutines encoding at once with every interleaving at encoder calls, for every pair of encoders, also as the first thing a process does; these under the race detector, too", "thorough": "sequences of up to 4; depth 2 with arrays and objects of up to 3 members"},
		Assumptions: []string{"encoding/json and the protobuf library decode what they encode"}})
	register(&Prop{ID: "B13", Judge: judge("differ"), Units: b13units,
		Rule:        "an execution is one operation history run in lock-step on a body of every kind over the same content; after each operation the results of every kind are compared with the in-memory body's",
		Bounds:      map[string]string{"quick": "contents of 0-4 bytes, 12 kinds and relations of declared length plus 8 readers of the standard library: all histories of up to 4 operations over the wide alphabet and 5 over a narrower one on up to 2 handles, 6 on 3 handles; declared lengths shorter than the source; contents of 511-4097 bytes and around 1, 2 and 3 blocks of 64 KiB: up to 3; content of 3 MiB: up to 2", "thorough": "contents of 0-5 bytes; one operation more in every family but the 511-4097-byte one"},
		Assumptions: seqAssume})
	register(&Prop{ID: "M01", Judge: judge("*"), Units: m01units, Race: true, RaceUnits: func(u *mc.Unit) bool { return strings.HasPrefix(u.Name, "conc/") },
		Rule:        "an execution is one script and one sequence of calls; results, delivered bytes, consumption of the script and the panic of the first mismatching call are compared with the script",
		Bounds:      map[string]string{"quick": "every script of up to 3 expectations over 17 and every sequence of up to 4 calls over 17, on the mock and through the full wrapper; every wrapper x every call; every pair of scripted and actual call over a grid of about 600 (sizes up to 65537, extreme offsets and whence values) x 9 ways; 2 threads x 3 and 3 threads x 2 equal calls on one mock, up to 3 preemptions, also under the race detector", "thorough": "scripts of up to 4; 4 preemptions"},
		Assumptions: []string{"calls after the first refused one are not judged"}})
}

// ---- B08 ----

type b08case struct {
	caps    env.Caps
	decl    int64
	n       int64
	size    int64
	mode    fs.FileMode
	pre     int64
	statBad bool
}

func b08units(tier string) []*mc.Unit {
	var capsList []env.Caps
	for i := 0; i < 16; i++ {
		c := env.Caps{At: i&1 != 0, Seek: i&2 != 0, Stat: i&4 != 0, Close: i&8 != 0}
		if c.Stat && !c.Close {
			continue
		}
		capsList = append(capsList, c)
	}
	ns := []int64{0, 3}
	if tier == "thorough" {
		ns = []int64{0, 1, 3, blk + 1}
	}
	var out []*mc.Unit
	for _, caps := range capsList {
		caps := caps
		for _, n := range ns {
			n := n
			out = append(out, &mc.Unit{Name: fmt.Sprintf("%v/n=%d", caps, n), Bounds: mc.Bounds{Env: 1}, Run: func(c *mc.Ctl) (f *mc.Fail) {
				mc.SeqMode = true
				defer func() { mc.SeqMode = false }()
				defer guard(&f)
				decls := []int64{-1, 0, n, n + 2, 1, -7}
				d := decls[c.Choose(len(decls), mc.Free)]
				modes := []fs.FileMode{0o444, fs.ModeNamedPipe, fs.ModeDevice | fs.ModeCharDevice, fs.ModeSocket, fs.ModeIrregular}
				mode, size, pre := modes[0], n, int64(0)
				if caps.Stat {
					mode = modes[c.Choose(len(modes), mc.Free)]
					sizes := []int64{n, 0, n + 2, 1}
					size = sizes[c.Choose(len(sizes), mc.Free)]
				}
				if caps.Seek && n > 1 {
					pre = int64(c.Choose(2, mc.Free)) * 2
				}
				viaLen := c.Choose(2, mc.Free) == 0 || d != -1
				return b08run(c, b08case{caps: caps, decl: d, n: n, size: size, mode: mode, pre: pre}, viaLen, tier)
			}})
		}
	}
	for _, k := range []string{"file0", "file3", "file70000", "file-at-offset", "pipe", "devnull", "mapfs", "strings.Reader", "bytes.Buffer", "body", "body-seek", "section", "nil"} {
		k := k
		out = append(out, &mc.Unit{Name: "real/" + k, Run: func(c *mc.Ctl) (f *mc.Fail) { defer guard(&f); return b08real(c, k) }})
	}
	return out
}

func b08run(c *mc.Ctl, k b08case, viaLen bool, tier string) *mc.Fail {
	src := &env.Src{Ctl: c, N: k.n, SizeVal: k.size, Mode: k.mode, Pos: k.pre, MaxPos: k.pre, SeekMenu: true}
	if k.caps.Stat && c.Choose(2, mc.Env) == 1 {
		src.StatErr = &env.InjErr{ID: "stat"}
	}
	r := src.Reader(k.caps)
	var b body.Body
	var err error
	if viaLen {
		b, err = body.FromReaderAndLength(r, k.decl)
	} else {
		b, err = body.FromReader(r)
	}
	what := fmt.Sprintf("FromReaderAndLength(%v, %d) with mode %v size %d content %d start %d", k.caps, k.decl, k.mode, k.size, k.n, k.pre)
	c.Logf("%s -> %T, %v", what, b, err)
	nc := src.Total - int64(src.NSeek) - int64(src.NStat)
	if nc != 0 {
		return mc.Failf("consumes", "%s made %d read or close calls on the reader", what, nc)
	}
	if src.Bad != nil {
		return src.Bad
	}
	var want []error
	want = append(want, src.OpErrs...)
	if src.NStat > 0 && src.StatErr != nil {
		want = append(want, src.StatErr)
	}
	if len(want) > 0 {
		if err == nil || b != nil {
			return mc.Failf("error", "%s: a construction call failed with %v, got %T, %v", what, want, b, err)
		}
		if !errors.Is(err, want[0]) {
			return mc.Failf("error", "%s: error %v does not wrap %v", what, err, want[0])
		}
		return nil
	}
	if err != nil || b == nil {
		return mc.Failf("error", "%s: got %T, %v though no call failed", what, b, err)
	}
	// expected length
	md := int64(-1)
	switch {
	case k.decl >= 0:
		md = k.decl
	case k.caps.Stat && k.mode.IsRegular():
		md = k.size
	case k.caps.Seek:
		md = k.n
	}
	kind := rb.Stream
	if k.caps.At && md >= 0 {
		kind = rb.FileAt
	} else if k.caps.Seek && md >= 0 {
		kind = rb.FileSk
	}
	if kind == rb.Stream && k.pre > 0 {
		return mc.Failf("harness", "seekable reader not treated as such")
	}
	if rem := b.BytesRemaining(); rem != md {
		return mc.Failf("length", "%s: BytesRemaining is %d, want %d", what, rem, md)
	}
	got := rb.CapsOf(b)
	if (k.caps.At && (k.caps.Seek || k.caps.Stat && (k.mode.IsRegular() || k.decl >= 0)) || k.caps.Seek) && (!got[0] || !got[1]) {
		return mc.Failf("caps", "%s: body offers ReaderAt/Seeker/WriterTo=%v", what, got)
	}
	src.SeekMenu = false
	x := &inst{b: build{caps: k.caps, kind: kind, n: k.n, d: md}, src: src, m: rb.New(kind, k.n, md)}
	x.m.HasRdr, x.m.Rdr = true, r
	x.hs = []body.Body{b}
	var scratch []byte
	if _, f := x.step(c, rb.Op{K: rb.OUnwrap}, &scratch); f != nil {
		return f
	}
	ops := alpha{reads: []int64{1, k.n + 1}, seeks: [][2]int64{{0, 0}, {1, 0}, {-1, 2}}, ats: [][2]int64{{2, 0}, {1, 1}}, copy: true}.gen()
	depth := 1
	if tier == "thorough" {
		depth = 2
	}
	for i := 0; i < depth; i++ {
		o := ops(x.m)
		ch := c.Choose(len(o)+1, mc.Free)
		if ch == 0 {
			break
		}
		if _, f := x.step(c, o[ch-1], &scratch); f != nil {
			return f
		}
	}
	c.Outcome(uint64(mc.NewHash().I(md).I(int64(kind)).I(k.n)))
	return x.drain(c, max(2, k.n/3), &scratch, true)
}

func b08real(c *mc.Ctl, k string) *mc.Fail {
	dir, err := os.MkdirTemp("", "mcrun-b08-")
	if err != nil {
		return mc.Failf("harness", "%v", err)
	}
	defer os.RemoveAll(dir)
	content := func(n int) []byte { return env.Bytes(int64(n)) }
	file := func(n int) (*os.File, *mc.Fail) {
		p := filepath.Join(dir, "f")
		if err := os.WriteFile(p, content(n), 0o600); err != nil {
			return nil, mc.Failf("harness", "%v", err)
		}
		f, err := os.Open(p)
		if err != nil {
			return nil, mc.Failf("harness", "%v", err)
		}
		return f, nil
	}
	var r io.Reader
	var want []byte
	wantRem := int64(-2)
	caps := false
	mayFail := false
	same := false
	switch k {
	case "file0", "file3", "file70000", "file-at-offset":
		n := map[string]int{"file0": 0, "file3": 3, "file70000": 70000, "file-at-offset": 5}[k]
		f, fail := file(n)
		if fail != nil {
			return fail
		}
		defer f.Close()
		if k == "file-at-offset" {
			f.Seek(2, io.SeekStart)
		}
		r, want, wantRem, caps = f, content(n), int64(n), true
	case "pipe":
		pr, pw, err := os.Pipe()
		if err != nil {
			return mc.Failf("harness", "%v", err)
		}
		defer pr.Close()
		pw.Write([]byte("through a pipe"))
		pw.Close()
		r, want, mayFail = pr, []byte("through a pipe"), true
	case "devnull":
		f, err := os.Open("/dev/null")
		if err != nil {
			return nil
		}
		defer f.Close()
		r, want, mayFail = f, []byte{}, true
	case "mapfs":
		m := fstest.MapFS{"x": &fstest.MapFile{Data: content(9), Mode: 0o444}}
		f, err := m.Open("x")
		if err != nil {
			return mc.Failf("harness", "%v", err)
		}
		r, want, wantRem, caps = f, content(9), 9, true
	case "strings.Reader":
		s := strings.NewReader(string(content(7)))
		s.Seek(3, io.SeekStart)
		r, want, wantRem, caps = s, content(7), 7, true
	case "bytes.Buffer":
		r, want, wantRem = bytes.NewBuffer(content(7)), content(7), -1
	case "section":
		r, want, wantRem, caps = io.NewSectionReader(bytes.NewReader(content(20)), 0, 11), content(11), 11, true
	case "body":
		r, want, wantRem, same = body.FromString("abc"), []byte("abc"), 3, true
	case "body-seek":
		b := body.FromBytes(content(6))
		b.(io.Seeker).Seek(4, io.SeekStart)
		r, want, wantRem, same = b, content(6)[4:], 2, true
	case "nil":
		panicked := func() (p bool) {
			defer func() { p = recover() != nil }()
			body.FromReader(nil)
			return
		}()
		_ = panicked
		return nil
	}
	b, err := body.FromReader(r)
	c.Logf("FromReader(%T) -> %T, %v", r, b, err)
	c.State(uint64(mc.NewHash().S(k)))
	if err != nil {
		if mayFail && b == nil {
			return nil
		}
		return mc.Failf("error", "FromReader(%s) failed: %v", k, err)
	}
	if same && io.Reader(b) != r {
		return mc.Failf("same", "FromReader of a body returned %T %p, want the same body", b, b)
	}
	if wantRem >= -1 && b.BytesRemaining() != wantRem {
		return mc.Failf("length", "FromReader(%s): BytesRemaining %d, want %d", k, b.BytesRemaining(), wantRem)
	}
	if g := rb.CapsOf(b); caps && (!g[0] || !g[1]) {
		return mc.Failf("caps", "FromReader(%s): body offers ReaderAt/Seeker/WriterTo=%v", k, g)
	}
	b2, err := b.Copy()
	if err != nil {
		return mc.Failf("error", "FromReader(%s).Copy: %v", k, err)
	}
	for i, x := range []body.Body{b, b2} {
		got, err := io.ReadAll(x)
		if err != nil || !bytes.Equal(got, want) {
			return mc.Failf("content", "FromReader(%s): handle %d delivered %d bytes, %v; want the %d bytes of the content", k, i, len(got), err, len(want))
		}
		x.Close()
	}
	return nil
}

// ---- B11 ----

const mib = 1 << 20

type zeroSrc struct {
	n, pos int64
	mark   byte
}

func (z *zeroSrc) Read(p []byte) (int, error) {
	k := int64(len(p))
	if k > z.n-z.pos {
		k = z.n - z.pos
	}
	if k == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	for i := int64(0); i < k; i += 4096 {
		p[i] = byte((z.pos + i) >> 12)
	}
	z.pos += k
	return int(k), nil
}

func live() int64 {
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

var b11buf = make([]byte, 4*mib)

func b11units(tier string) []*mc.Unit {
	var out []*mc.Unit
	depth := pick(tier, 5, 6)
	for _, declared := range []bool{false, true} {
		for first := 0; first < 3; first++ {
			declared, first := declared, first
			out = append(out, &mc.Unit{Name: fmt.Sprintf("stream/declared=%v/first=%d", declared, first), Run: func(c *mc.Ctl) (f *mc.Fail) {
				defer guard(&f)
				src := &zeroSrc{n: 64 * mib}
				d := int64(-1)
				if declared {
					d = src.n
				}
				base := live()
				b, err := body.FromReaderAndLength(struct{ io.Reader }{src}, d)
				if err != nil {
					return mc.Failf("harness", "%v", err)
				}
				hs := []body.Body{b}
				pos := []int64{0}
				open := []bool{true}
				kept := int64(0) // what may be retained since the last fetch
				for i := 0; i < depth; i++ {
					type op struct{ h, k int }
					var ops []op
					nopen := 0
					for h := range hs {
						if open[h] {
							nopen++
							ops = append(ops, op{h, 0})
							if len(hs) < 3 {
								ops = append(ops, op{h, 1})
							}
							ops = append(ops, op{h, 2})
						}
					}
					if len(ops) == 0 {
						break
					}
					k := first
					if i > 0 {
						k = c.Choose(len(ops), mc.Free)
					}
					if k >= len(ops) {
						return nil
					}
					o := ops[k]
					switch o.k {
					case 0:
						before := src.pos
						lo := int64(1) << 60
						for h := range hs {
							if open[h] && pos[h] < lo {
								lo = pos[h]
							}
						}
						n, err := hs[o.h].Read(b11buf)
						c.Logf("h%d.Read(4 MiB) -> %d, %v", o.h, n, err)
						if n != len(b11buf) || err != nil {
							return mc.Failf("progress", "h%d.Read(4 MiB) at %d returned %d, %v", o.h, pos[o.h], n, err)
						}
						for j := int64(0); j < int64(n); j += 4096 {
							if b11buf[j] != byte((pos[o.h]+j)>>12) {
								return mc.Failf("content", "h%d.Read at %d returned wrong byte at +%d", o.h, pos[o.h], j)
							}
						}
						pos[o.h] += int64(n)
						if src.pos != before {
							kept = src.pos - lo
						}
					case 1:
						nb, err := hs[o.h].Copy()
						c.Logf("h%d.Copy() -> h%d, %v", o.h, len(hs), err)
						if err != nil {
							return mc.Failf("copy", "%v", err)
						}
						hs, pos, open = append(hs, nb), append(pos, pos[o.h]), append(open, true)
					case 2:
						err := hs[o.h].Close()
						c.Logf("h%d.Close() -> %v", o.h, err)
						open[o.h] = false
						nopen--
						if nopen == 0 {
							kept = 0
						}
					}
					use := live() - base
					if use > kept+3*mib/2 {
						use = live() - base
					}
					c.Logf("    live heap %+d KiB, needed %d KiB", use/1024, kept/1024)
					if use > kept+3*mib/2 {
						return mc.Failf("memory", "after h%d.%s with positions %v (open %v) the body keeps %d KiB; only %d KiB were needed at the last fetch", o.h, []string{"Read", "Copy", "Close"}[o.k], pos, open, use/1024, kept/1024)
					}
					hh := mc.NewHash().I(kept)
					for h := range hs {
						hh = hh.I(pos[h]).B(open[h])
					}
					c.State(uint64(hh))
					c.Trans(uint64(hh.I(int64(o.h)).I(int64(o.k))))
				}
				runtime.KeepAlive(hs)
				c.Outcome(uint64(mc.NewHash().I(kept)))
				return nil
			}})
		}
	}
	md := pick(tier, 4, 5)
	for _, str := range []bool{false, true} {
		str := str
		out = append(out, &mc.Unit{Name: fmt.Sprintf("memory/string=%v", str), Run: func(c *mc.Ctl) (f *mc.Fail) {
			defer guard(&f)
			base := live()
			var b body.Body
			if str {
				b = body.FromString(string(make([]byte, 4*mib)))
			} else {
				b = body.FromBytes(make([]byte, 4*mib))
			}
			hs, open := []body.Body{b}, []bool{true}
			for i := 0; i < md; i++ {
				type op struct{ h, k int }
				var ops []op
				for h := range hs {
					if open[h] {
						ops = append(ops, op{h, 0}, op{h, 2})
						if len(hs) < 3 {
							ops = append(ops, op{h, 1})
						}
					}
				}
				if len(ops) == 0 {
					break
				}
				o := ops[c.Choose(len(ops), mc.Free)]
				switch o.k {
				case 0:
					hs[o.h].Read(b11buf[:mib])
				case 1:
					nb, err := hs[o.h].Copy()
					if err != nil {
						return mc.Failf("copy", "%v", err)
					}
					hs, open = append(hs, nb), append(open, true)
				case 2:
					hs[o.h].Close()
					open[o.h] = false
				}
				c.Logf("h%d.%s", o.h, []string{"Read(1 MiB)", "Copy()", "Close()"}[o.k])
				need := int64(0)
				for h := range open {
					if open[h] {
						need = 4 * mib
					}
				}
				use := live() - base
				if use > need+3*mib/2 {
					use = live() - base
				}
				if use > need+3*mib/2 {
					return mc.Failf("memory", "in-memory body with open=%v keeps %d KiB, needs %d KiB", open, use/1024, need/1024)
				}
				hh := mc.NewHash().I(need)
				for h := range open {
					hh = hh.B(open[h])
				}
				c.State(uint64(hh))
				c.Trans(uint64(hh.I(int64(o.h)).I(int64(o.k))))
			}
			runtime.KeepAlive(hs)
			return nil
		}})
	}
	return out
}

// ---- B12 ----

func jsonLeaves() []interface{} {
	return []interface{}{nil, true, -1.5, float64(1 << 40), "", "a\"\\/b\n\t", "é漢😀", "<a href='x'>&amp;</a>", "\u2028 end"}
}

func jsonValues(width int) []interface{} {
	leaves := jsonLeaves()
	lvl1 := append([]interface{}(nil), leaves...)
	lvl1 = append(lvl1, []interface{}{}, map[string]interface{}{})
	for _, a := range leaves {
		lvl1 = append(lvl1, []interface{}{a}, map[string]interface{}{"k<&": a})
		for _, b := range leaves {
			lvl1 = append(lvl1, []interface{}{a, b}, map[string]interface{}{"k": a, "é": b})
		}
	}
	out := append([]interface{}(nil), lvl1...)
	for i, a := range lvl1 {
		out = append(out, []interface{}{a}, map[string]interface{}{"": a})
		if width > 2 {
			for j := i % 3; j < len(lvl1); j += 3 {
				out = append(out, []interface{}{a, lvl1[j]}, map[string]interface{}{"x": a, "y": lvl1[j]})
			}
			out = append(out, []interface{}{a, a, a})
		} else {
			for j := i % 17; j < len(lvl1); j += 17 {
				out = append(out, []interface{}{a, lvl1[j]}, map[string]interface{}{"x": a, "y": lvl1[j]})
			}
		}
	}
	return out
}

func readBody(b body.Body) ([]byte, *mc.Fail) {
	rem := b.BytesRemaining()
	c2, err := b.Copy()
	if err != nil {
		return nil, mc.Failf("body", "Copy: %v", err)
	}
	got, err := io.ReadAll(struct{ io.Reader }{b})
	if err != nil {
		return nil, mc.Failf("body", "ReadAll: %v", err)
	}
	if rem != int64(len(got)) {
		return nil, mc.Failf("body", "BytesRemaining said %d, body had %d bytes", rem, len(got))
	}
	cp := rb.CapsOf(b)
	if cp != [3]bool{true, true, true} {
		return nil, mc.Failf("body", "body offers ReaderAt/Seeker/WriterTo=%v", cp)
	}
	var w bytes.Buffer
	if n, err := io.Copy(&w, c2); err != nil || n != rem || !bytes.Equal(w.Bytes(), got) {
		return nil, mc.Failf("body", "io.Copy of a copy: %d, %v, %q; want %q", n, err, w.Bytes(), got)
	}
	if b.Close() != nil || c2.Close() != nil {
		return nil, mc.Failf("body", "Close failed")
	}
	return got, nil
}

func decodeNum(p []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(p))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("data after the value: %v", err)
	}
	return v, nil
}

func brief(p []byte) []byte { return p[:min(len(p), 300)] }

func checkJSON(got []byte, v interface{}, pretty bool) *mc.Fail {
	ref, err := json.Marshal(v)
	if err != nil {
		return mc.Failf("harness", "reference encoding of %#v: %v", v, err)
	}
	want, err := decodeNum(ref)
	if err != nil {
		return mc.Failf("harness", "reference decoding of %q: %v", brief(ref), err)
	}
	back, err := decodeNum(got)
	if err != nil {
		return mc.Failf("json", "body %q does not decode: %v (want %q)", brief(got), err, brief(ref))
	}
	if !reflect.DeepEqual(back, want) {
		return mc.Failf("json", "body %q decodes to something else than %q", brief(got), brief(ref))
	}
	var plain bytes.Buffer
	e := json.NewEncoder(&plain)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return mc.Failf("harness", "reference encoding of %#v: %v", v, err)
	}
	for _, esc := range []string{`\u003c`, `\u003e`, `\u0026`} {
		if bytes.Contains(got, []byte(esc)) && !bytes.Contains(plain.Bytes(), []byte(esc)) {
			return mc.Failf("json", "body %q escapes HTML characters", brief(got))
		}
	}
	if pretty {
		if !bytes.HasSuffix(got, []byte("\r\n")) {
			return mc.Failf("json", "pretty body %q does not end with CRLF", brief(got))
		}
		for i, ch := range got {
			if ch == '\n' && (i == 0 || got[i-1] != '\r') {
				return mc.Failf("json", "pretty body %q has a bare LF", brief(got))
			}
			if ch == '\r' && (i+1 >= len(got) || got[i+1] != '\n') {
				return mc.Failf("json", "pretty body %q has a bare CR", brief(got))
			}
		}
	} else if bytes.Contains(bytes.TrimRight(got, "\r\n"), []byte("\n")) {
		return mc.Failf("json", "compact body %q spans lines", brief(got))
	}
	return nil
}

type jsonRec struct {
	A    int                `json:"a"`
	B    *string            `json:"b,omitempty"`
	C    map[int]string     `json:"c"`
	D    []byte             `json:"d"`
	Skip string             `json:"-"`
	E    json.RawMessage    `json:"e,omitempty"`
	F    map[string]jsonRec `json:"f,omitempty"`
	G    int64              `json:"g,string"`
}

type textKey struct{ s string }

func (k textKey) MarshalText() ([]byte, error) { return []byte("<" + k.s + ">"), nil }

type ptrMarshal struct{ s string }

func (p *ptrMarshal) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]string{"ptr": p.s})
}

// typed values: everything package json treats differently.
func typedValues() []interface{} {
	str := "b<&>"
	rec := jsonRec{A: -1, B: &str, C: map[int]string{3: "x", -4: "é"}, D: []byte("\x00\xff raw"), Skip: "no", E: json.RawMessage(`{"z" : [1 , 2],
 "y":"<" }`), G: math.MinInt64}
	var nilPtr *jsonRec
	var nilMap map[string]int
	var nilSlice []int
	deep := interface{}("bottom")
	for i := 0; i < 300; i++ {
		if i%2 == 0 {
			deep = []interface{}{deep}
		} else {
			deep = map[string]interface{}{"d": deep}
		}
	}
	wide := map[string]interface{}{}
	for i := 0; i < 500; i++ {
		wide[fmt.Sprintf("k%d", i)] = i
	}
	out := []interface{}{
		rec, &rec, []jsonRec{rec, {}}, map[string]*jsonRec{"r": &rec, "n": nil}, nilPtr, nilMap, nilSlice,
		int64(math.MaxInt64), int64(math.MinInt64), uint64(math.MaxUint64), int8(-128), float32(0.1), 1e300, 1e-300, 1e21, 1e20, -0.000001, math.MaxFloat64, math.SmallestNonzeroFloat64,
		json.Number("123456789012345678901234567890.5e-3"), json.RawMessage(`  [ 1,  {"a":"\n" , "b" : null } ]  `), json.RawMessage("null"), json.RawMessage(`"\u003c\u2028 literal"`),
		[]byte("bytes\x00\xff"), []byte{}, [3]int{1, 2, 3}, map[textKey]int{{"k"}: 1}, &ptrMarshal{"p"}, map[string]int{"z": 1, "a": 2, "": 3},
		deep, wide, struct{}{}, struct{ X, Y interface{} }{1, "2"}, true, false, "",
		"\x00\x01\x1f\x7f", "line1\nline2\r\nline3\r", "\u2028\u2029", "\\u003c \\\\u0026 \\n \\", "\"quoted\" 'single' `back`", "</script><!-- ]]>", "  indented\n  text  ", "\ufeff bom", "\U0010ffff", "{\"not\":\"json\"}", ",", ":", "[]", "{}", "\r\n", "\n", "\t",
		map[string]interface{}{"\n\r": "\r\n", "\\": "\"", "<k>": []string{"<v>"}},
	}
	for _, n := range []int{10, 62, 63, 64, 65, 127, 128, 509, 510, 511, 512, 513, 1022, 1024, 4094, 4096, 4097, 32768, 65533, 65534, 65535, 65536, 65537, 70000, 1 << 20} {
		out = append(out, strings.Repeat("x", n), strings.Repeat("é\n", n/3), []interface{}{strings.Repeat("<", n/2), n})
	}
	return out
}

// values that cannot be encoded
func badValues() []interface{} {
	type cyc struct{ P interface{} }
	x := &cyc{}
	x.P = x
	return []interface{}{make(chan int), func() {}, math.NaN(), math.Inf(1), complex(1, 2), map[string]interface{}{"ok": strings.Repeat("long ", 100), "zz": make(chan int)}, []interface{}{1, 2, math.Inf(-1)},
		json.RawMessage(`{"broken`), json.Number("1x"), nestJSON{fail: true}, x, map[bool]int{true: 1}, panicJSON{}}
}

type panicJSON struct{}

func (panicJSON) MarshalJSON() ([]byte, error) { panic("marshaler panics") }

func protoValues() []proto.Message {
	st, _ := structpb.NewStruct(map[string]interface{}{"a": 1.5, "é": []interface{}{"x", nil, true, map[string]interface{}{"<": "&"}}, "": ""})
	big, _ := structpb.NewStruct(map[string]interface{}{"k": strings.Repeat("long 漢", 9000)})
	lst, _ := structpb.NewList([]interface{}{1.0, "a\nb", nil, false})
	an, _ := anypb.New(wrapperspb.String("in any"))
	return []proto.Message{st, big, lst, an, structpb.NewNullValue(), wrapperspb.String(""), wrapperspb.String("w <&> é\r\n\x00\""), wrapperspb.Bool(false), wrapperspb.Bool(true), wrapperspb.Int64(math.MinInt64), wrapperspb.UInt64(math.MaxUint64),
		wrapperspb.Double(math.Inf(-1)), wrapperspb.Float(1.5), wrapperspb.Bytes([]byte{0, 255, 10}), wrapperspb.Bytes(bytes.Repeat([]byte{7}, 70000)), durationpb.New(-123456789), &emptypb.Empty{}, timestamppb.New(time.Unix(1, 5)),
		&fieldmaskpb.FieldMask{Paths: []string{"a.b", "c"}},
		&descriptorpb.UninterpretedOption_NamePart{NamePart: proto.String("n"), IsExtension: proto.Bool(false)}}
}

func badProtos() []proto.Message {
	return []proto.Message{wrapperspb.String("bad \xff utf8"), &descriptorpb.UninterpretedOption_NamePart{}, &structpb.Struct{Fields: map[string]*structpb.Value{"ok": structpb.NewStringValue("\xc3\x28")}}}
}

// refused runs mk, which must panic rather than return a body.
func refused(what string, mk func() body.Body) (f *mc.Fail) {
	defer func() {
		if r := recover(); r != nil {
			if mc.IsControl(r) {
				panic(r)
			}
			f = nil
		}
	}()
	b := mk()
	return mc.Failf("refused", "%s cannot be encoded, but a body (%T) was made", what, b)
}

func b12more(tier string) []*mc.Unit {
	var out []*mc.Unit
	unit := func(name string, n int, run func(c *mc.Ctl, i int) *mc.Fail) {
		out = append(out, &mc.Unit{Name: name, Run: func(c *mc.Ctl) (f *mc.Fail) {
			defer guard(&f)
			i := c.Choose(n, mc.Free)
			h := mc.NewHash().S(name).I(int64(i))
			c.State(uint64(h))
			c.Trans(uint64(h))
			c.Outcome(uint64(h))
			nestErr = nil
			if f := run(c, i); f != nil {
				return f
			}
			if f, ok := nestErr.(*mc.Fail); ok && f != nil {
				return f
			}
			return nil
		}})
	}
	js := func(v interface{}, pretty bool) body.Body {
		if pretty {
			return body.FromPrettyJSON(v)
		}
		return body.FromJSON(v)
	}
	// any ordered pair of typed values, the first body read after the second was made
	tv := typedValues()
	// the second of a pair: every 7th value, and thorough all
	var second []int
	for j := range tv {
		if tier == "thorough" || j%7 == 0 {
			second = append(second, j)
		}
	}
	const parts = 8
	for part := 0; part < parts; part++ {
		part := part
		unit(fmt.Sprintf("typed/%d", part), (len(tv)+parts-1-part)/parts, func(c *mc.Ctl, i int) *mc.Fail {
			i = i*parts + part
			pretty := c.Choose(2, mc.Free) == 1
			j := c.Choose(len(second)+1, mc.Free) - 1
			a := js(tv[i], pretty)
			var b body.Body
			if j >= 0 {
				j = second[j]
				b = js(tv[j], !pretty)
			}
			got, f := readBody(a)
			if f == nil {
				f = checkJSON(got, tv[i], pretty)
			}
			if f != nil || j < 0 {
				return f
			}
			got, f = readBody(b)
			if f == nil {
				f = checkJSON(got, tv[j], !pretty)
			}
			return f
		})
	}
	bad := badValues()
	unit("refused/json", len(bad), func(c *mc.Ctl, i int) *mc.Fail {
		pretty := c.Choose(2, mc.Free) == 1
		times := c.Choose(3, mc.Free)
		k := c.Choose(3, mc.Free)
		before := js([]interface{}{"before", k}, !pretty)
		for t := 0; t <= times; t++ {
			if f := refused(fmt.Sprintf("%T", bad[i]), func() body.Body { return js(bad[i], pretty) }); f != nil {
				return f
			}
		}
		after := tv[[]int{0, len(tv) - 1, len(tv) - 2}[k]]
		b := js(after, pretty)
		got, f := readBody(b)
		if f == nil {
			f = checkJSON(got, after, pretty)
		}
		if f != nil {
			return f
		}
		if got, f = readBody(before); f == nil {
			f = checkJSON(got, []interface{}{"before", k}, !pretty)
		}
		return f
	})
	opts := []*prototext.MarshalOptions{nil, {}, {Multiline: true}, {Multiline: true, Indent: "\t"}, {EmitASCII: true}, {EmitUnknown: true}, {AllowPartial: true}}
	var given []prototext.MarshalOptions // as the caller left them
	for _, o := range opts {
		if o == nil {
			o = &prototext.MarshalOptions{}
		}
		given = append(given, *o)
	}
	enc := func(m proto.Message, o int) body.Body {
		if o == 0 {
			return body.FromProto(m)
		}
		return body.FromProtoText(m, opts[o-1])
	}
	dec := func(got []byte, m proto.Message, o int) *mc.Fail {
		for i, p := range opts {
			if p != nil && *p != given[i] {
				return mc.Failf("proto", "the caller's options %+v became %+v", given[i], *p)
			}
		}
		back := m.ProtoReflect().New().Interface()
		var err error
		if o == 0 {
			err = proto.Unmarshal(got, back)
		} else {
			err = prototext.Unmarshal(got, back)
		}
		if err != nil || !proto.Equal(m, back) {
			return mc.Failf("proto", "body %q (encoding %d of %T) decodes to another message, error %v", brief(got), o, m, err)
		}
		if o == 5 {
			for _, ch := range got {
				if ch >= 0x80 {
					return mc.Failf("proto", "EmitASCII body %q has other bytes", brief(got))
				}
			}
		}
		if o == 1 && bytes.Count(got, []byte(":")) > 1 && !bytes.Contains(bytes.TrimRight(got, "\n"), []byte("\n")) {
			return mc.Failf("proto", "text body %q made without options is not multi-line", brief(got))
		}
		return nil
	}
	pv := protoValues()
	unit("protos", len(pv), func(c *mc.Ctl, i int) *mc.Fail {
		o := c.Choose(len(opts)+1, mc.Free)
		j := c.Choose(len(pv)+1, mc.Free) - 1
		o2 := 0
		if j >= 0 {
			o2 = c.Choose(3, mc.Free)
		}
		m := proto.Clone(pv[i])
		a := enc(m, o)
		proto.Reset(m) // the caller goes on using its message
		var b body.Body
		if j >= 0 {
			b = enc(pv[j], o2)
		}
		got, f := readBody(a)
		if f == nil {
			f = dec(got, pv[i], o)
		}
		if f != nil || j < 0 {
			return f
		}
		if got, f = readBody(b); f == nil {
			f = dec(got, pv[j], o2)
		}
		return f
	})
	bp := badProtos()
	unit("refused/proto", len(bp), func(c *mc.Ctl, i int) *mc.Fail {
		o := c.Choose(3, mc.Free)
		if i == 0 && o > 0 || i == 2 && o > 0 {
			// the text form may refuse or escape; it must not lie
			var b body.Body
			func() {
				defer func() { recover() }()
				b = enc(bp[i], o)
			}()
			if b == nil {
				return nil
			}
			got, f := readBody(b)
			if f != nil {
				return f
			}
			return dec(got, bp[i], o)
		}
		return refused(fmt.Sprintf("%T", bp[i]), func() body.Body { return enc(bp[i], o) })
	})
	// raw bytes: every length up to 300 and around powers of two, also as part of a larger array
	var lens []int64
	for n := int64(0); n <= 300; n++ {
		lens = append(lens, n)
	}
	for _, n := range []int64{512, 1024, 4096, 8192, 32768, 65536, 1 << 17, 1 << 20} {
		lens = append(lens, n-1, n, n+1)
	}
	unit("raw", len(lens), func(c *mc.Ctl, i int) *mc.Fail {
		n := lens[i]
		off := []int64{0, 1, 1000}[c.Choose(3, mc.Free)]
		all := env.BytesAt(off, n+20)
		var b body.Body
		switch c.Choose(3, mc.Free) {
		case 0:
			b = body.FromBytes(all[:n])
		case 1:
			b = body.FromBytes(all[:n:n])
		case 2:
			b = body.FromString(string(all[:n]))
			for j := range all {
				all[j] = 0
			}
		}
		other := body.FromString("another body made afterwards")
		defer other.Close()
		got, f := readBody(b)
		if f != nil {
			return f
		}
		if int64(len(got)) != n || !env.Equal(got, off) {
			return mc.Failf("bytes", "body of %d bytes delivered %d bytes %q", n, len(got), brief(got))
		}
		return nil
	})
	return out
}

type nestJSON struct {
	depth int
	fail  bool
	yield bool
	tag   string
}

var nestErr error

func (n nestJSON) MarshalJSON() ([]byte, error) {
	if n.yield {
		mc.Yield()
	}
	if n.fail {
		return nil, errors.New("cannot encode")
	}
	if n.depth > 0 {
		in := nestJSON{depth: n.depth - 1, tag: n.tag}
		got, f := readBody(body.FromJSON(in))
		if f == nil {
			f = checkJSON(got, in.plain(), false)
		}
		if f != nil {
			nestErr = f
		}
	}
	if n.yield {
		mc.Yield()
	}
	return json.Marshal(n.plain())
}

func (n nestJSON) plain() interface{} {
	return map[string]interface{}{"depth": float64(n.depth), "tag": n.tag}
}

type maker struct {
	name string
	mk   func() body.Body
	chk  func(got []byte) *mc.Fail
}

func makers() []maker {
	exact := func(want string) func([]byte) *mc.Fail {
		return func(got []byte) *mc.Fail {
			if string(got) != want {
				return mc.Failf("bytes", "body is %q, want %q", got, want)
			}
			return nil
		}
	}
	js := func(v interface{}, pretty bool) maker {
		name := fmt.Sprintf("JSON(%v)", v)
		if pretty {
			name = "Pretty" + name
		}
		return maker{name, func() body.Body {
			if pretty {
				return body.FromPrettyJSON(v)
			}
			return body.FromJSON(v)
		}, func(got []byte) *mc.Fail {
			w := v
			if n, ok := v.(nestJSON); ok {
				w = n.plain()
			}
			return checkJSON(got, w, pretty)
		}}
	}
	pb := func(m proto.Message, text bool, o *prototext.MarshalOptions) maker {
		return maker{fmt.Sprintf("proto(%T,%v,%v)", m, text, o != nil), func() body.Body {
			if text {
				return body.FromProtoText(m, o)
			}
			return body.FromProto(m)
		}, func(got []byte) *mc.Fail {
			back := m.ProtoReflect().New().Interface()
			var err error
			if text {
				err = prototext.Unmarshal(got, back)
			} else {
				err = proto.Unmarshal(got, back)
			}
			if err != nil || !proto.Equal(m, back) {
				return mc.Failf("proto", "body %q decodes to %v, %v; want %v", got, back, err, m)
			}
			return nil
		}}
	}
	st, _ := structpb.NewStruct(map[string]interface{}{"a": 1.5, "é": []interface{}{"x", nil, true}})
	long := strings.Repeat("long text 漢 ", 60)
	// a value the caller changes after building the body
	mut := map[string]interface{}{"k": "before"}
	mutBytes := []interface{}{}
	_ = mutBytes
	return []maker{
		js("first", false),
		js(map[string]interface{}{"a": []interface{}{1.0, "x"}}, false),
		js([]interface{}{"p", map[string]interface{}{"q": nil}}, true),
		js(long, true),
		js(long+long, false),
		js("s", true),
		{"string", func() body.Body { return body.FromString("exact \r\n\x00 bytes") }, exact("exact \r\n\x00 bytes")},
		{"bytes", func() body.Body { return body.FromBytes([]byte("raw\xff")) }, exact("raw\xff")},
		{"emptystring", func() body.Body { return body.FromString("") }, exact("")},
		pb(st, false, nil),
		pb(st, true, nil),
		pb(wrapperspb.String("w <&> é"), true, &prototext.MarshalOptions{}),
		pb(durationpb.New(123456789), false, nil),
		js(nestJSON{depth: 2, tag: "nest"}, false),
		{"mutated", func() body.Body {
			mut["k"] = "before"
			b := body.FromJSON(mut)
			mut["k"] = "after, and much longer than before"
			return b
		}, func(got []byte) *mc.Fail { return checkJSON(got, map[string]interface{}{"k": "before"}, false) }},
		{"unencodable", func() (b body.Body) {
			defer func() {
				if r := recover(); r == nil {
					nestErr = mc.Failf("refused", "FromJSON of an unencodable value did not panic")
				}
				b = body.FromString("x")
			}()
			return body.FromJSON(nestJSON{fail: true})
		}, exact("x")},
	}
}

func b12units(tier string) []*mc.Unit {
	var out []*mc.Unit
	vals := jsonValues(pick(tier, 2, 3))
	const parts = 8
	for p := 0; p < parts; p++ {
		p := p
		out = append(out, &mc.Unit{Name: fmt.Sprintf("values/%d", p), Run: func(c *mc.Ctl) (f *mc.Fail) {
			defer guard(&f)
			per := (len(vals) + parts - 1) / parts
			lo, hi := p*per, (p+1)*per
			if hi > len(vals) {
				hi = len(vals)
			}
			v := vals[lo+c.Choose(hi-lo, mc.Free)]
			pretty := c.Choose(2, mc.Free) == 1
			var b body.Body
			if pretty {
				b = body.FromPrettyJSON(v)
			} else {
				b = body.FromJSON(v)
			}
			got, f := readBody(b)
			if f != nil {
				return f
			}
			c.Logf("value %#v pretty=%v -> %q", v, pretty, got)
			h := mc.NewHash().S(string(got))
			c.State(uint64(h))
			c.Trans(uint64(h.B(pretty)))
			c.Outcome(uint64(h))
			return checkJSON(got, v, pretty)
		}})
	}
	ms := makers()
	depth := pick(tier, 3, 4)
	for first := range ms {
		first := first
		out = append(out, &mc.Unit{Name: fmt.Sprintf("sequence/%d", first), Run: func(c *mc.Ctl) (f *mc.Fail) {
			defer guard(&f)
			ms := makers()
			nestErr = nil
			var bs []body.Body
			var idx []int
			h := mc.NewHash()
			for i := 0; i < depth; i++ {
				k := first
				if i > 0 {
					k = c.Choose(len(ms)+1, mc.Free) - 1
					if k < 0 {
						break
					}
				}
				bs, idx = append(bs, ms[k].mk()), append(idx, k)
				c.Logf("make %s", ms[k].name)
				h = h.I(int64(k))
				c.State(uint64(h))
				c.Trans(uint64(h))
			}
			for i := range bs {
				got, f := readBody(bs[i])
				if f == nil {
					f = ms[idx[i]].chk(got)
				}
				if f != nil {
					f.Msg = fmt.Sprintf("body %d (%s): %s", i, ms[idx[i]].name, f.Msg)
					return f
				}
			}
			if f, ok := nestErr.(*mc.Fail); ok && f != nil {
				return f
			}
			return nil
		}})
	}
	for _, prettyA := range []bool{false, true} {
		for _, same := range []bool{false, true} {
			prettyA, same := prettyA, same
			out = append(out, &mc.Unit{Name: fmt.Sprintf("threads/pretty=%v/same=%v", prettyA, same), Bounds: mc.Bounds{Preempt: pick(tier, 3, 5)}, Run: func(c *mc.Ctl) (f *mc.Fail) {
				defer guard(&f)
				vals := []nestJSON{{yield: true, tag: "one"}, {yield: true, tag: "the other value, longer"}, {yield: true, tag: "third"}}
				var got [3][]byte
				var ff [3]*mc.Fail
				var fns []func()
				for i := range vals {
					i := i
					pretty := prettyA && (i == 0 || same)
					fns = append(fns, func() {
						var b body.Body
						if pretty {
							b = body.FromPrettyJSON([]interface{}{vals[i], vals[i]})
						} else {
							b = body.FromJSON([]interface{}{vals[i], vals[i]})
						}
						mc.Yield()
						got[i], ff[i] = readBody(b)
						if ff[i] == nil {
							ff[i] = checkJSON(got[i], []interface{}{vals[i].plain(), vals[i].plain()}, pretty)
						}
					})
				}
				if tier == "quick" {
					fns = fns[:2]
				}
				res := mc.RunThreads(c, fns)
				if f := threadFail(res); f != nil {
					return f
				}
				for i := range fns {
					if ff[i] != nil {
						return ff[i]
					}
				}
				return nil
			}})
		}
	}
	return append(append(out, b12more(tier)...), apartUnits(tier, true)...)
}

// threadFail reports deadlocks and panics of a scheduled execution.
func threadFail(res mc.RunResult) *mc.Fail {
	for i, p := range res.Panics {
		if p != "" && !strings.HasPrefix(p, "divergence:") {
			return mc.Failf("panic", "thread %d panicked: %s", i, p)
		}
		if p != "" {
			return mc.Failf("harness", "%s", p)
		}
	}
	if res.Deadlock {
		return mc.Failf("deadlock", "no thread can run, but not all are finished")
	}
	if res.Horizon {
		return mc.Failf("livelock", "execution exceeded the horizon")
	}
	return nil
}

// ---- B13 ----

func b13units(tier string) []*mc.Unit {
	var out []*mc.Unit
	mk := func(n, cut int64, depth, handles int, a alpha, tag string) {
		probe := rb.New(rb.FileAt, n, n)
		nops := len(a.gen()(probe))
		for first := 0; first < nops; first++ {
			first := first
			out = append(out, &mc.Unit{Name: fmt.Sprintf("%sn=%d/depth=%d#%d", tag, n, depth, first), Run: func(c *mc.Ctl) (f *mc.Fail) {
				mc.SeqMode = true
				defer func() { mc.SeqMode = false }()
				defer guard(&f)
				return b13run(c, n, cut, depth, handles, a, first)
			}})
		}
	}
	maxN := int64(pick(tier, 4, 5))
	for n := int64(0); n <= maxN; n++ {
		a := alpha{reads: []int64{0, 1, 2, n + 1}, seeks: [][2]int64{{0, 0}, {1, 0}, {-1, 1}, {0, 2}, {-2, 2}, {-1, 0}, {0, 9}, {n + 3, 0}, {n + 3, 1}, {2, 2}}, ats: [][2]int64{{2, 0}, {1, n}, {0, 1}, {1, -1}}, copy: true, close: true, remain: true, closed: true}
		mk(n, 0, pick(tier, 4, 5), 2, a, "wide/")
		b := alpha{reads: []int64{1, n + 1}, seeks: [][2]int64{{1, 0}, {-1, 2}, {n, 1}}, ats: [][2]int64{{2, 1}}, copy: true, close: true, remain: true, closed: true}
		mk(n, 0, pick(tier, 5, 6), 2, b, "")
		t := alpha{reads: []int64{1, n + 1}, seeks: [][2]int64{{1, 0}}, copy: true, close: true, remain: true}
		mk(n, 0, pick(tier, 6, 7), 3, t, "three/")
		// the source holds more than the declared length
		mk(n, 3, pick(tier, 4, 5), 2, b, "cut/")
	}
	for _, n := range []int64{511, 512, 513, 4095, 4096, 4097, blk - 1, blk, blk + 1, blk + 3, 2 * blk, 3*blk + 17} {
		if n < blk {
			mk(n, 0, 3, 2, alpha{reads: []int64{1, n - 1, n, n + 1}, seeks: [][2]int64{{n - 1, 0}, {n, 0}, {-1, 2}}, ats: [][2]int64{{5, n - 1}, {n, 0}, {n, 1}}, copy: true, close: true, remain: true}, "sizes/")
			continue
		}
		mk(n, 0, pick(tier, 3, 4), 2, alpha{reads: []int64{1, blk - 1, blk, blk + 1, n + 1}, seeks: [][2]int64{{blk - 1, 0}, {-1, 2}, {blk, 1}}, ats: [][2]int64{{5, blk - 1}, {blk + 1, 0}, {n, 1}}, copy: true, close: true, remain: true}, "block/")
	}
	const mib = int64(1) << 20
	for _, n := range []int64{3*mib + 5} {
		mk(n, 0, pick(tier, 2, 3), 2, alpha{reads: []int64{mib + 1, n, 16 * mib}, seeks: [][2]int64{{mib, 0}, {-1, 2}}, ats: [][2]int64{{mib + 1, 1}, {n, 0}, {n, 1}}, copy: true}, "large/")
	}
	return out
}

// realBodies are bodies over content other packages provide readers for.
func realBodies(data []byte) (names []string, hs []body.Body) {
	add := func(name string, b body.Body, err error) {
		if err != nil {
			panic(err)
		}
		names, hs = append(names, name), append(hs, b)
	}
	of := func(name string, r io.Reader) {
		b, err := body.FromReader(r)
		add(name, b, err)
	}
	of("bytes.Reader", bytes.NewReader(data))
	of("strings.Reader", strings.NewReader(string(data)))
	of("section reader", io.NewSectionReader(bytes.NewReader(append(append([]byte("before"), data...), "after"...)), 6, int64(len(data))))
	fl, err := fstest.MapFS{"f": {Data: data}}.Open("f")
	if err != nil {
		panic(err)
	}
	of("file of fstest.MapFS", fl)
	b, err := body.FromReaderAndLength(bytes.NewBuffer(append([]byte(nil), data...)), int64(len(data)))
	add("bytes.Buffer", b, err)
	b, err = body.FromReaderAndLength(bufio.NewReaderSize(bytes.NewReader(data), 16), int64(len(data)))
	add("bufio.Reader", b, err)
	b, err = body.FromReaderAndLength(io.MultiReader(bytes.NewReader(data[:len(data)/2]), bytes.NewReader(data[len(data)/2:])), int64(len(data)))
	add("io.MultiReader", b, err)
	b, err = body.FromReaderAndLength(io.LimitReader(io.MultiReader(bytes.NewReader(data), strings.NewReader("more")), int64(len(data))), int64(len(data)))
	add("io.LimitReader", b, err)
	return
}

func class(err error) string {
	switch {
	case err == nil:
		return "nil"
	case err == io.EOF:
		return "EOF"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	case errors.As(err, new(body.UnknownWhenceSeekError)):
		return "whence"
	case errors.As(err, new(body.NegativeStartOffsetSeekError)):
		return "negative start"
	case errors.As(err, new(body.NegativeComputedOffsetSeekError)):
		return "negative position"
	}
	return "refused"
}

func b13run(c *mc.Ctl, n, cut int64, depth, handles int, a alpha, first int) *mc.Fail {
	builds := []build{memB(n), strB(n), atB(n, n), atSeekB(n), atNoCloseB(n, n), skB(n, n), skB(n, -1), skNoCloseB(n), stB(n, n), stNoCloseB(n, n), stStatB(n), stB(n, -1)}
	if cut > 0 {
		builds = []build{memB(n), strB(n), atB(n+cut, n), atNoCloseB(n+1, n), skB(n+cut, n), skB(n+1, n), stB(n+cut, n), stB(n+1, n), stNoCloseB(n+cut, n)}
	}
	if n == 0 {
		builds = append(builds, emptyB())
	}
	type one struct {
		b   build
		hs  []body.Body
		unk bool
	}
	var xs []*one
	for _, b := range builds {
		in, f := b.make(nil, env.Menu{}, false, nil)
		if f != nil {
			return f
		}
		xs = append(xs, &one{b, in.hs, b.kind == rb.Stream && b.md < 0})
	}
	if cut == 0 {
		names, hs := realBodies(env.Bytes(n))
		for i := range names {
			xs = append(xs, &one{build{name: names[i]}, []body.Body{hs[i]}, false})
		}
	}
	m := rb.New(rb.FileAt, n, n) // alphabet only
	gen := a.gen()
	bufs := make([][]byte, len(xs))
	eofSeen := map[int]bool{}
	for i := 0; i < depth; i++ {
		ops := gen(m)
		if len(m.Hs) >= handles {
			ops = without(ops, rb.OCopy)
		}
		k := first
		if i > 0 {
			k = c.Choose(len(ops)+1, mc.Free) - 1
			if k < 0 {
				break
			}
		}
		if k >= len(ops) {
			return nil
		}
		op := ops[k]
		var ref rb.Obs
		var refClass string
		for j, x := range xs {
			if x.hs == nil {
				continue
			}
			o := rb.Do(x.hs[op.H], op, &bufs[j], nil)
			if o.Panic != "" {
				return mc.Failf("panic", "%v on %s panicked: %s", op, x.b.name, o.Panic)
			}
			if o.Skip {
				// a kind that cannot do this operation leaves the comparison
				if m.Hs[op.H].Closed {
					continue
				}
				x.hs = nil
				continue
			}
			if op.K == rb.OCopy {
				if o.New == nil {
					return mc.Failf("differ", "%v on %s returned no body (%v)", op, x.b.name, o.Err)
				}
				x.hs = append(x.hs, o.New)
			}
			cl := class(o.Err)
			if j == 0 {
				ref, refClass = o, cl
				c.Logf("%v -> %d, %s", op, o.N, cl)
				continue
			}
			if op.K == rb.ORemain && x.unk && o.N == -1 && !eofSeen[op.H] {
				continue
			}
			if o.N != ref.N || cl != refClass || op.K != rb.OSeek && op.K != rb.ORemain && o.N > 0 && !bytes.Equal(o.Data[:o.N], ref.Data[:ref.N]) {
				return mc.Failf("differ", "%v over content of %d bytes: %s gives %d, %s; %s gives %d, %s", op, n, xs[0].b.name, ref.N, refClass, x.b.name, o.N, cl)
			}
		}
		h := &m.Hs[op.H]
		switch op.K {
		case rb.OCopy:
			m.Hs = append(m.Hs, *h)
			if eofSeen[op.H] {
				eofSeen[len(m.Hs)-1] = true
			}
		case rb.OClose:
			h.Closed = true
			eofSeen[op.H] = true
		case rb.ORead:
			if refClass == "EOF" {
				eofSeen[op.H] = true
			}
			h.Pos = []int64{h.Pos[0] + ref.N}
		case rb.OSeek:
			if refClass == "nil" {
				h.Pos = []int64{ref.N}
				delete(eofSeen, op.H)
			}
		}
		hh := m.Key(mc.NewHash())
		c.State(uint64(hh))
		c.Trans(uint64(hh.I(int64(k)).I(ref.N).S(refClass)))
		c.Outcome(uint64(hh.S(refClass)))
	}
	return nil
}

// ---- M01 ----

type mcall struct {
	name string
	exp  mockreader.Expectation // matching expectation
	key  string                 // two calls match iff equal keys
	n    int64
	err  error
	data string
	do   func(r *mockreader.MockReader, w fullReader) (n int64, err error, data string, fi fs.FileInfo)
	fi   fs.FileInfo

	parts []string // words of any description of the call
}

type fullReader interface {
	io.Reader
	io.ReaderAt
	io.Seeker
	io.Closer
	Stat() (fs.FileInfo, error)
}

func m01mark(s string) mcall {
	return mcall{name: "Mark(" + s + ")", exp: mockreader.ExpectMark(s), key: "mark" + s, parts: []string{"Mark"},
		do: func(r *mockreader.MockReader, w fullReader) (int64, error, string, fs.FileInfo) {
			r.Mark(s)
			return 0, nil, "", nil
		}}
}

func m01stat(f fs.FileInfo, err error, tag string) mcall {
	return mcall{name: "Stat" + tag, exp: mockreader.ExpectStat(f, err), key: "stat", err: err, fi: f, parts: []string{"Stat"},
		do: func(r *mockreader.MockReader, w fullReader) (int64, error, string, fs.FileInfo) {
			f, err := w.Stat()
			return 0, err, "", f
		}}
}

func m01read(src string, n int, err error) mcall {
	k := len(src)
	return mcall{name: fmt.Sprintf("Read(%d)->%d,%v", k, n, err), exp: mockreader.ExpectRead([]byte(src), n, err), key: fmt.Sprintf("read%d", k), n: int64(n), err: err, data: src[:n], parts: []string{"Read", fmt.Sprint(k)},
		do: func(r *mockreader.MockReader, w fullReader) (int64, error, string, fs.FileInfo) {
			p := bytes.Repeat([]byte{'#'}, k)
			n, err := w.Read(p)
			return int64(n), err, string(p), nil
		}}
}

func m01readAt(src string, off int64, n int, err error) mcall {
	k := len(src)
	return mcall{name: fmt.Sprintf("ReadAt(%d,%d)->%d,%v", k, off, n, err), exp: mockreader.ExpectReadAt([]byte(src), off, n, err), key: fmt.Sprintf("readat%d@%d", k, off), n: int64(n), err: err, data: src[:n], parts: []string{"ReadAt", fmt.Sprint(k), fmt.Sprint(off)},
		do: func(r *mockreader.MockReader, w fullReader) (int64, error, string, fs.FileInfo) {
			p := bytes.Repeat([]byte{'#'}, k)
			n, err := w.ReadAt(p, off)
			return int64(n), err, string(p), nil
		}}
}

func m01seek(off int64, wh int, to int64, err error) mcall {
	return mcall{name: fmt.Sprintf("Seek(%d,%d)->%d,%v", off, wh, to, err), exp: mockreader.ExpectSeek(off, wh, to, err), key: fmt.Sprintf("seek%d/%d", off, wh), n: to, err: err, parts: []string{"Seek", fmt.Sprint(off)},
		do: func(r *mockreader.MockReader, w fullReader) (int64, error, string, fs.FileInfo) {
			n, err := w.Seek(off, wh)
			return n, err, "", nil
		}}
}

func m01close(err error) mcall {
	return mcall{name: fmt.Sprintf("Close->%v", err), exp: mockreader.ExpectClose(err), key: "close", err: err, parts: []string{"Close"},
		do: func(r *mockreader.MockReader, w fullReader) (int64, error, string, fs.FileInfo) {
			return 0, w.Close(), "", nil
		}}
}

func m01calls() []mcall {
	fi := &mockreader.FileInfo{NameValue: "n", SizeValue: 4, ModeValue: 0o444}
	e := &env.InjErr{ID: "scripted"}
	return []mcall{
		m01mark("a"), m01mark("b"), m01mark(""),
		m01stat(fi, nil, "->fi"), m01stat(nil, e, "->err"),
		m01read("", 0, nil), m01read("ab", 2, nil), m01read("cd", 1, io.EOF), m01read("xyz", 0, e),
		m01readAt("ab", 0, 2, nil), m01readAt("cd", 1, 1, e), m01readAt("", 0, 0, nil),
		m01seek(0, 0, 0, nil), m01seek(0, 2, 7, nil), m01seek(1, 0, -1, e),
		m01close(nil), m01close(e),
	}
}

func m01units(tier string) []*mc.Unit {
	calls := m01calls()
	maxScript := pick(tier, 3, 4)
	var out []*mc.Unit
	for first := -1; first < len(calls); first++ {
		first := first
		out = append(out, &mc.Unit{Name: fmt.Sprintf("script/first=%d", first), Run: func(c *mc.Ctl) (f *mc.Fail) {
			defer guard(&f)
			var script []mcall
			if first >= 0 {
				script = append(script, calls[first])
				for len(script) < maxScript {
					k := c.Choose(len(calls)+1, mc.Free) - 1
					if k < 0 {
						break
					}
					script = append(script, calls[k])
				}
			}
			var exps []mockreader.Expectation
			for _, s := range script {
				exps = append(exps, s.exp)
			}
			r := mockreader.New(exps...)
			var w fullReader = r
			if c.Choose(2, mc.Free) == 1 {
				w = mockreader.Wrapper111{Inner: r}
			}
			for i := 0; i <= len(script); i++ {
				call := calls[c.Choose(len(calls), mc.Free)]
				var n int64
				var err error
				var data string
				var fi fs.FileInfo
				pv := func() (pv interface{}) {
					defer func() { pv = recover() }()
					n, err, data, fi = call.do(r, w)
					return nil
				}()
				c.Logf("script %d/%d, call %s -> %d, %v, panic %v", i, len(script), call.name, n, err, pv)
				match := i < len(script) && script[i].key == call.key
				h := mc.NewHash().I(int64(i)).I(int64(len(script))).S(call.name).B(match)
				c.State(uint64(h))
				c.Trans(uint64(h.I(n).B(pv != nil)))
				if !match {
					var ef mockreader.ExpectationFailedError
					pe, isErr := pv.(error)
					if pv == nil {
						return mc.Failf("accepts", "call %s was accepted at script position %d (script has %d, expected %s)", call.name, i, len(script), nameAt(script, i))
					}
					if !isErr || !errors.As(pe, &ef) {
						return mc.Failf("panic-value", "refused call panicked with %T %v", pv, pv)
					}
					if ef.Index != uint(i) {
						return mc.Failf("panic-value", "refused call at position %d reports index %d", i, ef.Index)
					}
					if i < len(script) && ef.Expect.String() != script[i].exp.String() {
						return mc.Failf("panic-value", "refused call reports expectation %v, want %v", ef.Expect, script[i].exp)
					}
					if !ef.Actual.Matches(call.exp) {
						return mc.Failf("panic-value", "refused call reports actual call %v, was %s", ef.Actual, call.name)
					}
					if msg := pe.Error(); !strings.Contains(msg, fmt.Sprint(i)) || !strings.Contains(msg, ef.Actual.String()) {
						return mc.Failf("panic-value", "refusal message %q lacks the index or the call", msg)
					}
					return nil
				}
				if pv != nil {
					return mc.Failf("refuses", "matching call %s at position %d panicked: %v", call.name, i, pv)
				}
				s := script[i]
				if n != s.n || err != s.err || fi != s.fi {
					return mc.Failf("result", "call %s at position %d returned %d, %v, %v; scripted %d, %v, %v", call.name, i, n, err, fi, s.n, s.err, s.fi)
				}
				if data != "" {
					want := s.data + strings.Repeat("#", len(data)-len(s.data))
					if data != want {
						return mc.Failf("result", "call %s at position %d left buffer %q, want %q", call.name, i, data, want)
					}
				}
			}
			return nil
		}})
	}
	out = append(out, &mc.Unit{Name: "wrappers", Run: func(c *mc.Ctl) (f *mc.Fail) {
		defer guard(&f)
		wi := c.Choose(8, mc.Free)
		call := calls[c.Choose(len(calls), mc.Free)]
		r := mockreader.New(call.exp)
		ws := []io.Reader{mockreader.Wrapper000{Inner: r}, mockreader.Wrapper001{Inner: r}, mockreader.Wrapper010{Inner: r}, mockreader.Wrapper011{Inner: r}, mockreader.Wrapper100{Inner: r}, mockreader.Wrapper101{Inner: r}, mockreader.Wrapper110{Inner: r}, mockreader.Wrapper111{Inner: r}}
		w := ws[wi]
		_, isAt := w.(io.ReaderAt)
		_, isSeek := w.(io.Seeker)
		_, isStat := w.(interface{ Stat() (fs.FileInfo, error) })
		_, isClose := w.(io.Closer)
		if isAt != (wi&1 != 0) || isSeek != (wi&2 != 0) || isStat != (wi&4 != 0) || !isClose {
			return mc.Failf("wrapper", "%T offers ReaderAt=%v Seeker=%v Stat=%v Closer=%v", w, isAt, isSeek, isStat, isClose)
		}
		full := splice{w, r}
		c.State(uint64(mc.NewHash().I(int64(wi)).S(call.name)))
		c.Trans(uint64(mc.NewHash().I(int64(wi)).S(call.name)))
		n, err, data, fi := call.do(r, full)
		if n != call.n || err != call.err || fi != call.fi || data != "" && data[:len(call.data)] != call.data {
			return mc.Failf("wrapper", "%T: %s returned %d, %v, %q", w, call.name, n, err, data)
		}
		// consumed exactly once
		pv := func() (pv interface{}) {
			defer func() { pv = recover() }()
			call.do(r, full)
			return nil
		}()
		if pv == nil {
			return mc.Failf("wrapper", "%T: second %s accepted although the script is used up", w, call.name)
		}
		return nil
	}})
	return append(out, m01gridUnits(tier)...)
}

// m01grid is a grid of argument values for every operation.
func m01grid() []mcall {
	var out []mcall
	ends := []struct {
		n   int
		err error
	}{{1 << 30, nil}, {1, io.EOF}, {0, &env.InjErr{ID: "scripted"}}}
	for _, k := range []int{0, 1, 2, 3, 511, 512, 4096, 65536, 65537} {
		for _, e := range ends {
			out = append(out, m01read(string(env.Bytes(int64(k))), min(e.n, k), e.err))
		}
	}
	for _, off := range []int64{math.MinInt64, -1, 0, 1, 2, 3, 65536, 1 << 31, 1 << 32, 1<<32 + 1, math.MaxInt64} {
		for _, k := range []int{0, 1, 2, 512} {
			for _, e := range ends {
				out = append(out, m01readAt(string(env.Bytes(int64(k))), off, min(e.n, k), e.err))
			}
		}
		for _, wh := range []int{-1, 0, 1, 2, 3, 1 << 20} {
			for _, to := range []int64{math.MinInt64, -1, 0, off, 1 << 40} {
				out = append(out, m01seek(off, wh, to, nil))
			}
			out = append(out, m01seek(off, wh, 5, ends[2].err))
		}
	}
	for _, m := range []string{"", "a", "A", "b", "ab", "a ", "\x00", "a\"b", strings.Repeat("m", 300), "é"} {
		out = append(out, m01mark(m))
	}
	for _, e := range []error{nil, io.EOF, ends[2].err, fs.ErrClosed} {
		out = append(out, m01stat(nil, e, "->nothing"), m01stat(&mockreader.FileInfo{NameValue: "n", SizeValue: 4, ModeValue: 0o444}, e, "->info"), m01close(e))
	}
	return out
}

func m01gridUnits(tier string) []*mc.Unit {
	var out []*mc.Unit
	grid := m01grid()
	wrap := func(r *mockreader.MockReader, wi int) fullReader {
		ws := []io.Reader{mockreader.Wrapper000{Inner: r}, mockreader.Wrapper001{Inner: r}, mockreader.Wrapper010{Inner: r}, mockreader.Wrapper011{Inner: r}, mockreader.Wrapper100{Inner: r}, mockreader.Wrapper101{Inner: r}, mockreader.Wrapper110{Inner: r}, mockreader.Wrapper111{Inner: r}, r}
		return splice{ws[wi], r}
	}
	try := func(call mcall, r *mockreader.MockReader, w fullReader) (n int64, err error, data string, fi fs.FileInfo, pv interface{}) {
		defer func() { pv = recover() }()
		n, err, data, fi = call.do(r, w)
		return
	}
	for wi := 0; wi < 9; wi++ {
		wi := wi
		out = append(out, &mc.Unit{Name: fmt.Sprintf("grid/wrapper=%d", wi), Run: func(c *mc.Ctl) (f *mc.Fail) {
			defer guard(&f)
			want := grid[c.Choose(len(grid), mc.Free)]
			call := grid[c.Choose(len(grid), mc.Free)]
			after := m01calls()[0]
			r := mockreader.New(want.exp, after.exp)
			w := wrap(r, wi)
			n, err, data, fi, pv := try(call, r, w)
			c.State(uint64(mc.NewHash().I(int64(wi)).S(want.name)))
			c.Trans(uint64(mc.NewHash().I(int64(wi)).S(want.name).S(call.name)))
			what := fmt.Sprintf("script [%s], wrapper %d: call %s returned %d, %v, %v, panic %v", want.name, wi, call.name, n, err, fi, pv)
			if want.key != call.key {
				if pv == nil {
					return mc.Failf("accepts", "%s: accepted", what)
				}
				var ef mockreader.ExpectationFailedError
				pe, isErr := pv.(error)
				if !isErr || !errors.As(pe, &ef) || ef.Index != 0 {
					return mc.Failf("panic-value", "%s: want an ExpectationFailedError for index 0", what)
				}
				msg := pe.Error()
				for _, p := range append(want.parts[:len(want.parts):len(want.parts)], call.parts...) {
					if !strings.Contains(msg, p) {
						return mc.Failf("panic-value", "%s: the refusal %q does not mention %q", what, msg, p)
					}
				}
				return nil
			}
			if pv != nil {
				return mc.Failf("refuses", "%s: refused", what)
			}
			if n != want.n || err != want.err || fi != want.fi {
				return mc.Failf("result", "%s; scripted %d, %v, %v", what, want.n, want.err, want.fi)
			}
			if len(data) > 0 && data != want.data+strings.Repeat("#", len(data)-len(want.data)) {
				return mc.Failf("result", "%s: %d bytes were delivered wrongly", what, want.n)
			}
			// exactly one expectation was used up
			if _, _, _, _, pv := try(after, r, w); pv != nil {
				return mc.Failf("refuses", "%s: the next scripted call %s is refused: %v", what, after.name, pv)
			}
			if _, _, _, _, pv := try(call, r, w); pv == nil {
				return mc.Failf("accepts", "%s: accepted once more after the end of the script", what)
			}
			return nil
		}})
	}
	out = append(out, &mc.Unit{Name: "fileinfo", Run: func(c *mc.Ctl) (f *mc.Fail) {
		defer guard(&f)
		name := []string{"", "n", "a/b", strings.Repeat("x", 300)}[c.Choose(4, mc.Free)]
		size := []int64{0, 1, 1 << 40, -1, math.MaxInt64}[c.Choose(5, mc.Free)]
		mode := []fs.FileMode{0, fs.ModeDir, fs.ModeSymlink, fs.ModeNamedPipe, fs.ModeDevice, fs.ModeDevice | fs.ModeCharDevice, fs.ModeSocket, fs.ModeIrregular, fs.ModeAppend, fs.ModeTemporary | fs.ModeDir}[c.Choose(10, mc.Free)] | []fs.FileMode{0, 0o644, 0o755, 0o777, 0o111, fs.ModeSticky | 0o1, fs.ModeSetuid | 0o755}[c.Choose(7, mc.Free)]
		mt := []time.Time{{}, time.Unix(1e9, 5)}[c.Choose(2, mc.Free)]
		var fi fs.FileInfo = &mockreader.FileInfo{NameValue: name, SizeValue: size, ModeValue: mode, ModTimeValue: mt}
		got, err := mockreader.Wrapper111{Inner: mockreader.New(mockreader.ExpectStat(fi, nil))}.Stat()
		h := mc.NewHash().S(name).I(size).I(int64(mode)).B(mt.IsZero())
		c.State(uint64(h))
		c.Trans(uint64(h))
		if got != fi || err != nil || got.Name() != name || got.Size() != size || got.Mode() != mode || !got.ModTime().Equal(mt) || got.IsDir() != mode.IsDir() || got.Sys() != nil {
			return mc.Failf("result", "the scripted file information %q %d %v %v reads %q %d %v %v dir %v sys %v, %v", name, size, mode, mt, got.Name(), got.Size(), got.Mode(), got.ModTime(), got.IsDir(), got.Sys(), err)
		}
		return nil
	}})
	// several threads share a mock: each expectation is used up by one call
	kinds := []func(i int) mcall{
		func(i int) mcall { return m01read(fmt.Sprintf("%c", 'a'+i), 1, nil) },
		func(i int) mcall { return m01readAt(fmt.Sprintf("%c", 'a'+i), 3, 1, nil) },
		func(i int) mcall { return m01seek(1, 1, int64(i+10), nil) },
		func(i int) mcall { return m01close(&env.InjErr{ID: fmt.Sprint(i)}) },
		func(i int) mcall { return m01stat(nil, &env.InjErr{ID: fmt.Sprint(i)}, "") },
		func(i int) mcall { return m01mark("same") },
	}
	for ki := range kinds {
		for wi := 7; wi < 9; wi++ {
			for threads := 2; threads <= 3; threads++ {
				ki, wi, threads := ki, wi, threads
				out = append(out, &mc.Unit{Name: fmt.Sprintf("conc/kind=%d/wrapper=%d/threads=%d", ki, wi, threads), Bounds: mc.Bounds{Preempt: pick(tier, 3, 4)}, Run: func(c *mc.Ctl) (f *mc.Fail) {
					defer guard(&f)
					mc.SeqMode = true
					defer func() { mc.SeqMode = false }()
					per := 3
					if threads == 3 {
						per = 2
					}
					length := threads*per - c.Choose(3, mc.Free)
					var script []mockreader.Expectation
					want := map[string]int{}
					for i := 0; i < length; i++ {
						m := kinds[ki](i)
						script = append(script, m.exp)
						want[fmt.Sprintf("%d %v %s", m.n, m.err, m.data)]++
					}
					want["refused"] = threads*per - length
					r := mockreader.New(script...)
					w := wrap(r, wi)
					got := make([][]string, threads)
					var fns []func()
					for t := 0; t < threads; t++ {
						t := t
						fns = append(fns, func() {
							for i := 0; i < per; i++ {
								mc.Yield()
								n, err, data, _, pv := try(kinds[ki](0), r, w)
								if pv != nil {
									if mc.IsControl(pv) {
										panic(pv)
									}
									got[t] = append(got[t], "refused")
								} else {
									got[t] = append(got[t], fmt.Sprintf("%d %v %s", n, err, data))
								}
							}
						})
					}
					races := mc.RaceErrors()
					mc.SeqMode = false
					res := mc.RunThreads(c, fns)
					mc.SeqMode = true
					what := fmt.Sprintf("%d threads with %d calls each of %s, script of %d", threads, per, kinds[ki](0).name, length)
					if n := mc.RaceErrors() - races; n > 0 {
						return mc.Failf("race", "%d data race(s) reported by the race detector with %s", n, what)
					}
					if f := threadFail(res); f != nil {
						f.Msg += " with " + what
						return f
					}
					h := mc.NewHash()
					for _, l := range got {
						for _, g := range l {
							h = h.S(g)
							if want[g]--; want[g] < 0 {
								return mc.Failf("result", "%s: the threads got %q: %q too often", what, got, g)
							}
						}
					}
					c.Outcome(uint64(h))
					return nil
				}})
			}
		}
	}
	return out
}

func nameAt(s []mcall, i int) string {
	if i < len(s) {
		return s[i].name
	}
	return "nothing"
}

// splice calls the wrapper where it offers the interface, the mock otherwise.
type splice struct {
	io.Reader
	r *mockreader.MockReader
}

func (s splice) ReadAt(p []byte, off int64) (int, error) {
	if x, ok := s.Reader.(io.ReaderAt); ok {
		return x.ReadAt(p, off)
	}
	return s.r.ReadAt(p, off)
}
func (s splice) Seek(o int64, w int) (int64, error) {
	if x, ok := s.Reader.(io.Seeker); ok {
		return x.Seek(o, w)
	}
	return s.r.Seek(o, w)
}
func (s splice) Close() error { return s.Reader.(io.Closer).Close() }
func (s splice) Stat() (fs.FileInfo, error) {
	if x, ok := s.Reader.(interface{ Stat() (fs.FileInfo, error) }); ok {
		return x.Stat()
	}
	return s.r.Stat()
}
