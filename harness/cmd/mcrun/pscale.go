//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
	rb "github.com/chronos-tachyon/morehttp/zz_verif/refbody"
)

// Families with many handles, many operations or long contents. Each varies a
// few parameters over a full grid; the histories themselves are long and fixed
// by the parameters.

func seqRun(f **mc.Fail, run func() *mc.Fail) {
	mc.SeqMode = true
	defer func() { mc.SeqMode = false }()
	defer guard(f)
	*f = run()
}

func scaleKinds(n int64) []build {
	return []build{memB(n), strB(n), atB(n, n), atSeekB(n), skB(n, -1), skB(n, n), stB(n, -1), stB(n, n), stStatB(n), stB(n, n+3), skB(n, n+3), atB(n, n+3)}
}

// ident checks that b delivers content[pos:n], then EOF.
func ident(b body.Body, pos, n int64, chunk int) *mc.Fail {
	p := make([]byte, chunk)
	for i := 0; ; i++ {
		k, err := b.Read(p)
		if k < 0 || k > chunk || pos+int64(k) > n || !env.Equal(p[:k], pos) {
			return mc.Failf("content", "Read at %d of %d returned %d bytes %q", pos, n, k, p[:max(0, min(k, 16))])
		}
		pos += int64(k)
		if err == io.EOF {
			if pos != n {
				return mc.Failf("early-eof", "EOF at %d of %d", pos, n)
			}
			return nil
		}
		if err != nil {
			return mc.Failf("error-invented", "Read at %d: %v", pos, err)
		}
		if i > int(n)/chunk+8 {
			return mc.Failf("progress", "no end after %d reads", i)
		}
	}
}

// manyUnits: K copies of one body, closed in different orders.
func manyUnits(tier string) []*mc.Unit {
	var out []*mc.Unit
	ks := []int{3, 17, 130, 300, 1100, 33000, 70000}
	for _, b := range append(scaleKinds(3), emptyB()) {
		b := b
		out = append(out, &mc.Unit{Name: fmt.Sprintf("many/%s/n=%d/d=%d", b.name, b.n, b.d), Run: func(c *mc.Ctl) (f *mc.Fail) {
			seqRun(&f, func() *mc.Fail {
				k := ks[c.Choose(len(ks), mc.Free)]
				chain := c.Choose(3, mc.Free)
				order := c.Choose(5, mc.Free)
				spread := c.Choose(2, mc.Free) == 1
				if spread && k > 400 && b.kind == rb.Stream {
					k = 400 // every close may look at every copy
				}
				ce := errCloseInjected()
				x, f := b.make(c, env.Menu{}, false, ce)
				if f != nil {
					return f
				}
				if x.src != nil {
					x.src.Budget = 1 << 30
				}
				hs := []body.Body{x.hs[0]}
				pos := []int64{0}
				scratch := make([]byte, 1)
				for i := 1; i < k; i++ {
					from := 0
					switch chain {
					case 1:
						from = i - 1
					case 2:
						from = i / 2
					}
					nb, err := hs[from].Copy()
					if err != nil || nb == nil {
						return mc.Failf("copy", "copy %d: %v, %v", i, nb, err)
					}
					p := pos[from]
					if spread && i%3 == 1 && p < b.n {
						n, err := nb.Read(scratch)
						if n != 1 || !env.Equal(scratch, p) || err != nil && err != io.EOF {
							return mc.Failf("content", "Read(1) of copy %d at %d returned %d %q, %v", i, p, n, scratch, err)
						}
						p++
					}
					hs, pos = append(hs, nb), append(pos, p)
				}
				// which handle goes next
				idx := make([]int, 0, k)
				switch order {
				case 0, 1, 2:
					for i := 0; i < k; i++ {
						idx = append(idx, i)
					}
					if order == 1 {
						for i, j := 0, k-1; i < j; i, j = i+1, j-1 {
							idx[i], idx[j] = idx[j], idx[i]
						}
					}
					if order == 2 { // the original last
						idx = append(idx[1:], 0)
					}
				case 3:
					for i := 0; i < k; i += 2 {
						idx = append(idx, i)
					}
					for i := 1; i < k; i += 2 {
						idx = append(idx, i)
					}
				case 4:
					for i, j := 0, k-1; i <= j; i, j = i+1, j-1 {
						idx = append(idx, j)
						if i != j {
							idx = append(idx, i)
						}
					}
				}
				has := b.caps.Close || b.caps.Stat
				for i, h := range idx {
					lastOne := i == k-1
					if lastOne || i%(k/16+1) == 0 {
						if f := ident(hs[h], pos[h], b.n, 2); f != nil {
							f.Msg = fmt.Sprintf("handle %d of %d: %s", h, k, f.Msg)
							return f
						}
						if r := hs[h].Unwrap(); x.m.HasRdr && r != x.m.Rdr || !x.m.HasRdr && r != nil {
							return mc.Failf("unwrap", "handle %d of %d: Unwrap returned %T", h, k, r)
						}
					}
					if has && x.src.Closed != 0 {
						return mc.Failf("close-count", "reader closed with %d of %d handles open", k-i, k)
					}
					err := hs[h].Close()
					if lastOne && has && b.kind != rb.Empty && b.kind != rb.Mem {
						if !errors.Is(err, ce) {
							return mc.Failf("close-err", "last of %d closes returned %v, want %v", k, err, ce)
						}
					} else if err != nil {
						return mc.Failf("close-err", "close %d of %d returned %v, want nil", i+1, k, err)
					}
				}
				if x.src != nil {
					if x.src.Bad != nil {
						return x.src.Bad
					}
					want := 0
					if has {
						want = 1
					}
					if x.src.Closed != want {
						return mc.Failf("close-count", "reader closed %d times after all %d handles were closed, want %d", x.src.Closed, k, want)
					}
				}
				for _, h := range []int{0, k / 2, k - 1} {
					if err := hs[h].Close(); !errors.Is(err, fs.ErrClosed) {
						return mc.Failf("closed", "second Close of handle %d returned %v", h, err)
					}
				}
				s := mc.NewHash().I(int64(k)).I(int64(chain)).I(int64(order)).B(spread)
				c.State(uint64(s))
				c.Trans(uint64(s))
				c.Outcome(uint64(s))
				return nil
			})
			return
		}})
	}
	return out
}

// churnUnits: copies made and closed one after another, many times.
func churnUnits(tier string) []*mc.Unit {
	var out []*mc.Unit
	for _, b := range append(scaleKinds(3), emptyB()) {
		b := b
		out = append(out, &mc.Unit{Name: fmt.Sprintf("churn/%s/n=%d/d=%d", b.name, b.n, b.d), Run: func(c *mc.Ctl) (f *mc.Fail) {
			seqRun(&f, func() *mc.Fail {
				k := []int{10, 300, 5000, 70000}[c.Choose(4, mc.Free)]
				relay := c.Choose(2, mc.Free) == 1 // the original is closed, the copy carries on
				at := c.Choose(4, mc.Free)         // position of the original
				ce := errCloseInjected()
				x, f := b.make(c, env.Menu{}, false, ce)
				if f != nil {
					return f
				}
				if x.src != nil {
					x.src.Budget = 1 << 30
				}
				cur := x.hs[0]
				pos := int64(0)
				p := make([]byte, 1)
				for ; pos < int64(at) && pos < b.n; pos++ {
					if n, err := cur.Read(p); n != 1 || !env.Equal(p, pos) || err != nil && err != io.EOF {
						return mc.Failf("content", "Read(1) at %d: %d, %v", pos, n, err)
					}
				}
				has := b.caps.Close || b.caps.Stat
				for i := 0; i < k; i++ {
					nb, err := cur.Copy()
					if err != nil {
						return mc.Failf("copy", "copy %d: %v", i, err)
					}
					if relay {
						cur, nb = nb, cur
					} else if i%3 == 0 && pos < b.n {
						if n, err := nb.Read(p); n != 1 || !env.Equal(p, pos) || err != nil && err != io.EOF {
							return mc.Failf("content", "copy %d: Read(1) at %d: %d %q, %v", i, pos, n, p, err)
						}
					}
					if err := nb.Close(); err != nil {
						return mc.Failf("close-err", "close %d returned %v, want nil", i, err)
					}
					if has && x.src.Closed != 0 {
						return mc.Failf("close-count", "reader closed after %d copies came and went, though one handle is open", i)
					}
				}
				if f := ident(cur, pos, b.n, 2); f != nil {
					return f
				}
				err := cur.Close()
				if has && !errors.Is(err, ce) || !has && err != nil {
					return mc.Failf("close-err", "last close returned %v", err)
				}
				if has && x.src.Closed != 1 {
					return mc.Failf("close-count", "reader closed %d times after the last close", x.src.Closed)
				}
				if x.src != nil && x.src.Bad != nil {
					return x.src.Bad
				}
				s := mc.NewHash().I(int64(k)).B(relay).I(int64(at))
				c.State(uint64(s))
				c.Trans(uint64(s))
				c.Outcome(uint64(s))
				return nil
			})
			return
		}})
	}
	return out
}

// crowdUnits: 5-64 handles reading the same content in turns.
func crowdUnits(tier string) []*mc.Unit {
	var out []*mc.Unit
	counts := []int{5, 8, 9, 17, 33, 64}
	for _, b := range []build{memB(40), atB(40, 40), skB(40, -1), stB(40, -1), stB(40, 40), stB(3*blk+7, -1), stB(3*blk+7, 3*blk+7), skB(3*blk+7, -1)} {
		b := b
		for _, k := range counts {
			k := k
			out = append(out, &mc.Unit{Name: fmt.Sprintf("crowd/%s/n=%d/d=%d/k=%d", b.name, b.n, b.d, k), Run: func(c *mc.Ctl) (f *mc.Fail) {
				seqRun(&f, func() *mc.Fail {
					order := c.Choose(4, mc.Free)
					sizes := c.Choose(3, mc.Free)
					leave := c.Choose(3, mc.Free)
					join := c.Choose(2, mc.Free) == 1
					x, f := b.make(c, env.Menu{}, false, nil)
					if f != nil {
						return f
					}
					q := c.Quiet
					c.Quiet = true
					defer func() { c.Quiet = q }()
					unit := max(1, b.n/40)
					size := func(i, round int) int64 {
						switch sizes {
						case 0:
							return unit * int64(1+i%7)
						case 1:
							return unit * int64(1+(i+round)%11)
						}
						return max(1, b.n/3+int64(i)-3)
					}
					var scratch []byte
					step := func(op rb.Op) (*rb.Obs, *mc.Fail) { return x.step(c, op, &scratch) }
					if join { // half of the copies appear mid-stream
						for i := 1; i < k/2; i++ {
							if _, f := step(rb.Op{K: rb.OCopy, H: i / 2}); f != nil {
								return f
							}
						}
					} else {
						for i := 1; i < k; i++ {
							if _, f := step(rb.Op{K: rb.OCopy, H: i / 2}); f != nil {
								return f
							}
						}
					}
					done := make([]bool, k)
					for round := 0; round < 200; round++ {
						busy := false
						n := len(x.hs)
						for j := 0; j < n; j++ {
							i := j
							switch order {
							case 1:
								i = n - 1 - j
							case 2:
								i = (j*7 + round) % n
								if n%7 == 0 {
									i = (j*5 + round) % n
								}
							case 3:
								if j > round { // one handle after another runs ahead
									continue
								}
							}
							if done[i] {
								continue
							}
							busy = true
							o, f := step(rb.Op{K: rb.ORead, H: i, A: size(i, round)})
							if f != nil {
								return f
							}
							if o.Err != nil {
								done[i] = true
							}
							if o.Err != nil && leave != 0 || leave == 2 && (i*31+round)%13 == 12 {
								if x.m.Open() > 1 || len(x.hs) == k {
									done[i] = true
									if _, f := step(rb.Op{K: rb.OClose, H: i}); f != nil {
										return f
									}
								}
							}
						}
						if len(x.hs) < k {
							from := (round*3 + 1) % len(x.hs)
							for d := 0; x.m.Hs[from].Closed && d < len(x.hs); d++ {
								from = (from + 1) % len(x.hs)
							}
							if _, f := step(rb.Op{K: rb.OCopy, H: from}); f != nil {
								return f
							}
							continue
						}
						if !busy && !(order == 3 && round <= k) {
							break
						}
					}
					if f := x.drain(c, max(2, b.n/3), &scratch, true); f != nil {
						return f
					}
					c.Outcome(uint64(mc.NewHash().I(int64(order)).I(int64(sizes)).I(int64(leave)).B(join)))
					return nil
				})
				return
			}})
		}
	}
	return out
}

// longUnits: one handle and a companion, long contents and very many operations.
func longUnits(tier, prop string) []*mc.Unit {
	var out []*mc.Unit
	const n = 200<<10 + 11
	for _, b := range scaleKinds(n) {
		b := b
		out = append(out, &mc.Unit{Name: fmt.Sprintf("long/%s/n=%d/d=%d", b.name, b.n, b.d), Run: func(c *mc.Ctl) (f *mc.Fail) {
			seqRun(&f, func() *mc.Fail {
				chunk := []int64{1, 3, 64, 1000, 4096, 65535}[c.Choose(6, mc.Free)]
				srcMax := []int64{0, 1, 511, 65537}[c.Choose(4, mc.Free)]
				lag := c.Choose(3, mc.Free)
				x, f := b.make(c, env.Menu{}, false, nil)
				if f != nil {
					return f
				}
				if x.src != nil {
					x.src.MaxRead, x.src.Budget = srcMax, 1<<20
					if srcMax == 1 && (chunk > 1000 || b.kind == rb.Stream) {
						return nil // only repeats one-byte answers within a call; the call budget is 4096
					}
					if srcMax > 0 && srcMax < 512 && b.kind == rb.Stream && chunk > 65536 {
						return nil
					}
				} else if srcMax != 0 {
					return nil
				}
				q := c.Quiet
				c.Quiet = true
				defer func() { c.Quiet = q }()
				c.NoState = true
				var scratch []byte
				if lag > 0 {
					if _, f := x.step(c, rb.Op{K: rb.OCopy}, nil); f != nil {
						return f
					}
				}
				for i := int64(0); ; i++ {
					if i > n/chunk+4 {
						return mc.Failf("progress", "no end after %d reads of %d", i, chunk)
					}
					o, f := x.step(c, rb.Op{K: rb.ORead, A: chunk}, &scratch)
					if f != nil {
						return f
					}
					if i%97 == 0 || o.Err != nil {
						if _, f := x.step(c, rb.Op{K: rb.ORemain}, nil); f != nil {
							return f
						}
					}
					if lag == 1 || lag == 2 && i%2 == 0 {
						if _, f := x.step(c, rb.Op{K: rb.ORead, H: 1, A: chunk}, &scratch); f != nil {
							return f
						}
					}
					if b.kind != rb.Stream && i%5 == 4 {
						// a detour and back
						at := x.m.Hs[0].Pos[0]
						for _, op := range []rb.Op{{K: rb.OSeek, A: (i * 7919) % n}, {K: rb.ORead, A: 2}, {K: rb.OReadAt, A: 3, B: (i * 104729) % n}, {K: rb.OSeek, A: at}} {
							if _, f := x.step(c, op, &scratch); f != nil {
								return f
							}
						}
					}
					if o.Err != nil {
						break
					}
				}
				if f := x.drain(c, 50000, &scratch, true); f != nil {
					return f
				}
				c.Outcome(uint64(mc.NewHash().I(chunk).I(srcMax).I(int64(lag))))
				return nil
			})
			return
		}})
	}
	return out
}

// farUnits: a stream read past the range of 32-bit offsets.
func farUnits(tier string) []*mc.Unit {
	const gib = int64(1) << 30
	n := 2*gib + 2*blk + 7
	if tier == "thorough" {
		n = 4*gib + 2*blk + 7
	}
	var out []*mc.Unit
	for _, b := range []build{stB(n, -1), stB(n, n)} {
		b := b
		out = append(out, &mc.Unit{Name: fmt.Sprintf("far/%s/n=%d/d=%d", b.name, b.n, b.d), Run: func(c *mc.Ctl) (f *mc.Fail) {
			seqRun(&f, func() *mc.Fail {
				x, f := b.make(c, env.Menu{}, false, nil)
				if f != nil {
					return f
				}
				q := c.Quiet
				c.Quiet = true
				defer func() { c.Quiet = q }()
				scratch := make([]byte, 4<<20)
				if _, f := x.step(c, rb.Op{K: rb.OCopy}, nil); f != nil {
					return f
				}
				for h, i := 0, 0; ; i++ {
					if int64(i) > n>>20 {
						return mc.Failf("progress", "no end after %d reads", i)
					}
					h = i % 2
					o, f := x.step(c, rb.Op{K: rb.ORead, H: h, A: 4<<20 - int64(h)}, &scratch)
					if f != nil {
						return f
					}
					if _, f := x.step(c, rb.Op{K: rb.ORemain, H: h}, nil); f != nil {
						return f
					}
					if o.Err != nil {
						break
					}
				}
				if f := x.drain(c, 50000, &scratch, true); f != nil {
					return f
				}
				c.Outcome(1)
				return nil
			})
			return
		}})
	}
	return out
}
