//go:build go1.22

package main

import (
	"fmt"
	"net/http"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zz_verif/fakew"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)

// aliasUnits pairs two header maps that must not share anything, for every
// header name, number of values and number of other headers, changes one of
// them in one way and looks at the other.
func aliasUnits(unit func(name string, run func(c *mc.Ctl) *mc.Fail)) {
	counts := []int{1, 2, 3, 5, 9, 33}
	others := []int{0, 1, 7, 8, 15, 16, 17, 40}
	paths := []string{"builder copy", "caller's map", "response copy", "builder kept beside its copy's response", "response's map given to a builder", "two servings", "builder built", "copy of a copy"}
	muts := []string{"first in place", "last in place", "append in place", "append", "delete", "set", "new name", "truncate and append", "all"}
	change := func(h http.Header, name string, how int) {
		all := how == len(muts)-1
		v := h[name]
		if how == 0 || all {
			v[0] = "CHANGED"
		}
		if how == 1 || all {
			v[len(v)-1] = "CHANGED-LAST"
		}
		if how == 2 || all {
			for _, v := range h {
				_ = append(v, "IN-PLACE")
			}
		}
		if how == 3 || all {
			h[name] = append(v, "APPENDED")
		}
		if how == 4 {
			h.Del(name)
			delete(h, name)
		}
		if how == 5 {
			h[name] = []string{"SET"}
		}
		if how == 6 || all {
			h["X-Brand-New"] = []string{"new"}
		}
		if how == 7 || all {
			h[name] = append(h[name][:0], "TRUNCATED")
		}
		if all {
			for k := range h {
				if k != name {
					delete(h, k)
				}
			}
		}
	}
	apply := func(h, before http.Header, name string, how int, trail string) *mc.Fail {
		change(h, name, how)
		m := cloneHdr(before)
		change(m, name, how)
		if !hdrEqual(h, m) {
			return mc.Failf("alias", "%s: the changed one has %s itself, want %s", trail, hdrString(h), hdrString(m))
		}
		return nil
	}
	for part := 0; part < 8; part++ {
		part := part
		unit(fmt.Sprintf("alias/%d", part), func(c *mc.Ctl) *mc.Fail {
			var mine []string
			for i, n := range stdNames {
				if i%8 == part {
					mine = append(mine, n)
				}
			}
			name := mine[c.Choose(len(mine), mc.Free)]
			nv := counts[c.Choose(len(counts), mc.Free)]
			no := others[c.Choose(len(others), mc.Free)]
			path := c.Choose(len(paths), mc.Free)
			how := c.Choose(len(muts), mc.Free)
			swap := c.Choose(2, mc.Free) == 1
			src := make(http.Header)
			for i := 0; i < no; i++ {
				src[fmt.Sprintf("X-Other-%d", i)] = []string{"o", fmt.Sprint(i)}[i%2:]
			}
			vals := make([]string, 0, nv+2)
			for i := 0; i < nv; i++ {
				vals = append(vals, fmt.Sprint("v", i))
			}
			src[name] = vals
			want := cloneHdr(src)
			b := response.NewBuilder().WithBody(body.FromString("abc"))
			b.WithHeaders(src)
			trail := fmt.Sprintf("%s, header %s with %d values and %d others, %s (swapped: %v)", paths[path], name, nv, no, muts[how], swap)
			c.State(uint64(mc.NewHash().S(name).I(int64(nv)).I(int64(no))))
			c.Trans(uint64(mc.NewHash().S(trail)))
			c.Logf("%s", trail)
			// x is changed, y must stay as it is
			built := func(h http.Header) http.Header {
				h = cloneHdr(h)
				if h["Content-Type"] == nil {
					h["Content-Type"] = []string{"application/octet-stream"}
				}
				if h["Content-Length"] == nil {
					h["Content-Length"] = []string{"3"}
				}
				return h
			}
			outgoing := func(h http.Header) http.Header {
				h = cloneHdr(h)
				delete(h, "Push")
				return h
			}
			serve := func(r *response.Response, want http.Header, f func(h http.Header)) (*fakew.W, *mc.Fail) {
				w := fakew.New(nil, fakew.Menu{})
				if f != nil {
					w.MutateHeaders = f
				}
				if err := r.Serve(w.As(0)); err != nil {
					return nil, mc.Failf("serve", "%s: serving failed: %v", trail, err)
				}
				if !hdrEqual(w.Sent, outgoing(want)) {
					return nil, mc.Failf("alias", "%s: sent headers %s, want %s", trail, hdrString(w.Sent), hdrString(outgoing(want)))
				}
				return w, nil
			}
			bad := func(got, want http.Header) *mc.Fail {
				return mc.Failf("alias", "%s: the other has %s, want %s", trail, hdrString(got), hdrString(want))
			}
			if name == "Push" && (path == 2 || path == 3 || path == 5) {
				return nil // not sent, so there is nothing for a writer to change
			}
			switch path {
			case 0, 7:
				b2, err := b.Copy()
				if err == nil && path == 7 {
					b2, err = b2.Copy()
				}
				if err != nil {
					return mc.Failf("copy", "%s: Copy failed: %v", trail, err)
				}
				x, y := b, b2
				if swap {
					x, y = y, x
				}
				if f := apply(x.Headers(), want, name, how, trail); f != nil {
					return f
				}
				if !hdrEqual(y.Headers(), want) {
					return bad(y.Headers(), want)
				}
				r := y.Build()
				if !hdrEqual(r.Headers(), built(want)) {
					return bad(r.Headers(), built(want))
				}
				_, f := serve(r, built(want), nil)
				return f
			case 1:
				x, y := src, b.Headers()
				if swap {
					x, y = y, x
				}
				if f := apply(x, want, name, how, trail); f != nil {
					return f
				}
				if !hdrEqual(y, want) {
					return bad(y, want)
				}
			case 2, 5:
				r := b.Build()
				r2, err := r.Copy()
				if err != nil {
					return mc.Failf("copy", "%s: Copy failed: %v", trail, err)
				}
				x, y := r, r2
				if swap {
					x, y = y, x
				}
				var late http.Header
				w, f := serve(x, built(want), func(h http.Header) {
					if path == 2 {
						change(h, name, how)
					} else {
						late = h
					}
				})
				if f != nil {
					return f
				}
				if path == 2 && (!hdrEqual(x.Headers(), built(want)) || !hdrEqual(y.Headers(), built(want))) {
					return bad(y.Headers(), built(want))
				}
				w2, f := serve(y, built(want), nil)
				if f != nil {
					return f
				}
				if path == 5 {
					change(late, name, how)
					if !hdrEqual(w2.H, outgoing(built(want))) {
						return bad(w2.H, outgoing(built(want)))
					}
				}
				_ = w
			case 3:
				b2, err := b.Copy()
				if err != nil {
					return mc.Failf("copy", "%s: Copy failed: %v", trail, err)
				}
				x, y := b, b2
				if swap {
					x, y = y, x
				}
				if _, f := serve(x.Build(), built(want), func(h http.Header) { change(h, name, how) }); f != nil {
					return f
				}
				if !hdrEqual(y.Headers(), want) {
					return bad(y.Headers(), want)
				}
				_, f := serve(y.Build(), built(want), nil)
				return f
			case 4:
				r := b.Build()
				nb := response.NewBuilder().WithBody(body.FromString("other")).WithHeaders(r.Headers())
				if swap {
					nb = response.NewBuilder().WithHeaders(r.Headers()).WithBody(body.FromString("other"))
				}
				if f := apply(nb.Headers(), built(want), name, how, trail); f != nil {
					return f
				}
				if !hdrEqual(r.Headers(), built(want)) {
					return bad(r.Headers(), built(want))
				}
				nb.Build().Serve(fakew.New(nil, fakew.Menu{}).As(0))
				_, f := serve(r, built(want), nil)
				return f
			case 6:
				r := b.Build()
				if len(b.Headers()) != 0 {
					return bad(b.Headers(), http.Header{})
				}
				// the emptied builder starts afresh
				for k, v := range want {
					for _, e := range v {
						b.WithHeader(k, e, true)
					}
				}
				b.WithBody(body.FromString("second"))
				if f := apply(b.Headers(), want, name, how, trail); f != nil {
					return f
				}
				if !hdrEqual(r.Headers(), built(want)) {
					return bad(r.Headers(), built(want))
				}
				_, f := serve(r, built(want), nil)
				return f
			}
			return nil
		})
	}
}

// namedHeads has header sets of one name each.
func namedHeads() []headSet {
	var l []headSet
	for _, n := range stdNames {
		if n == "Push" {
			continue // see the push lists
		}
		for i, v := range [][]string{{"v"}, {""}, {"a", "b", "a"}} {
			l = append(l, headSet{fmt.Sprintf("%s#%d", n, i), http.Header{n: v}})
		}
	}
	for _, n := range []string{"Push-", "Pushed", "X-Push-Policy", "Push_", "A B"} {
		l = append(l, headSet{n, http.Header{n: {"v", "w"}}})
	}
	return l
}
