//go:build go1.22

package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"os"
	"strings"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)

// stdNames are header names with a meaning somewhere; none has one for the
// builder and the response, except those they set themselves.
var stdNames = strings.Fields(`Accept Accept-Ch Accept-Encoding Accept-Patch Accept-Post Accept-Ranges
Access-Control-Allow-Credentials Access-Control-Allow-Headers Access-Control-Allow-Methods Access-Control-Allow-Origin Access-Control-Expose-Headers Access-Control-Max-Age
Age Allow Alt-Svc Authorization Cache-Control Clear-Site-Data Connection Content-Disposition Content-Encoding Content-Language Content-Length Content-Location Content-Md5
Content-Range Content-Security-Policy Content-Security-Policy-Report-Only Content-Type Cookie Cross-Origin-Embedder-Policy Cross-Origin-Opener-Policy Cross-Origin-Resource-Policy
Date Digest Early-Data Etag Expect-Ct Expires Host If-Match Keep-Alive Last-Modified Link Location Nel Origin-Agent-Cluster P3p Permissions-Policy Pragma Proxy-Authenticate Proxy-Connection
Push Push-Policy Range Referrer-Policy Refresh Report-To Retry-After Server Server-Timing Service-Worker-Allowed Set-Cookie Set-Cookie2 Sourcemap Status Strict-Transport-Security
Te Timing-Allow-Origin Trailer Transfer-Encoding Upgrade Vary Via Warning Www-Authenticate X X-A X-Accel-Buffering X-Content-Type-Options X-Dns-Prefetch-Control X-Forwarded-For X-Frame-Options
X-Permitted-Cross-Domain-Policies X-Powered-By X-Push X-Request-Id X-Robots-Tag X-Runtime X-Sendfile X-Trace-Id X-Ua-Compatible X-Xss-Protection`)

var oddNames = []string{"x", "x-lower-case", "X-UPPER", "éclair", "with space", "X-Ünicode", "-", "--a", "a_b", "1", "x:y", strings.Repeat("long-", 3000), "X-\x00", "etag", "www-authenticate", "content-type", "CONTENT-LENGTH", "push", "PUSH"}

var oddValues = []string{"", " ", "v", " lead", "trail ", "\ttab\t", "a,b", "a, b", `"quoted"`, `W/"x"`, "é", "日本語", "\u00a0", "\x00", "a\nb", "a\r\nX-Inject: 1", "text/html", "0", "-1", "007", "9223372036854775808", "gzip", "chunked", "close", "Mon, 01 Jan 2001 00:00:00 GMT", "a=b; Path=/; HttpOnly", strings.Repeat("0123456789", 700), `%2e%2e`, "<b>&amp;"}

func namesUnits(unit func(name string, run func(c *mc.Ctl) *mc.Fail)) {
	ops := r01ops()
	values := [][]string{{"v"}, {"a", "b", "a"}, {"", "x"}}
	give := func(b *response.Builder, m *bmodel, way int, name string, vals []string) *response.Builder {
		switch way {
		case 0:
			for _, v := range vals {
				b.WithHeader(name, v, true)
			}
		case 1:
			h := http.Header{"X-Other": {"o"}}
			h[name] = vals
			b.WithHeaders(h)
			m.hdrs["X-Other"] = []string{"o"}
		case 2:
			b.Headers()[name] = append([]string(nil), vals...)
		}
		m.hdrs[name] = append([]string(nil), vals...)
		return b
	}
	// a header of any name, followed by any builder call
	for part := 0; part < 4; part++ {
		part := part
		unit(fmt.Sprintf("names/%d", part), func(c *mc.Ctl) *mc.Fail {
			var mine []string
			for i, n := range stdNames {
				if i%4 == part {
					mine = append(mine, n)
				}
			}
			name := mine[c.Choose(len(mine), mc.Free)]
			way := c.Choose(3, mc.Free)
			vals := values[c.Choose(len(values), mc.Free)]
			copied := c.Choose(3, mc.Free)
			op := ops[c.Choose(len(ops), mc.Free)]
			c.State(uint64(mc.NewHash().S(name).S(op.name)))
			c.Trans(uint64(mc.NewHash().S(name).S(op.name).I(int64(way)).I(int64(copied)).S(vals[0])))
			m := &bmodel{hdrs: http.Header{}, body: exactly("abc", true)}
			b := give(response.NewBuilder().WithBody(body.FromString("abc")), m, way, name, vals)
			trail := fmt.Sprintf("header %s=%q given in way %d, then %s (copied: %d)", name, vals, way, op.name, copied)
			dup := func(when int) *mc.Fail {
				if copied != when {
					return nil
				}
				nb, err := b.Copy()
				if err != nil || nb == nil {
					return mc.Failf("build", "after %s: Copy failed: %v", trail, err)
				}
				b = nb
				return nil
			}
			c.Logf("%s", trail)
			if f := dup(1); f != nil {
				return f
			}
			if op.do != nil {
				pv := try(func() { op.do(b) })
				if (pv != nil) != op.refuse(m) {
					return mc.Failf("refuse", "%s: panic %v", trail, pv)
				}
				if pv == nil {
					op.model(m)
				}
			}
			if f := dup(2); f != nil {
				return f
			}
			if f := m.compare(b, trail); f != nil {
				return f
			}
			_, f := m.build(b, trail)
			return f
		})
	}
	// names in any spelling, every header call
	unit("spellings", func(c *mc.Ctl) *mc.Fail {
		all := append(append([]string(nil), oddNames...), stdNames...)
		name := all[c.Choose(len(all), mc.Free)]
		v := oddValues[c.Choose(len(oddValues), mc.Free)]
		how := c.Choose(5, mc.Free)
		key := http.CanonicalHeaderKey(name)
		c.State(uint64(mc.NewHash().S(name).S(v)))
		c.Trans(uint64(mc.NewHash().S(name).S(v).I(int64(how))))
		b := response.NewBuilder().WithBody(body.FromString("abc")).WithHeader(name, "before", false).WithHeader("X-Z", "z", false)
		m := &bmodel{hdrs: http.Header{key: {"before"}, "X-Z": {"z"}}, body: exactly("abc", true)}
		switch how {
		case 0:
			b.WithHeader(name, v, false)
			m.hdrs[key] = []string{v}
		case 1:
			b.WithHeader(name, v, true)
			m.hdrs[key] = []string{"before", v}
		case 2:
			b.WithoutHeader(name)
			delete(m.hdrs, key)
		case 3:
			b.WithHeader(name, v, true).WithHeader(name, v, true).WithHeader(name, "x", true)
			m.hdrs[key] = []string{"before", v, v, "x"}
		case 4:
			b.WithoutHeader(name).WithHeader(name, v, true)
			m.hdrs[key] = []string{v}
		}
		trail := fmt.Sprintf("header calls of kind %d with name %q, value %q", how, head(name), head(v))
		c.Logf("%s", trail)
		if f := m.compare(b, trail); f != nil {
			return f
		}
		_, f := m.build(b, trail)
		return f
	})
	// the setters that compose a value
	unit("setters", func(c *mc.Ctl) *mc.Fail {
		v := oddValues[c.Choose(len(oddValues), mc.Free)]
		how := c.Choose(4, mc.Free)
		have := c.Choose(3, mc.Free)
		c.State(uint64(mc.NewHash().S(v)))
		c.Trans(uint64(mc.NewHash().S(v).I(int64(how)).I(int64(have))))
		b := response.NewBuilder().WithBody(body.FromString("abc"))
		m := &bmodel{hdrs: http.Header{}, body: exactly("abc", true)}
		key := []string{"Content-Language", "Content-Encoding", "Etag", "Etag"}[how]
		for i := 0; i < have; i++ {
			b.WithHeader(key, fmt.Sprint("before", i), true)
		}
		switch how {
		case 0:
			b.WithContentLanguage(v)
			m.hdrs[key] = []string{strings.TrimSpace(v)}
		case 1:
			b.WithContentEncoding(v)
			m.hdrs[key] = []string{strings.TrimSpace(v)}
		case 2, 3:
			b.WithETag(v, how == 2)
			m.hdrs[key] = []string{[]string{`"`, `W/"`}[how-2] + v + `"`}
		}
		trail := fmt.Sprintf("%s set from %q with %d values before", key, head(v), have)
		c.Logf("%s", trail)
		if f := m.compare(b, trail); f != nil {
			return f
		}
		_, f := m.build(b, trail)
		return f
	})
	unit("digests", func(c *mc.Ctl) *mc.Fail {
		n := 1 + c.Choose(70, mc.Free)
		algo := []string{"sha-256", "SHA-512", "md5", "id-sha-256", "x", "a=b"}[c.Choose(6, mc.Free)]
		fill := []byte{0, 0xff, 0x3e, 0x55}[c.Choose(4, mc.Free)]
		times := 1 + c.Choose(3, mc.Free)
		c.State(uint64(mc.NewHash().S(algo).I(int64(n))))
		c.Trans(uint64(mc.NewHash().S(algo).I(int64(n)).I(int64(fill)).I(int64(times))))
		b := response.NewBuilder().WithBody(body.FromString("abc"))
		m := &bmodel{hdrs: http.Header{}, body: exactly("abc", true)}
		for i := 0; i < times; i++ {
			sum := bytes.Repeat([]byte{fill}, n)
			sum[n-1] ^= byte(i)
			b.WithDigest(algo, sum)
			m.hdrs["Digest"] = append(m.hdrs["Digest"], algo+"="+base64.StdEncoding.EncodeToString(sum))
			sum[0] ^= 0x11
		}
		trail := fmt.Sprintf("%d digests %q of %d bytes", times, algo, n)
		c.Logf("%s", trail)
		if f := m.compare(b, trail); f != nil {
			return f
		}
		_, f := m.build(b, trail)
		return f
	})
	// the recorded error is the one given, whatever it is
	unit("errors", func(c *mc.Ctl) *mc.Fail {
		errs := []error{io.EOF, io.ErrUnexpectedEOF, fs.ErrClosed, fs.ErrNotExist, os.ErrDeadlineExceeded, http.ErrAbortHandler, http.ErrNotSupported, http.ErrHandlerTimeout, http.ErrBodyNotAllowed, http.ErrContentLength,
			errors.New(""), fmt.Errorf("w: %w", io.EOF), &fs.PathError{Op: "open", Path: "/x", Err: fs.ErrPermission}, (*nilErr)(nil), listVal(), &statusErr{}, &http.ProtocolError{ErrorString: "p"}}
		e := errs[c.Choose(len(errs), mc.Free)]
		how := c.Choose(4, mc.Free)
		k := c.Choose(len(ops), mc.Free)
		c.State(uint64(mc.NewHash().S(fmt.Sprintf("%T", e)).I(int64(k))))
		c.Trans(uint64(mc.NewHash().S(fmt.Sprintf("%T%v", e, e)).I(int64(k)).I(int64(how))))
		b := response.NewBuilder().WithBody(body.FromString("abc")).WithStatus(202)
		code := 202
		bc := exactly("abc", true)
		same := func(x error) bool { return sameVal(x, e) }
		switch how {
		case 0:
			b.WithError(e)
		case 1:
			b.WithError(io.ErrShortBuffer).WithError(e)
		case 2, 3:
			code = []int{404, 500}[how-2]
			b.ErrorPage(code, e)
			bc = nil
		}
		trail := fmt.Sprintf("error %T %q given in way %d, then %s", e, e, how, ops[k].name)
		c.Logf("%s", trail)
		if !same(b.Err()) {
			return mc.Failf("builder", "%s: Err() is %v", trail, b.Err())
		}
		switch n := ops[k].name; {
		case strings.HasPrefix(n, "With") && !strings.HasPrefix(n, "WithStatus") && !strings.HasPrefix(n, "WithError") && !strings.HasPrefix(n, "WithBody") && !strings.Contains(n, "JSON") && !strings.Contains(n, "Proto"):
			try(func() { ops[k].do(b) })
		}
		if c.Choose(2, mc.Free) == 1 {
			nb, err := b.Copy()
			if err != nil {
				return mc.Failf("build", "%s: Copy failed: %v", trail, err)
			}
			b = nb
		}
		r := b.Build()
		if !same(r.Err()) {
			return mc.Failf("build", "%s: the response's error is %v", trail, r.Err())
		}
		if r.Status() != code {
			return mc.Failf("build", "%s: the response's status is %d", trail, r.Status())
		}
		if c.Choose(2, mc.Free) == 1 {
			r2, err := r.Copy()
			if err != nil {
				return mc.Failf("build", "%s: copying the response failed: %v", trail, err)
			}
			if !same(r2.Err()) {
				return mc.Failf("build", "%s: the copied response's error is %v", trail, r2.Err())
			}
		}
		if got, f := readCopy(r.Body()); f != nil {
			return f
		} else if bc != nil && !bc.check(got) {
			return mc.Failf("build", "%s: the response's body is %q", trail, head(string(got)))
		}
		return nil
	})
}
