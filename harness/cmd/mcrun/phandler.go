//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/fakew"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)

// ---- H01 / H02: the adaptor around handlers that do anything ----

// metrics is a snapshot of everything the adaptor exports.
type metrics struct {
	panics                 float64
	reqs, lat, recv, sent  map[string]float64
	nLat, nRecv, nSent     uint64
	sumLat, sumSent, total float64
}

func vec(v *prometheus.CounterVec) map[string]float64 {
	out := map[string]float64{}
	ch := make(chan prometheus.Metric, 4096)
	v.Collect(ch)
	close(ch)
	for m := range ch {
		var d dto.Metric
		if err := m.Write(&d); err != nil {
			panic(err)
		}
		l := ""
		for _, p := range d.Label {
			if p.GetName() == "code" {
				l = p.GetValue()
			} else {
				l = "unexpected label " + p.GetName()
			}
		}
		out[l] = d.Counter.GetValue()
	}
	return out
}

func snapshot() (m metrics) {
	m.reqs, m.lat = vec(handler.PromRequestsTotal), vec(handler.PromLatencyTotal)
	m.recv, m.sent = vec(handler.PromRecvBytesTotal), vec(handler.PromSendBytesTotal)
	var d dto.Metric
	handler.PromPanicsTotal.Write(&d)
	m.panics = d.Counter.GetValue()
	h := func(x prometheus.Histogram) (uint64, float64) {
		var d dto.Metric
		x.Write(&d)
		n := d.Histogram.GetSampleCount()
		// the buckets have to agree with the count
		last := uint64(0)
		for _, b := range d.Histogram.Bucket {
			last = b.GetCumulativeCount()
		}
		if last > n {
			n = 1 << 60
		}
		return n, d.Histogram.GetSampleSum()
	}
	m.nLat, m.sumLat = h(handler.PromLatencyHist)
	m.nRecv, _ = h(handler.PromRecvBytesHist)
	m.nSent, m.sumSent = h(handler.PromSendBytesHist)
	return m
}

// diff renders what changed in one vector; a new series shows even with value 0.
func diff(a, b map[string]float64) map[string]float64 {
	out := map[string]float64{}
	for k, v := range b {
		if old, ok := a[k]; !ok || old != v {
			out[k] = v - a[k]
		}
	}
	return out
}

// hreq is one request and all that is expected of it.
type hreq struct {
	name     string
	caps     int
	method   string
	prewrap  int // 0 no, 1 wrapped before, 2 wrapped and header already sent
	w        *fakew.W
	rec      *recBody
	src      *env.Src
	bd       body.Body
	closeE   error
	want     http.Header
	code     int
	data     string
	early    bool // fails before a header is sent
	failed   bool // the handler itself fails
	panicV   interface{}
	hasPanic bool
	anyErr   bool // the error passed on is not determined
	h        handler.Handler
	ad       *handler.Adaptor // nil: one of its own
	slept    time.Duration
	push     []string
	hooked   []error
	escaped  interface{}
	noHeader bool // the response has no determined header
	yield    bool
	req      *http.Request // nil: a plain one
	rw       http.ResponseWriter
	noHook   bool // the default hook is in place
}

var errHandler = errors.New("handler failed")

type customErr struct{ s string }

func (e *customErr) Error() string { return e.s }

// behaviours lists what handlers may do; each returns the request it concerns.
type behaviour struct {
	name string
	set  func(c *mc.Ctl, q *hreq)
}

func respond(sb served, code int, push []string, hdr http.Header, faults bool, ce error) func(c *mc.Ctl, q *hreq) {
	return func(c *mc.Ctl, q *hreq) {
		bd, rec, src := sb.mk(c, faults, ce)
		if src != nil && !faults {
			src.Ctl = nil
		}
		q.bd, q.rec, q.src, q.closeE = bd, rec, src, ce
		b := response.NewBuilder().WithBody(bd).WithStatus(code)
		for k, vl := range hdr {
			for _, v := range vl {
				b.WithHeader(k, v, true)
			}
		}
		for _, p := range push {
			b.WithHeader("Push", p, true)
		}
		r := b.Build()
		q.want = cloneHdr(r.Headers())
		delete(q.want, "Push")
		q.code, q.data, q.push = code, sb.data, push
		q.h = handler.HandlerFunc(func(*http.Request) response.Response {
			if q.yield {
				mc.Yield()
			}
			return *r
		})
	}
}

func panics(v interface{}) func(c *mc.Ctl, q *hreq) {
	return func(c *mc.Ctl, q *hreq) {
		q.early, q.failed, q.hasPanic, q.panicV = true, true, true, v
		q.h = handler.HandlerFunc(func(*http.Request) response.Response {
			if q.yield {
				mc.Yield()
			}
			panic(v)
		})
	}
}

func badBehaviours() []behaviour {
	l := []behaviour{
		{"panic(error)", panics(errHandler)},
		{"panic(wrapped error)", panics(fmt.Errorf("wrapped: %w", errHandler))},
		{"panic(*customErr)", panics(&customErr{"custom"})},
		{"panic(string)", panics("a string")},
		{"panic(int)", panics(42)},
		{"panic(struct)", panics(struct{ A, B int }{1, 2})},
		{"panic(PanicError)", panics(handler.PanicError{Value: "nested"})},
		{"panic(http.ErrAbortHandler)", panics(http.ErrAbortHandler)},
		{"panic(fmt.Stringer)", panics(time.Second)},
		{"nil pointer", func(c *mc.Ctl, q *hreq) {
			q.early, q.failed, q.anyErr = true, true, true
			q.h = handler.HandlerFunc(func(*http.Request) response.Response {
				var p *http.Request
				_ = p.Method
				return response.Response{}
			})
		}},
		{"no handler", func(c *mc.Ctl, q *hreq) { q.early, q.failed, q.anyErr = true, true, true; q.h = nil }},
		{"zero Response", func(c *mc.Ctl, q *hreq) {
			q.early, q.failed, q.anyErr = true, true, true
			q.h = handler.HandlerFunc(func(*http.Request) response.Response { return response.Response{} })
		}},
		{"Build without body", func(c *mc.Ctl, q *hreq) {
			q.early, q.failed, q.anyErr = true, true, true
			q.h = handler.HandlerFunc(func(*http.Request) response.Response {
				return *response.NewBuilder().WithStatus(200).Build()
			})
		}},
		{"closed body", func(c *mc.Ctl, q *hreq) {
			respond(servedBodies()[0], 200, nil, nil, false, nil)(c, q)
			q.bd.Close()
			q.data, q.failed, q.anyErr = "", true, true
		}},
	}
	return l
}

func bodyByName(n string) served {
	for _, sb := range servedBodies() {
		if sb.name == n {
			return sb
		}
	}
	panic(n)
}

var bigBody = served{"big", func(c *mc.Ctl, _ bool, _ error) (body.Body, *recBody, *env.Src) {
	return body.FromString(strings.Repeat("x", 70001)), nil, nil
}, strings.Repeat("x", 70001), 0}

var bigStream = served{"big-stream", func(c *mc.Ctl, _ bool, ce error) (body.Body, *recBody, *env.Src) {
	s := &env.Src{Ctl: nil, N: 70001, CloseE: ce}
	b, err := body.FromReaderAndLength(s.Reader(env.Caps{Close: true}), -1)
	if err != nil {
		panic(err)
	}
	return b, nil, s
}, string(env.Bytes(70001)), 0}

func goodBehaviours(faults bool) []behaviour {
	var l []behaviour
	for _, n := range []string{"memory", "empty", "readerat", "seeker", "stream", "stream-known", "custom/known=false/writeto=false/\"abcde\"", "custom/known=true/writeto=true/\"abcde\"", "custom/known=true/writeto=false/\"\""} {
		sb := bodyByName(n)
		for _, code := range []int{200, 204, 304, 404, 500, 503, 999} {
			for _, push := range [][]string{nil, {"/a"}} {
				if push != nil && code != 200 && code != 204 {
					continue
				}
				l = append(l, behaviour{fmt.Sprintf("%s/%d/push=%d", n, code, len(push)), respond(sb, code, push, http.Header{"X-A": {"1", "2"}}, faults, nil)})
			}
		}
		if n != "memory" && n != "empty" {
			l = append(l, behaviour{n + "/close fails", respond(sb, 200, nil, nil, faults, errCloseInjected())})
		}
	}
	for _, sb := range []served{bigBody, bigStream} {
		l = append(l, behaviour{sb.name, respond(sb, 200, nil, nil, false, nil)})
	}
	return l
}

// begin makes the environment of one request.
func (q *hreq) begin(c *mc.Ctl, m fakew.Menu, b behaviour) {
	q.name = b.name
	q.w = fakew.New(c, m)
	q.w.H["X-Kept"] = []string{"kept"}
	b.set(c, q)
	if q.want != nil {
		q.want["X-Kept"] = []string{"kept"}
	}
	if q.src != nil {
		q.src.BeginOp()
	}
}

var hookMu sync.Mutex

// serve runs the request through the adaptor.
func (q *hreq) serve() {
	var rw http.ResponseWriter = q.w.As(q.caps)
	if q.rw != nil {
		rw = q.rw
	}
	req := q.req
	if req == nil {
		req = &http.Request{Method: q.method, Header: http.Header{}}
	}
	if q.prewrap > 0 {
		ww := response.NewWriter(rw, req)
		if q.prewrap == 2 {
			ww.WriteHeader(202)
		}
		rw = ww
	}
	a := q.ad
	if a == nil {
		a = &handler.Adaptor{Inner: q.h}
	}
	q.escaped = try(func() { a.ServeHTTP(rw, req) })
}

func (q *hreq) what() string {
	p := ""
	if q.prewrap > 0 {
		p = []string{"", ", wrapped before", ", wrapped before and status 202 already sent"}[q.prewrap]
	}
	return fmt.Sprintf("%s request, handler %s, %s writer%s: writer received [%s], hook got %v", q.method, q.name, fakew.CapNames(q.caps), p, q.w.Trace(), q.hooked)
}

// failures finds out what went wrong in the environment.
func (q *hreq) failures() (failed, early bool, errs []error, vals []interface{}, headPanic bool) {
	w := q.w
	errs = append(errs, w.Errs...)
	vals = append(vals, w.Panics...)
	if q.hasPanic {
		vals = append(vals, q.panicV)
	}
	if q.rec != nil {
		errs = append(errs, q.rec.errs...)
		vals = append(vals, q.rec.panics...)
	}
	if q.src != nil {
		errs = append(errs, q.src.OpErrs...)
		vals = append(vals, q.src.PanicVals...)
	}
	if len(errs)+len(vals) == 0 && q.closeE != nil {
		errs = append(errs, q.closeE)
	}
	early = q.early
	for _, k := range w.Calls {
		if !k.Failed {
			continue
		}
		switch k.Name {
		case "Header":
			early = true
		case "Push":
			early = true
		case "WriteHeader":
			headPanic = true
		}
	}
	failed = q.failed || len(errs)+len(vals) > 0 || q.prewrap == 2
	return
}

// unwound reports whether a panic passed through a ReadFrom of the writer, so
// that nobody was told how much it had accepted.
func (q *hreq) unwound() bool {
	n := 0
	if q.rec != nil {
		n += len(q.rec.panics)
	}
	if q.src != nil {
		n += len(q.src.PanicVals)
	}
	if q.hasPanic && !q.early {
		n++ // a panic from the body
	}
	if n+len(q.w.Panics) == 0 {
		return false
	}
	for _, k := range q.w.Calls {
		if k.Name == "ReadFrom" {
			return true
		}
	}
	return false
}

// checkH01 judges one finished request.
func (q *hreq) checkH01() *mc.Fail {
	w := q.w
	what := q.what()
	if q.escaped != nil {
		return mc.Failf("escape", "%s: panic %v left the adaptor", what, q.escaped)
	}
	failed, early, errs, vals, headPanic := q.failures()
	// exactly one status
	want := q.code
	if early {
		want = 500
	}
	if q.prewrap == 2 {
		want = 202
	}
	if !headPanic {
		nh := 0
		for _, k := range w.Calls {
			if k.Name == "WriteHeader" {
				nh++
			}
		}
		if nh > 1 || w.Sent == nil {
			return mc.Failf("status", "%s: the client got %d statuses", what, nh)
		}
		if w.Status != want {
			return mc.Failf("status", "%s: the client got status %d, want %d", what, w.Status, want)
		}
	}
	// the hook
	if !failed {
		if len(q.hooked) != 0 {
			return mc.Failf("hook", "%s: the hook was called although nothing failed", what)
		}
		if !hdrEqual(w.Sent, q.want) {
			return mc.Failf("sent", "%s: sent headers %s, want %s", what, hdrString(w.Sent), hdrString(q.want))
		}
		data := q.data
		if q.method == "HEAD" || want == 204 || want == 304 {
			data = ""
		}
		if string(w.Body) != data {
			return mc.Failf("sent", "%s: sent body %.40q (%d bytes), want %.40q (%d bytes)", what, w.Body, len(w.Body), data, len(data))
		}
	} else {
		if q.prewrap == 2 && len(errs)+len(vals) == 0 && !q.failed && len(q.hooked) == 0 {
			return nil // the second header was refused without a panic
		}
		if q.noHook {
			return nil
		}
		if len(q.hooked) != 1 {
			return mc.Failf("hook", "%s: the hook was called %d times", what, len(q.hooked))
		}
		e := q.hooked[0]
		if e == nil {
			return mc.Failf("hook", "%s: the hook got a nil error", what)
		}
		if !q.anyErr && q.prewrap != 2 {
			ok := false
			for _, x := range errs {
				ok = ok || carries(e, x) || errors.Is(e, x)
			}
			for _, v := range vals {
				if err, is := v.(error); is {
					ok = ok || sameErr(e, err)
				} else {
					var pe handler.PanicError
					if ok = ok || errors.As(e, &pe) && sameVal(pe.Value, v); ok {
						_ = e.Error() // the hook will want to log it
					}
				}
			}
			if !ok {
				return mc.Failf("hook", "%s: the hook got %v (%T), want one of %v %v", what, e, e, errs, vals)
			}
		} else if q.name == "nil pointer" {
			var re runtime.Error
			if !errors.As(e, &re) && !strings.Contains(e.Error(), "assert") {
				return mc.Failf("hook", "%s: the hook got %v (%T), want the runtime error", what, e, e)
			}
		}
		data := q.data
		if q.method == "HEAD" || w.Status == 204 || w.Status == 304 {
			data = ""
		}
		if !strings.HasPrefix(data, string(w.Body)) {
			return mc.Failf("sent", "%s: sent body %q, which the response does not start with (%q)", what, w.Body, data)
		}
	}
	return nil
}

// checkH02 compares the growth of the metrics with the finished requests.
func checkH02(a, b metrics, wall time.Duration, qs ...*hreq) *mc.Fail {
	var ws []string
	reqs := map[string]float64{}
	sent := map[string]float64{}
	min := map[string]float64{}
	var sumSent, minLat, panics float64
	unsure := false
	slack, slackSum := map[string]float64{}, 0.0
	for _, q := range qs {
		ws = append(ws, q.what())
		failed, _, _, _, headPanic := q.failures()
		if headPanic {
			unsure = true
		}
		if q.unwound() {
			slack[fmt.Sprint(q.w.Status)] += float64(len(q.w.Body))
			slackSum += float64(len(q.w.Body))
		}
		l := fmt.Sprint(q.w.Status)
		reqs[l]++
		sent[l] += float64(len(q.w.Body))
		min[l] += q.slept.Seconds()
		sumSent += float64(len(q.w.Body))
		minLat += q.slept.Seconds()
		if failed && (q.prewrap != 2 || q.failed || len(q.hooked) > 0) {
			panics++
		}
	}
	what := strings.Join(ws, "; then ")
	n := uint64(len(qs))
	if g := b.panics - a.panics; g != panics {
		return mc.Failf("metric", "%s: the panic counter grew by %v, want %v", what, g, panics)
	}
	if b.nLat-a.nLat != n || b.nRecv-a.nRecv != n || b.nSent-a.nSent != n {
		return mc.Failf("metric", "%s: the histograms gained %d, %d and %d observations (latency, received, sent), want %d each", what, b.nLat-a.nLat, b.nRecv-a.nRecv, b.nSent-a.nSent, n)
	}
	if g := b.sumSent - a.sumSent; g > sumSent || g < sumSent-slackSum {
		return mc.Failf("metric", "%s: the sent bytes histogram grew by %v, want %v", what, g, sumSent)
	}
	eps := 1e-6 + b.sumLat*1e-9
	if g := b.sumLat - a.sumLat; g < minLat-eps || g > float64(n)*wall.Seconds()+eps {
		return mc.Failf("metric", "%s: the latency histogram grew by %v s, the requests took at least %v s and all of this took %v", what, g, minLat, wall)
	}
	dr := diff(a.reqs, b.reqs)
	if unsure {
		var t float64
		for _, v := range dr {
			t += v
		}
		if t != float64(n) {
			return mc.Failf("metric", "%s: the request counters grew by %v", what, dr)
		}
		return nil
	}
	if fmt.Sprint(dr) != fmt.Sprint(reqs) {
		return mc.Failf("metric", "%s: the request counters grew by %v (by status), want %v", what, dr, reqs)
	}
	for _, v := range []struct {
		name string
		a, b map[string]float64
	}{{"latency", a.lat, b.lat}, {"received bytes", a.recv, b.recv}, {"sent bytes", a.sent, b.sent}} {
		d := diff(v.a, v.b)
		for k, x := range d {
			if reqs[k] == 0 {
				return mc.Failf("metric", "%s: the %s counter grew under label %q by %v", what, v.name, k, x)
			}
			if x < 0 {
				return mc.Failf("metric", "%s: the %s counter shrank under label %q", what, v.name, k)
			}
		}
		for k := range reqs {
			if _, ok := v.b[k]; !ok {
				return mc.Failf("metric", "%s: there is no %s counter with label %q", what, v.name, k)
			}
			switch v.name {
			case "sent bytes":
				if d[k] > sent[k] || d[k] < sent[k]-slack[k] {
					return mc.Failf("metric", "%s: the sent bytes counter with label %s grew by %v, want %v", what, k, d[k], sent[k])
				}
			case "latency":
				if d[k] < min[k]-eps || d[k] > float64(n)*wall.Seconds()+eps {
					return mc.Failf("metric", "%s: the latency counter with label %s grew by %v s, the requests took at least %v s and all of this took %v", what, k, d[k], min[k], wall)
				}
			}
		}
	}
	return nil
}

var hcaps = []int{0, fakew.Flusher | fakew.Pusher, fancyCaps, fakew.All}

func hMenu() fakew.Menu {
	return fakew.Menu{WriteErr: true, WritePart: true, PushMenu: true, PushPanic: true, WritePanic: true, HdrPanic: true}
}

func hRun(c *mc.Ctl, caps int, envB int, bs []behaviour, follow []behaviour, metricsToo bool) *mc.Fail {
	old := handler.OnPanic
	defer func() { handler.OnPanic = old }()
	var qs []*hreq
	var cur *hreq
	handler.OnPanic = func(e error) { cur.hooked = append(cur.hooked, e) }
	ad := &handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response { return cur.h.Handle(r) })}
	var a metrics
	if metricsToo {
		a = snapshot()
	}
	start := time.Now()
	one := func(list []behaviour) *mc.Fail {
		q := &hreq{caps: caps, ad: ad}
		q.method = []string{"GET", "HEAD", "POST"}[c.Choose(3, mc.Free)]
		q.prewrap = c.Choose(3, mc.Free)
		b := list[c.Choose(len(list), mc.Free)]
		cur = q
		q.begin(c, hMenu(), b)
		// after a failure the recovery's own header call has to work
		q.w.M.HeadPanic = envB == 1 && !q.failed && q.prewrap != 2
		q.serve()
		qs = append(qs, q)
		c.Logf("%s", q.what())
		h := mc.NewHash().S(q.w.Trace()).S(q.name).S(q.method).I(int64(q.prewrap)).I(int64(len(q.hooked)))
		c.State(uint64(h))
		c.Trans(uint64(h.I(int64(len(qs)))))
		c.Outcome(uint64(h))
		return q.checkH01()
	}
	if f := one(bs); f != nil && !metricsToo {
		return f
	}
	if follow != nil {
		if f := one(follow); f != nil && !metricsToo {
			return f
		}
	}
	if metricsToo {
		wall := time.Since(start)
		for _, q := range qs {
			if q.escaped != nil {
				return q.checkH01()
			}
		}
		return checkH02(a, snapshot(), wall, qs...)
	}
	return nil
}

// a few behaviours for the second request of a sequence
func followers() []behaviour {
	return []behaviour{
		{"ok after", respond(bodyByName("memory"), 200, nil, http.Header{"X-B": {"1"}}, false, nil)},
		{"404 after", respond(bodyByName("stream"), 404, nil, nil, false, nil)},
		{"panic after", panics("again")},
	}
}

func hUnits(tier string, metricsToo bool) []*mc.Unit {
	var out []*mc.Unit
	all := append(badBehaviours(), goodBehaviours(true)...)
	for _, caps := range hcaps {
		for i := range all {
			caps, i := caps, i
			e := pick(tier, 1, 2)
			out = append(out, &mc.Unit{Name: fmt.Sprintf("%s/%s", all[i].name, fakew.CapNames(caps)), Bounds: mc.Bounds{Env: 1}, Run: func(c *mc.Ctl) (f *mc.Fail) {
				mc.SeqMode = true
				defer func() { mc.SeqMode = false }()
				defer guard(&f)
				return hRun(c, caps, 1, all[i:i+1], nil, metricsToo)
			}})
			out = append(out, &mc.Unit{Name: fmt.Sprintf("then/%s/%s", all[i].name, fakew.CapNames(caps)), Bounds: mc.Bounds{Env: e - 1}, Run: func(c *mc.Ctl) (f *mc.Fail) {
				mc.SeqMode = true
				defer func() { mc.SeqMode = false }()
				defer guard(&f)
				return hRun(c, caps, 1, all[i:i+1], followers(), metricsToo)
			}})
			if e > 1 {
				out = append(out, &mc.Unit{Name: fmt.Sprintf("two/%s/%s", all[i].name, fakew.CapNames(caps)), Bounds: mc.Bounds{Env: 2}, Run: func(c *mc.Ctl) (f *mc.Fail) {
					mc.SeqMode = true
					defer func() { mc.SeqMode = false }()
					defer guard(&f)
					return hRun(c, caps, 2, all[i:i+1], nil, metricsToo)
				}})
			}
		}
	}
	// concurrent requests
	few := []behaviour{
		{"ok", respond(bodyByName("memory"), 200, nil, http.Header{"X-A": {"ok"}}, false, nil)},
		{"stream", respond(bodyByName("stream"), 404, nil, http.Header{"X-A": {"stream"}}, false, nil)},
		{"custom", respond(bodyByName("custom/known=false/writeto=false/\"abcde\""), 201, []string{"/a"}, nil, false, nil)},
		{"panic(error)", panics(errHandler)},
		{"panic(string)", panics("a string")},
		{"close fails", respond(bodyByName("stream"), 201, nil, nil, false, errCloseInjected())},
		{"closed body", badBehaviours()[len(badBehaviours())-1].set},
	}
	for i := range few {
		for j := range few {
			for _, caps := range []int{0, fakew.All} {
				caps, i, j := caps, i, j
				if metricsToo && (caps == 0) == ((i+j)%2 == 0) {
					out = append(out, &mc.Unit{Name: fmt.Sprintf("cold/%s/%s/%s", few[i].name, few[j].name, fakew.CapNames(caps)), Cold: true, Bounds: mc.Bounds{Preempt: 1}, Run: func(c *mc.Ctl) (f *mc.Fail) {
						defer guard(&f)
						return hConc(c, caps, []behaviour{few[i], few[j]}, metricsToo)
					}})
				}
				out = append(out, &mc.Unit{Name: fmt.Sprintf("concurrent/%s/%s/%s", few[i].name, few[j].name, fakew.CapNames(caps)), Bounds: mc.Bounds{Preempt: pick(tier, 2, 4)}, Run: func(c *mc.Ctl) (f *mc.Fail) {
					defer guard(&f)
					return hConc(c, caps, []behaviour{few[i], few[j]}, metricsToo)
				}})
			}
		}
	}
	var some []behaviour
	for _, i := range []int{0, 1, 3, 5} {
		some = append(some, few[i])
	}
	for i := range some {
		for j := i; j < len(some); j++ {
			for k := j; k < len(some); k++ {
				bs := []behaviour{some[i], some[j], some[k]}
				caps := []int{0, fakew.All}[(i+j+k)%2]
				out = append(out, &mc.Unit{Name: fmt.Sprintf("three/%s/%s/%s/%s", bs[0].name, bs[1].name, bs[2].name, fakew.CapNames(caps)), Bounds: mc.Bounds{Preempt: pick(tier, 1, 2)}, Run: func(c *mc.Ctl) (f *mc.Fail) {
					defer guard(&f)
					return hConc(c, caps, bs, metricsToo)
				}})
			}
		}
	}
	out = append(out, hmore(tier, metricsToo)...)
	if metricsToo {
		for _, b := range []behaviour{few[0], few[3]} {
			b := b
			out = append(out, &mc.Unit{Name: "slow/" + b.name, Run: func(c *mc.Ctl) (f *mc.Fail) {
				mc.SeqMode = true
				defer func() { mc.SeqMode = false }()
				defer guard(&f)
				return hSlow(c, b)
			}})
		}
	}
	return out
}

// hSlow measures a handler that takes a known minimum of time.
func hSlow(c *mc.Ctl, b behaviour) *mc.Fail {
	old := handler.OnPanic
	defer func() { handler.OnPanic = old }()
	q := &hreq{method: "GET", slept: 3 * time.Millisecond}
	handler.OnPanic = func(e error) { q.hooked = append(q.hooked, e) }
	q.begin(nil, fakew.Menu{}, b)
	inner := q.h
	q.h = handler.HandlerFunc(func(r *http.Request) response.Response {
		time.Sleep(q.slept)
		return inner.Handle(r)
	})
	a := snapshot()
	start := time.Now()
	q.serve()
	wall := time.Since(start)
	return checkH02(a, snapshot(), wall, q)
}

func hConc(c *mc.Ctl, caps int, bs []behaviour, metricsToo bool) *mc.Fail {
	old := handler.OnPanic
	defer func() { handler.OnPanic = old }()
	var qs []*hreq
	handler.OnPanic = func(e error) {
		mc.Yield()
		if t := mc.ThreadID(); t >= 0 && t < len(qs) {
			qs[t].hooked = append(qs[t].hooked, e)
		}
	}
	var fns []func()
	mc.SeqMode = true
	ad := &handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response { return qs[mc.ThreadID()].h.Handle(r) })}
	for i, b := range bs {
		q := &hreq{caps: caps, method: "GET", yield: true, ad: ad}
		if i > 0 {
			q.method = []string{"GET", "HEAD"}[c.Choose(2, mc.Free)]
		}
		q.begin(nil, fakew.Menu{}, b)
		q.w.Yields = true
		if q.src != nil {
			q.src.Yields = true
		}
		qs = append(qs, q)
		fns = append(fns, q.serve)
	}
	mc.SeqMode = false
	var a metrics
	if metricsToo {
		a = snapshot()
	}
	start := time.Now()
	races := mc.RaceErrors()
	res := mc.RunThreads(c, fns)
	wall := time.Since(start)
	if n := mc.RaceErrors() - races; n > 0 {
		return mc.Failf("race", "%d data race(s) reported by the race detector with requests at the same time: %s / %s", n, bs[0].name, bs[1].name)
	}
	for _, q := range qs {
		if q.src != nil {
			q.src.Yields = false
		}
	}
	if f := threadFail(res); f != nil {
		if f.Cat == "panic" {
			f.Cat = "escape"
		}
		return f
	}
	h := mc.NewHash()
	for _, q := range qs {
		h = h.S(q.w.Trace())
		c.Logf("%s", q.what())
		if f := q.checkH01(); f != nil && !metricsToo {
			return f
		}
	}
	c.Outcome(uint64(h))
	if metricsToo {
		return checkH02(a, snapshot(), wall, qs...)
	}
	return nil
}

// sameVal compares panic values of any type.
func sameVal(a, b interface{}) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if t := reflect.TypeOf(a); t != nil && t.Kind() == reflect.Func {
		return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	}
	return reflect.DeepEqual(a, b)
}

// nilErr is an error type whose nil pointer is a usable error.
type nilErr struct{}

func (*nilErr) Error() string { return "nil error" }

// cyclic is a value that fmt does not follow for ever only because of a pointer.
type node struct {
	Name string
	Next *node
}

// loudStringer panics when printed.
type loudStringer struct{}

func (loudStringer) String() string { panic("no printing") }

func panicValues() []interface{} {
	n := &node{Name: "n"}
	n.Next = n
	return []interface{}{
		errHandler, (*nilErr)(nil), listVal(), http.ErrAbortHandler, http.ErrServerClosed, io.EOF, io.ErrUnexpectedEOF, context.Canceled, &net.OpError{Op: "read", Err: io.EOF}, fmt.Errorf("w: %w", http.ErrAbortHandler), errors.New(""),
		handler.PanicError{Value: 1}, handler.PanicError{}, &handler.PanicError{Value: "p"}, handler.PanicError{Value: errHandler},
		"", "text", 0, 42, int64(-1), 3.5, true, false, 'x', []string{"a", "b"}, []byte("bytes"), []interface{}{}, map[string]int{"a": 1}, map[string]int(nil), [2]int{1, 2}, struct{}{}, struct{ A, B interface{} }{1, []int{2}}, &struct{ X int }{3}, (*int)(nil), n, make(chan int), func() {}, panicValues, time.Second, loudStringer{}, http.StatusTeapot, http.Header{"X": {"y"}}, response.NewBuilder(), complex(1, 2), uintptr(7), strings.Repeat("long ", 20000),
	}
}

func listVal() error { return env.NewErr(3, "uncomparable") }

// panicBody panics with v after n bytes.
type panicBody struct {
	n, at int
	v     interface{}
}

func (b *panicBody) BytesRemaining() int64    { return -1 }
func (b *panicBody) Close() error             { return nil }
func (b *panicBody) Copy() (body.Body, error) { return nil, errors.New("no copies") }
func (b *panicBody) Unwrap() io.Reader        { return nil }
func (b *panicBody) Read(p []byte) (int, error) {
	if b.at >= b.n {
		panic(b.v)
	}
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = 'p'
	b.at++
	return 1, nil
}

// requests are the kinds of request a server hands out.
func requests() []*http.Request {
	u, _ := url.Parse("http://user@example.com/a/b?c=d#e")
	done, cancel := context.WithCancel(context.Background())
	cancel()
	late, cancel2 := context.WithDeadline(context.Background(), time.Unix(1, 0))
	cancel2()
	base := func() *http.Request {
		return &http.Request{Method: "GET", URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "example.com", RemoteAddr: "192.0.2.1:1234", RequestURI: "/a/b?c=d"}
	}
	with := func(k, v string) *http.Request {
		r := base()
		r.Header.Set(k, v)
		return r
	}
	l := []*http.Request{{Method: "GET"}, base(), base().WithContext(done), base().WithContext(late),
		with("Range", "bytes=1-2"), with("If-None-Match", "*"), with("If-None-Match", "\"t\""), with("If-Match", "\"zzz\""), with("If-Modified-Since", "Mon, 01 Jan 2060 00:00:00 GMT"), with("Accept-Encoding", "gzip"), with("Accept", "image/png"), with("Connection", "close"), with("Upgrade", "websocket"), with("Expect", "100-continue"), with("X-Http-Method-Override", "HEAD"), with("Transfer-Encoding", "chunked"), with("Te", "trailers")}
	r := base()
	r.Proto, r.ProtoMinor = "HTTP/1.0", 0
	l = append(l, r)
	r = base()
	r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
	l = append(l, r)
	r = base()
	r.Body, r.ContentLength = io.NopCloser(strings.NewReader("request body")), 12
	l = append(l, r)
	r = base()
	r.Body, r.ContentLength = io.NopCloser(failing{}), -1
	l = append(l, r)
	r = base()
	r.Close = true
	r.Trailer = http.Header{"X-T": nil}
	l = append(l, r)
	return l
}

type failing struct{}

func (failing) Read([]byte) (int, error) { return 0, errors.New("the request body fails") }

// hmore has the families beyond the fault exploration.
func hmore(tier string, metricsToo bool) []*mc.Unit {
	var out []*mc.Unit
	unit := func(name string, b mc.Bounds, run func(c *mc.Ctl) *mc.Fail) {
		out = append(out, &mc.Unit{Name: name, Bounds: b, Run: func(c *mc.Ctl) (f *mc.Fail) {
			mc.SeqMode = true
			defer func() { mc.SeqMode = false }()
			defer guard(&f)
			return run(c)
		}})
	}
	// one runs requests in a row, judged one by one or all together
	run := func(c *mc.Ctl, qs []*hreq) *mc.Fail {
		old := handler.OnPanic
		defer func() { handler.OnPanic = old }()
		var a metrics
		if metricsToo {
			a = snapshot()
		}
		t0 := time.Now()
		for _, q := range qs {
			q := q
			if q.noHook {
				handler.OnPanic = handler.DefaultOnPanic
			} else {
				handler.OnPanic = func(e error) { q.hooked = append(q.hooked, e) }
			}
			q.serve()
			if c.Verbose {
				c.Logf("%s", head(q.what()))
			}
			h := mc.NewHash().S(q.w.Trace()).S(q.name).S(q.method).I(int64(len(q.hooked)))
			c.State(uint64(h))
			c.Trans(uint64(h.I(int64(q.caps))))
			c.Outcome(uint64(h))
			if f := q.checkH01(); f != nil && (!metricsToo || f.Cat == "escape") {
				return f
			}
		}
		if metricsToo {
			return checkH02(a, snapshot(), time.Since(t0), qs...)
		}
		return nil
	}
	for lo := 200; lo < 1000; lo += 100 {
		for _, caps := range []int{0, fakew.All} {
			lo, caps := lo, caps
			unit(fmt.Sprintf("statuses/%d-%d/%s", lo, lo+99, fakew.CapNames(caps)), mc.Bounds{}, func(c *mc.Ctl) *mc.Fail {
				code := lo + c.Choose(100, mc.Free)
				sb := bodyByName([]string{"memory", "stream"}[c.Choose(2, mc.Free)])
				q := &hreq{caps: caps, method: []string{"GET", "HEAD"}[c.Choose(2, mc.Free)]}
				q.begin(c, fakew.Menu{}, behaviour{fmt.Sprintf("status %d", code), respond(sb, code, nil, http.Header{"X-A": {"1"}}, false, nil)})
				return run(c, []*hreq{q})
			})
		}
	}
	few := []behaviour{
		{"ok", respond(bodyByName("memory"), 200, nil, http.Header{"X-A": {"ok"}}, false, nil)},
		{"stream", respond(bodyByName("stream"), 404, []string{"/p"}, http.Header{"Etag": {"\"t\""}, "Last-Modified": {"Mon, 01 Jan 2001 00:00:00 GMT"}, "Accept-Ranges": {"bytes"}}, false, nil)},
		{"206", respond(bodyByName("readerat"), 206, nil, nil, false, nil)},
		{"304", respond(bodyByName("memory"), 304, nil, nil, false, nil)},
		{"panic", panics("x")},
		{"panic(error)", panics(errHandler)},
		{"close fails", respond(bodyByName("stream"), 201, nil, nil, false, errCloseInjected())},
		{"zero", badBehaviours()[11].set},
	}
	methods := []string{"GET", "HEAD", "POST", "PUT", "OPTIONS", "TRACE", "CONNECT", "DELETE", "PATCH", "", "head", "PROPFIND"}
	nreqs := len(requests())
	for _, caps := range hcaps {
		caps := caps
		unit("requests/"+fakew.CapNames(caps), mc.Bounds{}, func(c *mc.Ctl) *mc.Fail {
			q := &hreq{caps: caps, method: methods[c.Choose(len(methods), mc.Free)], prewrap: c.Choose(2, mc.Free)}
			k := c.Choose(nreqs, mc.Free)
			b := few[c.Choose(len(few), mc.Free)]
			q.noHook = c.Choose(2, mc.Free) == 1
			q.req = requests()[k]
			q.req.Method = q.method
			b.name = fmt.Sprintf("%s to request #%d", b.name, k)
			q.begin(c, fakew.Menu{}, b)
			return run(c, []*hreq{q})
		})
	}
	nv := len(panicValues())
	for i := 0; i < nv; i++ {
		i := i
		unit(fmt.Sprintf("values/%d", i), mc.Bounds{}, func(c *mc.Ctl) *mc.Fail {
			v := panicValues()[i]
			where := c.Choose(4, mc.Free) - 1
			q := &hreq{caps: hcaps[c.Choose(len(hcaps), mc.Free)], method: methods[c.Choose(2, mc.Free)], noHook: c.Choose(2, mc.Free) == 1, prewrap: c.Choose(3, mc.Free)}
			b := behaviour{fmt.Sprintf("panic(%T)", v), panics(v)}
			if where >= 0 {
				b.name += fmt.Sprintf(" in the body after %d bytes", where)
				b.set = func(c *mc.Ctl, q *hreq) {
					q.failed, q.hasPanic, q.panicV = true, true, v
					q.code, q.data = 200, "ppp"
					q.h = handler.HandlerFunc(func(*http.Request) response.Response {
						return *response.NewBuilder().WithBody(&panicBody{n: where, v: v}).Build()
					})
					q.want = http.Header{"Content-Type": {"application/octet-stream"}}
				}
				if q.method == "HEAD" && where == 0 {
					// whether the body is read at all is open
					return nil
				}
			}
			q.begin(c, fakew.Menu{}, b)
			return run(c, []*hreq{q})
		})
	}
	for kind := 1; kind < env.WErrKinds; kind++ {
		for _, caps := range hcaps {
			kind, caps := kind, caps
			unit(fmt.Sprintf("shape%d/%s", kind, fakew.CapNames(caps)), mc.Bounds{Env: pick(tier, 1, 2)}, func(c *mc.Ctl) *mc.Fail {
				names := []string{"memory", "readerat", "seeker", "stream", "custom/known=false/writeto=false/\"abcde\"", "custom/known=true/writeto=true/\"abcde\""}
				sb := bodyByName(names[c.Choose(len(names), mc.Free)])
				m := hMenu()
				m.WriteJoint = true
				m.ErrKind = kind
				q := &hreq{caps: caps, method: methods[c.Choose(2, mc.Free)], prewrap: c.Choose(2, mc.Free)}
				src := kind
				if src >= env.ErrKinds {
					src = 0
				}
				q.begin(c, m, behaviour{fmt.Sprintf("%s, errors of shape %d", sb.name, kind), respond(sb, 200, []string{"/a"}, http.Header{"X-A": {"1"}}, src > 0, env.NewErr(kind, "close"))})
				if c.Choose(2, mc.Free) == 1 {
					// the other choice: closing works
					if q.src != nil {
						q.src.CloseE = nil
					}
					if q.rec != nil {
						q.rec.closeE = nil
					}
					q.closeE = nil
				} else if q.src == nil && q.rec == nil {
					q.closeE = nil
				}
				if q.src != nil {
					q.src.ErrKind = src
				}
				if q.rec != nil {
					q.rec.kind = src
				}
				return run(c, []*hreq{q})
			})
		}
	}
	unit("many requests in a row", mc.Bounds{}, func(c *mc.Ctl) *mc.Fail {
		n := []int{50, 300, 1500}[c.Choose(3, mc.Free)]
		k := c.Choose(len(few)+1, mc.Free)
		caps := hcaps[c.Choose(len(hcaps), mc.Free)]
		var qs []*hreq
		for i := 0; i < n; i++ {
			b := few[i%len(few)]
			if k < len(few) {
				b = few[k]
			}
			q := &hreq{caps: caps, method: "GET"}
			q.begin(c, fakew.Menu{}, b)
			qs = append(qs, q)
		}
		f := run(c, qs)
		if f != nil {
			f.Msg = head(f.Msg)
		}
		return f
	})
	if metricsToo {
		for _, rf := range []bool{false, true} {
			rf := rf
			unit(fmt.Sprintf("huge/readfrom=%v", rf), mc.Bounds{}, func(c *mc.Ctl) *mc.Fail {
				size := []int64{1<<20 + 1, 1<<31 - 1, 1 << 31, 1<<32 + 5}[c.Choose(4, mc.Free)]
				code := []int{200, 503}[c.Choose(2, mc.Free)]
				old := handler.OnPanic
				defer func() { handler.OnPanic = old }()
				handler.OnPanic = handler.DefaultOnPanic
				cw := &countW{h: http.Header{}}
				var u http.ResponseWriter = cw
				if rf {
					u = &countRF{cw}
				}
				a := snapshot()
				try(func() {
					handler.Adaptor{Inner: handler.HandlerFunc(func(*http.Request) response.Response {
						return *response.NewBuilder().WithStatus(code).WithBody(&zeroBody{left: size}).Build()
					})}.ServeHTTP(u, &http.Request{Method: "GET"})
				})
				b := snapshot()
				l := fmt.Sprint(code)
				c.State(uint64(size))
				c.Trans(uint64(mc.NewHash().I(size).S(l).B(rf)))
				if cw.n != size {
					return mc.Failf("metric", "a body of %d bytes: the writer received %d", size, cw.n)
				}
				// the counter is a float: exact to 2^53
				if g := b.sent[l] - a.sent[l]; g != float64(size) || b.sumSent-a.sumSent != float64(size) {
					return mc.Failf("metric", "a body of %d bytes: the sent bytes counter grew by %v, the histogram by %v", size, g, b.sumSent-a.sumSent)
				}
				return nil
			})
		}
	}
	return out
}

// zeroBody is a long body of no cost.
type zeroBody struct{ left int64 }

func (b *zeroBody) BytesRemaining() int64    { return b.left }
func (b *zeroBody) Close() error             { return nil }
func (b *zeroBody) Copy() (body.Body, error) { return &zeroBody{b.left}, nil }
func (b *zeroBody) Unwrap() io.Reader        { return nil }
func (b *zeroBody) Read(p []byte) (int, error) {
	if b.left == 0 {
		return 0, io.EOF
	}
	n := min(int64(len(p)), b.left)
	b.left -= n
	return int(n), nil
}

func init() {
	bounds := map[string]string{
		"quick":    "14 misbehaving and 68 well-behaved handlers x GET/HEAD/POST x 4 writer capability sets x writer fresh/already wrapped/header already sent, a failure or panic (error and non-error) at every single call of writer, pusher, body and source; each followed by a second request; 49 pairs of concurrent requests with up to 2 preemptions and 20 sets of three with 1",
		"thorough": "failures at every pair of calls, a failure before the second request, 4 preemptions",
	}
	assume := []string{"panic(nil) and runtime.Goexit in a handler are outside the property", "the hook itself does not panic", "when the underlying writer's own WriteHeader panics it is unknown whether the client got the status: either is accepted, and no second failure follows in the recovery"}
	register(&Prop{ID: "H01", Threads: true, Judge: judge("escape status hook sent panic deadlock livelock"), Units: func(t string) []*mc.Unit { return hUnits(t, false) },
		Rule: "an execution is one request (or two in a row, or two at once under one schedule) through the adaptor; escaping panics, the statuses and bodies the writer received, and the hook's calls and arguments are compared with what was injected", Bounds: bounds, Assumptions: assume})
	register(&Prop{ID: "H02", Threads: true, Race: true, Judge: judge("metric escape panic deadlock livelock race"),
		RaceUnits: func(u *mc.Unit) bool { return strings.HasPrefix(u.Name, "concurrent/") || u.Cold },
		Units:     func(t string) []*mc.Unit { return hUnits(t, true) },
		Rule:      "the same executions; all exported counters and histograms are read before and after, and their growth per label is compared with the statuses and bytes the writers received; handlers that take a known minimum of time bound the latency from below, the wall clock bounds it from above", Bounds: bounds, Assumptions: append([]string{"when a panic passes through the underlying writer's ReadFrom, nobody can tell how much it accepted: any count up to the true one is accepted", "the value of the received-bytes metrics is not judged, only that one observation is made"}, assume...)})
}
