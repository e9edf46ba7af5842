def imp2(pkg, *a):
    return "\npackage %s_test\n\nimport (\n%s\n)\n" % (pkg, "\n".join('\t"%s"' % x for x in a))
M = "github.com/chronos-tachyon/morehttp/"
BLD, RSP, WR, PG, UT, AD = ("response/%s.go" % x for x in ("builder", "response", "writer", "pagegen", "util", "x"))
AD = "handler/adaptor.go"

seed(id="r01-empty-length", prop="R01", pkg="response",
  needs="a response with a body of known length 0",
  breaks="no Content-Length is added for an empty body of known length",
  edits=[(BLD, "	if bodyLen >= 0 {", "	if bodyLen > 0 {")],
  test=imp2("response", "testing", M+"body", M+"response") + '''
func TestDemo(t *testing.T) {
	r := response.NewBuilder().WithBody(body.Empty()).Build()
	if got := r.Headers().Get("Content-Length"); got != "0" {
		t.Fatalf("demo: Content-Length is %q", got)
	}
}
''')

seed(id="r02-shared-single", prop="R02", pkg="response", also=["C05"],
  needs="a copied builder with a single-valued header that the original then overwrites in place",
  breaks="header values with a single element are shared between a builder and its copy",
  edits=[(UT, '''	dst := make([]string, len(src))
	copy(dst, src)
	return dst
''', '''	if len(src) == 1 {
		// By far the most common case; avoid the allocation.
		return src[:1:1]
	}

	dst := make([]string, len(src))
	copy(dst, src)
	return dst
''')],
  test=imp2("response", "testing", M+"body", M+"response") + '''
func TestDemo(t *testing.T) {
	a := response.NewBuilder().WithBody(body.FromString("x")).WithHeader("X-A", "1", false)
	b, err := a.Copy()
	if err != nil {
		t.Fatal(err)
	}
	a.Headers()["X-A"][0] = "2"
	if got := b.Headers().Get("X-A"); got != "1" {
		t.Fatalf("demo: the copy's header changed to %q", got)
	}
}
''')

seed(id="r03-wrapped-unsupported", prop="R03", pkg="response", also=["R04"],
  needs="a pusher reporting 'not supported' wrapped in another error",
  breaks="a wrapped not-supported error stops the serving instead of being ignored",
  edits=[(RSP, "!errors.Is(err, http.ErrNotSupported)", "err != http.ErrNotSupported"), (RSP, '	"errors"\n', '')],
  test=imp2("response", "fmt", "net/http", "net/http/httptest", "testing", M+"body", M+"response") + '''
type demoPusher struct{ *httptest.ResponseRecorder }

func (demoPusher) Push(string, *http.PushOptions) error {
	return fmt.Errorf("proxy: %w", http.ErrNotSupported)
}

func TestDemo(t *testing.T) {
	w := demoPusher{httptest.NewRecorder()}
	r := response.NewBuilder().WithBody(body.FromString("x")).WithHeader("Push", "/a.css", false).Build()
	if err := r.Serve(w); err != nil || w.Body.String() != "x" {
		t.Fatalf("demo: Serve: %v, body %q", err, w.Body.String())
	}
}
''')

seed(id="r03-empty-push", prop="R03", pkg="response",
  needs="several Push values of which one is unsupported and a later one is not",
  breaks="the first unsupported push ends all pushing",
  edits=[(RSP, '''			if err != nil && !errors.Is(err, http.ErrNotSupported) {
				return err
			}
''', '''			if errors.Is(err, http.ErrNotSupported) {
				break
			}
			if err != nil {
				return err
			}
''')],
  test=imp2("response", "net/http", "net/http/httptest", "testing", M+"body", M+"response") + '''
type demoPusher struct {
	*httptest.ResponseRecorder
	got []string
}

func (d *demoPusher) Push(u string, _ *http.PushOptions) error {
	d.got = append(d.got, u)
	return http.ErrNotSupported
}

func TestDemo(t *testing.T) {
	w := &demoPusher{ResponseRecorder: httptest.NewRecorder()}
	r := response.NewBuilder().WithBody(body.FromString("x")).WithHeader("Push", "/a", true).WithHeader("Push", "/b", true).Build()
	if err := r.Serve(w); err != nil || len(w.got) != 2 {
		t.Fatalf("demo: Serve: %v, pushes %q", err, w.got)
	}
}
''')

seed(id="r04-skip-body-nobody-status", prop="R04", pkg="response", also=["R03"],
  needs="a 304 response whose body is backed by a closable reader",
  breaks="the body of a response that must not carry one is replaced instead of closed, leaking the reader",
  edits=[(RSP, '''	w.WriteHeader(resp.code)
''', '''	if resp.code == http.StatusNotModified {
		// Nothing to send.
		resp.body = body.Empty()
	}

	w.WriteHeader(resp.code)
''')],
  test=imp2("response", "io", "net/http/httptest", "strings", "testing", M+"body", M+"response") + '''
type demoCloser struct {
	io.Reader
	n int
}

func (d *demoCloser) Close() error { d.n++; return nil }

func TestDemo(t *testing.T) {
	d := &demoCloser{Reader: strings.NewReader("")}
	b, err := body.FromReader(d)
	if err != nil {
		t.Fatal(err)
	}
	w := httptest.NewRecorder()
	if err := response.NewBuilder().WithStatus(304).WithBody(b).Build().Serve(w); err != nil {
		t.Fatal(err)
	}
	if d.n != 1 {
		t.Fatalf("demo: the reader was closed %d times", d.n)
	}
}
''')

seed(id="r05-amp", prop="R05", pkg="response",
  needs="a location containing a character reference such as &copy= or &lt;",
  breaks="ampersands are not escaped, so query parameters are decoded as character references by the browser",
  edits=[(PG, '''	escapedLocation := html.EscapeString(location)
''', '''	escapedLocation := locationEscaper.Replace(location)
'''), (PG, '''	"html"
	"net/http"
	"strconv"
''', '''	"net/http"
	"strconv"
	"strings"
'''), (PG, '''type defaultPageGenerator struct{}
''', '''// locationEscaper protects a URL inside an attribute or text.
var locationEscaper = strings.NewReplacer(`"`, "&#34;", `'`, "&#39;", `<`, "&lt;", `>`, "&gt;")

type defaultPageGenerator struct{}
''')],
  test=imp2("response", "html", "io", "strings", "testing", M+"response") + '''
func TestDemo(t *testing.T) {
	loc := "/find?a=1&lt=2&copy=3"
	r := response.NewBuilder().RedirectPage(302, loc).Build()
	raw, _ := io.ReadAll(r.Body())
	page := string(raw)
	i := strings.Index(page, `href="`) + 6
	j := i + strings.Index(page[i:], `"`)
	if got := html.UnescapeString(page[i:j]); got != loc {
		t.Fatalf("demo: the link leads to %q, want %q", got, loc)
	}
}
''')

seed(id="r06-fallback-text", prop="R06", pkg="response",
  needs="an error page with a status that has no standard text",
  breaks="the error's own message is shown to the client for statuses without standard text",
  edits=[(PG, '''	statusText := http.StatusText(code)
''', '''	statusText := http.StatusText(code)
	if statusText == "" {
		statusText = err.Error()
	}
''')],
  test=imp2("response", "errors", "io", "strings", "testing", M+"response") + '''
func TestDemo(t *testing.T) {
	r := response.NewBuilder().ErrorPage(599, errors.New("password=hunter2")).Build()
	raw, _ := io.ReadAll(r.Body())
	if strings.Contains(string(raw), "hunter2") {
		t.Fatalf("demo: page is %q", raw)
	}
}
''')

seed(id="w01-flush-first", prop="W01", pkg="response",
  needs="a flush before anything was written, on a writer with the full interface set, followed by an explicit status",
  breaks="flushing does not record the implicit 200, so a later status is forwarded as a second header",
  edits=[(WR, '''func (w *fancyWriter) Flush() {
	w.MaybeWriteHeader(http.StatusOK)

''', '''func (w *fancyWriter) Flush() {
''')],
  test=imp2("response", "bufio", "io", "net", "net/http", "net/http/httptest", "testing", M+"response") + '''
type demoFull struct{ *httptest.ResponseRecorder }

func (demoFull) CloseNotify() <-chan bool                       { return nil }
func (demoFull) Hijack() (net.Conn, *bufio.ReadWriter, error)   { return nil, nil, nil }
func (d demoFull) ReadFrom(r io.Reader) (int64, error)          { return io.Copy(d.ResponseRecorder, r) }

func TestDemo(t *testing.T) {
	r, _ := http.NewRequest("GET", "/", nil)
	w := response.NewWriter(demoFull{httptest.NewRecorder()}, r)
	w.(http.Flusher).Flush()
	w.MaybeWriteHeader(500)
	if w.Status() != 200 {
		t.Fatalf("demo: status is reported as %d after a flush", w.Status())
	}
}
''')

seed(id="w02-count-on-success", prop="W02", pkg="response", also=["H02"],
  needs="a write that fails after the client accepted part of it",
  breaks="bytes of a partial write are not counted",
  edits=[(WR, '''	w.bytes += int64(n)
	if err != nil {
		w.sawError = true
	}
	return n, err
''', '''	if err != nil {
		w.sawError = true
		return n, err
	}
	w.bytes += int64(n)
	return n, nil
''')],
  test=imp2("response", "errors", "net/http", "net/http/httptest", "testing", M+"response") + '''
type demoPart struct{ *httptest.ResponseRecorder }

func (d demoPart) Write(p []byte) (int, error) { return 3, errors.New("cut") }

func TestDemo(t *testing.T) {
	r, _ := http.NewRequest("GET", "/", nil)
	w := response.NewWriter(demoPart{httptest.NewRecorder()}, r)
	w.Write([]byte("hello"))
	if w.BytesWritten() != 3 {
		t.Fatalf("demo: %d bytes reported, 3 accepted", w.BytesWritten())
	}
}
''')

seed(id="w03-rewrap-head", prop="W03", pkg="response", also=["W01", "W02"],
  needs="wrapping an already wrapped writer for a HEAD request",
  breaks="the wrapper is wrapped again, with its own status and byte count",
  edits=[(WR, '''	if x, ok := w.(Writer); ok {
		return x
	}
''', '''	if x, ok := w.(Writer); ok && !isHEAD {
		return x
	}
''')],
  test=imp2("response", "net/http", "net/http/httptest", "testing", M+"response") + '''
func TestDemo(t *testing.T) {
	r, _ := http.NewRequest("HEAD", "/", nil)
	w := response.NewWriter(httptest.NewRecorder(), r)
	if w2 := response.NewWriter(w, r); w2 != w {
		t.Fatal("demo: the wrapper was wrapped again")
	}
}
''')

seed(id="h01-abort-handler", prop="H01", pkg="handler",
  needs="a handler that panics with http.ErrAbortHandler",
  breaks="that panic leaves the adaptor and the hook is not told",
  edits=[(AD, '''			err, ok := panicValue.(error)
			if !ok {
''', '''			err, ok := panicValue.(error)
			if err == http.ErrAbortHandler {
				panic(panicValue)
			}
			if !ok {
''')],
  test=imp2("handler", "net/http", "net/http/httptest", "testing", M+"handler", M+"response") + '''
type demoH struct{}

func (demoH) Handle(*http.Request) response.Response { panic(http.ErrAbortHandler) }

func TestDemo(t *testing.T) {
	defer func() {
		if x := recover(); x != nil {
			t.Fatalf("demo: panic escaped: %v", x)
		}
	}()
	r, _ := http.NewRequest("GET", "/", nil)
	handler.Adaptor{Inner: demoH{}}.ServeHTTP(httptest.NewRecorder(), r)
}
''')

seed(id="h01-nil-response", prop="H01", pkg="handler", also=["H02"],
  needs="a handler that returns an unusable (zero) response",
  breaks="a response without body is silently answered with an empty 500: the panic hook is not called",
  edits=[(AD, '''	resp := a.Inner.Handle(req)
	err := resp.Serve(ww)
''', '''	resp := a.Inner.Handle(req)
	if resp.Body() == nil {
		return
	}
	err := resp.Serve(ww)
''')],
  test=imp2("handler", "net/http", "net/http/httptest", "testing", M+"handler", M+"response") + '''
type demoH struct{}

func (demoH) Handle(*http.Request) response.Response { return response.Response{} }

func TestDemo(t *testing.T) {
	old := handler.OnPanic
	defer func() { handler.OnPanic = old }()
	calls := 0
	handler.OnPanic = func(error) { calls++ }
	r, _ := http.NewRequest("GET", "/", nil)
	handler.Adaptor{Inner: demoH{}}.ServeHTTP(httptest.NewRecorder(), r)
	if calls != 1 {
		t.Fatalf("demo: the hook was called %d times", calls)
	}
}
''')

seed(id="h02-zero-hist", prop="H02", pkg="handler",
  needs="a request answered without body bytes (HEAD, 204, empty body)",
  breaks="the sent-bytes histogram misses requests that sent no body",
  edits=[(AD, '''		PromSendBytesHist.Observe(sendBytes)
''', '''		if sendBytes > 0 {
			PromSendBytesHist.Observe(sendBytes)
		}
''')],
  test=imp2("handler", "net/http", "net/http/httptest", "testing", "github.com/prometheus/client_golang/prometheus", "github.com/prometheus/client_model/go", M+"body", M+"handler", M+"response").replace('"github.com/prometheus/client_model/go"','dto "github.com/prometheus/client_model/go"') + '''
type demoH struct{}

func (demoH) Handle(*http.Request) response.Response {
	return *response.NewBuilder().WithBody(body.Empty()).Build()
}

func demoCount(t *testing.T) uint64 {
	var m dto.Metric
	if err := handler.PromSendBytesHist.(prometheus.Metric).Write(&m); err != nil {
		t.Fatal(err)
	}
	return m.GetHistogram().GetSampleCount()
}

func TestDemo(t *testing.T) {
	r, _ := http.NewRequest("GET", "/", nil)
	before := demoCount(t)
	handler.Adaptor{Inner: demoH{}}.ServeHTTP(httptest.NewRecorder(), r)
	if after := demoCount(t); after != before+1 {
		t.Fatalf("demo: the histogram grew by %d", after-before)
	}
}
''')

seed(id="h03-error-text", prop="H03", pkg="handler", also=["H01", "R03"],
  needs="a response body of unknown length failing part-way over a real connection",
  breaks="after a failed body the error text is sent as if it were the rest of the body",
  edits=[(AD, '''	err := resp.Serve(ww)
	if err != nil {
		panic(err)
	}
''', '''	err := resp.Serve(ww)
	if err != nil {
		if ww.BytesWritten() > 0 {
			_, _ = ww.Write([]byte("\\r\\n" + err.Error()))
		}
		panic(err)
	}
''')],
  test=imp2("handler", "errors", "io", "net/http", "net/http/httptest", "testing", M+"body", M+"handler", M+"response") + '''
type demoSrc struct{ n int }

func (d *demoSrc) Read(p []byte) (int, error) {
	d.n++
	if d.n > 1 {
		return 0, errors.New("disk on fire")
	}
	return copy(p, "hello"), nil
}

type demoH struct{}

func (demoH) Handle(*http.Request) response.Response {
	b, _ := body.FromReader(&demoSrc{})
	return *response.NewBuilder().WithBody(b).Build()
}

func TestDemo(t *testing.T) {
	old := handler.OnPanic
	defer func() { handler.OnPanic = old }()
	handler.OnPanic = func(error) {}
	s := httptest.NewServer(handler.Adaptor{Inner: demoH{}})
	defer s.Close()
	resp, err := http.Get(s.URL)
	if err != nil {
		t.Fatal(err)
	}
	got, _ := io.ReadAll(resp.Body)
	if string(got) != "hello" {
		t.Fatalf("demo: the client received %q", got)
	}
}
''')

seed(id="c05-cached-page", prop="C05", pkg="response", race=True, also=["R02", "R06"],
  needs="two goroutines building error pages with one generator and serving or changing them",
  breaks="the error page's headers come from a cache shared by all pages",
  edits=[(PG, '''	headers := make(http.Header, 16)
	headers.Set("Content-Type", "text/plain; charset=utf-8")
	headers.Set("Content-Length", strconv.Itoa(len(raw)))
	headers.Set("Cache-Control", "no-cache")

	return headers, body.FromBytes(raw)
''', '''	if gen.errorHeaders == nil {
		gen.errorHeaders = make(http.Header, 16)
		gen.errorHeaders.Set("Content-Type", "text/plain; charset=utf-8")
		gen.errorHeaders.Set("Cache-Control", "no-cache")
	}
	headers := gen.errorHeaders.Clone()
	headers.Set("Content-Length", strconv.Itoa(len(raw)))

	return headers, body.FromBytes(raw)
'''), (PG, "type defaultPageGenerator struct{}\n", "type defaultPageGenerator struct {\n\terrorHeaders http.Header\n}\n")],
  test=imp2("response", "errors", "testing", M+"response") + '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		go func() {
			response.NewBuilder().ErrorPage(404, errors.New("x")).Build()
			done <- true
		}()
	}
	<-done
	<-done
}
''')

MR = "internal/mockreader/mockreader.go"
seed(id="m01-seek-whence", prop="M01", pkg="internal/mockreader",
  needs="a scripted Seek called with the right offset and the wrong whence",
  breaks="the whence of a Seek is not compared with the script",
  edits=[(MR, '''		x.input2 == y.input2 &&
''', '')],
  test=imp2("mockreader", "testing", M+"internal/mockreader") + '''
func TestDemo(t *testing.T) {
	m := mockreader.New(mockreader.ExpectSeek(0, 0, 0, nil))
	defer func() {
		if recover() == nil {
			t.Fatal("demo: a seek with another whence was accepted")
		}
	}()
	m.Seek(0, 2)
}
''')
seed(id="m01-full-copy", prop="M01", pkg="internal/mockreader",
  needs="a scripted short ReadAt whose script holds more bytes than the count",
  breaks="bytes beyond the scripted count are written into the caller's buffer",
  edits=[(MR, '''func (r *MockReader) ReadAt(p []byte, offset int64) (int, error) {
	index, expect := r.next()
	actual := Expectation{op: ReadAtOp, input0: p, input1: offset}

	if !expect.Matches(actual) {
		panic(ExpectationFailedError{index, expect, actual})
	}

	debug("mock index %d: matched %+v", index, expect)
	n := int(expect.output0)
	err := expect.output2
	if n > 0 {
		copy(p[:n], expect.input0[:n])
	}
	return n, err
''', '''func (r *MockReader) ReadAt(p []byte, offset int64) (int, error) {
	index, expect := r.next()
	actual := Expectation{op: ReadAtOp, input0: p, input1: offset}

	if !expect.Matches(actual) {
		panic(ExpectationFailedError{index, expect, actual})
	}

	debug("mock index %d: matched %+v", index, expect)
	n := int(expect.output0)
	err := expect.output2
	if n > 0 {
		copy(p, expect.input0)
	}
	return n, err
''')],
  test=imp2("mockreader", "testing", M+"internal/mockreader") + '''
func TestDemo(t *testing.T) {
	m := mockreader.New(mockreader.ExpectReadAt([]byte("abcd"), 0, 2, nil))
	p := make([]byte, 4)
	m.ReadAt(p, 0)
	if string(p) != "ab\\x00\\x00" {
		t.Fatalf("demo: buffer is %q", p)
	}
}
''')
