def imp3(pkg, *a):
    return "\npackage %s_test\n\nimport (\n%s\n)\n" % (pkg, "\n".join('\t"%s"' % x for x in sorted(a)))
M = "github.com/chronos-tachyon/morehttp/"
BUF, SEEK, RAT, BODY = "body/buffered.go", "body/seeker.go", "body/readerat.go", "body/body.go"
BLD, RSP, WR, PG, UT = ("response/%s.go" % x for x in ("builder", "response", "writer", "pagegen", "util"))
AD, MR = "handler/adaptor.go", "internal/mockreader/mockreader.go"

seed(id="b14-declared-overrun", prop="B14", pkg="body",
  needs="a stream with a declared length shorter than what the stream holds, while a copy of the body is open",
  breaks="the stream is asked for bytes beyond the declared length, so whatever follows the body in it is lost",
  edits=[(BUF, '''			if numToRead >= remain {
				numToRead = remain
				eof = true
			}
''', '''			if numToRead >= remain {
				// With copies around the rest of the block is likely to
				// be wanted soon, so keep the reads block sized.
				if len(common.bodies) == 1 || remain == 0 {
					numToRead = remain
				}
				eof = true
			}
'''), (BUF, '''		if eof && common.err == nil {
			common.length = endBuffer
			common.err = io.EOF
		}
''', '''		if eof && common.err == nil {
			common.err = io.EOF
		}
		if eof && common.length >= 0 && endBuffer > declared {
			endBuffer = declared
			common.bytes = bufNew[0:(endBuffer - beginBuffer)]
			common.err = io.EOF
		}
		if eof && common.err == io.EOF {
			common.length = endBuffer
		}
'''), (BUF, '''		eof := false
		if common.length >= 0 {
			assert''', '''		eof := false
		declared := common.length
		if common.length >= 0 {
			assert''')],
  test=imp3("body", "bytes", "io", "testing", M+"body") + '''
type demoStream struct{ r io.Reader }

func (s demoStream) Read(p []byte) (int, error) { return s.r.Read(p) }

func TestDemo(t *testing.T) {
	under := bytes.NewReader([]byte("first-second"))
	a, err := body.FromReaderAndLength(demoStream{under}, 6)
	if err != nil {
		t.Fatal(err)
	}
	b, err := a.Copy()
	if err != nil {
		t.Fatal(err)
	}
	p, err := io.ReadAll(a)
	if err != nil || string(p) != "first-" {
		t.Fatalf("demo: read %q, %v", p, err)
	}
	b.Close()
	a.Close()
	rest, _ := io.ReadAll(under)
	if string(rest) != "second" {
		t.Fatalf("demo: the stream is left with %q", rest)
	}
}
''')

seed(id="b14-copy-probes", prop="B14", pkg="body",
  needs="copying a body over a seekable source before the first read, with a source that notices being read",
  breaks="Copy fetches a byte from the source to see whether anything is left",
  edits=[(SEEK, '''	dupe.common.ref()
	return dupe, nil
''', '''	dupe.common.ref()
	dupe.common.mu.Lock()
	if dupe.offset == 0 && dupe.err == nil && dupe.common.length > 0 {
		var first [1]byte
		if n, err := dupe.common.readAt(first[:], 0); n == 0 && err == io.EOF {
			dupe.err = io.EOF
		}
	}
	dupe.common.mu.Unlock()
	return dupe, nil
''')],
  test=imp3("body", "strings", "testing", M+"body") + '''
type demoSeeker struct {
	r     *strings.Reader
	reads int
}

func (s *demoSeeker) Read(p []byte) (int, error) {
	s.reads++
	return s.r.Read(p)
}
func (s *demoSeeker) Seek(o int64, w int) (int64, error) { return s.r.Seek(o, w) }

func TestDemo(t *testing.T) {
	s := &demoSeeker{r: strings.NewReader("abcdef")}
	a, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	b, err := a.Copy()
	if err != nil {
		t.Fatal(err)
	}
	defer b.Close()
	defer a.Close()
	if s.reads != 0 {
		t.Fatalf("demo: copying read the source %d times", s.reads)
	}
}
''')

seed(id="r07-empty-unknown", prop="R07", pkg="response",
  needs="asking a response with a known-empty body and no Content-Length header for its description",
  breaks="a known length of 0 is described as unknown when no header says so",
  edits=[(RSP, "	if bodyLen := resp.body.BytesRemaining(); bodyLen >= 0 {\n",
   "	if bodyLen := resp.body.BytesRemaining(); bodyLen > 0 || resp.hdrs.Get(\"Content-Length\") == \"0\" {\n")],
  test=imp3("response", "io", "strings", "testing", M+"body", M+"response") + '''
func TestDemo(t *testing.T) {
	r := response.NewBuilder().WithBody(body.FromString("abc")).Build()
	b := r.Body()
	if _, err := io.Copy(io.Discard, b); err != nil {
		t.Fatal(err)
	}
	if s := r.String(); !strings.Contains(s, " 0 bytes") {
		t.Fatalf("demo: a response with nothing left is described as %q", s)
	}
}
''')

seed(id="c05-copy-writes-back", prop="C05", pkg="response", race=True,
  needs="two goroutines copying the same response at the same time",
  breaks="copying a response writes to it, a data race for everybody else who uses it",
  edits=[(RSP, '''	out := &Response{
		code: resp.code,
		hdrs: resp.hdrs,
''', '''	// Neither side may see header changes of the other.
	resp.hdrs = copyHeaders(resp.hdrs)

	out := &Response{
		code: resp.code,
		hdrs: copyHeaders(resp.hdrs),
''')],
  test=imp3("response", "sync", "testing", M+"body", M+"response") + '''
func TestDemo(t *testing.T) {
	r := response.NewBuilder().WithBody(body.FromString("abc")).WithHeader("X-A", "1", false).Build()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				c, err := r.Copy()
				if err != nil || c.Headers().Get("X-A") != "1" {
					t.Errorf("demo: copy failed: %v", err)
				}
			}
		}()
	}
	wg.Wait()
}
''')

seed(id="c02-trylock", prop="C02", pkg="body", also=["C01"],
  needs="asking a handle how much remains while another goroutine is inside a read on that handle",
  breaks="BytesRemaining reports 0 when the handle happens to be in use",
  edits=[(RAT, '''func (body *readerAtBody) BytesRemaining() int64 {
	body.mu.Lock()
	defer body.mu.Unlock()
''', '''func (body *readerAtBody) BytesRemaining() int64 {
	// Never wait for a slow reader just to answer this.
	if !body.mu.TryLock() {
		return 0
	}
	defer body.mu.Unlock()
''')],
  test=imp3("body", "io", "strings", "testing", "time", M+"body") + '''
type demoAt struct {
	*strings.Reader
	in, out chan bool
}

func (s *demoAt) ReadAt(p []byte, o int64) (int, error) {
	close(s.in)
	<-s.out
	return s.Reader.ReadAt(p, o)
}

func TestDemo(t *testing.T) {
	s := &demoAt{strings.NewReader("abcdef"), make(chan bool), make(chan bool)}
	b, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		io.ReadFull(b, make([]byte, 2))
	}()
	<-s.in
	got := make(chan int64, 1)
	go func() { got <- b.BytesRemaining() }()
	time.Sleep(100 * time.Millisecond)
	close(s.out)
	<-done
	if n := <-got; n != 6 && n != 4 {
		t.Fatalf("demo: BytesRemaining gave %d", n)
	}
}
''')

seed(id="c02-seek-window", prop="C02", pkg="body",
  needs="two relative seeks on one handle, the second falling between the first one's reading and writing of the position",
  breaks="one of two concurrent relative seeks is lost",
  edits=[(RAT, '''	case io.SeekCurrent:
		offset += body.offset
''', '''	case io.SeekCurrent:
		cur := body.offset
		// The length may be changing under a reader, so look at it with
		// only the shared lock held.
		body.mu.Unlock()
		_ = body.BytesRemaining()
		body.mu.Lock()
		offset += cur
''')],
  test=imp3("body", "io", "sync", "testing", M+"body") + '''
type demoBig struct{}

func (demoBig) Read(p []byte) (int, error)            { return 0, io.EOF }
func (demoBig) ReadAt(p []byte, o int64) (int, error) { return len(p), nil }
func (demoBig) Seek(o int64, w int) (int64, error) {
	if w == io.SeekEnd {
		o += 1 << 40
	}
	return o, nil
}

func TestDemo(t *testing.T) {
	bd, err := body.FromReaderAndLength(demoBig{}, 1<<40)
	if err != nil {
		t.Fatal(err)
	}
	b := bd.(io.Seeker)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 100000; k++ {
				b.Seek(1, io.SeekCurrent)
			}
		}()
	}
	wg.Wait()
	if n, err := b.Seek(0, io.SeekCurrent); n != 400000 || err != nil {
		t.Fatalf("demo: position %d, %v", n, err)
	}
}
''')

seed(id="b04-narrow-count", prop="B04", pkg="body",
  needs="more than 32767 copies of one body open at the same time, then closing",
  breaks="with very many copies the reader is closed while most of them are still open",
  edits=[(SEEK, "	if common.refcnt > 0 {\n		return nil\n	}\n", "	if int16(common.refcnt) > 0 {\n		return nil\n	}\n")],
  test=imp3("body", "strings", "testing", M+"body") + '''
type demoCloser struct {
	r      *strings.Reader
	closed int
}

func (s *demoCloser) Read(p []byte) (int, error)         { return s.r.Read(p) }
func (s *demoCloser) Seek(o int64, w int) (int64, error) { return s.r.Seek(o, w) }
func (s *demoCloser) Close() error                       { s.closed++; return nil }

func TestDemo(t *testing.T) {
	s := &demoCloser{r: strings.NewReader("abc")}
	a, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	var last body.Body
	for i := 0; i < 40000; i++ {
		if last, err = a.Copy(); err != nil {
			t.Fatal(err)
		}
	}
	last.Close()
	if s.closed != 0 {
		t.Fatalf("demo: the reader was closed with 40000 copies open")
	}
	if n, err := a.Read(make([]byte, 3)); n != 3 {
		t.Fatalf("demo: read gave %d, %v", n, err)
	}
}
''')

seed(id="r02-many-values", prop="R02", pkg="response", also=["C05"],
  needs="a header with more than eight values, copied",
  breaks="headers with many values share their storage with the copy",
  edits=[(UT, '''	dst := make([]string, len(src))
	copy(dst, src)
	return dst
''', '''	var few [8]string
	dst := src[:len(src):len(src)]
	if len(src) <= len(few) {
		dst = append(few[:0], src...)
	}
	return dst
''')],
  test=imp3("response", "fmt", "testing", M+"body", M+"response") + '''
func TestDemo(t *testing.T) {
	a := response.NewBuilder().WithBody(body.FromString("x"))
	for i := 0; i < 12; i++ {
		a.WithHeader("Set-Cookie", fmt.Sprint("c=", i), true)
	}
	b, err := a.Copy()
	if err != nil {
		t.Fatal(err)
	}
	a.Headers()["Set-Cookie"][0] = "changed"
	if got := b.Headers().Get("Set-Cookie"); got != "c=0" {
		t.Fatalf("demo: the copy's header changed to %q", got)
	}
}
''')

seed(id="r03-push-twice", prop="R03", pkg="response",
  needs="a response that lists the same push target twice in a row",
  breaks="a push target equal to the one before is left out",
  edits=[(RSP, '''		for _, url := range vlist {
			err := x.Push''', '''		for i, url := range vlist {
			if i > 0 && url == vlist[i-1] {
				continue
			}
			err := x.Push''')],
  test=imp3("response", "net/http", "net/http/httptest", "testing", M+"body", M+"response") + '''
type demoPusher struct {
	*httptest.ResponseRecorder
	n int
}

func (p *demoPusher) Push(string, *http.PushOptions) error { p.n++; return nil }

func TestDemo(t *testing.T) {
	w := &demoPusher{httptest.NewRecorder(), 0}
	r := response.NewBuilder().WithBody(body.FromString("x")).WithHeader("Push", "/a", true).WithHeader("Push", "/a", true).Build()
	if err := r.Serve(w); err != nil || w.n != 2 {
		t.Fatalf("demo: %d pushes, %v", w.n, err)
	}
}
''')

seed(id="w02-head-with-length", prop="W02", pkg="response", also=["H03"],
  needs="a HEAD request that itself announces a body",
  breaks="for HEAD requests with a request body the response body is sent and counted",
  edits=[(WR, "	isHEAD := (r.Method == http.MethodHead)\n", "	isHEAD := (r.Method == http.MethodHead) && (r.ContentLength <= 0)\n")],
  test=imp3("response", "net/http/httptest", "strings", "testing", M+"response") + '''
func TestDemo(t *testing.T) {
	rec := httptest.NewRecorder()
	w := response.NewWriter(rec, httptest.NewRequest("HEAD", "/", strings.NewReader("xyz")))
	n, err := w.Write([]byte("abc"))
	if n != 3 || err != nil || w.BytesWritten() != 0 || rec.Body.Len() != 0 {
		t.Fatalf("demo: wrote %d, %v; counted %d, sent %d", n, err, w.BytesWritten(), rec.Body.Len())
	}
}
''')

seed(id="r05-long-location", prop="R05", pkg="response",
  needs="a redirect to a location longer than 2048 bytes",
  breaks="long locations are cut off in the page",
  edits=[(PG, "	escapedLocation := html.EscapeString(location)\n", '''	shown := location
	if len(shown) > 2048 {
		shown = shown[:2048]
	}
	escapedLocation := html.EscapeString(shown)
''')],
  test=imp3("response", "io", "strings", "testing", M+"response") + '''
func TestDemo(t *testing.T) {
	loc := "/" + strings.Repeat("a", 3000)
	h, b := response.DefaultPageGenerator.GenerateRedirectPage(302, loc)
	p, err := io.ReadAll(b)
	if err != nil || h.Get("Location") != loc || !strings.Contains(string(p), loc) {
		t.Fatalf("demo: the page does not contain the location (%d bytes, %v)", len(p), err)
	}
}
''')

seed(id="m01-offset-width", prop="M01", pkg="internal/mockreader",
  needs="a call whose offset differs from the scripted one by a multiple of 2^32",
  breaks="offsets are compared in 32 bits only",
  edits=[(MR, "		x.input1 == y.input1 &&", "		int32(x.input1) == int32(y.input1) &&")],
  test=imp3("mockreader", "testing", M+"internal/mockreader") + '''
func TestDemo(t *testing.T) {
	m := mockreader.New(mockreader.ExpectReadAt([]byte("ab"), 1<<32, 2, nil))
	defer func() {
		if recover() == nil {
			t.Fatalf("demo: a read at 0 was taken for one at 1<<32")
		}
	}()
	m.ReadAt(make([]byte, 2), 0)
}
''')

seed(id="b13-capped-read", prop="B13", pkg="body",
  needs="one read of more than 1 MiB",
  breaks="a random-access body answers large reads in part where the other kinds answer in full",
  edits=[(RAT, '''	avail := (length - offset)
	x := int64(len(p))
	eof := false
	if x > avail {
		x = avail
		eof = true
	}

	var n int
	var err error

	if avail''', '''	const maxRead = 1 << 20
	avail := (length - offset)
	x := int64(len(p))
	eof := false
	if x > avail {
		x = avail
		eof = true
	}
	if x > maxRead {
		x = maxRead
		eof = false
	}

	var n int
	var err error

	if avail''')],
  test=imp3("body", "strings", "testing", M+"body") + '''
func TestDemo(t *testing.T) {
	data := strings.Repeat("x", 3<<20)
	a, err := body.FromReader(strings.NewReader(data))
	if err != nil {
		t.Fatal(err)
	}
	b := body.FromString(data)
	n1, err1 := a.Read(make([]byte, 2<<20))
	n2, err2 := b.Read(make([]byte, 2<<20))
	if n1 != n2 || err1 != err2 {
		t.Fatalf("demo: reader body read %d, %v; memory body %d, %v", n1, err1, n2, err2)
	}
}
''')

seed(id="r01-redirect-cookies", prop="R01", pkg="response",
  needs="a redirect page made by a builder that already has a Set-Cookie header",
  breaks="a redirect page keeps cookies set earlier instead of replacing the headers",
  edits=[(BLD, '''	builder.code = code
	builder.hdrs = h
	builder.body = b
	builder.err = nil
''', '''	if v := builder.hdrs["Set-Cookie"]; len(v) > 0 {
		h["Set-Cookie"] = v
	}

	builder.code = code
	builder.hdrs = h
	builder.body = b
	builder.err = nil
''')],
  test=imp3("response", "testing", M+"response") + '''
func TestDemo(t *testing.T) {
	r := response.NewBuilder().WithHeader("Set-Cookie", "a=1", false).RedirectPage(302, "/x").Build()
	if got := r.Headers()["Set-Cookie"]; got != nil {
		t.Fatalf("demo: the redirect carries %q", got)
	}
}
''')

seed(id="h03-request-body", prop="H03", pkg="handler",
  needs="a response whose body is produced from the request's body while it is being sent",
  breaks="the request body is closed before the response is sent, so a streamed echo is cut",
  edits=[(AD, "	resp := a.Inner.Handle(req)\n", '''	resp := a.Inner.Handle(req)
	if req.Body != nil {
		_ = req.Body.Close()
	}
''')],
  test=imp3("handler", "io", "net/http", "net/http/httptest", "strings", "testing", M+"body", M+"handler", M+"response") + '''
func TestDemo(t *testing.T) {
	srv := httptest.NewServer(handler.Adaptor{Inner: demoEcho{}})
	defer srv.Close()
	res, err := http.Post(srv.URL, "text/plain", strings.NewReader("echo me"))
	if err != nil {
		t.Fatal(err)
	}
	defer res.Body.Close()
	p, err := io.ReadAll(res.Body)
	if string(p) != "echo me" || err != nil {
		t.Fatalf("demo: got %q, %v", p, err)
	}
}

type demoEcho struct{}

func (demoEcho) Handle(r *http.Request) response.Response {
	b, err := body.FromReader(struct{ io.Reader }{r.Body})
	if err != nil {
		panic(err)
	}
	return *response.NewBuilder().WithBody(b).Build()
}
''')
