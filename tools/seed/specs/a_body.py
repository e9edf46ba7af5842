HDR = '''
package body_test

import (
%s

	"github.com/chronos-tachyon/morehttp/body"
)
'''
def imp(*a): return HDR % "\n".join('\t"%s"' % x for x in sorted(a))
NOTREADERAT = '''
type demoStream struct{ r io.Reader }

func (s *demoStream) Read(p []byte) (int, error) { return s.r.Read(p) }
'''
BUF, SEEK, RAT = "body/buffered.go", "body/seeker.go", "body/readerat.go"

seed(id="b11-slowest-closes", prop="B11", pkg="body",
  needs="a stream body whose slowest copy is closed (not read on) while a faster copy goes on reading",
  breaks="the buffer is never trimmed again: everything the fast copy reads from then on stays in memory",
  edits=[(BUF, '''		if body.offset == common.start {
			common.refcnt--
			if common.refcnt <= 0 {
				common.updateStart()
			}
		}
		return nil''', '''		return nil''')],
  test=imp("io", "runtime", "testing") + '''
type demoZeros struct{ n int64 }

func (z *demoZeros) Read(p []byte) (int, error) {
	if z.n <= 0 {
		return 0, io.EOF
	}
	n := int64(len(p))
	if n > z.n {
		n = z.n
	}
	z.n -= n
	return int(n), nil
}

func TestDemo(t *testing.T) {
	b, err := body.FromReader(&demoZeros{64 << 20})
	if err != nil {
		t.Fatal(err)
	}
	c, _ := b.Copy()
	buf := make([]byte, 1<<20)
	io.ReadFull(b, buf)
	c.Close()
	var m0, m1 runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m0)
	for i := 0; i < 40; i++ {
		io.ReadFull(b, buf)
	}
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m1)
	if grown := int64(m1.HeapAlloc) - int64(m0.HeapAlloc); grown > 16<<20 {
		t.Fatalf("demo: %d bytes retained after the only slow copy was closed", grown)
	}
	runtime.KeepAlive(b)
}
''')

seed(id="b04-eager-close", prop="B04", pkg="body", also=["C03"],
  needs="a stream reader with Close that has been read to end-of-file, then one of several copies is closed before the last",
  breaks="the reader is closed as soon as any handle is closed after end-of-file, while copies are open, and the last close does not report its error",
  edits=[(BUF, '''				common.updateStart()
			}
		}
		return nil
	}

	r := common.r
''', '''				common.updateStart()
			}
		}
		if c, cOK := common.r.(io.Closer); cOK && common.err == io.EOF {
			// Everything is buffered already: give the descriptor back early.
			common.r = struct{ io.Reader }{common.r}
			return c.Close()
		}
		return nil
	}

	r := common.r
''')],
  test=imp("errors", "io", "strings", "testing") + '''
type demoCloser struct {
	r      io.Reader
	closes int
}

func (d *demoCloser) Read(p []byte) (int, error) { return d.r.Read(p) }
func (d *demoCloser) Close() error               { d.closes++; return errors.New("boom") }

func TestDemo(t *testing.T) {
	d := &demoCloser{r: strings.NewReader("hello")}
	b, err := body.FromReader(d)
	if err != nil {
		t.Fatal(err)
	}
	c, _ := b.Copy()
	io.ReadAll(b)
	if err := b.Close(); err != nil || d.closes != 0 {
		t.Fatalf("demo: first close returned %v with %d closes of the reader", err, d.closes)
	}
	if err := c.Close(); err == nil || d.closes != 1 {
		t.Fatalf("demo: last close returned %v after %d closes", err, d.closes)
	}
}
''')

seed(id="c03-readat-unlocked", prop="C03", pkg="body", also=["C01", "C02", "C04"],
  needs="two copies of a seekable body used at once: one in ReadAt, the other moves the shared reader between its Seek and Read",
  breaks="the emulated random-access read is no longer one unit on the shared reader",
  edits=[(SEEK, '''		return 0, fmt.Errorf("ReadAt error: offset %d is negative", offset)
	}

	common := body.common
	common.mu.Lock()
	defer common.mu.Unlock()

	length := common.length
''', '''		return 0, fmt.Errorf("ReadAt error: offset %d is negative", offset)
	}

	common := body.common
	length := common.BytesRemaining()
''')],
  test=imp("io", "strings", "sync/atomic", "testing", "time") + '''
type demoSeeker struct {
	r      *strings.Reader
	slow   int32
	active int32
	bad    int32
	inSeek chan bool
	moved  chan bool
}

func (d *demoSeeker) enter() {
	if atomic.AddInt32(&d.active, 1) != 1 {
		atomic.StoreInt32(&d.bad, 1)
	}
}
func (d *demoSeeker) leave() { atomic.AddInt32(&d.active, -1) }
func (d *demoSeeker) Read(p []byte) (int, error) {
	d.enter()
	defer d.leave()
	return len(p), nil
}
func (d *demoSeeker) Seek(o int64, w int) (int64, error) {
	d.enter()
	defer d.leave()
	if atomic.CompareAndSwapInt32(&d.slow, 1, 0) {
		close(d.inSeek)
		select {
		case <-d.moved:
		case <-time.After(500 * time.Millisecond):
		}
	}
	return d.r.Seek(o, w)
}

func TestDemo(t *testing.T) {
	d := &demoSeeker{r: strings.NewReader("0123456789"), inSeek: make(chan bool), moved: make(chan bool)}
	b, err := body.FromReader(d)
	if err != nil {
		t.Fatal(err)
	}
	c, _ := b.Copy()
	atomic.StoreInt32(&d.slow, 1)
	done := make(chan bool)
	go func() {
		b.(io.ReaderAt).ReadAt(make([]byte, 2), 4)
		close(done)
	}()
	<-d.inSeek
	go func() {
		c.Read(make([]byte, 2))
		close(d.moved)
	}()
	<-done
	<-d.moved
	if atomic.LoadInt32(&d.bad) != 0 {
		t.Fatal("demo: the reader received two calls at once")
	}
}
''')

seed(id="c04-length-unlocked", prop="C04", pkg="body", race=True, also=["C01"],
  needs="one copy asks for its remaining length while another discovers that the random-access source ends early",
  breaks="the shared length is read without the lock that guards its correction: a data race",
  edits=[(RAT, '''	common.mu.Lock()
	length := common.length
	common.mu.Unlock()
	return length
''', '''	return common.length
''')],
  test=imp("io", "strings", "testing") + '''
type demoFile struct{ io.ReaderAt }

func (demoFile) Read(p []byte) (int, error) { return 0, io.EOF }

func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		b, err := body.FromReaderAndLength(demoFile{strings.NewReader("abc")}, 10)
		if err != nil {
			t.Fatal(err)
		}
		c, _ := b.Copy()
		done := make(chan bool)
		go func() {
			c.BytesRemaining()
			close(done)
		}()
		io.ReadAll(b)
		<-done
	}
}
''')

seed(id="b05-seek-keeps-eof", prop="B05", pkg="body",
  needs="a random-access body at end-of-file sought to exactly its end, then found longer... i.e. seek to the end after an error: a sticky read error survives a seek that lands on the end",
  breaks="Seek no longer clears a previous error when the target is the end of the body, so the error is returned again instead of end-of-file",
  edits=[(RAT, '''	if offset > length {
		offset = length
	}

	body.err = nil
	body.offset = offset
	return offset, nil
''', '''	if offset >= length {
		// Nothing left to read from here on, so there is no state to reset.
		body.offset = length
		return length, nil
	}

	body.err = nil
	body.offset = offset
	return offset, nil
''')],
  test=imp("errors", "io", "testing") + '''
type demoAt struct{ fail bool }

func (d *demoAt) Read(p []byte) (int, error) { return 0, io.EOF }
func (d *demoAt) ReadAt(p []byte, o int64) (int, error) {
	if d.fail {
		d.fail = false
		return 0, errors.New("glitch")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	b, err := body.FromReaderAndLength(&demoAt{fail: true}, 10)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := b.Read(make([]byte, 4)); err == nil || err == io.EOF {
		t.Fatal("expected the glitch, got", err)
	}
	b.(io.Seeker).Seek(0, io.SeekEnd)
	if _, err := b.Read(make([]byte, 4)); err != io.EOF {
		t.Fatalf("demo: after seeking to the end Read reports %v", err)
	}
}
''')

seed(id="b03-lag-limit", prop="B03", pkg="body", also=["B11"],
  needs="two copies of a stream body more than 4 MiB apart, the slow one read afterwards",
  breaks="the buffer is capped: the slow copy silently continues at a later position, losing bytes",
  edits=[(BUF, '''const blockSize = 65536
''', '''const blockSize = 65536

// maxBuffered bounds what a slow copy can make us keep.
const maxBuffered = 4 << 20
'''), (BUF, '''	for body := range common.bodies {
		if refcnt <= 0 || body.offset < beginBufferNew {
''', '''	limit := common.start + int64(len(common.bytes)) - maxBuffered
	for body := range common.bodies {
		if body.offset < limit {
			body.offset = limit
		}
		if refcnt <= 0 || body.offset < beginBufferNew {
'''), (BUF, '''	if oldOffset == beginBuffer && newOffset != beginBuffer {
		common.refcnt--
		if common.refcnt <= 0 {
			common.updateStart()
		}
	}
''', '''	if oldOffset == beginBuffer && newOffset != beginBuffer {
		common.refcnt--
		if common.refcnt <= 0 {
			common.updateStart()
			return
		}
	}
	if len(common.bytes) > maxBuffered {
		common.updateStart()
	}
''')],
  test=imp("io", "testing") + '''
type demoCount struct{ n int }

func (d *demoCount) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(d.n >> 16)
		d.n++
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	b, err := body.FromReader(&demoCount{})
	if err != nil {
		t.Fatal(err)
	}
	c, _ := b.Copy()
	io.ReadFull(b, make([]byte, 8<<20))
	io.ReadFull(b, make([]byte, 1<<20))
	got := make([]byte, 1)
	io.ReadFull(c, got)
	if got[0] != 0 {
		t.Fatalf("demo: the slow copy starts with byte %d, want 0", got[0])
	}
}
''')

seed(id="b09-partial-write", prop="B09", pkg="body",
  needs="an in-memory body written out to a writer that fails after accepting part of it, and used afterwards",
  breaks="the cursor does not move past the accepted bytes, so they are sent again",
  edits=[("body/bytes.go", '''	body.offset += int(n)
	body.eof =''', '''	if err != nil {
		return int64(n), err
	}
	body.offset += int(n)
	body.eof =''')],
  test=imp("errors", "io", "testing") + '''
type demoW struct {
	room int
	got  []byte
}

func (w *demoW) Write(p []byte) (int, error) {
	if len(p) > w.room {
		n := w.room
		w.got = append(w.got, p[:n]...)
		w.room = 0
		return n, errors.New("full")
	}
	w.room -= len(p)
	w.got = append(w.got, p...)
	return len(p), nil
}

func TestDemo(t *testing.T) {
	b := body.FromString("hello world")
	b.(io.WriterTo).WriteTo(&demoW{room: 4})
	rest, _ := io.ReadAll(b)
	if string(rest) != "o world" {
		t.Fatalf("demo: %q left", rest)
	}
}
''')

seed(id="b10-empty-closed-readat", prop="B10", pkg="body",
  needs="random access on the copy of a closed zero-length body",
  breaks="copying a closed empty body yields one that is open again",
  edits=[("body/empty.go", '''	if body.closed {
		return closedSingleton, nil
	}

	dupe := &emptyBody{eof: body.eof}
''', '''	dupe := &emptyBody{eof: body.eof}
''')],
  test=imp("io/fs", "testing") + '''
func TestDemo(t *testing.T) {
	b := body.FromString("")
	b.Close()
	c, err := b.Copy()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := c.Read(nil); err != fs.ErrClosed {
		t.Fatalf("demo: copy of a closed body reads with %v", err)
	}
}
''')

seed(id="b12-pooled-alias", prop="B12", pkg="body",
  needs="a pretty JSON body without line breaks inside followed by another JSON body made while the first is in use",
  breaks="the body keeps the pooled encoder buffer, so the next encoding overwrites its bytes",
  edits=[("body/body.go", '''		numLF := bytes.Count(src, []byte{'\\n'})
		dst = make([]byte, 0, len(src)+numLF)
''', '''		numLF := bytes.Count(src, []byte{'\\n'})
		if numLF == 1 {
			// A scalar on a single line: only the terminal newline to fix.
			return FromBytes(append(src[:len(src)-1], '\\r', '\\n'))
		}
		dst = make([]byte, 0, len(src)+numLF)
''')],
  test=imp("io", "testing") + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		a := body.FromPrettyJSON("aaaaaaaaaaaaaaaa")
		body.FromPrettyJSON("bbbbbbbbbbbbbbbbbb")
		body.FromJSON([]int{1, 2, 3, 4, 5, 6, 7})
		got, _ := io.ReadAll(a)
		if string(got) != "\\"aaaaaaaaaaaaaaaa\\"\\r\\n" {
			t.Fatalf("demo: body is %q", got)
		}
	}
}
''')

seed(id="b02-declared-eof", prop="B02", pkg="body",
  needs="a stream shorter than its declared length, read to its end by one copy, and another copy asked for its length",
  breaks="the length found at the real end is not recorded, so the remaining length never becomes 0 for a handle at the end that has not seen it",
  edits=[(BUF, '''			if err != nil {
				common.length = endBuffer
				common.err = err
''', '''			if err != nil {
				if common.length < 0 {
					common.length = endBuffer
				}
				common.err = err
''')],
  test=imp("io", "strings", "testing") + NOTREADERAT + '''
func TestDemo(t *testing.T) {
	b, err := body.FromReaderAndLength(&demoStream{strings.NewReader("abc")}, 10)
	if err != nil {
		t.Fatal(err)
	}
	c, _ := b.Copy()
	io.ReadAll(b)
	if n := c.BytesRemaining(); n != 3 {
		t.Fatalf("demo: %d bytes remaining, want 3", n)
	}
}
''')

seed(id="b07-error-with-data", prop="B07", pkg="body", also=["B03"],
  needs="a stream that fails after part of a block, with two copies: one reads past the failure, the other arrives there later",
  breaks="a copy that has not met the error sees the end of its buffered bytes as a plain end of file",
  edits=[(BUF, '''	if endOffset > endBuffer {
		endOffset = endBuffer
		err = common.err
		body.eof = true
	}
''', '''	if endOffset > endBuffer {
		endOffset = endBuffer
		err = common.err
		if beginOffset == endBuffer || err == nil {
			err = io.EOF
		}
		body.eof = true
	}
''')],
  test=imp("errors", "io", "testing") + '''
type demoFail struct{ done bool }

var errDemo = errors.New("wire cut")

func (d *demoFail) Read(p []byte) (int, error) {
	if d.done {
		return 0, errDemo
	}
	d.done = true
	return copy(p, "abc"), errDemo
}

func TestDemo(t *testing.T) {
	b, err := body.FromReader(&demoFail{})
	if err != nil {
		t.Fatal(err)
	}
	io.ReadFull(b, make([]byte, 3))
	if n, err := b.Read(make([]byte, 3)); n != 0 || err != errDemo {
		t.Fatalf("demo: got %d, %v; want the source's error", n, err)
	}
}
''')

seed(id="b08-stat-failure", prop="B08", pkg="body",
  needs="a file that can seek and whose Stat fails",
  breaks="the failure is swallowed and the length is taken from seeking instead",
  edits=[("body/body.go", '''		if err != nil {
			return nil, fmt.Errorf("failed to determine length of body via Stat: %w", err)
		}
''', '''		if err != nil && !sOK {
			return nil, fmt.Errorf("failed to determine length of body via Stat: %w", err)
		}
'''), ("body/body.go", '''		if fi.Mode().IsRegular() {''', '''		if err == nil && fi.Mode().IsRegular() {''')],
  test=imp("errors", "io/fs", "strings", "testing") + '''
type demoFile struct{ *strings.Reader }

var errDemo = errors.New("stale handle")

func (demoFile) Stat() (fs.FileInfo, error) { return nil, errDemo }
func (demoFile) Close() error               { return nil }

func TestDemo(t *testing.T) {
	b, err := body.FromReader(demoFile{strings.NewReader("abc")})
	if !errors.Is(err, errDemo) || b != nil {
		t.Fatalf("demo: got %v, %v; want the Stat failure", b, err)
	}
}
''')

seed(id="b06-readat-advances", prop="B06", pkg="body",
  needs="an emulated random-access read that runs into the real end of a source shorter than declared",
  breaks="the failing random-access read marks the handle as ended, so sequential reading stops early",
  edits=[(SEEK, '''	if avail > 0 {
		n, err = common.readAt(p[0:x], offset)
	}
	if eof && err == nil {
		err = io.EOF
	}

	return n, err
}

func (body *seekerBody) Copy''', '''	if avail > 0 {
		n, err = common.readAt(p[0:x], offset)
		if err != nil && n == 0 {
			body.err = err
		}
	}
	if eof && err == nil {
		err = io.EOF
	}

	return n, err
}

func (body *seekerBody) Copy''')],
  test=imp("io", "strings", "testing") + '''
type demoRS struct{ r *strings.Reader }

func (d *demoRS) Read(p []byte) (int, error)         { return d.r.Read(p) }
func (d *demoRS) Seek(o int64, w int) (int64, error) { return d.r.Seek(o, w) }

func TestDemo(t *testing.T) {
	b, err := body.FromReaderAndLength(&demoRS{strings.NewReader("abc")}, 10)
	if err != nil {
		t.Fatal(err)
	}
	b.(io.ReaderAt).ReadAt(make([]byte, 2), 5)
	got, _ := io.ReadAll(b)
	if string(got) != "abc" {
		t.Fatalf("demo: read %q after a random-access read past the end", got)
	}
}
''')

seed(id="b13-seek-beyond", prop="B13", pkg="body", also=["B05"],
  needs="seeking relative to the current position past the end of an in-memory body, as compared with other kinds",
  breaks="a seek beyond the end is refused by in-memory bodies but clamped by the others",
  edits=[("body/bytes.go", '''	if offset > bodyLen {
		offset = bodyLen
	}

	body.offset = int(offset)
''', '''	if offset > bodyLen {
		if whence == io.SeekCurrent {
			return -1, NegativeComputedOffsetSeekError{bodyLen - offset}
		}
		offset = bodyLen
	}

	body.offset = int(offset)
''')],
  test=imp("io", "testing") + '''
func TestDemo(t *testing.T) {
	b := body.FromString("abc")
	if n, err := b.(io.Seeker).Seek(5, io.SeekCurrent); n != 3 || err != nil {
		t.Fatalf("demo: seek past the end gave %d, %v", n, err)
	}
}
''')

seed(id="b01-overread", prop="B01", pkg="body",
  needs="a stream with a declared length above 64 KiB that is no multiple of it, read in large pieces from a source holding more",
  breaks="the last fetch is rounded up to whole blocks again: bytes beyond the declared length are taken from the source and delivered",
  edits=[(BUF, '''				numToRead = remain
				eof = true
			}
		}
''', '''				numToRead = remain
				eof = true
			}
			if numToRead > blockSize {
				// Keep large fetches block-aligned.
				numToRead = int64(uint64(numToRead+blockSize-1) &^ uint64(blockSize-1))
			}
		}
''')],
  test=imp("io", "strings", "testing") + NOTREADERAT + '''
func TestDemo(t *testing.T) {
	src := strings.NewReader(strings.Repeat("x", 200000))
	b, err := body.FromReaderAndLength(&demoStream{src}, 70000)
	if err != nil {
		t.Fatal(err)
	}
	n, _ := io.ReadFull(b, make([]byte, 100000))
	if n != 70000 || src.Len() != 130000 {
		t.Fatalf("demo: %d bytes delivered, %d taken; want 70000", n, 200000-src.Len())
	}
}
''')

seed(id="c02-copy-outside-lock", prop="C02", pkg="body", also=["C01", "C04"],
  needs="Copy of a stream handle interleaved with a Read on the same handle",
  breaks="the copy's cursor is taken before it is registered: a read in between can drop the bytes it stands at",
  edits=[(BUF, '''	dupe := &bufferedBody{
		common: body.common,
		offset: body.offset,
		eof:    body.eof,
		closed: body.closed,
	}
	dupe.common.ref(dupe)
	return dupe, nil
''', '''	dupe := &bufferedBody{
		common: body.common,
		offset: body.offset,
		eof:    body.eof,
		closed: body.closed,
	}
	// Registering takes the lock of the shared state; do not hold both.
	body.mu.Unlock()
	dupe.common.ref(dupe)
	body.mu.Lock()
	return dupe, nil
''')],
  test=imp("io", "testing", "time") + '''
type demoZeros struct{}

func (demoZeros) Read(p []byte) (int, error) { return len(p), nil }

func TestDemo(t *testing.T) {
	b, err := body.FromReader(demoZeros{})
	if err != nil {
		t.Fatal(err)
	}
	stop := make(chan bool)
	go func() {
		buf := make([]byte, 1)
		for {
			select {
			case <-stop:
				return
			default:
				io.ReadFull(b, buf)
			}
		}
	}()
	defer close(stop)
	buf := make([]byte, 1)
	deadline := time.Now().Add(20 * time.Second)
	for i := 0; i < 300000 && time.Now().Before(deadline); i++ {
		c, err := b.Copy()
		if err != nil {
			t.Fatal(err)
		}
		if n, err := c.Read(buf); n != 1 || err != nil { // panics when its bytes are gone
			t.Fatalf("demo: copy read %d, %v", n, err)
		}
		c.Close()
	}
}
''')

seed(id="c01-length-check-then-act", prop="C01", pkg="body", also=["C03","B02"],
  needs="two copies of a random-access body over a source shorter than declared, one in a read while the other finds the end",
  breaks="the remaining length is computed from a stale shared length and written back, undoing the correction another copy made meanwhile",
  edits=[(RAT, '''	common := body.common
	common.mu.Lock()
	defer common.mu.Unlock()

	offset := body.offset
	length := common.length
	if offset > length {
		offset = length
	}

	avail := (length - offset)
	x := int64(len(p))
	eof := false
	if x > avail {
		x = avail
		eof = true
	}

	var n int
	var err error

	if avail > 0 {
		n, err = common.readAt(p[0:x], offset)
	}
''', '''	common := body.common

	offset := body.offset
	length := common.BytesRemaining()
	if offset > length {
		offset = length
	}

	avail := (length - offset)
	x := int64(len(p))
	eof := false
	if x > avail {
		x = avail
		eof = true
	}

	var n int
	var err error

	common.mu.Lock()
	defer common.mu.Unlock()
	if avail > 0 {
		n, err = common.readAt(p[0:x], offset)
	}
	if eof && common.length < length {
		common.length = length
	}
''')],
  test=imp("io", "testing", "time") + '''
type demoAt struct{}

func (demoAt) Read(p []byte) (int, error) { return 0, io.EOF }
func (demoAt) ReadAt(p []byte, o int64) (int, error) {
	if o >= 4 {
		return 0, io.EOF
	}
	n := 4 - int(o)
	if n > len(p) {
		return len(p), nil
	}
	return n, io.EOF
}

func demoOnce(t *testing.T) bool {
	b, err := body.FromReaderAndLength(demoAt{}, 10)
	if err != nil {
		t.Fatal(err)
	}
	start, done := make(chan bool), make(chan bool)
	for i := 0; i < 4; i++ {
		c, _ := b.Copy()
		if i > 0 {
			c.(io.Seeker).Seek(0, io.SeekEnd)
		}
		go func() {
			<-start
			c.Read(make([]byte, 8))
			done <- true
		}()
	}
	close(start)
	for i := 0; i < 4; i++ {
		<-done
	}
	return b.BytesRemaining() == 4
}

func TestDemo(t *testing.T) {
	deadline := time.Now().Add(60 * time.Second)
	for i := 0; i < 2000000 && time.Now().Before(deadline); i++ {
		if !demoOnce(t) {
			t.Fatalf("demo: try %d: the length found at the end was overwritten by a stale one", i)
		}
	}
}
''')
