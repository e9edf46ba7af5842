//go:build go1.22

// Package env is the closed environment of the model-checked bodies: readers
// whose every legal answer is a choice, and writers that fail on demand.
package env

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"syscall"
	"time"

	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)

// Content is the same deterministic byte sequence everywhere: byte i of any
// source is ByteAt(i).
const tableLen = 1 << 20

var table = func() []byte {
	t := make([]byte, tableLen)
	for i := range t {
		t[i] = calc(int64(i))
	}
	return t
}()

func calc(i int64) byte {
	if i < 26 {
		return byte('a' + i)
	}
	x := uint64(i) + 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return byte(x >> 56)
}

// Beyond the table the content repeats it, masked by a value of the repetition.
func maskOf(rep int64) byte { return calc(rep*7919+tableLen) | 1 }

// ByteAt returns byte i of the content.
func ByteAt(i int64) byte {
	if i < 0 {
		return calc(i)
	}
	if i < tableLen {
		return table[i]
	}
	return table[i%tableLen] ^ maskOf(i/tableLen)
}

// span calls f for the pieces of content[off:off+n] that lie in one repetition.
func span(off int64, n int, f func(at int, tab []byte, mask byte)) {
	for at := 0; at < n; {
		o := off + int64(at)
		k := int(tableLen - o%tableLen)
		if k > n-at {
			k = n - at
		}
		var m byte
		if o >= tableLen {
			m = maskOf(o / tableLen)
		}
		f(at, table[o%tableLen:o%tableLen+int64(k)], m)
		at += k
	}
}

// Fill writes content[off:off+len(p)] into p.
func Fill(p []byte, off int64) {
	if off >= 0 && off+int64(len(p)) <= tableLen {
		copy(p, table[off:])
		return
	}
	span(off, len(p), func(at int, tab []byte, mask byte) {
		for i, b := range tab {
			p[at+i] = b ^ mask
		}
	})
}

// Equal reports whether p equals content[off:off+len(p)].
func Equal(p []byte, off int64) bool {
	if off >= 0 && off+int64(len(p)) <= tableLen {
		return string(p) == string(table[off:off+int64(len(p))])
	}
	same := true
	span(off, len(p), func(at int, tab []byte, mask byte) {
		for i, b := range tab {
			if p[at+i] != b^mask {
				same = false
				return
			}
		}
	})
	return same
}

// Bytes returns content[0:n] in a fresh slice.
func Bytes(n int64) []byte { return BytesAt(0, n) }

// BytesAt returns content[off:off+n] in a fresh slice.
func BytesAt(off, n int64) []byte { b := make([]byte, n); Fill(b, off); return b }

// InjErr is an injected failure.
type InjErr struct{ ID string }

func (e *InjErr) Error() string { return "injected failure " + e.ID }

// ErrKinds is the number of shapes a source's failure can have; a writer's or
// a Close's failure can have WErrKinds.
const (
	ErrKinds  = 9
	WErrKinds = 16
)

type wrapErr struct {
	id  string
	err error
}

func (e *wrapErr) Error() string { return "injected failure " + e.id + ": " + e.err.Error() }
func (e *wrapErr) Unwrap() error { return e.err }

// listErr cannot be compared with ==.
type listErr struct {
	id   string
	more []string
}

func (e listErr) Error() string        { return "injected failure " + e.id }
func (e listErr) Is(target error) bool { o, ok := target.(listErr); return ok && o.id == e.id }

type tempErr struct{ id string }

func (e tempErr) Error() string   { return "injected failure " + e.id }
func (e tempErr) Timeout() bool   { return true }
func (e tempErr) Temporary() bool { return true }

type blankErr struct{ id *string }

func (e blankErr) Error() string { return "" }

// NewErr makes a failure of the given shape.
func NewErr(kind int, id string) error {
	switch kind {
	case 1:
		return &wrapErr{id, io.EOF}
	case 2:
		return io.ErrUnexpectedEOF
	case 3:
		return listErr{id, []string{"x"}}
	case 4:
		return tempErr{id}
	case 5:
		return fs.ErrClosed
	case 6:
		return &fs.PathError{Op: "read", Path: id, Err: io.ErrUnexpectedEOF}
	case 7:
		return &wrapErr{id, fs.ErrClosed}
	case 8:
		return blankErr{&id}
	case 9:
		return io.EOF
	case 10:
		return http.ErrNotSupported
	case 11:
		return http.ErrAbortHandler
	case 12:
		return context.Canceled
	case 13:
		return io.ErrShortWrite
	case 14:
		return io.ErrClosedPipe
	case 15:
		return &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}
	}
	return &InjErr{id}
}

// Menu selects which deviations the environment may take.
type Menu struct {
	Short    bool // fewer bytes than asked, no error
	JointEOF bool // io.EOF together with the last bytes
	Zero     bool // (0, nil)
	Err      bool // error without data
	PartErr  bool // some data together with an error
	Persist  bool // after the first error every later call fails the same way
}

// Src is a data source with N bytes of content.
type Src struct {
	Ctl     *mc.Ctl
	Name    string
	N       int64
	Base    int64 // first byte's position in the generated content
	Menu    Menu
	Yields  bool // scheduling points inside calls
	CloseE  error
	SizeVal int64 // Stat size
	Mode    fs.FileMode
	StatErr error
	SeekErr error // construction-time Seek failure (when ConstructDev)

	Pos      int64 // stream cursor
	MaxPos   int64 // furthest byte consumed
	Closed   int
	InCall   int
	Broken   error
	Calls    int // data calls in the current operation
	OpErrs   []error
	OpZero   bool
	Errs     int
	Bad      *mc.Fail // first violation of the reader protocol
	Total    int64
	NSeek    int
	NStat    int
	LogLines []string
	InOp     bool
	SeekMenu bool
	ErrKind  int
	ShortAt  bool // ReadAt may answer short (with io.EOF it may not; used nowhere by default)
	// Panics adds a panic to the data calls' answers.
	Panics bool
	// Tolerant records no overlapping or late calls: overlapping calls just
	// interfere, calls after Close fail.
	Tolerant  bool
	PanicVals []interface{}
	caps      Caps
	// MaxRead limits what one Read call delivers (0: no limit).
	MaxRead int64
	// Budget is the number of calls allowed in one operation (0: 4096).
	Budget int
	// what the current operation asked the source for
	NData   int   // data calls since construction
	OpData  int   // data calls...
	OpSeeks int   // ...seek calls...
	OpReads int   // ...and Read calls among the data calls
	Lo, Hi  int64 // bytes asked for (Lo > Hi: none)
	Ended   bool  // a Read has reported an end or a failure
	OpLate  bool  // a Read was tried after that
	// per-thread log, used while Yields is set
	TErrs [8][]error
	TZero [8]bool
	TPos  [8]int64
}

//go:norace
func (s *Src) tlog(e error, zero bool) {
	t := mc.ThreadID()
	if t < 0 || t >= len(s.TErrs) {
		return
	}
	if e != nil {
		s.TErrs[t] = append(s.TErrs[t], e)
	}
	if zero {
		s.TZero[t] = true
	}
}

//go:norace
func (s *Src) tpos() {
	if t := mc.ThreadID(); t >= 0 && t < len(s.TPos) {
		s.TPos[t] = s.Pos
	}
}

// BeginOp resets the per-operation log.
func (s *Src) BeginOp() {
	s.Calls, s.OpErrs, s.OpZero = 0, nil, false
	s.OpData, s.OpSeeks, s.OpReads, s.OpLate = 0, 0, 0, false
	s.Lo, s.Hi = 1, 0
}

func (s *Src) enter(what string) {
	s.Total++
	if s.InCall > 0 && s.Bad == nil && !s.Tolerant {
		s.Bad = mc.Failf("overlap", "reader call %s while another reader call is in progress", what)
	}
	if s.Closed > 0 && s.Bad == nil && !s.Tolerant {
		s.Bad = mc.Failf("after-close", "reader call %s after the reader was closed", what)
	}
	s.InCall++
	if s.Yields {
		mc.Yield()
	}
	s.Calls++
	limit := s.Budget
	if limit == 0 {
		limit = 4096
	}
	if s.Calls > limit && !s.Yields {
		panic(mc.LockPanic{Msg: fmt.Sprintf("livelock: more than %d reader calls in one operation", limit)})
	}
}

func (s *Src) leave() {
	if s.Yields {
		mc.Yield()
	}
	s.InCall--
}

func (s *Src) inject(kind string) error {
	s.Errs++
	e := NewErr(s.ErrKind, fmt.Sprintf("#%d(%s)", s.Errs, kind))
	s.OpErrs = append(s.OpErrs, e)
	s.tlog(e, false)
	if s.Menu.Persist {
		s.Broken = e
	}
	return e
}

// data answers a request for len(p) bytes at off; isAt selects ReaderAt rules.
func (s *Src) data(p []byte, off int64, isAt bool) (int, error) {
	k := int64(len(p))
	s.NData++
	s.OpData++
	if !isAt {
		s.OpReads++
		s.OpLate = s.OpLate || s.Ended
	}
	if k > 0 {
		if s.Lo > s.Hi {
			s.Lo, s.Hi = off, off+k
		} else {
			s.Lo, s.Hi = min(s.Lo, off), max(s.Hi, off+k)
		}
	}
	if s.Tolerant && s.Closed > 0 {
		return 0, fs.ErrClosed
	}
	avail := s.N - off
	if avail < 0 {
		avail = 0
	}
	if s.Broken != nil && k > 0 {
		s.OpErrs = append(s.OpErrs, s.Broken)
		s.tlog(s.Broken, false)
		return 0, s.Broken
	}
	full := k
	if full > avail {
		full = avail
	}
	if !isAt && s.MaxRead > 0 && full > s.MaxRead {
		full = s.MaxRead
	}
	const (
		aFull = iota
		aJoint
		aShort
		aZero
		aErr
		aPartErr
		aPanic
	)
	var buf [7]int
	menu := buf[:1]
	if s.Ctl != nil {
		if s.Menu.JointEOF && full == avail && full > 0 && (!isAt || k >= full) {
			menu = append(menu, aJoint)
		}
		if s.Menu.Short && full > 1 && !isAt {
			menu = append(menu, aShort)
		}
		if s.Menu.Zero && k > 0 && avail > 0 && !isAt {
			menu = append(menu, aZero)
		}
		if s.Menu.Err && k > 0 {
			menu = append(menu, aErr)
		}
		if s.Menu.PartErr && full > 0 {
			menu = append(menu, aPartErr)
		}
		if s.Panics && k > 0 {
			menu = append(menu, aPanic)
		}
	}
	a := aFull
	if len(menu) > 1 {
		a = menu[s.Ctl.Choose(len(menu), mc.Env)]
	}
	n := full
	var err error
	switch a {
	case aFull:
		if isAt && n < k {
			err = io.EOF
		} else if !isAt && n == 0 && k > 0 {
			err = io.EOF
		}
	case aJoint:
		err = io.EOF
	case aShort:
		n = 1
		if full > 2*65536 {
			n = full - 3
		}
	case aZero:
		n = 0
		s.OpZero = true
		s.tlog(nil, true)
	case aErr:
		n = 0
		err = s.inject("read")
	case aPartErr:
		n = full
		if n > 1 {
			n = full - 1
		}
		if isAt && n == k {
			// a ReaderAt may not fail after filling the buffer except at EOF
			n--
		}
		err = s.inject("partial read")
	}
	if a == aPanic {
		v := "injected panic in the source"
		s.PanicVals = append(s.PanicVals, v)
		s.InCall--
		panic(v)
	}
	if n > 0 {
		Fill(p[:n], s.Base+off)
	}
	return int(n), err
}

func (s *Src) read(p []byte) (int, error) {
	s.enter("Read")
	off := s.Pos
	n, err := s.data(p, s.Pos, false)
	s.Pos = off + int64(n)
	if err != nil {
		s.Ended = true
	}
	if s.Pos > s.MaxPos {
		s.MaxPos = s.Pos
	}
	s.tpos()
	if s.Ctl != nil && s.Ctl.Verbose {
		s.Ctl.Logf("    source.Read(len %d) at %d -> %d, %v", len(p), off, n, err)
	}
	s.leave()
	return n, err
}

func (s *Src) readAt(p []byte, off int64) (int, error) {
	s.enter("ReadAt")
	var n int
	var err error
	if off < 0 {
		err = errors.New("source: negative offset")
		if s.Bad == nil {
			s.Bad = mc.Failf("protocol", "reader ReadAt called with negative offset %d", off)
		}
	} else {
		n, err = s.data(p, off, true)
	}
	if s.Ctl != nil && s.Ctl.Verbose {
		s.Ctl.Logf("    source.ReadAt(len %d, %d) -> %d, %v", len(p), off, n, err)
	}
	s.leave()
	return n, err
}

func (s *Src) seek(off int64, whence int) (int64, error) {
	s.enter("Seek")
	s.NSeek++
	s.OpSeeks++
	base := int64(0)
	switch whence {
	case io.SeekCurrent:
		base = s.Pos
	case io.SeekEnd:
		base = s.N
	}
	to := base + off
	var err error
	if s.SeekErr != nil {
		err = s.SeekErr
	} else if s.Tolerant && s.Closed > 0 {
		err = fs.ErrClosed
	} else if to < 0 {
		err = errors.New("source: negative seek")
		if s.Bad == nil {
			s.Bad = mc.Failf("protocol", "reader Seek to negative position %d", to)
		}
	} else if s.SeekMenu && s.Ctl != nil && s.Ctl.Choose(2, mc.Env) == 1 {
		err = s.inject("seek")
	}
	if err == nil {
		s.Pos = to
	} else {
		to = 0
	}
	if s.Ctl != nil && s.Ctl.Verbose {
		s.Ctl.Logf("    source.Seek(%d, %d) -> %d, %v", off, whence, to, err)
	}
	s.leave()
	return to, err
}

func (s *Src) close() error {
	s.enter("Close")
	s.Closed++
	if s.Ctl != nil && s.Ctl.Verbose {
		s.Ctl.Logf("    source.Close() -> %v", s.CloseE)
	}
	s.leave()
	return s.CloseE
}

func (s *Src) stat() (fs.FileInfo, error) {
	s.enter("Stat")
	s.NStat++
	s.leave()
	if s.StatErr != nil {
		return nil, s.StatErr
	}
	return info{s}, nil
}

type info struct{ s *Src }

func (i info) Name() string       { return "source" }
func (i info) Size() int64        { return i.s.SizeVal }
func (i info) Mode() fs.FileMode  { return i.s.Mode }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.s.Mode.IsDir() }
func (i info) Sys() interface{}   { return nil }

type mRead struct{ s *Src }
type mAt struct{ s *Src }
type mSeek struct{ s *Src }
type mClose struct{ s *Src }
type mStat struct{ s *Src }

func (m mRead) Read(p []byte) (int, error)                { return m.s.read(p) }
func (m mAt) ReadAt(p []byte, off int64) (int, error)     { return m.s.readAt(p, off) }
func (m mSeek) Seek(off int64, whence int) (int64, error) { return m.s.seek(off, whence) }
func (m mClose) Close() error                             { return m.s.close() }
func (m mStat) Stat() (fs.FileInfo, error)                { return m.s.stat() }

// Kind names how a body without file information will use the source.
func (s *Src) Kind() string {
	switch {
	case s.caps.At && (s.caps.Seek || s.caps.Stat):
		return "readerat"
	case s.caps.Seek:
		return "seeker"
	}
	return "stream"
}

// Caps selects the interfaces a reader offers.
type Caps struct{ At, Seek, Stat, Close bool }

func (c Caps) String() string {
	s := "reader"
	if c.Stat {
		s += "+stat"
	}
	if c.Seek {
		s += "+seek"
	}
	if c.At {
		s += "+at"
	}
	if c.Close {
		s += "+close"
	}
	return s
}

// Reader returns the source behind exactly the given interfaces (file
// information implies Close, as fs.File does).
func (s *Src) Reader(c Caps) io.Reader {
	s.caps = c
	r, a, k, cl, st := mRead{s}, mAt{s}, mSeek{s}, mClose{s}, mStat{s}
	if c.Stat {
		switch {
		case c.At && c.Seek:
			return struct {
				mRead
				mAt
				mSeek
				mClose
				mStat
			}{r, a, k, cl, st}
		case c.At:
			return struct {
				mRead
				mAt
				mClose
				mStat
			}{r, a, cl, st}
		case c.Seek:
			return struct {
				mRead
				mSeek
				mClose
				mStat
			}{r, k, cl, st}
		}
		return struct {
			mRead
			mClose
			mStat
		}{r, cl, st}
	}
	if c.Close {
		switch {
		case c.At && c.Seek:
			return struct {
				mRead
				mAt
				mSeek
				mClose
			}{r, a, k, cl}
		case c.At:
			return struct {
				mRead
				mAt
				mClose
			}{r, a, cl}
		case c.Seek:
			return struct {
				mRead
				mSeek
				mClose
			}{r, k, cl}
		}
		return struct {
			mRead
			mClose
		}{r, cl}
	}
	switch {
	case c.At && c.Seek:
		return struct {
			mRead
			mAt
			mSeek
		}{r, a, k}
	case c.At:
		return struct {
			mRead
			mAt
		}{r, a}
	case c.Seek:
		return struct {
			mRead
			mSeek
		}{r, k}
	}
	return struct{ mRead }{r}
}

// Sink is an io.Writer accepting Cap bytes, then failing with Err.
type Sink struct {
	Cap int64 // -1 unlimited
	// Joint reports Err already together with the last byte accepted.
	Joint bool
	Err   error
	Got   []byte
	N     int
	// Yields makes the sink a scheduling point.
	Yields bool
}

func (w *Sink) Write(p []byte) (int, error) {
	w.N++
	if w.Yields {
		mc.Yield()
		defer mc.Yield()
	}
	if w.Cap < 0 {
		w.Got = append(w.Got, p...)
		return len(p), nil
	}
	room := w.Cap - int64(len(w.Got))
	if int64(len(p)) <= room {
		w.Got = append(w.Got, p...)
		if w.Joint && int64(len(p)) == room && room > 0 {
			return len(p), w.Err
		}
		return len(p), nil
	}
	w.Got = append(w.Got, p[:room]...)
	return int(room), w.Err
}
