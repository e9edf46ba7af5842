//go:build go1.22

// Package fakew is the closed environment of response writers: a writer that
// records everything it receives, offers any chosen set of optional
// interfaces, and fails or panics where the explorer tells it to.
package fakew

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"

	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)

// Capability bits.
const (
	Flusher = 1 << iota
	Hijacker
	CloseNotifier
	ReaderFrom
	Pusher
	All = 1<<iota - 1
)

// CapNames renders a capability set.
func CapNames(c int) string {
	s := "plain"
	for i, n := range []string{"flush", "hijack", "closenotify", "readfrom", "push"} {
		if c&(1<<i) != 0 {
			s += "+" + n
		}
	}
	return s
}

// Menu of deviations.
type Menu struct {
	WriteErr   bool // Write/ReadFrom fail with nothing accepted
	WritePart  bool // ... with part of the data accepted
	WriteJoint bool // ... with all of it accepted
	WritePanic bool
	HeadPanic  bool // WriteHeader panics
	HdrPanic   bool // Header panics
	PushMenu   bool // Push: not supported, wrapped not supported, another error
	PushPanic  bool
	FlushPanic bool
	ErrKind    int // shape of the errors
}

// Call is one call received.
type Call struct {
	Name   string
	Status int
	Data   []byte // accepted bytes
	URL    string
	Failed bool
}

func (c Call) String() string {
	s := c.Name
	switch c.Name {
	case "WriteHeader":
		s += fmt.Sprintf("(%d)", c.Status)
	case "Write", "ReadFrom":
		s += fmt.Sprintf("[%d bytes accepted]", len(c.Data))
	case "Push":
		s += "(" + c.URL + ")"
	}
	if c.Failed {
		s += " failed"
	}
	return s
}

// W is the recorder.
type W struct {
	Ctl    *mc.Ctl
	M      Menu
	Yields bool
	H      http.Header
	Sent   http.Header // snapshot when the header went out
	Status int
	Calls  []Call
	Body   []byte
	Errs   []error // errors returned, in order
	Panics []interface{}
	WriteE int // failed body calls that were the writer's fault
	NHead  int
	Bad    string
	PushO  []*http.PushOptions
	NoPush bool // Push reports ErrNotSupported always
	// MutateHeaders, if set, is applied to the header map when it goes out.
	MutateHeaders func(http.Header)
	Chan          chan bool
	Conn          net.Conn
	RW            *bufio.ReadWriter
	HijackErr     error
	LastReader    io.Reader
	LastPush      []error // results of Push, in order
	TornReadFrom  bool    // ReadFrom uses a small buffer
}

// New recorder.
func New(c *mc.Ctl, m Menu) *W {
	return &W{Ctl: c, M: m, H: http.Header{}, Chan: make(chan bool), Conn: nil, HijackErr: nil}
}

func (w *W) choose(n int) int {
	if w.Ctl == nil || n <= 1 {
		return 0
	}
	return w.Ctl.Choose(n, mc.Env)
}

// PanicValue is what injected panics carry.
type PanicValue struct{ Where string }

func (p PanicValue) Error() string { return "injected panic in " + p.Where }

func (w *W) throw(where string, i int) {
	var v interface{}
	switch i % 2 {
	case 0:
		v = &PanicValue{where}
	default:
		v = "injected panic value in " + where
	}
	w.Panics = append(w.Panics, v)
	panic(v)
}

func (w *W) log(c Call) *Call {
	w.Calls = append(w.Calls, c)
	if w.Ctl != nil && w.Ctl.Verbose {
		w.Ctl.Logf("    writer received %v", c)
	}
	return &w.Calls[len(w.Calls)-1]
}

func (w *W) yield() {
	if w.Yields {
		mc.Yield()
	}
}

func (w *W) Header() http.Header {
	if w.M.HdrPanic && w.choose(2) == 1 {
		w.log(Call{Name: "Header", Failed: true})
		w.throw("Header", 0)
	}
	return w.H
}

func (w *W) commit(status int) {
	if w.Sent == nil {
		w.Sent = w.H.Clone()
		if w.Sent == nil {
			w.Sent = http.Header{}
		}
		w.Status = status
		if w.MutateHeaders != nil {
			w.MutateHeaders(w.H)
		}
	}
}

func (w *W) WriteHeader(status int) {
	w.yield()
	c := w.log(Call{Name: "WriteHeader", Status: status})
	w.NHead++
	if w.M.HeadPanic {
		switch w.choose(3) {
		case 1:
			c.Failed = true
			w.throw("WriteHeader", 0)
		case 2:
			c.Failed = true
			w.throw("WriteHeader", 1)
		}
	}
	w.commit(status)
	w.yield()
}

func (w *W) fail(where string) error {
	kind := w.M.ErrKind
	if where == "push" && kind == 10 {
		kind = 0
	}
	e := env.NewErr(kind, fmt.Sprintf("#%d(%s)", len(w.Errs), where))
	w.Errs = append(w.Errs, e)
	return e
}

func (w *W) Write(p []byte) (int, error) {
	w.yield()
	w.commit(http.StatusOK)
	c := w.log(Call{Name: "Write"})
	n, err := w.accept(p, c, "write")
	w.yield()
	return n, err
}

func (w *W) accept(p []byte, c *Call, where string) (int, error) {
	type alt int
	menu := []alt{0}
	if w.M.WriteErr {
		menu = append(menu, 1)
	}
	if w.M.WritePart && len(p) > 1 {
		menu = append(menu, 2)
	}
	if w.M.WriteJoint && len(p) > 0 {
		menu = append(menu, 5)
	}
	if w.M.WritePanic {
		menu = append(menu, 3, 4)
	}
	switch menu[w.choose(len(menu))] {
	case 1:
		c.Failed = true
		w.WriteE++
		return 0, w.fail(where)
	case 2:
		c.Failed = true
		w.WriteE++
		n := len(p) - 1
		c.Data = append(c.Data, p[:n]...)
		w.Body = append(w.Body, p[:n]...)
		return n, w.fail("partial " + where)
	case 5:
		c.Failed = true
		w.WriteE++
		c.Data = append(c.Data, p...)
		w.Body = append(w.Body, p...)
		return len(p), w.fail("full " + where)
	case 3:
		c.Failed = true
		w.throw(where, 0)
	case 4:
		c.Failed = true
		w.throw(where, 1)
	}
	c.Data = append(c.Data, p...)
	w.Body = append(w.Body, p...)
	return len(p), nil
}

type fFlush struct{ w *W }
type fHijack struct{ w *W }
type fNotify struct{ w *W }
type fReadFrom struct{ w *W }
type fPush struct{ w *W }

func (f fFlush) Flush() {
	w := f.w
	w.yield()
	w.commit(http.StatusOK)
	c := w.log(Call{Name: "Flush"})
	if w.M.FlushPanic && w.choose(2) == 1 {
		c.Failed = true
		w.throw("Flush", 0)
	}
}

func (f fHijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	f.w.log(Call{Name: "Hijack"})
	return f.w.Conn, f.w.RW, f.w.HijackErr
}

func (f fNotify) CloseNotify() <-chan bool {
	f.w.log(Call{Name: "CloseNotify"})
	return f.w.Chan
}

func (f fReadFrom) ReadFrom(r io.Reader) (int64, error) {
	w := f.w
	w.yield()
	w.LastReader = r
	size := 16384
	if w.TornReadFrom {
		size = 2
	}
	buf := make([]byte, size)
	i := len(w.Calls)
	w.log(Call{Name: "ReadFrom"})
	w.commit(http.StatusOK)
	var total int64
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, werr := w.accept(buf[:n], &w.Calls[i], "readfrom")
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			w.Calls[i].Failed = true
			return total, err
		}
	}
}

// ErrWrapped is ErrNotSupported behind one layer.
var ErrWrapped = fmt.Errorf("no push here: %w", http.ErrNotSupported)

func (f fPush) Push(url string, o *http.PushOptions) (err error) {
	defer func() { f.w.LastPush = append(f.w.LastPush, err) }()
	w := f.w
	w.yield()
	c := w.log(Call{Name: "Push", URL: url})
	w.PushO = append(w.PushO, o)
	if w.NoPush {
		return http.ErrNotSupported
	}
	n := 1
	if w.M.PushMenu {
		n = 4
	}
	if w.M.PushPanic {
		n = 6
	}
	switch w.choose(n) {
	case 1:
		c.Failed = true
		return w.fail("push")
	case 2:
		return ErrWrapped
	case 3:
		return http.ErrNotSupported
	case 4:
		c.Failed = true
		w.throw("Push", 0)
	case 5:
		c.Failed = true
		w.throw("Push", 1)
	}
	return nil
}

// IsInjected reports whether err is one of the injected errors.
func (w *W) IsInjected(err error) bool {
	for _, e := range w.Errs {
		if errors.Is(err, e) {
			return true
		}
	}
	return false
}

// Trace renders the calls.
func (w *W) Trace() string {
	var b bytes.Buffer
	for i, n := 0, 0; i < len(w.Calls); i += n {
		if i > 0 {
			b.WriteString(", ")
		}
		s := w.Calls[i].String()
		b.WriteString(s)
		n = 1
		for i+n < len(w.Calls) && w.Calls[i+n].String() == s {
			n++
		}
		if n > 1 {
			fmt.Fprintf(&b, " x%d", n)
		}
	}
	return b.String()
}
