//go:build go1.22

// Package refbody is the reference model of package body: for every operation
// it says which observed results are acceptable in the current model state, and
// moves to the state that result implies.
package refbody

import (
	"errors"
	"fmt"
	"io"
	"io/fs"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zz_verif/env"
	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)

// Kind of body.
type Kind int

const (
	Closed Kind = iota
	Empty
	Mem    // bytes or string
	FileAt // io.ReaderAt backed
	FileSk // io.ReadSeeker backed
	Stream // plain reader
)

func (k Kind) String() string {
	return [...]string{"closed", "empty", "memory", "readerat", "seeker", "stream"}[k]
}

// OpK is an operation.
type OpK uint8

const (
	ORead OpK = iota
	OSeek
	OReadAt
	OCopy
	OClose
	ORemain
	OUnwrap
	OWriteTo // body.WriteTo
	OIOCopy  // io.Copy(sink, body)
)

// Op on handle H. Read: A=size. Seek: A=offset, W=whence. ReadAt: A=size,
// B=offset. WriteTo/IOCopy: A=bytes the sink accepts (-1 all).
type Op struct {
	K    OpK
	H    int
	A, B int64
	W    int
}

func (o Op) String() string {
	switch o.K {
	case ORead:
		return fmt.Sprintf("h%d.Read(%d)", o.H, o.A)
	case OSeek:
		return fmt.Sprintf("h%d.Seek(%d, %d)", o.H, o.A, o.W)
	case OReadAt:
		return fmt.Sprintf("h%d.ReadAt(len %d, %d)", o.H, o.A, o.B)
	case OCopy:
		return fmt.Sprintf("h%d.Copy()", o.H)
	case OClose:
		return fmt.Sprintf("h%d.Close()", o.H)
	case ORemain:
		return fmt.Sprintf("h%d.BytesRemaining()", o.H)
	case OUnwrap:
		return fmt.Sprintf("h%d.Unwrap()", o.H)
	case OWriteTo:
		return fmt.Sprintf("h%d.WriteTo(sink %d)", o.H, o.A)
	case OIOCopy:
		return fmt.Sprintf("io.Copy(sink %d, h%d)", o.A, o.H)
	}
	return "?"
}

// Obs is what an operation returned.
type Obs struct {
	N     int64
	Err   error
	Data  []byte // Read/ReadAt: the whole buffer passed in (len = requested)
	Sink  []byte
	New   body.Body
	R     io.Reader
	Panic string
	// environment log of the operation
	Inj  []error
	Zero bool
	Skip bool // interface not offered
	// StreamAt is the source's stream position after the operation.
	StreamAt int64
	SinkErr  error
}

func (o *Obs) String() string {
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	s := fmt.Sprintf("%d, %v", o.N, o.Err)
	if o.New != nil {
		s = fmt.Sprintf("%T, %v", o.New, o.Err)
	}
	return s
}

// H is the model of one handle.
type H struct {
	Exists bool
	Closed bool
	// Lo..: acceptable cursor positions (normally exactly one).
	Pos []int64
	Err error // sticky injected error
	// Maybe is an error the source returned inside an io.Copy that reported
	// its writer's failure instead; it may have become sticky.
	Maybe error
	EOF   bool // saw EOF and has not moved since
	Caps  [3]bool
}

// Model state.
type Model struct {
	Kind   Kind
	N      int64 // content length of the source
	Base   int64 // where in the generated content the source's bytes start
	D      int64 // length the body was told or could discover at construction, -1 unknown
	CloseE error
	HasRdr bool
	Rdr    io.Reader

	Hs        []H
	StreamErr error // stream kinds: the shared error...
	StreamEnd int64 // ...and where it sits
	LenKnown  bool  // somebody reached the end
	Closed    bool  // reader closed
}

// New model with one open handle at position 0.
func New(kind Kind, n, d int64) *Model {
	m := &Model{Kind: kind, N: n, D: d}
	m.Hs = []H{{Exists: true, Closed: kind == Closed, Pos: []int64{0}}}
	return m
}

// L is the number of bytes the body really serves.
func (m *Model) L() int64 {
	if m.D >= 0 && m.D < m.N {
		return m.D
	}
	return m.N
}

// ends is the range in which the body may believe its end to be: exactly the
// real end, unless it was told too large a length and nobody has met the end.
func (m *Model) ends() (lo, hi int64) {
	lo = m.L()
	hi = lo
	if m.D > lo && !m.LenKnown {
		hi = m.D
	}
	return
}

// Clone for linearization search.
func (m *Model) Clone() *Model {
	c := *m
	c.Hs = append([]H(nil), m.Hs...)
	return &c
}

// Open handles.
func (m *Model) Open() int {
	n := 0
	for i := range m.Hs {
		if m.Hs[i].Exists && !m.Hs[i].Closed {
			n++
		}
	}
	return n
}

// Key hashes the state.
func (m *Model) Key(h mc.Hash) mc.Hash {
	h = h.I(int64(m.Kind)).I(m.N).I(m.D).B(m.LenKnown).B(m.StreamErr != nil).I(m.StreamEnd)
	for i := range m.Hs {
		x := &m.Hs[i]
		h = h.B(x.Exists).B(x.Closed).B(x.EOF).B(x.Err != nil).B(x.Maybe != nil)
		for _, p := range x.Pos {
			h = h.I(p)
		}
		h = h.I(-7)
	}
	return h
}

func in(errs []error, err error) error {
	for _, e := range errs {
		if errors.Is(err, e) {
			return e
		}
	}
	return nil
}

func eof(err error) bool { return err == io.EOF || (err != nil && errors.Is(err, io.EOF)) }
func closedErr(err error) bool {
	return err == fs.ErrClosed || (err != nil && errors.Is(err, fs.ErrClosed))
}

func filter(pos []int64, ok func(int64) bool) []int64 {
	if len(pos) == 1 {
		if ok(pos[0]) {
			return pos
		}
		return nil
	}
	var out []int64
	for _, p := range pos {
		if ok(p) {
			out = append(out, p)
		}
	}
	return out
}

func shift(pos []int64, n int64) []int64 {
	if n == 0 {
		return pos
	}
	out := make([]int64, len(pos))
	for i := range pos {
		out[i] = pos[i] + n
	}
	return out
}

// Accept checks the observation of op and advances the model.
func (m *Model) Accept(op Op, o *Obs) *mc.Fail {
	if o.Panic != "" {
		return mc.Failf("panic", "%v panicked: %s", op, o.Panic)
	}
	h := &m.Hs[op.H]
	if m.Kind == Stream && m.StreamErr == nil && len(o.Inj) > 0 {
		// whatever this call returns, the stream ends here
		m.StreamErr, m.StreamEnd = o.Inj[0], o.StreamAt
	}
	if h.Maybe != nil && (op.K == ORead || op.K == OWriteTo || op.K == OIOCopy) {
		if o.N == 0 && o.Err != nil && errors.Is(o.Err, h.Maybe) {
			h.Err = h.Maybe
		}
		h.Maybe = nil
	}
	if o.Skip {
		return nil
	}
	if h.Closed {
		return m.acceptClosed(op, o)
	}
	switch op.K {
	case ORead:
		return m.acceptRead(h, op, o)
	case OReadAt:
		return m.acceptReadAt(h, op, o)
	case OSeek:
		return m.acceptSeek(h, op, o)
	case ORemain:
		return m.acceptRemain(h, op, o)
	case OUnwrap:
		if m.HasRdr {
			if o.R == nil || o.R != m.Rdr {
				return mc.Failf("unwrap", "%v of an open handle returned %T, want the reader given", op, o.R)
			}
		} else if o.R != nil {
			return mc.Failf("unwrap", "%v of an in-memory body returned %T, want nil", op, o.R)
		}
		return nil
	case OCopy:
		if o.Err != nil {
			return mc.Failf("copy", "%v of an open handle failed: %v", op, o.Err)
		}
		if o.New == nil {
			return mc.Failf("copy", "%v returned nil body and nil error", op)
		}
		nh := *h
		nh.Exists = true
		m.Hs = append(m.Hs, nh)
		return nil
	case OClose:
		last := m.Open() == 1
		h.Closed = true
		if last {
			m.Closed = true
			if m.CloseE != nil && !errors.Is(o.Err, m.CloseE) {
				return mc.Failf("close-err", "%v closed the last handle, reader's Close failed with %v, got %v", op, m.CloseE, o.Err)
			}
			if m.CloseE == nil && o.Err != nil {
				return mc.Failf("close-err", "%v returned %v, want nil", op, o.Err)
			}
		} else if o.Err != nil {
			return mc.Failf("close-err", "%v returned %v while %d other handles are open, want nil", op, o.Err, m.Open())
		}
		return nil
	case OWriteTo, OIOCopy:
		return m.acceptWrite(h, op, o)
	}
	return nil
}

func (m *Model) acceptClosed(op Op, o *Obs) *mc.Fail {
	switch op.K {
	case ORead, OReadAt, OWriteTo, OIOCopy:
		if o.N != 0 || !closedErr(o.Err) || len(o.Sink) != 0 {
			return mc.Failf("closed", "%v on a closed handle returned %v, want 0 and the closed-file error", op, o)
		}
	case OSeek, OClose:
		if !closedErr(o.Err) {
			return mc.Failf("closed", "%v on a closed handle returned %v, want the closed-file error", op, o)
		}
	case ORemain:
		if o.N != 0 {
			return mc.Failf("closed", "%v on a closed handle returned %d, want 0", op, o.N)
		}
	case OUnwrap:
		if o.R != nil {
			return mc.Failf("closed", "%v on a closed handle returned %T, want nil", op, o.R)
		}
	case OCopy:
		if o.Err != nil || o.New == nil {
			return mc.Failf("closed", "%v on a closed handle returned %v, want an already-closed body", op, o)
		}
		m.Hs = append(m.Hs, H{Exists: true, Closed: true, Pos: []int64{0}})
	}
	return nil
}

func (m *Model) acceptRead(h *H, op Op, o *Obs) *mc.Fail {
	L := m.L()
	k, n, err := op.A, o.N, o.Err
	if n < 0 || n > k {
		return mc.Failf("content", "%v returned count %d for a buffer of %d", op, n, k)
	}
	if h.Err != nil {
		if n == 0 && (errors.Is(err, h.Err) || (k == 0 && err == nil)) {
			return nil
		}
		return mc.Failf("sticky-error", "%v after the handle met %v returned %v, want that error again", op, h.Err, o)
	}
	pos := h.Pos
	if n > 0 {
		pos = filter(h.Pos, func(p int64) bool { return p+n <= L && env.Equal(o.Data[:n], m.Base+p) })
		if len(pos) == 0 {
			return mc.Failf("content", "%v at offset %v returned %d bytes %s, want content %s", op, h.Pos, n, show(o.Data[:n]), m.want(h.Pos, k))
		}
	}
	if err == nil {
		if n == 0 && k > 0 && !o.Zero {
			return mc.Failf("progress", "%v at offset %v returned 0 bytes and no error", op, h.Pos)
		}
		h.Pos = shift(pos, n)
		if n > 0 {
			h.EOF = false
		}
		return nil
	}
	if eof(err) && in(o.Inj, err) == nil && !(m.StreamErr != nil && errors.Is(err, m.StreamErr)) {
		at := filter(pos, func(p int64) bool { return p+n >= L })
		if len(at) == 0 {
			return mc.Failf("early-eof", "%v at offset %v returned %d bytes and EOF, but the body has %d bytes", op, h.Pos, n, L)
		}
		if m.StreamErr != nil {
			return mc.Failf("error-lost", "%v at offset %v returned EOF although the stream failed with %v at %d", op, h.Pos, m.StreamErr, m.StreamEnd)
		}
		// positions beyond the real end may be pulled back to it
		np := shift(at, n)
		if n == 0 {
			np = append([]int64(nil), np...)
			for i := range np {
				if np[i] > L {
					np = append(np, L)
					break
				}
			}
		}
		h.Pos, h.EOF = np, true
		if len(at) == 1 && at[0]+n == L {
			m.LenKnown = true
		}
		return nil
	}
	if m.Kind == Stream {
		if m.StreamErr == nil {
			return mc.Failf("error-invented", "%v returned %v, which the source never returned", op, err)
		}
		if !errors.Is(err, m.StreamErr) {
			return mc.Failf("error-identity", "%v returned %v, the stream failed with %v", op, err, m.StreamErr)
		}
		at := filter(pos, func(p int64) bool { return p+n == m.StreamEnd })
		if len(at) == 0 {
			return mc.Failf("error-early", "%v at offset %v returned %d bytes and the error %v, but %d bytes were delivered before it", op, h.Pos, n, err, m.StreamEnd)
		}
		h.Pos, h.Err = shift(at, n), m.StreamErr
		return nil
	}
	e := in(o.Inj, err)
	if e == nil {
		return mc.Failf("error-invented", "%v returned %v, which the source did not return in this call", op, err)
	}
	h.Pos, h.Err = shift(pos, n), e
	return nil
}

func (m *Model) acceptReadAt(h *H, op Op, o *Obs) *mc.Fail {
	if o.Skip {
		return nil
	}
	L := m.L()
	k, off, n, err := op.A, op.B, o.N, o.Err
	if off < 0 {
		if err == nil || n != 0 {
			return mc.Failf("readat", "%v with a negative offset returned %v, want an error", op, o)
		}
		if eof(err) {
			return mc.Failf("readat", "%v with a negative offset reported EOF, want a refusal", op)
		}
		return nil
	}
	if n < 0 || n > k {
		return mc.Failf("readat", "%v returned count %d", op, n)
	}
	if n > 0 && (off+n > L || !env.Equal(o.Data[:n], m.Base+off)) {
		return mc.Failf("readat", "%v returned %d bytes %s, want content %s", op, n, show(o.Data[:n]), m.want([]int64{off}, k))
	}
	if err == nil {
		if n < k {
			return mc.Failf("readat-contract", "%v returned %d < %d bytes without an error", op, n, k)
		}
		return nil
	}
	if e := in(o.Inj, err); e != nil {
		return nil
	}
	if eof(err) {
		if off+n < L {
			return mc.Failf("readat-eof", "%v returned %d bytes and EOF before the end at %d", op, n, L)
		}
		return nil
	}
	return mc.Failf("readat", "%v returned unexpected error %v", op, err)
}

func (m *Model) acceptSeek(h *H, op Op, o *Obs) *mc.Fail {
	if o.Skip {
		return nil
	}
	// ends the body may legitimately work with
	lo, hi := m.ends()
	refused := func(t int64) bool {
		var e body.NegativeComputedOffsetSeekError
		return errors.As(o.Err, &e) && e.Offset == t
	}
	var ok []int64
	switch op.W {
	case io.SeekStart, io.SeekCurrent:
		bases := []int64{0}
		if op.W == io.SeekStart {
			if op.A < 0 {
				var e body.NegativeStartOffsetSeekError
				if !errors.As(o.Err, &e) || e.Offset != op.A {
					return mc.Failf("seek", "%v returned %v, want NegativeStartOffsetSeekError{%d}", op, o, op.A)
				}
				return nil
			}
		} else {
			bases = h.Pos
		}
		for _, b := range bases {
			t := b + op.A
			if t < 0 {
				if refused(t) {
					h.Pos = filter(h.Pos, func(p int64) bool { return p == b })
					return nil
				}
				continue
			}
			if o.Err == nil && (o.N == t && t <= hi || o.N < t && o.N >= lo && o.N <= hi) {
				ok = append(ok, o.N)
			}
		}
	case io.SeekEnd:
		if lo == hi {
			t := lo + op.A
			if t < 0 {
				if refused(t) {
					return nil
				}
			} else if o.Err == nil && (o.N == t && t <= hi || t > hi && o.N == hi) {
				ok = append(ok, o.N)
			}
			break
		}
		for e := lo; e <= hi && len(ok) == 0; e++ {
			t := e + op.A
			if t < 0 {
				if refused(t) {
					return nil
				}
				continue
			}
			if t > e {
				t = e
			}
			if o.Err == nil && o.N == t {
				ok = append(ok, t)
			}
		}
	default:
		var e body.UnknownWhenceSeekError
		if !errors.As(o.Err, &e) || e.Whence != op.W {
			return mc.Failf("seek", "%v returned %v, want UnknownWhenceSeekError{%d}", op, o, op.W)
		}
		return nil
	}
	if len(ok) == 0 {
		return mc.Failf("seek", "%v with cursor %v and length %v returned %v", op, h.Pos, []int64{lo, hi}, o)
	}
	h.Pos, h.EOF, h.Err, h.Maybe = ok[:1], false, nil, nil
	return nil
}

// discovered: some handle has met the end of the stream or its failure.
func (m *Model) discovered() bool {
	for i := range m.Hs {
		if h := &m.Hs[i]; h.EOF || h.Err != nil {
			return true
		}
	}
	return m.LenKnown
}

func (m *Model) acceptRemain(h *H, op Op, o *Obs) *mc.Fail {
	r := o.N
	if r < -1 {
		return mc.Failf("remaining", "%v returned %d", op, r)
	}
	if r == -1 {
		if m.Kind == Stream && m.D < 0 && !m.discovered() {
			return nil
		}
		return mc.Failf("remaining", "%v returned -1 although the length is known", op)
	}
	if h.EOF || h.Err != nil && m.Kind == Stream {
		if r != 0 {
			return mc.Failf("remaining", "%v returned %d at the end of the body, want 0", op, r)
		}
		return nil
	}
	lo, hi := m.ends()
	if m.StreamErr != nil && m.StreamEnd < lo {
		lo = m.StreamEnd
	}
	for _, p := range h.Pos {
		if e := p + r; e >= lo && e <= hi || r == 0 && p >= lo {
			return nil
		}
	}
	if (h.Err != nil || h.Maybe != nil) && r == 0 {
		return nil
	}
	return mc.Failf("remaining", "%v at offset %v returned %d, but the body ends at %v", op, h.Pos, r, []int64{lo, hi})
}

func (m *Model) acceptWrite(h *H, op Op, o *Obs) *mc.Fail {
	if o.Skip {
		return nil
	}
	L := m.L()
	n := o.N
	if n != int64(len(o.Sink)) {
		return mc.Failf("writeout", "%v reported %d bytes, the writer accepted %d", op, n, len(o.Sink))
	}
	if h.Err != nil {
		if n == 0 && errors.Is(o.Err, h.Err) {
			return nil
		}
		return mc.Failf("sticky-error", "%v after the handle met %v returned %v", op, h.Err, o)
	}
	pos := h.Pos
	if n > 0 {
		pos = filter(h.Pos, func(p int64) bool { return p+n <= L && env.Equal(o.Sink, m.Base+p) })
		if len(pos) == 0 {
			return mc.Failf("writeout", "%v from offset %v wrote %s, want content from there", op, h.Pos, show(o.Sink))
		}
	}
	if o.Err == nil {
		at := filter(pos, func(p int64) bool { return p+n >= L })
		if len(at) == 0 {
			return mc.Failf("writeout", "%v from offset %v wrote %d bytes and reported success, but the body has %d bytes", op, h.Pos, n, L)
		}
		if m.StreamErr != nil {
			return mc.Failf("error-lost", "%v succeeded although the stream failed with %v", op, m.StreamErr)
		}
		h.Pos, h.EOF = shift(at, n), true
		if len(at) == 1 && at[0]+n == L {
			m.LenKnown = true
		}
		return nil
	}
	if o.SinkErr != nil && errors.Is(o.Err, o.SinkErr) {
		if op.A < 0 {
			return mc.Failf("writeout", "%v failed with %v though the writer accepts everything", op, o.Err)
		}
		if op.K == OWriteTo {
			h.Pos = shift(pos, n)
			if n > 0 {
				h.EOF = false
			}
			return nil
		}
		// io.Copy may have read more than the sink accepted: the cursor is
		// somewhere between the accepted bytes and the end.
		var np []int64
		for _, p := range pos {
			for q := p + n; q <= L; q++ {
				np = append(np, q)
			}
		}
		h.Pos = np
		h.EOF = false
		if len(o.Inj) > 0 {
			h.Maybe = o.Inj[0]
		}
		return nil
	}
	if m.Kind == Stream && m.StreamErr != nil && errors.Is(o.Err, m.StreamErr) {
		at := filter(pos, func(p int64) bool { return p+n == m.StreamEnd })
		if len(at) == 0 {
			return mc.Failf("error-early", "%v stopped after %d bytes with %v, but %d bytes were delivered before it", op, n, m.StreamErr, m.StreamEnd)
		}
		h.Pos, h.Err = shift(at, n), m.StreamErr
		return nil
	}
	e := in(o.Inj, o.Err)
	if e == nil {
		return mc.Failf("writeout", "%v returned unexpected error %v", op, o.Err)
	}
	h.Pos, h.Err = shift(pos, n), e
	return nil
}

func (m *Model) want(pos []int64, k int64) string {
	if len(pos) == 0 {
		return "?"
	}
	p := pos[0]
	n := m.L() - p
	if n < 0 {
		n = 0
	}
	if n > k {
		n = k
	}
	if n > 16 {
		n = 16
	}
	b := make([]byte, n)
	env.Fill(b, m.Base+p)
	return fmt.Sprintf("%q...", b)
}

func show(p []byte) string {
	if len(p) > 16 {
		return fmt.Sprintf("%q...", p[:16])
	}
	return fmt.Sprintf("%q", p)
}

// Do performs op on b and records the observation. buf is scratch.
func Do(b body.Body, op Op, scratch *[]byte, sink *env.Sink) (o Obs) {
	defer func() {
		if r := recover(); r != nil {
			if isControl(r) {
				panic(r)
			}
			o = Obs{Panic: fmt.Sprint(r)}
		}
	}()
	buf := func(n int64) []byte {
		if scratch == nil {
			return make([]byte, n)
		}
		if int64(cap(*scratch)) < n {
			*scratch = make([]byte, n)
		}
		p := (*scratch)[:n]
		m := n
		if m > 64 {
			m = 64
		}
		for i := int64(0); i < m; i++ {
			p[i] = '#'
		}
		return p
	}
	switch op.K {
	case ORead:
		p := buf(op.A)
		n, err := b.Read(p)
		o.N, o.Err, o.Data = int64(n), err, p
	case OReadAt:
		x, ok := b.(io.ReaderAt)
		if !ok {
			o.Skip = true
			return
		}
		p := buf(op.A)
		n, err := x.ReadAt(p, op.B)
		o.N, o.Err, o.Data = int64(n), err, p
	case OSeek:
		x, ok := b.(io.Seeker)
		if !ok {
			o.Skip = true
			return
		}
		o.N, o.Err = x.Seek(op.A, op.W)
	case ORemain:
		o.N = b.BytesRemaining()
	case OUnwrap:
		o.R = b.Unwrap()
	case OCopy:
		o.New, o.Err = b.Copy()
	case OClose:
		o.Err = b.Close()
	case OWriteTo:
		x, ok := b.(io.WriterTo)
		if !ok {
			o.Skip = true
			return
		}
		o.N, o.Err = x.WriteTo(sink)
		o.Sink, o.SinkErr = sink.Got, sink.Err
	case OIOCopy:
		o.N, o.Err = io.Copy(sink, b)
		o.Sink, o.SinkErr = sink.Got, sink.Err
	}
	return
}

func isControl(r interface{}) bool { return mc.IsControl(r) }

// CapsOf lists the optional interfaces of b.
func CapsOf(b body.Body) [3]bool {
	_, a := b.(io.ReaderAt)
	_, s := b.(io.Seeker)
	_, w := b.(io.WriterTo)
	return [3]bool{a, s, w}
}
