//go:build go1.22

package fakew

import "net/http"

// As returns the recorder behind exactly the given optional interfaces.
func (w *W) As(caps int) http.ResponseWriter {
	switch caps {
	case 0:
		return struct{ *Base }{&Base{w}}
	case 1:
		return struct {
			*Base
			fFlush
		}{&Base{w}, fFlush{w}}
	case 2:
		return struct {
			*Base
			fHijack
		}{&Base{w}, fHijack{w}}
	case 3:
		return struct {
			*Base
			fFlush
			fHijack
		}{&Base{w}, fFlush{w}, fHijack{w}}
	case 4:
		return struct {
			*Base
			fNotify
		}{&Base{w}, fNotify{w}}
	case 5:
		return struct {
			*Base
			fFlush
			fNotify
		}{&Base{w}, fFlush{w}, fNotify{w}}
	case 6:
		return struct {
			*Base
			fHijack
			fNotify
		}{&Base{w}, fHijack{w}, fNotify{w}}
	case 7:
		return struct {
			*Base
			fFlush
			fHijack
			fNotify
		}{&Base{w}, fFlush{w}, fHijack{w}, fNotify{w}}
	case 8:
		return struct {
			*Base
			fReadFrom
		}{&Base{w}, fReadFrom{w}}
	case 9:
		return struct {
			*Base
			fFlush
			fReadFrom
		}{&Base{w}, fFlush{w}, fReadFrom{w}}
	case 10:
		return struct {
			*Base
			fHijack
			fReadFrom
		}{&Base{w}, fHijack{w}, fReadFrom{w}}
	case 11:
		return struct {
			*Base
			fFlush
			fHijack
			fReadFrom
		}{&Base{w}, fFlush{w}, fHijack{w}, fReadFrom{w}}
	case 12:
		return struct {
			*Base
			fNotify
			fReadFrom
		}{&Base{w}, fNotify{w}, fReadFrom{w}}
	case 13:
		return struct {
			*Base
			fFlush
			fNotify
			fReadFrom
		}{&Base{w}, fFlush{w}, fNotify{w}, fReadFrom{w}}
	case 14:
		return struct {
			*Base
			fHijack
			fNotify
			fReadFrom
		}{&Base{w}, fHijack{w}, fNotify{w}, fReadFrom{w}}
	case 15:
		return struct {
			*Base
			fFlush
			fHijack
			fNotify
			fReadFrom
		}{&Base{w}, fFlush{w}, fHijack{w}, fNotify{w}, fReadFrom{w}}
	case 16:
		return struct {
			*Base
			fPush
		}{&Base{w}, fPush{w}}
	case 17:
		return struct {
			*Base
			fFlush
			fPush
		}{&Base{w}, fFlush{w}, fPush{w}}
	case 18:
		return struct {
			*Base
			fHijack
			fPush
		}{&Base{w}, fHijack{w}, fPush{w}}
	case 19:
		return struct {
			*Base
			fFlush
			fHijack
			fPush
		}{&Base{w}, fFlush{w}, fHijack{w}, fPush{w}}
	case 20:
		return struct {
			*Base
			fNotify
			fPush
		}{&Base{w}, fNotify{w}, fPush{w}}
	case 21:
		return struct {
			*Base
			fFlush
			fNotify
			fPush
		}{&Base{w}, fFlush{w}, fNotify{w}, fPush{w}}
	case 22:
		return struct {
			*Base
			fHijack
			fNotify
			fPush
		}{&Base{w}, fHijack{w}, fNotify{w}, fPush{w}}
	case 23:
		return struct {
			*Base
			fFlush
			fHijack
			fNotify
			fPush
		}{&Base{w}, fFlush{w}, fHijack{w}, fNotify{w}, fPush{w}}
	case 24:
		return struct {
			*Base
			fReadFrom
			fPush
		}{&Base{w}, fReadFrom{w}, fPush{w}}
	case 25:
		return struct {
			*Base
			fFlush
			fReadFrom
			fPush
		}{&Base{w}, fFlush{w}, fReadFrom{w}, fPush{w}}
	case 26:
		return struct {
			*Base
			fHijack
			fReadFrom
			fPush
		}{&Base{w}, fHijack{w}, fReadFrom{w}, fPush{w}}
	case 27:
		return struct {
			*Base
			fFlush
			fHijack
			fReadFrom
			fPush
		}{&Base{w}, fFlush{w}, fHijack{w}, fReadFrom{w}, fPush{w}}
	case 28:
		return struct {
			*Base
			fNotify
			fReadFrom
			fPush
		}{&Base{w}, fNotify{w}, fReadFrom{w}, fPush{w}}
	case 29:
		return struct {
			*Base
			fFlush
			fNotify
			fReadFrom
			fPush
		}{&Base{w}, fFlush{w}, fNotify{w}, fReadFrom{w}, fPush{w}}
	case 30:
		return struct {
			*Base
			fHijack
			fNotify
			fReadFrom
			fPush
		}{&Base{w}, fHijack{w}, fNotify{w}, fReadFrom{w}, fPush{w}}
	case 31:
		return struct {
			*Base
			fFlush
			fHijack
			fNotify
			fReadFrom
			fPush
		}{&Base{w}, fFlush{w}, fHijack{w}, fNotify{w}, fReadFrom{w}, fPush{w}}
	}
	panic("fakew: bad capability set")
}

// Base has only the mandatory methods.
type Base struct{ W *W }

func (b *Base) Header() http.Header         { return b.W.Header() }
func (b *Base) WriteHeader(s int)           { b.W.WriteHeader(s) }
func (b *Base) Write(p []byte) (int, error) { return b.W.Write(p) }
