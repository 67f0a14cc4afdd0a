package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"net/url"
	"os"
	"syscall"
)

// Failures come in many shapes: plain values, values wrapping a well-known
// error, and the well-known errors themselves. No property makes an exception
// for any of them.
var famous = []error{
	io.ErrUnexpectedEOF, io.ErrClosedPipe, fs.ErrClosed, fs.ErrNotExist, fs.ErrPermission, net.ErrClosed,
	context.Canceled, context.DeadlineExceeded, os.ErrDeadlineExceeded, syscall.EPIPE, syscall.ECONNRESET, syscall.EINTR, syscall.EAGAIN,
	http.ErrAbortHandler, http.ErrBodyNotAllowed, http.ErrContentLength, http.ErrHandlerTimeout, http.ErrServerClosed, http.ErrBodyReadAfterClose,
	&net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}, &fs.PathError{Op: "close", Path: "x", Err: fs.ErrClosed}, &os.SyscallError{Syscall: "write", Err: syscall.ECONNRESET},
	io.ErrNoProgress, io.ErrShortWrite, io.ErrShortBuffer, http.ErrNotSupported, errors.ErrUnsupported, io.EOF,
}

// famousRaw is how many of them are also raised as they are; the rest could
// be mistaken for the library's own.
const famousRaw = 22

const nErrKinds = 1 + 28 + famousRaw + 4

type famErr struct {
	base  *injErr
	cause error
}

func (e *famErr) Error() string   { return e.base.Error() + ": " + e.cause.Error() }
func (e *famErr) Unwrap() []error { return []error{e.base, e.cause} }

var famErrs = map[*injErr][]error{}

func init() {
	if len(famous) != 28 {
		panic("famous")
	}
	for _, b := range []*injErr{errInjRead, errInjSeek, errInjClose, errInjWrite, errInjPush} {
		v := []error{b}
		for _, f := range famous {
			v = append(v, &famErr{b, f})
		}
		v = append(v, famous[:famousRaw]...)
		v = append(v, errors.Join(b), fmt.Errorf("%w", b), &url.Error{Op: "Get", URL: "http://x/", Err: b}, &joined{b})
		famErrs[b] = v
	}
}

// errOf returns the k-th shape of an injected failure, always the same value.
func errOf(b *injErr, k int) error { return famErrs[b][k] }

// genErrK picks a shape, most often the plain one.
func genErrK(rng *randT) int {
	if rng.IntN(2) == 0 {
		return 0
	}
	return rng.IntN(nErrKinds)
}

// pushError is a push failure that is not lack of support.
func pushError(rng *randT) error {
	for {
		if e := errOf(errInjPush, genErrK(rng)); !errors.Is(e, http.ErrNotSupported) && !errors.Is(e, errors.ErrUnsupported) {
			return e
		}
	}
}

func isPushError(e error) bool { return e != nil && !errors.Is(e, http.ErrNotSupported) }

func (s *src) readErr() error  { return errOf(errInjRead, s.spec.ErrK) }
func (s *src) seekErr() error  { return errOf(errInjSeek, s.spec.ErrK) }
func (s *src) closeErr() error { return errOf(errInjClose, s.spec.ErrK) }

// failure is what a source of this kind fails to read with.
func (sp srcSpec) failure() error { return errOf(errInjRead, sp.ErrK) }
