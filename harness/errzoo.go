package main

import (
	"compress/flate"
	"compress/gzip"
	"context"
	"crypto/x509"
	"encoding/base64"
	"encoding/csv"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"mime"
	"mime/multipart"
	"net"
	"net/http"
	"net/textproto"
	"net/url"
	"os"
	"os/exec"
	"reflect"
	"regexp/syntax"
	"strconv"
	"syscall"
	"time"

	"github.com/chronos-tachyon/morehttp/handler"
)

type joined []error

func (j *joined) Error() string   { return fmt.Sprint(*j) }
func (j *joined) Unwrap() []error { return *j }

type isAnything struct{ s string }

func (e *isAnything) Error() string   { return e.s }
func (e *isAnything) Is(error) bool   { return true }
func (e *isAnything) As(any) bool     { return false }
func (e *isAnything) Unwrap() error   { return nil }
func (e *isAnything) Timeout() bool   { return true }
func (e *isAnything) Temporary() bool { return true }

// errZoo is one of every kind of error that code commonly tells apart, each
// carrying the marker where it carries anything.
func errZoo(marker string) []error {
	m := errors.New(marker)
	v := []error{
		m, errors.Join(m), errors.Join(m, io.EOF), fmt.Errorf("%w", m), fmt.Errorf("%w and %w", m, http.ErrAbortHandler), &joined{}, &joined{m}, &joined{m, nil}, &isAnything{marker},
		&http.MaxBytesError{Limit: 77}, &http.ProtocolError{ErrorString: marker}, http.ErrNotMultipart, http.ErrMissingBoundary, http.ErrMissingFile, http.ErrNoCookie, http.ErrNoLocation, http.ErrUseLastResponse, http.ErrSkipAltProtocol, http.ErrLineTooLong, http.ErrHijacked, http.ErrWriteAfterFlush, http.ErrSchemeMismatch, http.ErrMissingContentLength, http.ErrUnexpectedTrailer,
		&fs.PathError{Op: "open", Path: marker, Err: fs.ErrNotExist}, &fs.PathError{Op: "open", Path: marker, Err: fs.ErrPermission}, &os.LinkError{Op: "link", Old: marker, New: marker, Err: fs.ErrExist}, os.NewSyscallError(marker, syscall.ENOSPC),
		&net.OpError{Op: "write", Net: marker, Err: syscall.ECONNRESET}, &net.AddrError{Err: marker, Addr: marker}, &net.ParseError{Type: marker, Text: marker}, &net.DNSError{Err: marker, Name: marker, IsNotFound: true}, net.UnknownNetworkError(marker), net.InvalidAddrError(marker),
		&url.Error{Op: "Get", URL: marker, Err: context.DeadlineExceeded}, url.EscapeError(marker), url.InvalidHostError(marker),
		&json.SyntaxError{Offset: 77}, &json.UnmarshalTypeError{Value: marker, Type: reflect.TypeOf(0), Field: marker}, &json.UnsupportedTypeError{Type: reflect.TypeOf(0)}, &json.UnsupportedValueError{Str: marker}, &json.MarshalerError{Type: reflect.TypeOf(0), Err: m}, &json.InvalidUnmarshalError{Type: reflect.TypeOf(0)},
		&strconv.NumError{Func: "Atoi", Num: marker, Err: strconv.ErrRange}, &strconv.NumError{Func: "Atoi", Num: marker, Err: strconv.ErrSyntax}, &time.ParseError{Layout: marker, Value: marker, Message: marker},
		mime.ErrInvalidMediaParameter, multipart.ErrMessageTooLarge, base64.CorruptInputError(77), hex.InvalidByteError('m'), hex.ErrLength, &csv.ParseError{StartLine: 77, Err: m}, &xml.SyntaxError{Msg: marker, Line: 77}, xml.UnmarshalError(marker), &syntax.Error{Code: syntax.ErrInternalError, Expr: marker},
		&textproto.Error{Code: 404, Msg: marker}, textproto.ProtocolError(marker), gzip.ErrHeader, gzip.ErrChecksum, flate.CorruptInputError(77), flate.InternalError(marker), &exec.Error{Name: marker, Err: exec.ErrNotFound},
		x509.UnknownAuthorityError{}, x509.HostnameError{Certificate: &x509.Certificate{}, Host: marker}, x509.CertificateInvalidError{Detail: marker},
		handler.PanicError{Value: marker}, handler.PanicError{Value: m}, handler.PanicError{Value: http.ErrAbortHandler}, handler.PanicError{}, &handler.PanicError{}, handler.PanicError{Value: handler.PanicError{Value: marker}}, &handler.PanicError{Value: m}, &txtErr{marker}, &codeErr{marker}, statusErr{marker, 404}, statusErr{marker, 200}, &ptrErr{marker},
		os.ErrProcessDone, os.ErrNoDeadline, io.ErrNoProgress, io.EOF, io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded,
		syscall.ENOENT, syscall.EACCES, syscall.EPIPE, syscall.ETIMEDOUT, syscall.ENOSPC, syscall.EINVAL, syscall.Errno(0),
		runtimeErr(func() { var s []int; _ = s[len(marker)] }), runtimeErr(func() { var x any = marker; _ = x.(int) }), runtimeErr(func() { var p *http.Request; _ = p.Method }), runtimeErr(func() { var m map[string]int; m["x"] = 1 }),
	}
	return v
}

func runtimeErr(f func()) (err error) {
	defer func() { err = recover().(error) }()
	f()
	return nil
}
