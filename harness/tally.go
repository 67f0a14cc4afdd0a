package main

import (
	"bufio"
	"io"
	"net"
	"net/http"
	"sync/atomic"
)

// A tally stands between the server's response writer and the library and
// counts the body bytes the server accepted, as the server reported them.
type tally struct {
	http.ResponseWriter
	n *atomic.Int64
}

func (t tally) Write(p []byte) (int, error) {
	n, err := t.ResponseWriter.Write(p)
	t.n.Add(int64(n))
	return n, err
}

type tallyFlush struct{ tally }

func (t tallyFlush) Flush() { t.ResponseWriter.(http.Flusher).Flush() }

type tallyPush struct{ tallyFlush }

func (t tallyPush) Push(url string, o *http.PushOptions) error {
	return t.ResponseWriter.(http.Pusher).Push(url, o)
}

type tallyFull struct{ tallyFlush }

func (t tallyFull) CloseNotify() <-chan bool {
	return t.ResponseWriter.(http.CloseNotifier).CloseNotify()
}

func (t tallyFull) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return t.ResponseWriter.(http.Hijacker).Hijack()
}

func (t tallyFull) ReadFrom(r io.Reader) (int64, error) {
	n, err := t.ResponseWriter.(io.ReaderFrom).ReadFrom(r)
	t.n.Add(n)
	return n, err
}

// counting wraps w with a tally of the same capabilities.
func counting(w http.ResponseWriter) (http.ResponseWriter, *atomic.Int64) {
	n := new(atomic.Int64)
	t := tally{w, n}
	if _, ok := w.(io.ReaderFrom); ok {
		if _, ok := w.(http.Hijacker); ok {
			return tallyFull{tallyFlush{t}}, n
		}
	}
	if _, ok := w.(http.Pusher); ok {
		return tallyPush{tallyFlush{t}}, n
	}
	return tallyFlush{t}, n
}
