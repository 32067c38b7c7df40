package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
)

// an error of a type of its own
type ownErr struct{ what string }

func (e *ownErr) Error() string   { return e.what }
func (e *ownErr) Temporary() bool { return true }
func (e *ownErr) Timeout() bool   { return true }

// the errors that readers, writers and custom functions fail with: what they are may not matter
var injectable = []error{errors.New("injected failure"), io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrNoProgress, io.ErrClosedPipe, io.ErrShortBuffer,
	os.ErrDeadlineExceeded, os.ErrClosed, context.Canceled, syscall.EINTR, syscall.EAGAIN, bufio.ErrBufferFull, &ownErr{"temporary failure"}, errors.New("EOF"),
	fmt.Errorf("wrapped: %w", os.ErrNotExist), io.EOF} // the last one for writers only

func injected(i int) error { return injectable[i%len(injectable)] }

// W accepts lim bytes (lim < 0: everything) and then refuses the write that
// would exceed it, either for good or only once.
type W struct {
	buf    []byte
	lim    int
	short  bool // the failing write accepts what still fits
	once   bool // only one write fails
	failed bool
	n      int // bytes accepted since arm()
	err    int // which error
	after  int // non-empty writes attempted after the failure
	gate   func()
}

func (w *W) arm(lim int, short, once bool, err int) {
	w.err = err
	w.lim, w.short, w.once, w.failed, w.n, w.after = lim, short, once, false, 0, 0
}

func (w *W) Write(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if w.gate != nil {
		w.gate()
	}
	if w.failed {
		w.after++
		if !w.once {
			return 0, injected(w.err)
		}
	} else if w.lim >= 0 && w.n+len(p) > w.lim {
		w.failed = true
		k := 0
		if w.short {
			k = w.lim - w.n
		}
		w.buf = append(w.buf, p[:k]...)
		w.n += k
		return k, injected(w.err)
	}
	w.buf = append(w.buf, p...)
	w.n += len(p)
	return len(p), nil
}

// Rd hands out its data in the given chunk sizes (cyclically; 0 is an empty
// read) and then ends with EOF or with an error.
type Rd struct {
	d    []byte
	pos  int
	en   string
	ch   []int
	ci   int
	with bool // the last data comes together with the end
	flaw int  // 1 + where one read fails without data, the next ones succeed
	gate func()
	err  int    // which error
	kind string // which kind of reader decoders see

	rd     io.Reader
	used   func() int // bytes taken from it
	orig   string
	shared bool // others use the data at the same time
}

func (r *Rd) end() error {
	if r.en == "err" {
		return injected(r.err)
	}
	return io.EOF
}

func (r *Rd) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.gate != nil {
		r.gate()
	}
	n := len(r.d) - r.pos
	if r.flaw > 0 && r.pos == r.flaw-1 {
		r.flaw = 0
		return 0, injected(r.err)
	}
	if r.flaw > 0 && r.flaw-1-r.pos < n {
		n = r.flaw - 1 - r.pos
	}
	if n == 0 {
		return 0, r.end()
	}
	if len(r.ch) > 0 {
		c := r.ch[r.ci%len(r.ch)]
		r.ci++
		if c < n {
			n = c
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.d[r.pos:r.pos+n])
	r.pos += n
	if r.with && n > 0 && r.pos == len(r.d) {
		return n, r.end()
	}
	return n, nil
}

// The same writer with the optional methods that standard writers have.
type wFull struct{ *W }

func (w wFull) WriteByte(c byte) error {
	_, err := w.Write([]byte{c})
	return err
}
func (w wFull) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

// dst is what encoders write to: w itself, or one of the standard writers,
// whose content is moved to w by sync
func (w *W) dst(kind string) (io.Writer, func()) {
	switch kind {
	case "full":
		return wFull{w}, func() {}
	case "buffer":
		b := bytes.NewBuffer(nil)
		return b, func() { w.Write(b.Bytes()); b.Reset() }
	case "builder":
		b := &strings.Builder{}
		return b, func() { w.Write([]byte(b.String())); b.Reset() }
	case "bufio":
		b := bufio.NewWriterSize(w, 16)
		return b, func() { b.Flush() }
	}
	return w, func() {}
}

// The same reader with the optional methods that standard readers have.
type rFull struct{ *Rd }

func (r rFull) ReadByte() (byte, error) {
	var b [1]byte
	for {
		if n, err := r.Read(b[:]); n == 1 {
			return b[0], nil
		} else if err != nil {
			return 0, err
		}
	}
}
func (r rFull) UnreadByte() error {
	if r.pos == 0 {
		return errors.New("nothing to unread")
	}
	r.pos--
	return nil
}

// src is what decoders read from: r itself, or one of the standard readers
// over the same data
func (r *Rd) src() io.Reader {
	if r.rd != nil {
		return r.rd
	}
	r.orig = string(r.d)
	r.used = func() int { return r.pos }
	k := r.kind
	if k != "" && k != "bufio" && (r.en == "err" || r.flaw > 0 || r.gate != nil) {
		k = "full"
	}
	n := len(r.d)
	switch k {
	case "full":
		r.rd = rFull{r}
	case "bytes":
		b := bytes.NewReader(r.d)
		r.rd, r.used = b, func() int { return n - b.Len() }
	case "buffer":
		b := bytes.NewBuffer(r.d[:n:n])
		r.rd, r.used = b, func() int { return n - b.Len() }
	case "strings":
		b := strings.NewReader(string(r.d))
		r.rd, r.used = b, func() int { return n - b.Len() }
	case "limit":
		b := bytes.NewReader(r.d)
		r.rd, r.used = io.LimitReader(b, int64(n)), func() int { return n - b.Len() }
	case "bufio":
		b := bufio.NewReaderSize(r, 16)
		r.rd, r.used = b, func() int { return r.pos - b.Buffered() }
	default:
		r.rd = r
	}
	return r.rd
}

// look at what was decoded while the data it was decoded from is different
func (r *Rd) look(get func() VN) VN {
	if r.shared {
		return get()
	}
	for i := range r.d {
		r.d[i] ^= 0x5a
	}
	v := get()
	for i := range r.d {
		r.d[i] ^= 0x5a
	}
	return v
}

// whether the data is what it was
func (r *Rd) intact() bool { return r.shared || string(r.d) == r.orig }
