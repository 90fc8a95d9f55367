// Package io provides a simulated Pipe; everything else is the real package.
package io

import (
	real "io"

	"github.com/ti-mo/comfo/zsim/rt"
)

type pipe struct {
	wrMu rt.Mutex
	data []byte
	has  bool
	n    int
	rq   rt.WaitQ
	wq   rt.WaitQ
	rerr error // set when the reader closed
	werr error // set when the writer closed
}

// PipeReader is the read half of a pipe.
type PipeReader struct{ p *pipe }

// PipeWriter is the write half of a pipe.
type PipeWriter struct{ p *pipe }

// Pipe is io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	rt.Gosched()
	for {
		if p.rerr != nil {
			return 0, real.ErrClosedPipe
		}
		if p.has {
			n := copy(b, p.data)
			p.data = p.data[n:]
			p.n += n
			if len(p.data) == 0 {
				p.has = false
				rt.WakeAll(&p.wq)
			}
			return n, nil
		}
		if p.werr != nil {
			return 0, p.werr
		}
		rt.Block(&p.rq, "pipe read")
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = real.ErrClosedPipe
	}
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	rt.WakeAll(&r.p.rq)
	rt.WakeAll(&r.p.wq)
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	if p.rerr != nil {
		return 0, p.rerr
	}
	if p.werr != nil {
		return 0, real.ErrClosedPipe
	}
	p.data, p.has, p.n = b, true, 0
	rt.WakeAll(&p.rq)
	for p.has {
		if p.rerr != nil {
			p.has = false
			return p.n, p.rerr
		}
		if p.werr != nil {
			p.has = false
			return p.n, real.ErrClosedPipe
		}
		rt.Block(&p.wq, "pipe write")
	}
	return p.n, nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = real.EOF
	}
	if w.p.werr == nil {
		w.p.werr = err
	}
	rt.WakeAll(&w.p.rq)
	rt.WakeAll(&w.p.wq)
	return nil
}
