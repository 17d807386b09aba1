// Package xio is the simulated counterpart of io.Pipe.
package xio

import (
	"io"

	"simverif/xsync"
)

type pipe struct {
	wr   xsync.Mutex // one write at a time
	mu   xsync.Mutex
	cond *xsync.Cond
	data []byte // what is offered to a reader
	full bool
	took int

	done       bool
	werr, rerr error
}

// A PipeReader is the read half of a pipe.
type PipeReader struct{ p *pipe }

// A PipeWriter is the write half of a pipe.
type PipeWriter struct{ p *pipe }

// Pipe is io.Pipe for simulated tasks.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = xsync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

// Read ...
func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.done {
			if p.rerr == nil && p.werr != nil {
				return 0, p.werr
			}
			return 0, io.ErrClosedPipe
		}
		if p.full {
			n := copy(b, p.data)
			p.took, p.full, p.data = n, false, nil
			p.cond.Broadcast()
			return n, nil
		}
		p.cond.Wait()
	}
}

// Write ...
func (w *PipeWriter) Write(b []byte) (n int, err error) {
	p := w.p
	p.wr.Lock()
	defer p.wr.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	for once := true; once || len(b) > 0; once = false {
		if p.done {
			return n, p.closed()
		}
		p.data, p.full, p.took = b, true, 0
		p.cond.Broadcast()
		for p.full && !p.done {
			p.cond.Wait()
		}
		if p.full {
			p.full, p.data = false, nil
			return n, p.closed()
		}
		n += p.took
		b = b[p.took:]
	}
	return n, nil
}

func (p *pipe) closed() error {
	if p.werr == nil && p.rerr != nil {
		return p.rerr
	}
	return io.ErrClosedPipe
}

// Close ...
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

// CloseWithError ...
func (r *PipeReader) CloseWithError(err error) error {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if err == nil {
		err = io.ErrClosedPipe
	}
	if p.rerr == nil {
		p.rerr = err
	}
	p.done = true
	p.cond.Broadcast()
	return nil
}

// Close ...
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

// CloseWithError ...
func (w *PipeWriter) CloseWithError(err error) error {
	p := w.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if err == nil {
		err = io.EOF
	}
	if p.werr == nil {
		p.werr = err
	}
	p.done = true
	p.cond.Broadcast()
	return nil
}
