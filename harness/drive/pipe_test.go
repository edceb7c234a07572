package drive

import (
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
)

// pipeEnd is one end of a buffered in-memory connection with deadlines.
type pipeEnd struct {
	mu     sync.Mutex
	buf    []byte
	wake   chan struct{}
	closed bool
	gone   bool
	lost   bool
	rd, wd time.Time
	peer   *pipeEnd
	chunk  int  // at most this many bytes per Read, 0: all
	full   bool // writes block
	max    int  // peer buffer limit, 0: none
	some   int  // full, but so many bytes may go
}

func newPipe() (a, b *pipeEnd) {
	a, b = &pipeEnd{wake: make(chan struct{})}, &pipeEnd{wake: make(chan struct{})}
	a.peer, b.peer = b, a
	return
}

func (p *pipeEnd) notify() { close(p.wake); p.wake = make(chan struct{}) }

func wait(ch chan struct{}, dl time.Time) bool {
	if dl.IsZero() {
		<-ch
		return true
	}
	d := time.Until(dl)
	if d <= 0 {
		return false
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
		return false
	}
}

func (p *pipeEnd) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	for {
		p.mu.Lock()
		if p.closed {
			p.mu.Unlock()
			return 0, opErr("read", errUseClosed)
		}
		if !p.rd.IsZero() && time.Until(p.rd) <= 0 {
			p.mu.Unlock()
			return 0, opErr("read", timeoutErr{})
		}
		if len(p.buf) > 0 {
			n := len(p.buf)
			if p.chunk > 0 && n > p.chunk {
				n = p.chunk
			}
			n = copy(b, p.buf[:n])
			p.buf = p.buf[n:]
			q := p.peer
			p.mu.Unlock()
			q.mu.Lock()
			q.notify()
			q.mu.Unlock()
			return n, nil
		}
		if p.lost {
			p.mu.Unlock()
			return 0, opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if p.gone {
			p.mu.Unlock()
			return 0, io.EOF
		}
		ch, dl := p.wake, p.rd
		p.mu.Unlock()
		wait(ch, dl)
	}
}

func (p *pipeEnd) Write(b []byte) (int, error) {
	for {
		p.mu.Lock()
		if p.closed {
			p.mu.Unlock()
			return 0, opErr("write", errUseClosed)
		}
		if !p.wd.IsZero() && time.Until(p.wd) <= 0 {
			p.mu.Unlock()
			return 0, opErr("write", timeoutErr{})
		}
		if p.gone || p.lost {
			p.mu.Unlock()
			return 0, opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		full, ch, dl := p.full, p.wake, p.wd
		if full && p.some > 0 {
			full = false
			p.some -= len(b)
		}
		mx := p.max
		p.mu.Unlock()
		if mx > 0 {
			p.peer.mu.Lock()
			full = full || len(p.peer.buf) >= mx
			p.peer.mu.Unlock()
		}
		if !full {
			break
		}
		wait(ch, dl)
	}
	q := p.peer
	q.mu.Lock()
	defer q.mu.Unlock()
	if !q.closed {
		q.buf = append(q.buf, b...)
		q.notify()
	}
	return len(b), nil
}

func (p *pipeEnd) Close() error {
	p.mu.Lock()
	p.closed = true
	p.notify()
	p.mu.Unlock()
	p.peer.mu.Lock()
	p.peer.gone = true
	p.peer.notify()
	p.peer.mu.Unlock()
	return nil
}

func (p *pipeEnd) lose() {
	for _, x := range []*pipeEnd{p, p.peer} {
		x.mu.Lock()
		x.lost = true
		x.notify()
		x.mu.Unlock()
	}
}

func (p *pipeEnd) setFull(v bool) {
	p.mu.Lock()
	p.full = v
	p.notify()
	p.mu.Unlock()
}

func (p *pipeEnd) LocalAddr() net.Addr  { return memAddr{} }
func (p *pipeEnd) RemoteAddr() net.Addr { return memAddr{} }
func (p *pipeEnd) SetDeadline(t time.Time) error {
	p.SetReadDeadline(t)
	return p.SetWriteDeadline(t)
}
func (p *pipeEnd) SetReadDeadline(t time.Time) error {
	p.mu.Lock()
	p.rd = t
	p.notify()
	p.mu.Unlock()
	return nil
}
func (p *pipeEnd) SetWriteDeadline(t time.Time) error {
	p.mu.Lock()
	p.wd = t
	p.notify()
	p.mu.Unlock()
	return nil
}
