package drive

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/vsched"
)

// frame is one websocket message on the wire.
type frame struct {
	b   []byte
	bin bool
}

// end is one end of connection k, as seen by the code under test: it carries frames
// (memory transport) or wraps a real websocket socket, and logs everything.
type end struct {
	w    *World
	k    int
	sd   string // "c" or "s"
	req  *http.Request
	peer *end

	// memory transport
	mu      sync.Mutex
	in      []frame
	wake    chan struct{} // closed and replaced when something changes
	closed  bool          // local NetConn().Close()
	lost    bool          // network lost
	gone    bool          // peer closed
	stalled bool

	// wrapped transport
	under neffos.Socket
	turn  chan struct{} // one writer at a time, so that the log has the order of the wire
}

func (w *World) newPair(k int) (c, s *end) {
	c = &end{w: w, k: k, sd: "c", wake: make(chan struct{}), turn: make(chan struct{}, 1)}
	s = &end{w: w, k: k, sd: "s", wake: make(chan struct{}), turn: make(chan struct{}, 1)}
	c.peer, s.peer = s, c
	return
}

func (e *end) Request() *http.Request { return e.req }

func (e *end) NetConn() net.Conn {
	if e.under != nil {
		return wrapNet{e.under.NetConn(), e}
	}
	return memNet{e}
}

func (e *end) notify() { // with mu
	close(e.wake)
	e.wake = make(chan struct{})
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "mem", Err: err}
}

var errUseClosed = errors.New("use of closed network connection")

func (e *end) ReadData(timeout time.Duration) ([]byte, neffos.MessageType, error) {
	vsched.Y()
	if e.under != nil {
		return e.under.ReadData(timeout)
	}
	var tm <-chan time.Time
	if timeout > 0 {
		t := time.NewTimer(timeout)
		defer t.Stop()
		tm = t.C
	}
	for {
		e.mu.Lock()
		if e.closed {
			e.mu.Unlock()
			return nil, 0, opErr("read", errUseClosed)
		}
		if len(e.in) > 0 {
			f := e.in[0]
			e.in = e.in[1:]
			e.mu.Unlock()
			typ := neffos.MessageType(neffos.TextMessage)
			if f.bin {
				typ = neffos.BinaryMessage
			}
			e.w.received(e.k, e.sd)
			return append([]byte(nil), f.b...), typ, nil
		}
		if e.lost {
			e.mu.Unlock()
			return nil, 0, opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if e.gone {
			e.mu.Unlock()
			return nil, 0, io.ErrUnexpectedEOF
		}
		ch := e.wake
		e.mu.Unlock()
		select {
		case <-ch:
		case <-tm:
			e.w.log(Ev{"e": "rto", "k": e.k, "sd": e.sd})
			return nil, 0, opErr("read", timeoutErr{})
		}
	}
}

func (e *end) WriteBinary(b []byte, timeout time.Duration) error { return e.write(b, true, timeout) }
func (e *end) WriteText(b []byte, timeout time.Duration) error   { return e.write(b, false, timeout) }

func (e *end) write(b []byte, bin bool, timeout time.Duration) error {
	vsched.Y()
	if e.under != nil {
		e.turn <- struct{}{}
		defer func() { <-e.turn }()
		e.w.logFrame(e, b, bin, true, false)
		if bin {
			return e.under.WriteBinary(b, timeout)
		}
		return e.under.WriteText(b, timeout)
	}
	var tm <-chan time.Time
	if timeout > 0 {
		t := time.NewTimer(timeout)
		defer t.Stop()
		tm = t.C
	}
	for {
		e.mu.Lock()
		if e.closed {
			e.mu.Unlock()
			return opErr("write", errUseClosed)
		}
		if e.lost {
			e.mu.Unlock()
			return opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if !e.stalled {
			e.mu.Unlock()
			break
		}
		ch := e.wake
		e.mu.Unlock()
		select {
		case <-ch:
		case <-tm:
			return opErr("write", timeoutErr{})
		}
	}
	p := e.peer
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		return opErr("write", os.NewSyscallError("write", syscall.EPIPE))
	}
	e.w.logFrame(e, b, bin, true, false)
	p.in = append(p.in, frame{append([]byte(nil), b...), bin})
	p.notify()
	return nil
}

// inject puts a frame on the wire towards e, as if its peer had written it.
func (e *end) inject(b []byte, bin bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.closed {
		return
	}
	e.w.logFrame(e.peer, b, bin, true, true)
	e.in = append(e.in, frame{append([]byte(nil), b...), bin})
	e.notify()
}

func (e *end) stall(on bool) {
	e.mu.Lock()
	e.stalled = on
	e.notify()
	e.mu.Unlock()
}

func (e *end) lose() {
	for _, x := range []*end{e, e.peer} {
		x.mu.Lock()
		x.lost = true
		x.notify()
		x.mu.Unlock()
	}
}

func (e *end) close() {
	e.mu.Lock()
	was := e.closed
	e.closed = true
	e.notify()
	e.mu.Unlock()
	if was {
		return
	}
	e.w.log(Ev{"e": "nc", "k": e.k, "sd": e.sd})
	e.peer.mu.Lock()
	e.peer.gone = true
	e.peer.notify()
	e.peer.mu.Unlock()
}

type memAddr struct{}

func (memAddr) Network() string { return "mem" }
func (memAddr) String() string  { return "mem" }

type memNet struct{ e *end }

func (m memNet) Read(b []byte) (int, error)         { return 0, errors.New("not supported") }
func (m memNet) Write(b []byte) (int, error)        { return 0, errors.New("not supported") }
func (m memNet) Close() error                       { m.e.close(); return nil }
func (m memNet) LocalAddr() net.Addr                { return memAddr{} }
func (m memNet) RemoteAddr() net.Addr               { return memAddr{} }
func (m memNet) SetDeadline(t time.Time) error      { return nil }
func (m memNet) SetReadDeadline(t time.Time) error  { return nil }
func (m memNet) SetWriteDeadline(t time.Time) error { return nil }

type wrapNet struct {
	net.Conn
	e *end
}

func (n wrapNet) Close() error {
	n.e.mu.Lock()
	was := n.e.closed
	n.e.closed = true
	n.e.mu.Unlock()
	if !was {
		n.e.w.log(Ev{"e": "nc", "k": n.e.k, "sd": n.e.sd})
	}
	return n.Conn.Close()
}

// ---- frames as the specification sees them ----

const sepRepl = "@%!semicolon@%!"

func unesc(s string) string { return strings.ReplaceAll(s, sepRepl, ";") }

var evNames = map[string]string{
	neffos.OnNamespaceConnect: "connect", neffos.OnNamespaceConnected: "connected", neffos.OnNamespaceDisconnect: "disconnect",
	neffos.OnRoomJoin: "join", neffos.OnRoomJoined: "joined", neffos.OnRoomLeave: "leave", neffos.OnRoomLeft: "left",
	neffos.OnAnyEvent: "any", neffos.OnNativeMessage: "native",
}

func evName(s string) string {
	if n, ok := evNames[s]; ok {
		return n
	}
	return "u:" + nm(s)
}

// nm makes a string printable.
func nm(s string) string {
	q := fmt.Sprintf("%+q", s)
	return q[1 : len(q)-1]
}

func (w *World) logFrame(e *end, b []byte, bin, ok, inj bool) {
	ev := Ev{"e": "wr", "k": e.k, "sd": e.sd, "kind": "raw", "rq": "", "wait": "", "ns": "", "room": "", "evt": "",
		"iserr": false, "noop": false, "body": "", "bin": bin, "inj": inj, "len": len(b)}
	c := w.conn(e.k)
	parts := bytes.SplitN(b, []byte(";"), 7)
	switch {
	case w.scn.Cfg.Only != "":
		ev["body"] = w.label(b)
	case len(parts) == 7:
		ev["kind"] = "msg"
		ev["wait"] = nm(string(parts[0]))
		ev["ns"] = nm(unesc(string(parts[1])))
		ev["room"] = nm(unesc(string(parts[2])))
		ev["evt"] = evName(unesc(string(parts[3])))
		ev["iserr"] = string(parts[4]) == "1"
		ev["noop"] = string(parts[5]) == "1"
		if string(parts[4]) == "1" {
			ev["body"] = errLabel(string(parts[6]))
		} else {
			ev["body"] = w.label(parts[6])
		}
		if tok := string(parts[0]); tok != "" {
			w.mu.Lock()
			if c.toks == nil {
				c.toks = map[string]*tok_{}
			}
			t := c.toks[tok]
			switch {
			case t == nil && inj && (e.sd == "c") != (tok[0] == '$'):
				ev["rq"] = "stray" // a reply to nothing
			case t == nil:
				c.toks[tok] = &tok_{by: e.sd}
				ev["rq"] = "req"
			case t.by == e.sd:
				ev["rq"] = "dup"
			default:
				ev["rq"] = "rep"
			}
			w.mu.Unlock()
		}
	case e.sd == "c" && string(b) == "M" && !c.ackSent:
		ev["kind"] = "ack"
		c.ackSent = true
	case e.sd == "s" && len(b) > 0 && b[0] == 'A' && !c.idSent && !inj:
		ev["kind"] = "id"
		ev["body"] = nm(string(b[1:]))
		c.idSent = true
	case e.sd == "s" && len(b) > 0 && b[0] == 'H' && !c.idSent:
		ev["kind"] = "no"
		ev["body"] = errLabel(string(b[1:]))
	default:
		ev["body"] = w.label(b)
	}
	w.log(ev)
}

type tok_ struct{ by string }
