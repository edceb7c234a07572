package drive

import (
	"context"
	"errors"
	"strings"
	"sync"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/vsched"
)

// bus is an in-process exchange broker: named channels with ordered delivery to each
// subscriber, like redis or nats.
type bus struct {
	mu   sync.Mutex
	subs map[*busSub]map[string]bool
	asks map[string]chan neffos.Message
}

type busSub struct {
	mu   sync.Mutex
	q    [][]byte
	wake chan struct{}
	done bool
}

func (b *bus) publish(ch string, data []byte) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for s, chs := range b.subs {
		if chs[ch] {
			s.mu.Lock()
			s.q = append(s.q, append([]byte(nil), data...))
			select {
			case s.wake <- struct{}{}:
			default:
			}
			s.mu.Unlock()
		}
	}
}

// fakeExc is a StackExchange over a bus.
type fakeExc struct {
	w    *World
	bus  *bus
	n, x int // server and exchange number
	mu   sync.Mutex
	subs map[*neffos.Conn]*busSub
	idle bool
	fail bool // Ask fails
	ref  string
}

func (f *fakeExc) log(what string, c *neffos.Conn, ns string) {
	k := 0
	if c != nil {
		k, _ = f.w.remember(c)
	}
	f.w.log(Ev{"e": "exc", "what": what, "k": k, "ns": nm(ns), "srv": f.n, "x": f.x})
}

func (f *fakeExc) OnConnect(c *neffos.Conn) error {
	f.log("connect", c, "")
	e := endOf(c)
	if f.ref != "" && f.ref == f.w.conn(e.k).id {
		f.log("refuse", c, "")
		return errors.New("exchange refused")
	}
	s := &busSub{wake: make(chan struct{}, 1)}
	f.mu.Lock()
	f.subs[c] = s
	f.mu.Unlock()
	own := "id." + c.ID()
	f.bus.mu.Lock()
	f.bus.subs[s] = map[string]bool{own: true}
	f.bus.mu.Unlock()
	go func() {
		defer vsched.Recover()
		for {
			vsched.Y()
			s.mu.Lock()
			if len(s.q) == 0 {
				if s.done {
					s.mu.Unlock()
					return
				}
				s.mu.Unlock()
				<-s.wake
				continue
			}
			b := s.q[0]
			s.q = s.q[1:]
			s.mu.Unlock()
			msg := c.DeserializeMessage(neffos.TextMessage, b)
			msg.FromStackExchange = true
			c.Write(msg)
		}
	}()
	return nil
}

func (f *fakeExc) OnDisconnect(c *neffos.Conn) {
	f.log("disconnect", c, "")
	f.mu.Lock()
	s := f.subs[c]
	delete(f.subs, c)
	f.mu.Unlock()
	if s == nil {
		return
	}
	f.bus.mu.Lock()
	delete(f.bus.subs, s)
	f.bus.mu.Unlock()
	s.mu.Lock()
	s.done = true
	select {
	case s.wake <- struct{}{}:
	default:
	}
	s.mu.Unlock()
}

func (f *fakeExc) channel(m neffos.Message) string {
	if m.To != "" {
		return "id." + m.To
	}
	return "ns." + m.Namespace
}

func (f *fakeExc) Publish(msgs []neffos.Message) bool {
	if f.fail {
		return false // down: the other one does it
	}
	if f.idle {
		return true // the other one does it, this is there for bookkeeping and requests
	}
	for _, m := range msgs {
		f.bus.publish(f.channel(m), m.Serialize())
	}
	return true
}

func (f *fakeExc) sub(c *neffos.Conn, ns string, on bool) {
	f.mu.Lock()
	s := f.subs[c]
	f.mu.Unlock()
	if s == nil {
		return
	}
	f.bus.mu.Lock()
	defer f.bus.mu.Unlock()
	if f.bus.subs[s] == nil {
		return
	}
	if on {
		f.bus.subs[s]["ns."+ns] = true
	} else {
		delete(f.bus.subs[s], "ns."+ns)
	}
}

func (f *fakeExc) Subscribe(c *neffos.Conn, ns string) {
	f.log("sub", c, ns)
	f.sub(c, ns, true)
}

func (f *fakeExc) Unsubscribe(c *neffos.Conn, ns string) {
	f.log("unsub", c, ns)
	f.sub(c, ns, false)
}

func (f *fakeExc) Ask(ctx context.Context, msg neffos.Message, token string) (neffos.Message, error) {
	f.log("ask", nil, "")
	if f.fail {
		return neffos.Message{}, errors.New("exchange down")
	}
	ch := make(chan neffos.Message, 1)
	f.bus.mu.Lock()
	f.bus.asks[token] = ch
	f.bus.mu.Unlock()
	defer func() {
		f.bus.mu.Lock()
		delete(f.bus.asks, token)
		f.bus.mu.Unlock()
	}()
	f.bus.publish(f.channel(msg), msg.Serialize())
	select {
	case <-ctx.Done():
		return neffos.Message{}, ctx.Err()
	case m := <-ch:
		return m, m.Err
	}
}

func (f *fakeExc) NotifyAsk(msg neffos.Message, token string) error {
	f.log("notify", nil, "")
	f.bus.mu.Lock()
	ch := f.bus.asks[token]
	f.bus.mu.Unlock()
	if ch == nil {
		return nil
	}
	msg.ClearWait()
	m := neffos.DeserializeMessage(neffos.TextMessage, msg.Serialize(), false, false)
	select {
	case ch <- m:
	default:
	}
	return nil
}

func (w *World) useExchange(srv *neffos.Server, i int) error {
	exc := w.scn.Cfg.Exc
	switch {
	case exc == "":
		return nil
	case strings.HasPrefix(exc, "fake"):
		if w.bus == nil {
			w.bus = &bus{subs: map[*busSub]map[string]bool{}, asks: map[string]chan neffos.Message{}}
			w.bus2 = &bus{subs: map[*busSub]map[string]bool{}, asks: map[string]chan neffos.Message{}}
		}
		mk := func(x int) *fakeExc {
			return &fakeExc{w: w, bus: w.bus, n: i + 1, x: x, subs: map[*neffos.Conn]*busSub{}}
		}
		f1 := mk(1)
		switch exc {
		case "fakeref": // refuses the connection with this identifier
			f1.ref = "refused"
			return srv.UseStackExchange(f1)
		case "fake2", "fake2fail", "fake2ref":
			f2 := mk(2)
			f2.bus = w.bus2
			if exc == "fake2fail" {
				f1.fail = true // everything goes through the second one
			} else {
				f2.idle = true
			}
			if exc == "fake2ref" {
				f2.ref = "refused"
			}
			if err := srv.UseStackExchange(f1); err != nil {
				return err
			}
			return srv.UseStackExchange(f2)
		}
		return srv.UseStackExchange(f1)
	}
	return w.useLiveExchange(srv, exc)
}
