package drive

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	gobwasws "github.com/gobwas/ws"
	gorillaws "github.com/gorilla/websocket"
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/gobwas"
	"github.com/kataras/neffos/gorilla"
	"github.com/kataras/neffos/vsched"
)

func (s *Scn) norm() {
	if s.Cfg.Tr == "" {
		s.Cfg.Tr = "mem"
	}
}

// ---- transports ----

func (w *World) upgrader() neffos.Upgrader {
	switch w.scn.Cfg.Tr[:3] {
	case "gob":
		return gobwas.DefaultUpgrader
	case "gor":
		return gorilla.Upgrader(gorillaws.Upgrader{CheckOrigin: func(*http.Request) bool { return true }})
	}
	return func(rw http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
		c, _ := r.Context().Value(ctxKey{}).(*C)
		if c == nil {
			return nil, errors.New("bad upgrade")
		}
		c.se.req = r
		return c.se, nil
	}
}

// serve runs the server side of connection c.
func (w *World) serve(c *C, custom bool, rw http.ResponseWriter, r *http.Request) {
	srv := w.srvs[c.srv-1]
	r = r.WithContext(context.WithValue(r.Context(), ctxKey{}, c))
	var gen neffos.IDGenerator
	if custom {
		gen = func(http.ResponseWriter, *http.Request) string { return c.id }
	}
	var wrap func(neffos.Socket) neffos.Socket
	if w.scn.Cfg.Tr != "mem" {
		wrap = func(s neffos.Socket) neffos.Socket {
			c.se.under = s
			c.se.req = r
			return c.se
		}
	}
	nc, err := srv.Upgrade(rw, r, wrap, gen)
	if nc != nil {
		w.remember(nc)
	}
	w.log(Ev{"e": "up", "k": c.k, "ok": err == nil && nc != nil, "err": errVal(err)})
	if err != nil && c.se.req == nil && w.scn.Cfg.Tr == "mem" { // not a websocket: the client gets a http response instead
		c.ce.lose()
		c.se.lose()
	}
}

type nullRW struct{ h http.Header }

func (n nullRW) Header() http.Header         { return n.h }
func (n nullRW) Write(b []byte) (int, error) { return len(b), nil }
func (n nullRW) WriteHeader(int)             {}

type hijackRW struct {
	nullRW
	c  net.Conn
	br *bufio.Reader
	hj *bool
}

func (h hijackRW) Write(b []byte) (int, error) { return h.c.Write(b) }
func (h hijackRW) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	*h.hj = true
	return h.c, bufio.NewReadWriter(h.br, bufio.NewWriter(h.c)), nil
}

func (w *World) netDial(c *C, custom bool) net.Conn {
	a, b := newPipe()
	go func() {
		defer vsched.Recover()
		vsched.Y()
		br := bufio.NewReader(b)
		r, err := http.ReadRequest(br)
		if err != nil {
			w.log(Ev{"e": "up", "k": c.k, "ok": false, "err": "req"})
			b.Close()
			return
		}
		hj := false
		w.serve(c, custom, hijackRW{nullRW{http.Header{}}, b, br, &hj}, r)
		if !hj {
			b.Close()
		}
	}()
	return a
}

func (w *World) dialer(c *C, op Op) neffos.Dialer {
	custom := op.Via == "custom"
	wrap := func(s neffos.Socket, err error) (neffos.Socket, error) {
		if err != nil {
			return nil, err
		}
		c.ce.under = s
		return c.ce, nil
	}
	tr := w.scn.Cfg.Tr
	if tr == "mem" {
		return func(context.Context, string) (neffos.Socket, error) {
			r := &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{}, Host: "x"}
			go func() {
				defer vsched.Recover()
				vsched.Y()
				w.serve(c, custom, nullRW{http.Header{}}, r)
			}()
			return c.ce, nil
		}
	}
	if strings.HasSuffix(tr, "gob") {
		d := gobwas.Dialer(gobwasws.Dialer{NetDial: func(context.Context, string, string) (net.Conn, error) { return w.netDial(c, custom), nil }})
		return func(ctx context.Context, u string) (neffos.Socket, error) { return wrap(d(ctx, u)) }
	}
	d := gorilla.Dialer(&gorillaws.Dialer{NetDialContext: func(context.Context, string, string) (net.Conn, error) { return w.netDial(c, custom), nil }}, nil)
	return func(ctx context.Context, u string) (neffos.Socket, error) { return wrap(d(ctx, u)) }
}

// ---- operations ----

func (w *World) begin(op Op, par int) int {
	w.mu.Lock()
	w.nOp++
	i := w.nOp
	ev := Ev{"e": "call", "i": i, "op": op.Op, "k": op.K, "sd": op.Sd, "par": par, "ctx": op.Ctx, "ns": nm(op.Ns), "room": nm(op.Room),
		"evt": "u:" + nm(op.Evt), "body": op.Body, "bin": op.Bin, "via": op.Via, "to": nm(op.To), "srv": max(op.Srv, 1), "fk": op.Fk,
		"id": nm(op.ID), "msgs": msgsEv(op.Msgs), "t": w.now()}
	w.pend[i] = ev
	if op.Ctx <= -2 {
		w.cancels[i] = op.cancel
	}
	w.ev = append(w.ev, ev)
	w.mu.Unlock()
	w.maybeRace()
	return i
}

// maybeRace: some runs switch at a few random points after each call and frame.
func (w *World) maybeRace() {
	if w.scn.Seed%4 == 1 {
		vsched.Race(-70)
	}
}

func msgsEv(ms []Msg) []any {
	out := []any{}
	for _, m := range ms {
		evt := "u:" + nm(m.Evt)
		if m.Nat {
			evt = "native"
		}
		out = append(out, Ev{"ns": nm(m.Ns), "room": nm(m.Room), "evt": evt, "body": m.Body, "bin": m.Bin, "to": nm(m.To), "nat": m.Nat})
	}
	return out
}

func (w *World) end(i int, ok bool, err error, body string, extra ...string) {
	x := ""
	if len(extra) > 0 {
		x = extra[0]
	}
	w.mu.Lock()
	delete(w.pend, i)
	delete(w.cancels, i)
	w.ev = append(w.ev, Ev{"e": "ret", "i": i, "ok": ok, "err": errVal(err), "body": body, "x": x, "t": w.now()})
	w.mu.Unlock()
}

func (w *World) ctx(ms int) (context.Context, func()) {
	if ms <= -2 { // -2: cancelled by an op, -3: as soon as the caller's side receives a frame
		return context.WithCancel(context.Background())
	}
	if ms <= 0 {
		if ms < 0 {
			return context.Background(), func() {}
		}
		return nil, func() {}
	}
	return context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond)
}

func (w *World) side(k int, sd string) *neffos.Conn {
	c := w.conn(k)
	if c == nil {
		return nil
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if sd == "c" {
		return c.cconn
	}
	return c.sconn
}

func (w *World) stale(k int, sd, ns string) *neffos.NSConn {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.conns[k].ns[sd+ns]
}

func (w *World) staleRoom(k int, sd, ns, room string) *neffos.Room {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.conns[k].rooms[sd+ns+"\x00"+room]
}

// exec runs one operation to its end.
func (w *World) exec(op Op, par int) {
	switch op.Op {
	case "dial", "rawdial":
		w.dial(op)
		if c := w.conn(op.K); op.Op == "dial" && op.Evt == "connect" && c != nil && c.client != nil { // at once
			w.exec(Op{Op: "connect", K: op.K, Sd: "c", Ns: op.Ns, Ctx: 1000}, 0)
		}
		return
	case "bcast":
		w.bcast(op, par)
		return
	case "sask":
		srv := w.srvs[max(op.Srv, 1)-1]
		ctx, cancel := w.ctx(op.Ctx)
		defer cancel()
		op.cancel = cancel
		body := w.body(op.Body)
		i := w.begin(op, par)
		m, err := srv.Ask(ctx, neffos.Message{Namespace: op.Ns, Room: op.Room, Event: op.Evt, Body: body, To: op.To, SetBinary: op.Bin})
		w.end(i, err == nil, err, w.label(m.Body))
		return
	case "cancel":
		w.doCancel(op.K)
		return
	case "store":
		w.store(op)
		return
	case "srvclose":
		i := w.begin(op, par)
		w.srvs[max(op.Srv, 1)-1].Close()
		w.end(i, true, nil, "")
		return
	case "query":
		i := w.begin(op, par)
		srv := w.srvs[max(op.Srv, 1)-1]
		srv.GetTotalConnections()
		srv.GetConnections()
		srv.GetConnectionsByNamespace(op.Ns)
		srv.Do(func(c *neffos.Conn) {
			if n := c.Namespace(op.Ns); n != nil {
				n.Rooms()
			}
		}, false)
		if c := w.side(op.K, op.Sd); c != nil {
			if n := c.Namespace(op.Ns); n != nil {
				n.Rooms()
				n.Room(op.Room)
			}
			c.ID()
			c.IsClosed()
			c.Set("q", i)
			c.Get("q")
			c.Increment("qq")
		}
		w.end(i, true, nil, "")
		return
	}
	c := w.conn(op.K)
	if c == nil {
		return
	}
	switch op.Op {
	case "drop":
		w.log(Ev{"e": "drop", "k": op.K})
		if c.ce.under != nil || c.se.under != nil {
			for _, e := range []*end{c.ce, c.se} {
				if e.under != nil {
					if p, ok := e.under.NetConn().(*pipeEnd); ok {
						p.lose()
					} else {
						e.under.NetConn().Close()
					}
				}
			}
			return
		}
		c.ce.lose()
		return
	case "stall", "unstall":
		e := c.se
		if op.Sd == "c" {
			e = c.ce
		}
		w.log(Ev{"e": op.Op, "k": op.K, "sd": op.Sd})
		e.stall(op.Op == "stall")
		return
	case "inject": // towards side sd
		e := c.se
		if op.Sd == "c" {
			e = c.ce
		}
		e.inject(w.payload(op), op.Bin)
		return
	case "rawsend": // from a raw client
		c.se.inject(w.payload(op), op.Bin)
		return
	}

	nc := w.side(op.K, op.Sd)
	ctx, cancel := w.ctx(op.Ctx)
	defer cancel()
	op.cancel = cancel
	switch op.Op {
	case "connect":
		if op.Sd == "c" && c.client == nil || op.Sd == "s" && nc == nil {
			return
		}
		i := w.begin(op, par)
		var n *neffos.NSConn
		var err error
		if op.Sd == "c" {
			n, err = c.client.Connect(ctx, op.Ns)
		} else {
			n, err = nc.Connect(ctx, op.Ns)
		}
		x := ""
		if n != nil {
			w.remember(n.Conn)
			if n.Conn.Namespace(op.Ns) == n {
				x = "same"
			}
		}
		w.end(i, err == nil && n != nil, err, "", x)
		return
	case "waitconnect":
		if c.client == nil {
			return
		}
		i := w.begin(op, par)
		n, err := c.client.WaitServerConnect(ctx, op.Ns)
		if n != nil {
			w.remember(n.Conn)
		}
		w.end(i, err == nil && n != nil, err, "")
		return
	case "close":
		if op.Sd == "c" && c.client == nil || op.Sd == "s" && nc == nil {
			return
		}
		i := w.begin(op, par)
		if op.Sd == "c" && (nc == nil || op.Via != "conn") {
			c.client.Close()
		} else {
			nc.Close()
		}
		w.end(i, true, nil, "")
		return
	}
	if nc == nil {
		return
	}
	switch op.Op {
	case "discall":
		i := w.begin(op, par)
		err := nc.DisconnectAll(ctx)
		w.end(i, err == nil, err, "")
	case "disconnect", "join", "leaveall":
		n := nc.Namespace(op.Ns)
		if op.Via == "stale" {
			n = w.stale(op.K, op.Sd, op.Ns)
		}
		if n == nil {
			return
		}
		i := w.begin(op, par)
		var err error
		x := ""
		switch op.Op {
		case "disconnect":
			err = n.Disconnect(ctx)
		case "join":
			var r *neffos.Room
			r, err = n.JoinRoom(ctx, op.Room)
			if err == nil && r == nil {
				err = errors.New("nil room")
			}
			if r != nil {
				if r == n.Room(op.Room) {
					x = "same"
				}
				if r.Name != op.Room || r.NSConn != n {
					x = "wrong"
				}
			}
		case "leaveall":
			err = n.LeaveAll(ctx)
		}
		w.end(i, err == nil, err, "", x)
	case "leave":
		var r *neffos.Room
		if n := nc.Namespace(op.Ns); n != nil {
			r = n.Room(op.Room)
		}
		if op.Via == "stale" {
			r = w.staleRoom(op.K, op.Sd, op.Ns, op.Room)
		}
		if r == nil {
			return
		}
		i := w.begin(op, par)
		err := r.Leave(ctx)
		w.end(i, err == nil, err, "")
	case "emit":
		body := w.body(op.Body)
		via := op.Via
		n := nc.Namespace(op.Ns)
		if strings.HasPrefix(via, "stale") {
			n = w.stale(op.K, op.Sd, op.Ns)
		}
		var r *neffos.Room
		if via == "room" && n != nil {
			r = n.Room(op.Room)
		}
		if via == "staleroom" {
			r = w.staleRoom(op.K, op.Sd, op.Ns, op.Room)
		}
		if op.Room != "" && r == nil || via == "stale" && n == nil {
			via = "write"
		}
		if r != nil && op.Bin {
			via = "write"
		}
		op.Via = via
		i := w.begin(op, par)
		if n == nil {
			n = nc.Namespace(op.Ns) // as part of the call
		}
		var ok bool
		switch {
		case via == "write":
			ok = nc.Write(neffos.Message{Namespace: op.Ns, Room: op.Room, Event: op.Evt, Body: body, SetBinary: op.Bin})
		case r != nil:
			ok = r.Emit(op.Evt, body)
		case op.Bin:
			ok = n.EmitBinary(op.Evt, body)
		default:
			ok = n.Emit(op.Evt, body)
		}
		w.end(i, ok, nil, "")
	case "native":
		body := w.body(op.Body)
		i := w.begin(op, par)
		ok := nc.Write(neffos.Message{IsNative: true, Body: body, SetBinary: op.Bin})
		w.end(i, ok, nil, "")
	case "ask":
		body := w.body(op.Body)
		n := nc.Namespace(op.Ns)
		if op.Via == "stale" {
			n = w.stale(op.K, op.Sd, op.Ns)
		}
		if op.Via == "ns" && (op.Room != "" || op.Bin) {
			op.Via = "conn"
		}
		i := w.begin(op, par)
		if n == nil && op.Via == "ns" {
			n = nc.Namespace(op.Ns) // as part of the call
		}
		var m neffos.Message
		var err error
		if op.Via == "ns" || op.Via == "stale" {
			m, err = n.Ask(ctx, op.Evt, body)
		} else {
			m, err = nc.Ask(ctx, neffos.Message{Namespace: op.Ns, Room: op.Room, Event: op.Evt, Body: body, SetBinary: op.Bin})
		}
		w.end(i, err == nil, err, w.label(m.Body))
	default:
		panic("unknown op " + op.Op)
	}
}

// payload makes the bytes of an injected frame: Via "raw" sends the body as it is.
func (w *World) payload(op Op) []byte {
	if op.Via == "msg" {
		esc := func(s string) string { return strings.ReplaceAll(s, ";", sepRepl) }
		evt := op.Evt
		for r, n := range evNames {
			if n == evt {
				evt = r
			}
		}
		return append([]byte(strings.Join([]string{op.ID, esc(op.Ns), esc(op.Room), esc(evt), "0", "0", ""}, ";")), w.body(op.Body)...)
	}
	return w.body(op.Body)
}

func (w *World) dial(op Op) {
	c := &C{k: op.K, srv: max(op.Srv, 1), id: op.ID, ns: map[string]*neffos.NSConn{}, rooms: map[string]*neffos.Room{}, raw: op.Op == "rawdial"}
	if w.scn.Cfg.Only != "" {
		c.ackSent, c.idSent = true, true
	}
	if op.Hold || op.Res != "" || len(op.Do) > 0 {
		c.oc = &Op{Hold: op.Hold, Res: op.Res, Do: op.Do}
	}
	c.ce, c.se = w.newPair(op.K)
	w.mu.Lock()
	w.conns[op.K] = c
	w.order = append(w.order, op.K)
	w.mu.Unlock()
	i := w.begin(op, 0)
	if c.raw {
		r := &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{}, Host: "x"}
		go func() {
			defer vsched.Recover()
			vsched.Y()
			w.serve(c, op.Via == "custom", nullRW{http.Header{}}, r)
		}()
		w.end(i, true, nil, "")
		return
	}
	cl, err := neffos.Dial(context.Background(), w.dialer(c, op), "x", w.connHandler("c"))
	id := ""
	if cl != nil {
		w.mu.Lock()
		c.client = cl
		w.mu.Unlock()
		id = cl.ID
	}
	if err != nil {
		err = dialErr{errLabel(err.Error())}
	}
	w.end(i, err == nil && cl != nil, err, nm(id))
}

// dialErr: the text is what counts of a failed dial.
type dialErr struct{ l string }

func (d dialErr) Error() string { return d.l }

func (w *World) bcast(op Op, par int) {
	srv := w.srvs[max(op.Srv, 1)-1]
	var from fmt.Stringer
	var nsc *neffos.NSConn
	if op.K > 0 && (op.Fk == "conn" || op.Fk == "ns" || op.Fk == "room" || op.Via == "ns" || op.Via == "others") {
		nc := w.side(op.K, "s")
		if nc == nil {
			return
		}
		op.Srv = w.conn(op.K).srv
		srv = w.srvs[op.Srv-1]
		op.ID = nc.ID()
		switch op.Fk {
		case "conn":
			from = nc
		case "ns":
			n := nc.Namespace(op.Ns)
			if n == nil {
				return
			}
			from = n
		case "room":
			n := nc.Namespace(op.Ns)
			if n == nil {
				return
			}
			r := n.Room(op.Room)
			if r == nil {
				return
			}
			from = r
		}
		if op.Via == "ns" || op.Via == "others" {
			if nsc = nc.Namespace(op.Ns); nsc == nil {
				return
			}
		}
	}
	if op.Fk == "id" {
		from = neffos.Exclude(op.ID)
	}
	if op.Via == "others" {
		op.Fk = "conn"
	}
	var msgs []neffos.Message
	for _, m := range op.Msgs {
		msgs = append(msgs, neffos.Message{Namespace: m.Ns, Room: m.Room, Event: m.Evt, Body: w.body(m.Body), SetBinary: m.Bin, To: m.To, IsNative: m.Nat})
	}
	i := w.begin(op, par)
	switch {
	case op.Via == "ns" && nsc != nil:
		nsc.Broadcast(msgs...)
	case op.Via == "others" && nsc != nil:
		nsc.BroadcastOthers(msgs...)
	default:
		srv.Broadcast(from, msgs...)
	}
	// the caller may use its slice again
	for j := range msgs {
		msgs[j] = neffos.Message{Namespace: msgs[j].Namespace, Event: "clobbered"}
	}
	w.end(i, true, nil, "")
}

// doCancel cancels the contexts of the running calls of connection k (0: all).
func (w *World) doCancel(k int) {
	w.cancelIf(func(ev Ev) bool { return (k == 0 || ev["k"] == k) && ev["ctx"] == -2 })
}

// received ends the contexts of those that wait for this very frame, perhaps.
func (w *World) received(k int, sd string) {
	w.maybeRace()
	w.cancelIf(func(ev Ev) bool { return ev["ctx"] == -3 && ev["k"] == k && ev["sd"] == sd })
}

func (w *World) cancelIf(which func(Ev) bool) {
	w.mu.Lock()
	ops := []int{}
	for i, ev := range w.pend {
		if w.cancels[i] != nil && which(ev) {
			ops = append(ops, i)
		}
	}
	sort.Ints(ops)
	var fs []func()
	for _, i := range ops {
		fs = append(fs, w.cancels[i])
		delete(w.cancels, i)
	}
	if len(ops) > 0 {
		w.ev = append(w.ev, Ev{"e": "cancel", "ops": ops, "t": w.now()})
	}
	w.mu.Unlock()
	if len(fs) > 0 && w.scn.Seed%3 != 0 {
		vsched.Race(60)
	}
	for _, f := range fs {
		f()
	}
}

// store uses the per-connection storage.
func (w *World) store(op Op) {
	c := w.side(op.K, op.Sd)
	if c == nil {
		return
	}
	var arg any
	switch op.Via {
	case "i":
		arg = op.Ms
	case "s":
		arg = strconv.Itoa(op.Ms)
	}
	val := func(v any) (string, int) {
		switch x := v.(type) {
		case nil:
			return "nil", 0
		case int:
			return "i", x
		case string:
			n, _ := strconv.Atoi(x)
			return "s", n
		}
		return "?", 0
	}
	t, v := val(arg)
	w.mu.Lock()
	w.nOp++
	i := w.nOp
	w.ev = append(w.ev, Ev{"e": "sc", "i": i, "k": op.K, "sd": op.Sd, "key": op.To, "f": op.Evt, "t": t, "v": v})
	w.mu.Unlock()
	w.maybeRace()
	var res any
	switch op.Evt {
	case "set":
		c.Set(op.To, arg)
	case "get":
		res = c.Get(op.To)
	case "inc":
		res = c.Increment(op.To)
	case "dec":
		res = c.Decrement(op.To)
	}
	t, v = val(res)
	w.log(Ev{"e": "sr", "i": i, "k": op.K, "sd": op.Sd, "key": op.To, "f": op.Evt, "t": t, "v": v})
}
