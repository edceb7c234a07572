package drive

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/vsched"
)

// Ev is one event of a trace.
type Ev map[string]any

// Op is one operation of the application, as generated from the specification.
type Op struct {
	Op   string `json:"op"`
	K    int    `json:"k"`
	Sd   string `json:"sd"`
	Ns   string `json:"ns"`
	Room string `json:"room"`
	Evt  string `json:"evt"`
	Body string `json:"body"`
	Bin  bool   `json:"bin"`
	Ctx  int    `json:"ctx"`
	Via  string `json:"via"`
	To   string `json:"to"`
	ID   string `json:"id"`
	Srv  int    `json:"srv"`
	Fk   string `json:"fk"` // broadcast sender kind
	Msgs []Msg  `json:"msgs"`
	Do   []Op   `json:"do"`
	Res  string `json:"res"`
	Hold bool   `json:"hold"`
	Ms   int    `json:"ms"`

	cancel func()
}

// Msg is one message of a broadcast.
type Msg struct {
	Ns   string `json:"ns"`
	Room string `json:"room"`
	Evt  string `json:"evt"`
	Body string `json:"body"`
	Bin  bool   `json:"bin"`
	To   string `json:"to"`
	Nat  bool   `json:"nat"`
}

// Cfg describes the application under which a scenario runs.
type Cfg struct {
	Decl   [][3]string `json:"decl"` // side, namespace, event ("" declares the namespace)
	Any    [][2]string `json:"any"`  // side, namespace with an any-event callback
	Always bool        `json:"always"`
	Sync   bool        `json:"sync"`
	OC     bool        `json:"oc"`
	RT     int         `json:"rt"`
	WT     int         `json:"wt"`
	CRT    int         `json:"crt"`
	Tr     string      `json:"tr"`
	Srvs   int         `json:"srvs"`
	Exc    string      `json:"exc"`
	Only   string      `json:"only"` // "s", "c", "cs": sides that declare nothing but native messages
}

// Scn is a scenario.
type Scn struct {
	ID      int     `json:"id"`
	Fam     string  `json:"fam"`
	Cfg     Cfg     `json:"cfg"`
	Steps   [][]Op  `json:"steps"`
	Seed    uint64  `json:"seed"`
	Preempt float64 `json:"preempt"`
	Pct     int     `json:"pct"`
}

// C is connection number k.
type C struct {
	k, srv       int
	id           string
	ce, se       *end
	client       *neffos.Client
	cconn, sconn *neffos.Conn
	toks         map[string]*tok_
	ackSent      bool
	idSent       bool
	oc           *Op
	raw          bool
	stopped      bool
	ns           map[string]*neffos.NSConn // last handle by side+ns
	rooms        map[string]*neffos.Room
}

// World runs one scenario.
type World struct {
	t         *testing.T
	scn       *Scn
	s         *vsched.Sched
	broker    *broker
	mu        sync.Mutex
	ev        []Ev
	t0        time.Time
	srvs      []*neffos.Server
	conns     map[int]*C
	order     []int
	nOp       int
	nCb       int
	pend      map[int]Ev
	held      map[int]chan struct{}
	heldK     map[int]string
	script    []*Op
	labels    map[string]string // bytes -> label
	logged    bool
	bus, bus2 *bus
	stop      func()
	cancels   map[int]func()
}

func (w *World) log(ev Ev) {
	w.mu.Lock()
	w.ev = append(w.ev, ev)
	w.mu.Unlock()
}

func (w *World) conn(k int) *C {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.conns[k]
}

func (w *World) now() int { return int(time.Since(w.t0) / time.Millisecond) }

// ---- bodies, names, errors ----

var longTail = bytes.Repeat([]byte("0123456789abcdef"), 4400)

// body returns the bytes that a label stands for.
func (w *World) body(label string) []byte {
	b := rawBody(label)
	w.mu.Lock()
	w.labels[string(b)] = label
	w.mu.Unlock()
	return b
}

func rawBody(label string) []byte {
	if label == "" {
		return nil
	}
	if strings.HasSuffix(label, "'") {
		return append(rawBody(label[:len(label)-1]), '\'')
	}
	switch label[0] {
	case 'L': // long
		return append([]byte(label), longTail...)
	case 'S': // separators
		return []byte(";" + label + ";0;1;;" + sepRepl)
	case 'B': // arbitrary bytes
		return append(append([]byte{0, 255, 254, ';', 10, 13}, label...), 13, 10, ' ', ';', 255, 0)
	case 'N': // white space at both ends
		return []byte("\n \t" + label + " \r\n")
	case 'W': // looks like a message
		return []byte("77;n1;;" + label + ";1;0;x")
	}
	return []byte(label)
}

func (w *World) label(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if l, ok := w.labels[string(b)]; ok {
		return l
	}
	if len(b) > 60 {
		return fmt.Sprintf("?%d:%s", len(b), nm(string(b[:40])))
	}
	return "?" + nm(string(b))
}

var errKnown = errors.New("known; error")

type dynErr struct{}

func (dynErr) Error() string                 { return "dyn:" }
func (dynErr) ResolveError(text string) bool { return strings.HasPrefix(text, "dyn:") }

var errDyn = &dynErr{}

type dynText struct{ s string }

func (d dynText) Error() string { return d.s }

func init() {
	neffos.RegisterKnownError(errKnown)
	neffos.RegisterKnownError(errDyn)
}

// errLabel names an error text as it appears on the wire.
func errLabel(text string) string {
	switch {
	case text == neffos.ErrBadNamespace.Error():
		return "badns"
	case text == neffos.ErrBadRoom.Error():
		return "badroom"
	case text == neffos.ErrWrite.Error():
		return "write"
	case text == errKnown.Error():
		return "known"
	case strings.HasPrefix(text, "dyn:"):
		return "dyn"
	}
	return "t:" + nm(text)
}

// errVal names an error value as an application sees it.
func errVal(err error) string {
	if err == nil {
		return ""
	}
	switch err {
	case neffos.ErrBadNamespace:
		return "badns"
	case neffos.ErrBadRoom:
		return "badroom"
	case neffos.ErrWrite:
		return "write"
	case errKnown:
		return "known"
	case error(errDyn):
		return "dyn"
	case context.DeadlineExceeded, context.Canceled:
		return "ctx"
	}
	if _, ok := err.(dynText); ok {
		return "dyn"
	}
	if d, ok := err.(dialErr); ok {
		return d.l
	}
	if _, ok := err.(neffos.CloseError); ok {
		return "close"
	}
	l := errLabel(err.Error())
	if strings.HasPrefix(l, "t:") {
		return l
	}
	return "notsame:" + l // the text of a known error but not its value
}

// mkErr makes the error that a callback returns.
func mkErr(name string) error {
	switch {
	case name == "known":
		return errKnown
	case name == "dyn":
		return dynText{"dyn:x"}
	case name == "badns":
		return neffos.ErrBadNamespace
	case strings.HasPrefix(name, "t:"):
		return errors.New(name[2:])
	}
	return errors.New(name)
}

// ---- the application ----

type ctxKey struct{}

func (w *World) namespaces(side string) neffos.Namespaces {
	nss := neffos.Namespaces{}
	get := func(ns string) neffos.Events {
		if nss[ns] == nil {
			nss[ns] = neffos.Events{}
			if !strings.Contains(w.scn.Cfg.Only, side) {
				for _, e := range []string{neffos.OnNamespaceConnect, neffos.OnNamespaceConnected, neffos.OnNamespaceDisconnect,
					neffos.OnRoomJoin, neffos.OnRoomJoined, neffos.OnRoomLeave, neffos.OnRoomLeft} {
					nss[ns][e] = w.handler(side, ns, e)
				}
			}
		}
		return nss[ns]
	}
	for _, d := range w.scn.Cfg.Decl {
		if d[0] != side {
			continue
		}
		evs := get(d[1])
		switch d[2] {
		case "":
		case "native":
			evs[neffos.OnNativeMessage] = w.handler(side, d[1], neffos.OnNativeMessage)
		default:
			evs[d[2]] = w.handler(side, d[1], d[2])
		}
	}
	for _, a := range w.scn.Cfg.Any {
		if a[0] == side {
			get(a[1])[neffos.OnAnyEvent] = w.handler(side, a[1], neffos.OnAnyEvent)
		}
	}
	return nss
}

func (w *World) connHandler(side string) neffos.ConnHandler {
	c := w.scn.Cfg
	nss := w.namespaces(side)
	rt := c.RT
	if side == "c" {
		rt = c.CRT
	}
	if rt > 0 || (side == "s" && c.WT > 0) {
		h := neffos.WithTimeout{Namespaces: nss, ReadTimeout: time.Duration(rt) * time.Millisecond}
		if side == "s" {
			h.WriteTimeout = time.Duration(c.WT) * time.Millisecond
		}
		return h
	}
	return nss
}

func endOf(c *neffos.Conn) *end {
	e, _ := c.Socket().(*end)
	return e
}

func (w *World) remember(c *neffos.Conn) (k int, sd string) {
	e := endOf(c)
	if e == nil {
		return 0, "?"
	}
	cc := w.conn(e.k)
	w.mu.Lock()
	if e.sd == "c" {
		cc.cconn = c
	} else {
		cc.sconn = c
	}
	w.mu.Unlock()
	return e.k, e.sd
}

func (w *World) handler(side, rns, revt string) neffos.MessageHandlerFunc {
	return func(ns *neffos.NSConn, msg neffos.Message) error {
		k, sd := w.remember(ns.Conn)
		w.mu.Lock()
		w.nCb++
		q := w.nCb
		w.mu.Unlock()
		evt := evName(msg.Event)
		nsv := nm(msg.Namespace)
		in := ns.Conn.Namespace(msg.Namespace)
		var rm *neffos.Room
		if msg.Room != "" {
			rm = ns.Room(msg.Room)
		}
		if c := w.conn(k); c != nil {
			w.mu.Lock()
			if evt == "connected" {
				c.ns[sd+msg.Namespace] = ns
			}
			if evt == "joined" && rm != nil {
				c.rooms[sd+msg.Namespace+"\x00"+msg.Room] = rm
			}
			w.mu.Unlock()
		}
		er := errVal(msg.Err)
		body := w.label(msg.Body)
		if er != "" && er != "dyn" {
			body = er
		} else if er == "dyn" {
			body = "dyn"
		}
		w.log(Ev{"e": "cb", "q": q, "k": k, "sd": sd, "ns": nsv, "room": nm(msg.Room), "evt": evt, "body": body,
			"iserr": msg.Err != nil, "bin": msg.SetBinary, "loc": msg.IsLocal, "frc": msg.IsForced, "nat": msg.IsNative,
			"wait": msg.IsWait(sd == "c"), "in": in == ns, "rin": rm != nil, "rsd": side, "rns": nm(rns), "revt": evName(revt), "t": w.now()})
		act, arg := w.scripted(k, sd, msg.Namespace, msg.Room, evt), ""
		if act == nil {
			act, arg = w.byName(evt, msg)
		}
		if act.Hold {
			ch := make(chan struct{})
			w.mu.Lock()
			w.held[q] = ch
			w.heldK[q] = fmt.Sprintf("%d%s", k, sd)
			w.mu.Unlock()
			w.log(Ev{"e": "hold", "q": q})
			<-ch
			vsched.Y()
		}
		for i := range act.Do {
			op := act.Do[i]
			if op.K == 0 {
				op.K = k
			}
			if op.Sd == "" {
				op.Sd = sd
			}
			w.exec(op, q)
		}
		var err error
		res, v := "nil", ""
		switch {
		case act.Res == "" || act.Res == "nil":
		case act.Res == "rep" && !strings.HasPrefix(evt, "u:") && evt != "native":
			if !msg.IsLocal {
				err = neffos.Reply([]byte("welcome")) // a reply is not a refusal.
			}
		case act.Res == "rep":
			res, v = "rep", arg+"'"
			err = neffos.Reply(w.body(v))
		case act.Res == "rep0":
			res = "rep"
			err = neffos.Reply(nil)
		case act.Res == "erru":
			res = "err"
			err = errors.New(errPrefix[q%len(errPrefix)] + arg + ";" + w.scnTag(q))
			v = errLabel(err.Error())
		case act.Res == "close":
			res = "err"
			err = neffos.ErrWrite
			v = "write"
		case act.Res == "empty":
			res = "err"
			err = errors.New("")
			v = "t:"
		default:
			res = "err"
			err = mkErr(act.Res)
			v = errLabel(err.Error())
		}
		w.log(Ev{"e": "cbx", "q": q, "res": res, "v": v, "t": w.now()})
		return err
	}
}

func (w *World) scnTag(q int) string { return strconv.Itoa(q) }

// byName: the first letter of a user event selects what its callback does.
func (w *World) byName(evt string, msg neffos.Message) (*Op, string) {
	arg := w.label(msg.Body)
	if evt == "native" {
		return &Op{}, arg
	}
	if !strings.HasPrefix(evt, "u:") || len(evt) < 3 {
		return &Op{}, arg
	}
	if msg.Err != nil {
		return &Op{}, arg // an error that came back
	}
	if strings.HasSuffix(arg, "'") {
		return &Op{}, arg // a reply that came back
	}
	switch evt[2] {
	case 'r':
		return &Op{Res: "rep"}, arg
	case 'R':
		if arg == "" {
			return &Op{}, arg // an empty reply that came back
		}
		return &Op{Res: "rep0"}, arg
	case 'e':
		return &Op{Res: "erru"}, arg
	case 'k':
		return &Op{Res: "known"}, arg
	case 'd':
		return &Op{Res: "dyn"}, arg
	case 'z':
		return &Op{Res: "empty"}, arg
	case 'h':
		return &Op{Hold: true}, arg
	case 'H':
		return &Op{Hold: true, Res: "rep"}, arg
	}
	return &Op{}, arg
}

func (w *World) scripted(k int, sd, ns, room, evt string) *Op {
	w.mu.Lock()
	defer w.mu.Unlock()
	for i, s := range w.script {
		if s.K == k && s.Sd == sd && s.Ns == ns && s.Room == room && s.Evt == evt {
			w.script = append(w.script[:i:i], w.script[i+1:]...)
			return s
		}
	}
	return nil
}

func (w *World) setup() error {
	cfg := w.scn.Cfg
	n := cfg.Srvs
	if n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		srv := neffos.New(w.upgrader(), w.connHandler("s"))
		srv.FireDisconnectAlways = cfg.Always
		srv.SyncBroadcaster = cfg.Sync
		srv.IDGenerator = func(_ http.ResponseWriter, r *http.Request) string {
			c, _ := r.Context().Value(ctxKey{}).(*C)
			return c.id
		}
		if cfg.OC {
			srv.OnConnect = func(nc *neffos.Conn) error {
				k, _ := w.remember(nc)
				c := w.conn(k)
				w.log(Ev{"e": "oc", "k": k, "id": nm(nc.ID()), "rt": nc.ReconnectTries})
				op := c.oc
				if op == nil {
					op = &Op{}
				}
				for i := range op.Do {
					o := op.Do[i]
					if o.K == 0 {
						o.K = k
					}
					if o.Sd == "" {
						o.Sd = "s"
					}
					w.exec(o, -k)
				}
				if op.Hold {
					ch := make(chan struct{})
					w.mu.Lock()
					w.held[-k] = ch
					w.heldK[-k] = fmt.Sprintf("%ds", k)
					w.mu.Unlock()
					w.log(Ev{"e": "hold", "q": -k})
					<-ch
					vsched.Y()
				}
				var err error
				v := ""
				if op.Res != "" && op.Res != "nil" {
					err = mkErr(op.Res)
					v = errLabel(err.Error())
				}
				w.log(Ev{"e": "ocx", "k": k, "res": v, "t": w.now()})
				return err
			}
		}
		srv.OnDisconnect = func(nc *neffos.Conn) {
			k, _ := w.remember(nc)
			listed := false
			srv.Do(func(x *neffos.Conn) {
				if x == nc {
					listed = true
				}
			}, false)
			nss := 0
			for _, ns := range w.universe() {
				if nc.Namespace(ns) != nil {
					nss++
				}
			}
			w.log(Ev{"e": "od", "k": k, "listed": listed, "nss": nss, "closed": nc.IsClosed()})
			w.mu.Lock()
			var s *Op
			for i, x := range w.script {
				if x.K == k && x.Evt == "od" {
					s = x
					w.script = append(w.script[:i:i], w.script[i+1:]...)
					break
				}
			}
			w.mu.Unlock()
			if s != nil {
				for i := range s.Do {
					o := s.Do[i]
					if o.K == 0 {
						o.K = k
					}
					if o.Sd == "" {
						o.Sd = "s"
					}
					w.exec(o, -1000-k)
				}
			}
			w.log(Ev{"e": "odx", "k": k})
		}
		w.srvs = append(w.srvs, srv)
		if err := w.useExchange(srv, i); err != nil {
			return err
		}
	}
	return nil
}

func (w *World) universe() []string {
	seen := map[string]bool{}
	var out []string
	for _, d := range w.scn.Cfg.Decl {
		if !seen[d[1]] {
			seen[d[1]] = true
			out = append(out, d[1])
		}
	}
	sort.Strings(out)
	return out
}

// ---- quiescence ----

// next hands the turn out, if the schedule is controlled.
func (w *World) next() bool { return w.s != nil && w.s.Next() }

func (w *World) settle() {
	if w.broker != nil { // its clients have timers of their own
		for idle := 0; idle < 200; idle++ {
			time.Sleep(250 * time.Microsecond)
			for n := 0; ; n++ {
				synctest.Wait()
				if !w.next() {
					break
				}
				idle = 0
				if n > 400000 {
					w.log(Ev{"e": "spin"})
					return
				}
			}
		}
		return
	}
	for r := 0; r < 3; r++ {
		for n := 0; ; n++ {
			synctest.Wait()
			if !w.next() {
				break
			}
			if n > 400000 {
				w.log(Ev{"e": "spin"})
				return
			}
		}
		time.Sleep(16 * time.Millisecond)
	}
	for {
		synctest.Wait()
		if !w.next() {
			break
		}
	}
}

func (w *World) adv(ms int) {
	for slice := 16; ms > 0; {
		d := min(ms, slice)
		time.Sleep(time.Duration(d) * time.Millisecond)
		ms -= d
		n := 0
		for synctest.Wait(); w.next(); synctest.Wait() {
			if n++; n > 400000 {
				w.log(Ev{"e": "spin"})
				return
			}
		}
		if n > 0 {
			slice = 16
		} else if slice < 1024 {
			slice *= 2
		}
	}
	w.settle()
}

// probe logs everything an application can query while nothing is going on.
func (w *World) probe(final bool) {
	done := make(chan Ev, 1)
	go func() {
		defer vsched.Recover()
		ev := Ev{"e": "quiet", "final": final, "t": w.now()}
		var prs []any
		list := [][]any{}
		for si, srv := range w.srvs {
			cnt := srv.GetTotalConnections()
			var do, conns []int
			srv.Do(func(c *neffos.Conn) {
				k, _ := w.remember(c)
				do = append(do, k)
			}, false)
			sort.Ints(do)
			for id, c := range srv.GetConnections() {
				k, _ := w.remember(c)
				if id != c.ID() {
					k = -1
				}
				conns = append(conns, k)
			}
			sort.Ints(conns)
			byns := [][]any{}
			for _, ns := range w.universe() {
				var ks []int
				for id, n := range srv.GetConnectionsByNamespace(ns) {
					k, _ := w.remember(n.Conn)
					if id != n.Conn.ID() {
						k = -1
					}
					ks = append(ks, k)
				}
				sort.Ints(ks)
				byns = append(byns, []any{nm(ns), ints(ks)})
			}
			list = append(list, []any{si + 1, cnt, ints(do), ints(conns), byns})
		}
		w.mu.Lock()
		order := append([]int(nil), w.order...)
		w.mu.Unlock()
		for _, k := range order {
			c := w.conn(k)
			w.mu.Lock()
			cc, sc, cl := c.cconn, c.sconn, c.client
			w.mu.Unlock()
			if sc != nil {
				prs = append(prs, w.probeConn(k, "s", sc, sc.IsClosed()))
			}
			if cl != nil {
				closed := false
				select {
				case <-cl.NotifyClose:
					closed = true
				default:
				}
				if cc != nil {
					pr := w.probeConn(k, "c", cc, cc.IsClosed())
					if cc.IsClosed() != closed {
						pr["closed"] = !closed
						pr["odd"] = true
					}
					prs = append(prs, pr)
				} else {
					prs = append(prs, Ev{"k": k, "sd": "c", "closed": closed, "nss": []any{}, "rms": []any{}, "id": nm(cl.ID), "known": false, "odd": false})
				}
			}
		}
		if prs == nil {
			prs = []any{}
		}
		ev["pr"] = prs
		ev["srv"] = list
		done <- ev
	}()
	for {
		synctest.Wait()
		if !w.next() {
			break
		}
	}
	select {
	case ev := <-done:
		w.finishProbe(ev)
	default:
		w.log(Ev{"e": "probestuck"})
		w.logged = true
	}
}

func (w *World) finishProbe(ev Ev) {
	w.mu.Lock()
	var p, h []int
	for i := range w.pend {
		p = append(p, i)
	}
	for q := range w.held {
		h = append(h, q)
	}
	w.mu.Unlock()
	sort.Ints(p)
	sort.Ints(h)
	ev["pend"] = ints(p)
	ev["held"] = ints(h)
	ev["subs"] = 0
	if w.broker != nil {
		ev["subs"] = w.broker.count()
	}
	w.log(ev)
}

func ints(x []int) []int {
	if x == nil {
		return []int{}
	}
	return x
}

func (w *World) probeConn(k int, sd string, c *neffos.Conn, closed bool) Ev {
	nss, rms := []any{}, []any{}
	for _, ns := range w.universe() {
		n := c.Namespace(ns)
		if n == nil {
			continue
		}
		nss = append(nss, nm(ns))
		var rs []string
		for _, r := range n.Rooms() {
			rs = append(rs, nm(r.Name))
		}
		sort.Strings(rs)
		for _, r := range rs {
			rms = append(rms, []string{nm(ns), r})
		}
	}
	return Ev{"k": k, "sd": sd, "closed": closed, "nss": nss, "rms": rms, "id": nm(c.ID()), "known": true, "odd": false}
}

// ---- running scenarios ----

func (w *World) run() {
	w.t0 = time.Now()
	w.conns = map[int]*C{}
	w.pend = map[int]Ev{}
	w.held = map[int]chan struct{}{}
	w.heldK = map[int]string{}
	w.labels = map[string]string{}
	w.cancels = map[int]func(){}
	if err := w.setup(); err != nil {
		w.log(Ev{"e": "setuperr", "err": err.Error()})
		return
	}
	for _, step := range w.scn.Steps {
		advMs := 0
		for _, op := range step {
			op := op
			switch op.Op {
			case "adv":
				advMs += op.Ms
			case "script":
				w.mu.Lock()
				w.script = append(w.script, &op)
				w.mu.Unlock()
			case "release":
				w.release(op.K)
			case "inject", "stall", "unstall", "drop", "rawdial", "rawsend":
				w.exec(op, 0)
			default:
				go func() {
					defer vsched.Recover()
					vsched.Y()
					w.exec(op, 0)
				}()
			}
		}
		w.settle()
		if advMs > 0 {
			w.adv(advMs)
		}
		w.probe(false)
		if w.logged {
			return
		}
	}
	// the end: let everything finish, let every context and timer expire, then close everything
	w.mu.Lock()
	w.script = nil
	w.mu.Unlock()
	for _, k := range w.order {
		w.conn(k).stopped = true
	}
	for i := 0; i < 6; i++ {
		w.release(0)
		w.unstallAll()
		w.settle()
	}
	w.probe(false)
	if w.logged {
		return
	}
	w.cancelIf(func(Ev) bool { return true })
	w.log(Ev{"e": "expire"})
	w.adv(30000)
	for i := 0; i < 4; i++ {
		w.release(0)
		w.settle()
	}
	if os.Getenv("DRV_DUMP") != "" {
		b := make([]byte, 1<<20)
		os.Stderr.Write(b[:runtime.Stack(b, true)])
	}
	w.probe(false)
	if w.logged {
		return
	}
	w.log(Ev{"e": "closeall"})
	for _, k := range append([]int(nil), w.order...) {
		c := w.conn(k)
		op := Op{Op: "close", K: k, Sd: "c"}
		if c.client == nil {
			op = Op{Op: "drop", K: k}
			if w.scn.Cfg.Tr != "" && w.scn.Cfg.Tr != "mem" {
				continue
			}
		}
		go func() {
			defer vsched.Recover()
			vsched.Y()
			w.exec(op, 0)
		}()
	}
	w.settle()
	for i := range w.srvs {
		i := i
		go func() {
			defer vsched.Recover()
			vsched.Y()
			w.exec(Op{Op: "srvclose", Srv: i + 1}, 0)
		}()
	}
	for i := 0; i < 6; i++ {
		w.release(0)
		w.settle()
	}
	w.probe(false)
	if w.logged {
		return
	}
	// what callbacks ask last may have a deadline of its own
	for i := 0; i < 4; i++ {
		time.Sleep(7 * time.Second)
		w.release(0)
		w.settle()
	}
	w.probe(true)
}

func (w *World) unstallAll() {
	for _, k := range w.order {
		c := w.conn(k)
		for _, e := range []*end{c.ce, c.se} {
			if e != nil && e.under == nil {
				e.stall(false)
			}
		}
	}
}

// release lets held callbacks of connection k (0: all) go on.
func (w *World) release(k int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	var qs []int
	for q := range w.held {
		if k == 0 || strings.TrimRight(w.heldK[q], "cs") == strconv.Itoa(k) {
			qs = append(qs, q)
		}
	}
	sort.Ints(qs)
	for _, q := range qs {
		ch := w.held[q]
		delete(w.held, q)
		w.ev = append(w.ev, Ev{"e": "rel", "q": q})
		close(ch)
	}
}

func runScn(t *testing.T, scn *Scn) (tr map[string]any) {
	w := &World{t: t, scn: scn}
	scn.norm()
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if !strings.Contains(msg, "deadlock") && !strings.Contains(msg, "blocked goroutines remain") {
					w.log(Ev{"e": "panic", "msg": nm(msg + "\n" + string(debug.Stack()))})
				}
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			if os.Getenv("DRV_FREE") == "" {
				w.s = vsched.New(scn.Seed, scn.Preempt, scn.Pct)
				vsched.SetMain()
				defer w.s.Stop()
			}
			w.run()
			if w.stop != nil {
				w.stop()
			}
		})
	}()
	if w.s != nil {
		for _, p := range w.s.Panics {
			lines := strings.Split(p, "\n")
			w.log(Ev{"e": "panic", "msg": nm(strings.Join(lines[:min(len(lines), 14)], " | "))})
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	cfg := scn.Cfg
	decl := [][3]string{}
	for _, d := range cfg.Decl {
		e := d[2]
		if e != "" && e != "native" {
			e = evName(e)
		}
		decl = append(decl, [3]string{d[0], nm(d[1]), e})
	}
	anys := [][2]string{}
	for _, a := range cfg.Any {
		anys = append(anys, [2]string{a[0], nm(a[1])})
	}
	return map[string]any{"id": scn.ID, "fam": scn.Fam, "cfg": map[string]any{"decl": decl, "any": anys, "always": cfg.Always, "sync": cfg.Sync,
		"oc": cfg.OC, "rt": cfg.RT, "wt": cfg.WT, "crt": cfg.CRT, "tr": cfg.Tr, "srvs": max(cfg.Srvs, 1), "exc": cfg.Exc, "only": cfg.Only, "live": w.broker != nil}, "ev": append([]Ev(nil), w.ev...)}
}

// TestDrive runs the scenarios of $DRV_IN and writes their traces to $DRV_OUT.
func TestDrive(t *testing.T) {
	in, out := os.Getenv("DRV_IN"), os.Getenv("DRV_OUT")
	if in == "" {
		t.Skip()
	}
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	f, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	bw := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(bw)
	enc.SetEscapeHTML(false)
	for _, line := range bytes.Split(b, []byte("\n")) {
		if len(bytes.TrimSpace(line)) == 0 {
			continue
		}
		scn := new(Scn)
		if err := json.Unmarshal(line, scn); err != nil {
			t.Fatalf("%v: %s", err, line)
		}
		done := make(chan struct{})
		go func() {
			select {
			case <-done:
			case <-time.After(60 * time.Second):
				bw.Flush()
				fmt.Fprintf(os.Stderr, "WATCHDOG scenario %d\n", scn.ID)
				debug.SetTraceback("all")
				panic("watchdog")
			}
		}()
		tr := runScn(t, scn)
		close(done)
		if err := enc.Encode(tr); err != nil {
			t.Fatal(err)
		}
	}
	if err := bw.Flush(); err != nil {
		t.Fatal(err)
	}
	f.Close()
	os.Exit(0)
}

var _ net.Conn = memNet{}

// texts that begin like those of known errors
var errPrefix = []string{"E ", "bad namespace", "write closed ", "known; error", "Dyn:", " bad room"}
