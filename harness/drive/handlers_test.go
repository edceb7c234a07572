package drive

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/kataras/neffos"
)

func init() {
	parts["join"] = joinPart
	parts["struct"] = structPart
	parts["timeouts"] = timeoutsPart
	parts["live"] = livePart
	parts["many"] = manyPart
}

func must(raw json.RawMessage, v any) {
	if err := json.Unmarshal(raw, v); err != nil {
		panic(err)
	}
}

// ---- combining ----

type tagged struct{ by string } // what a callback returns: who it is

func (t tagged) Error() string { return t.by }

type lowStruct struct{ By string }

func (l *lowStruct) E(*neffos.NSConn, neffos.Message) error { return tagged{l.By + "|"} }
func (l *lowStruct) F(*neffos.NSConn, neffos.Message) error { return tagged{l.By + "|"} }

type handlerIn struct {
	Kind  string      `json:"kind"`
	Names []string    `json:"names"` // of E and F
	Decl  [][2]string `json:"decl"`
	Extra []string    `json:"extra"`
}

func buildHandler(n int, h handlerIn) neffos.ConnHandler {
	cb := func(field string) neffos.MessageHandlerFunc {
		return func(*neffos.NSConn, neffos.Message) error { return tagged{fmt.Sprintf("%d|%s", n, field)} }
	}
	nss := neffos.Namespaces{}
	for _, x := range h.Extra {
		nss[x] = neffos.Events{}
	}
	for _, p := range h.Decl {
		nss.On(p[0], p[1], cb(""))
	}
	switch h.Kind {
	case "ns":
		return nss
	case "ev":
		return nss[""]
	case "wt":
		w := neffos.WithTimeout{Events: nss[""], Namespaces: nss}
		delete(nss, "")
		return w
	case "wt2":
		w := neffos.WithTimeout{Events: neffos.Events{}, Namespaces: nss}
		if len(h.Decl) == 0 {
			w.Events = nil
		}
		for _, p := range h.Decl {
			w.Events.On(p[1], cb("events"))
		}
		return w
	case "st":
		s := neffos.NewStruct(&lowStruct{By: fmt.Sprint(n)})
		ns := h.Extra[0]
		if ns != "" {
			s.SetNamespace(ns)
		}
		has := map[string]bool{}
		for _, p := range h.Decl {
			has[p[1]] = true
		}
		return s.SetEventMatcher(func(m string) (string, bool) { m = h.Names[strings.Index("EF", m)]; return m, has[m] })
	}
	panic(h.Kind)
}

type joined struct {
	nss    []string
	events []map[string]any
}

func look(h neffos.ConnHandler) joined {
	j := joined{nss: []string{}, events: []map[string]any{}}
	for ns, evs := range h.GetNamespaces() {
		if evs == nil {
			continue
		}
		j.nss = append(j.nss, ns)
		for e, cb := range evs {
			var by int
			var field string
			t, _ := cb(nil, neffos.Message{}).(tagged)
			if p := strings.SplitN(t.by, "|", 2); len(p) == 2 {
				fmt.Sscan(p[0], &by)
				field = p[1]
			}
			j.events = append(j.events, map[string]any{"ns": ns, "evt": e, "by": by, "field": field})
		}
	}
	sort.Strings(j.nss)
	sort.Slice(j.events, func(a, b int) bool { return fmt.Sprint(j.events[a]) < fmt.Sprint(j.events[b]) })
	return j
}

func joinPart(raw json.RawMessage) any {
	var in []handlerIn
	must(raw, &in)
	hs := []neffos.ConnHandler{}
	before := []joined{}
	for i, x := range in {
		h := buildHandler(i+1, x)
		hs = append(hs, h)
		before = append(before, look(h))
	}
	res := neffos.JoinConnHandlers(hs...)
	got := look(res)
	same := func() string {
		for i, h := range hs {
			if !reflect.DeepEqual(look(h), before[i]) {
				return fmt.Sprintf("changed %d: %v", i+1, look(h))
			}
		}
		return "same"
	}
	inputs := same()
	// what is added to the result stays there
	if nss := res.GetNamespaces(); nss != nil {
		for ns := range nss {
			nss.On(ns, "later", func(*neffos.NSConn, neffos.Message) error { return nil })
		}
		nss.On("more", "later", func(*neffos.NSConn, neffos.Message) error { return nil })
	}
	if s := same(); inputs == "same" && s != "same" {
		inputs = "shared: " + s
	}
	again := "same"
	if !reflect.DeepEqual(look(neffos.JoinConnHandlers(hs...)), got) {
		again = "different"
	}
	return map[string]any{"nss": got.nss, "events": got.events, "inputs": inputs, "again": again}
}

// ---- structs ----

type rec struct {
	mu  sync.Mutex
	log []string
}

func (r *rec) add(m string, c *neffos.NSConn) error {
	r.mu.Lock()
	r.log = append(r.log, fmt.Sprintf("%s|%p", m, c))
	r.mu.Unlock()
	return tagged{m}
}

type shStatic struct{ R *rec }

func (s *shStatic) Chat(c *neffos.NSConn, m neffos.Message) error   { return s.R.add("Chat", c) }
func (s *shStatic) OnChat(c *neffos.NSConn, m neffos.Message) error { return s.R.add("OnChat", c) }
func (s *shStatic) OnZ(c *neffos.NSConn, m neffos.Message) error    { return s.R.add("OnZ", c) }
func (s *shStatic) Dyn(m neffos.Message) error                      { return s.R.add("Dyn", nil) }
func (s *shStatic) OnOther(m neffos.Message) error                  { return s.R.add("OnOther", nil) }
func (s *shStatic) NoErr(c *neffos.NSConn, m neffos.Message)        { s.R.add("NoErr", c) }
func (s *shStatic) Helper() string                                  { return "h" }
func (s *shStatic) Swapped(m neffos.Message, c *neffos.NSConn) error {
	return s.R.add("Swapped", c)
}
func (s *shStatic) Two(c *neffos.NSConn, m neffos.Message) (int, error) {
	return 0, s.R.add("Two", c)
}
func (s shStatic) Value(c *neffos.NSConn, m neffos.Message) error { return s.R.add("Value", c) }
func (s *shStatic) OnNamespaceConnect(c *neffos.NSConn, m neffos.Message) error {
	return s.R.add("OnNamespaceConnect", c)
}
func (s *shStatic) OnNamespaceConnected(c *neffos.NSConn, m neffos.Message) error {
	return s.R.add("OnNamespaceConnected", c)
}
func (s *shStatic) OnNamespaceDisconnect(c *neffos.NSConn, m neffos.Message) error {
	return s.R.add("OnNamespaceDisconnect", c)
}
func (s *shStatic) OnRoomJoin(c *neffos.NSConn, m neffos.Message) error {
	return s.R.add("OnRoomJoin", c)
}
func (s *shStatic) OnRoomJoined(c *neffos.NSConn, m neffos.Message) error {
	return s.R.add("OnRoomJoined", c)
}
func (s *shStatic) OnRoomLeave(c *neffos.NSConn, m neffos.Message) error {
	return s.R.add("OnRoomLeave", c)
}
func (s *shStatic) OnRoomLeft(c *neffos.NSConn, m neffos.Message) error {
	return s.R.add("OnRoomLeft", c)
}

type oddZero struct{ n int }

func (oddZero) IsZero() string { return "" }

type oddZero2 struct{ n int }

func (oddZero2) IsZero() (bool, error) { return false, nil }

type inner struct {
	at time.Time
	N  int
}

type shDynamic struct {
	hidden int
	R      *rec
	Conn   *neffos.NSConn
	O      oddZero
	O2     oddZero2
	I      inner
	At     time.Time
	F      func()
	L      []int
	A      [2]int
	M      map[string]int
	X      any
}

func (s *shDynamic) Chat(m neffos.Message) error                   { return s.R.add("Chat", s.Conn) }
func (s *shDynamic) OnChat(m neffos.Message) error                 { return s.R.add("OnChat", s.Conn) }
func (s *shDynamic) OnZ(m neffos.Message) error                    { return s.R.add("OnZ", s.Conn) }
func (s *shDynamic) Stat(c *neffos.NSConn, m neffos.Message) error { return s.R.add("Stat", c) }
func (s *shDynamic) Helper() string                                { return "h" }
func (s shDynamic) Value(m neffos.Message) error                   { return s.R.add("Value", s.Conn) }
func (s *shDynamic) OnNamespaceConnected(m neffos.Message) error {
	return s.R.add("OnNamespaceConnected", s.Conn)
}
func (s *shDynamic) OnNamespaceDisconnect(m neffos.Message) error {
	return s.R.add("OnNamespaceDisconnect", s.Conn)
}
func (s *shDynamic) OnRoomLeft(m neffos.Message) error { return s.R.add("OnRoomLeft", s.Conn) }

type shDynConnect struct {
	C *neffos.NSConn
	R *rec
}

func (s *shDynConnect) Chat(m neffos.Message) error { return s.R.add("Chat", s.C) }
func (s *shDynConnect) OnNamespaceConnect(m neffos.Message) error {
	return s.R.add("OnNamespaceConnect", s.C)
}

type shMethod struct{ R *rec }

func (s *shMethod) Namespace() string                             { return "bymethod" }
func (s *shMethod) Chat(c *neffos.NSConn, m neffos.Message) error { return s.R.add("Chat", c) }

type shField struct {
	Namespace string
	Conn      *neffos.NSConn
	R         *rec
}

func (s *shField) Chat(m neffos.Message) error   { return s.R.add("Chat", s.Conn) }
func (s *shField) OnChat(m neffos.Message) error { return s.R.add("OnChat", s.Conn) }

type shBoth struct {
	Name string
	Conn *neffos.NSConn
	R    *rec
}

func (s *shBoth) Namespace() string           { return "bymethod" }
func (s *shBoth) Chat(m neffos.Message) error { return s.R.add("Chat", s.Conn) }

type nsBase struct{}

func (nsBase) Namespace(int) string { return "wrong" }

type shBad struct {
	nsBase
	R *rec
}

func (s *shBad) Chat(c *neffos.NSConn, m neffos.Message) error { return s.R.add("Chat", c) }

func structPart(raw json.RawMessage) any {
	var in struct{ Shape, How, Set string }
	must(raw, &in)
	r := &rec{}
	shapes := map[string]any{
		"static":     &shStatic{R: r},
		"dynamic":    &shDynamic{R: r, O: oddZero{1}, O2: oddZero2{1}, I: inner{N: 1}, At: time.Unix(1, 0), F: func() {}, L: []int{1}, A: [2]int{0, 1}, M: map[string]int{"a": 1}, X: []int{1}, hidden: 1},
		"dynconnect": &shDynConnect{R: r}, "method": &shMethod{R: r}, "field": &shField{R: r, Namespace: "byfield"}, "both": &shBoth{R: r}, "badmethod": &shBad{R: r},
	}
	v := shapes[in.Shape]
	s := neffos.NewStruct(v)
	if neffos.NewStruct(s) != s {
		panic("NewStruct of a Struct is another Struct")
	}
	switch in.How {
	case "prefix":
		s.SetEventMatcher(neffos.EventPrefixMatcher("On"))
	case "trim":
		s.SetEventMatcher(neffos.EventTrimPrefixMatcher("On"))
	case "reject":
		s.SetEventMatcher(func(string) (string, bool) { return "no", false })
	case "rename":
		s.SetEventMatcher(func(n string) (string, bool) { return "to/" + n, true })
	}
	if in.Set != "" {
		s.SetNamespace(in.Set)
	}
	nss := s.GetNamespaces()
	if len(nss) != 1 {
		panic("not one namespace")
	}
	var ns string
	var evs neffos.Events
	for ns, evs = range nss {
	}
	conns := []*neffos.NSConn{{}, {}}
	for _, c := range conns {
		if h := evs[neffos.OnNamespaceConnect]; h != nil {
			h(c, neffos.Message{})
		}
	}
	out := []any{}
	for e, h := range evs {
		m, conn := "?", "its own"
		for i, c := range conns {
			r.log = nil
			err := h(c, neffos.Message{})
			x := ""
			if len(r.log) == 1 {
				x = strings.SplitN(r.log[0], "|", 2)[0]
				if r.log[0] != fmt.Sprintf("%s|%p", x, c) {
					conn = "another"
				}
			} else if len(r.log) > 1 {
				x = "many"
			}
			if t, ok := err.(tagged); ok != (x != "") || ok && t.by != x {
				x = "wrong result"
			}
			if i > 0 && m != x {
				x = "differs"
			}
			m = x
		}
		out = append(out, map[string]any{"evt": e, "method": m, "conn": conn})
	}
	return map[string]any{"ns": ns, "events": out}
}

// ---- connections over channels ----

type tube struct {
	in     chan tubeMsg
	peer   *tube
	closed chan struct{}
	once   *sync.Once
	r      *http.Request
	mu     sync.Mutex
	rts    map[time.Duration]int
	wts    map[time.Duration]int
}
type tubeMsg struct {
	b []byte
	t neffos.MessageType
}
type tubeConn struct {
	net.Conn
	t *tube
}

func (c tubeConn) Close() error { c.t.once.Do(func() { close(c.t.closed) }); return nil }

var idleEnd, _ = newPipe()

func newTube() (a, b *tube) {
	ch, o := make(chan struct{}), &sync.Once{}
	mk := func() *tube {
		return &tube{in: make(chan tubeMsg, 256), closed: ch, once: o, r: httptest.NewRequest("GET", "/", nil), rts: map[time.Duration]int{}, wts: map[time.Duration]int{}}
	}
	a, b = mk(), mk()
	a.peer, b.peer = b, a
	return
}
func (t *tube) NetConn() net.Conn      { return tubeConn{idleEnd, t} }
func (t *tube) Request() *http.Request { return t.r }
func (t *tube) ReadData(d time.Duration) ([]byte, neffos.MessageType, error) {
	t.mu.Lock()
	t.rts[d]++
	t.mu.Unlock()
	select {
	case m := <-t.in:
		return m.b, m.t, nil
	case <-t.closed:
		return nil, 0, errors.New("closed")
	}
}
func (t *tube) write(b []byte, d time.Duration, k neffos.MessageType) error {
	t.mu.Lock()
	t.wts[d]++
	t.mu.Unlock()
	select {
	case t.peer.in <- tubeMsg{append([]byte{}, b...), k}:
		return nil
	case <-t.closed:
		return errors.New("closed")
	}
}
func (t *tube) WriteBinary(b []byte, d time.Duration) error {
	return t.write(b, d, neffos.BinaryMessage)
}
func (t *tube) WriteText(b []byte, d time.Duration) error { return t.write(b, d, neffos.TextMessage) }

// tubes serves and dials without a network
type tubes struct {
	srv  *neffos.Server
	ends []*tube // server's ends
	cli  []*tube
}

func newTubes(h neffos.ConnHandler) *tubes {
	x := &tubes{}
	x.srv = neffos.New(func(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
		return r.Context().Value(tubeKey{}).(*tube), nil
	}, h)
	n := 0
	x.srv.IDGenerator = func(http.ResponseWriter, *http.Request) string { n++; return fmt.Sprint(n) }
	return x
}

type tubeKey struct{}

func (x *tubes) dial(h neffos.ConnHandler) (*neffos.Client, error) {
	return neffos.Dial(context.Background(), func(ctx context.Context, url string) (neffos.Socket, error) {
		a, b := newTube()
		x.cli, x.ends = append(x.cli, a), append(x.ends, b)
		r := httptest.NewRequest("GET", "/", nil)
		r = r.WithContext(context.WithValue(context.Background(), tubeKey{}, b))
		b.r = r
		if _, err := x.srv.Upgrade(httptest.NewRecorder(), r, nil, nil); err != nil {
			return nil, err
		}
		return a, nil
	}, "mem", h)
}

type shTime struct{ Conn *neffos.NSConn }

func (s *shTime) Echo(m neffos.Message) error { return neffos.Reply(m.Body) }

func timeoutsPart(raw json.RawMessage) any {
	var in struct {
		Kind, Side string
		Rt, Wt     int
	}
	must(raw, &in)
	rt, wt := time.Duration(in.Rt)*time.Second, time.Duration(in.Wt)*time.Second
	evs := neffos.Events{"Echo": func(c *neffos.NSConn, m neffos.Message) error { return neffos.Reply(m.Body) }}
	var h neffos.ConnHandler
	switch in.Kind {
	case "wt":
		h = neffos.WithTimeout{ReadTimeout: rt, WriteTimeout: wt, Namespaces: neffos.Namespaces{"n": evs}}
	case "struct":
		h = neffos.NewStruct(&shTime{}).SetNamespace("n").SetTimeouts(rt, wt)
	default:
		h = neffos.Namespaces{"n": evs}
	}
	var other neffos.ConnHandler = neffos.Namespaces{"n": evs}
	sh, ch := h, other
	if in.Side == "c" {
		sh, ch = other, h
	}
	x := newTubes(sh)
	defer x.srv.Close()
	c, err := x.dial(ch)
	if err != nil {
		panic(err)
	}
	defer c.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	ns, err := c.Connect(ctx, "n")
	if err != nil {
		panic(err)
	}
	if m, err := ns.Ask(ctx, "Echo", []byte("x")); err != nil || string(m.Body) != "x" {
		panic(fmt.Sprint("ask: ", err))
	}
	for _, sc := range x.srv.GetConnections() {
		if m, err := sc.Namespace("n").Ask(ctx, "Echo", []byte("y")); err != nil || string(m.Body) != "y" {
			panic(fmt.Sprint("ask: ", err))
		}
		sc.Namespace("n").EmitBinary("Echo", []byte{1})
	}
	e := x.ends[0]
	if in.Side == "c" {
		e = x.cli[0]
	}
	only := func(m map[time.Duration]int) any {
		e.mu.Lock()
		defer e.mu.Unlock()
		if len(m) != 1 {
			return fmt.Sprint(m)
		}
		for d := range m {
			return d / time.Second
		}
		return nil
	}
	return map[string]any{"rt": only(e.rts), "wt": only(e.wts)}
}

// ---- instances ----

type counter struct {
	Hidden int
	Conn   *neffos.NSConn
	Tag    string
	Shared *rec
	N      int
	Note   string
	Flag   bool
	Num    int64
	Rate   float64
	List   []string
	Table  map[string]int
	Arr    [2]int
	Arr2   [2]int
	When   time.Time
	In     inner
	Fn     func() int
	Any    any
}

func (s *counter) configure() {
	s.Shared, s.Flag, s.Num, s.Rate, s.List, s.Table, s.Arr, s.Arr2, s.When, s.In, s.Any = &rec{}, true, -1, .5, []string{}, map[string]int{}, [2]int{0, 1}, [2]int{1, 0}, time.Unix(1, 0), inner{N: 1}, 0
	s.Fn = func() int { return 1 }
}

// which of the configured fields are there: all, none, or some
func (s *counter) configured() any {
	has := []bool{s.Shared != nil, s.Flag, s.Num == -1, s.Rate == .5, s.List != nil, s.Table != nil, s.Arr == [2]int{0, 1}, s.Arr2 == [2]int{1, 0}, s.When.Equal(time.Unix(1, 0)), s.In.N == 1, s.Fn != nil, s.Any == 0}
	for _, x := range has {
		if x != has[0] {
			return fmt.Sprint(has)
		}
	}
	return has[0]
}

func (s *counter) Bump(m neffos.Message) error {
	ns := m.Namespace
	if s.Conn != s.Conn.Conn.Namespace(ns) {
		ns = "another"
	}
	k := 0
	fmt.Sscan(s.Conn.Conn.ID(), &k)
	b, _ := json.Marshal(map[string]any{"conn": k, "ns": ns, "n": s.N, "note": s.Note, "tag": s.Tag, "shared": s.configured()})
	s.N++
	s.Note += "x"
	s.Tag += "!"
	return neffos.Reply(b)
}

func livePart(raw json.RawMessage) any {
	var in struct {
		Side string
		Inj  bool
		Ops  [][3]any
	}
	must(raw, &in)
	tpl := &counter{Tag: "static"}
	tpl.configure()
	tplWas := func() string { return fmt.Sprint(tpl.N, tpl.Note, tpl.Tag, tpl.Conn == nil, tpl.configured()) }
	was := tplWas()
	st := neffos.NewStruct(tpl)
	if in.Inj {
		st.SetInjector(func(t reflect.Type, c *neffos.NSConn) reflect.Value {
			v := reflect.New(t)
			v.Interface().(*counter).Tag = "injected"
			return v
		})
	}
	var dyn neffos.ConnHandler = neffos.Namespaces{"a": st.Events(), "b": st.Events()}
	var plain neffos.ConnHandler = neffos.Namespaces{"a": neffos.Events{}, "b": neffos.Events{}}
	sh, ch := dyn, plain
	if in.Side == "c" {
		sh, ch = plain, dyn
	}
	x := newTubes(sh)
	defer x.srv.Close()
	var cl [3]*neffos.Client
	for k := 1; k <= 2; k++ {
		c, err := x.dial(ch)
		if err != nil {
			panic(err)
		}
		defer c.Close()
		cl[k] = c
	}
	var ns [3]map[string]*neffos.NSConn
	ns[1], ns[2] = map[string]*neffos.NSConn{}, map[string]*neffos.NSConn{}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	out := []any{}
	for _, o := range in.Ops {
		k, n := int(o[1].(float64)), o[2].(string)
		switch o[0].(string) {
		case "con":
			c, err := cl[k].Connect(ctx, n)
			if err != nil {
				out = append(out, err.Error())
				continue
			}
			ns[k][n] = c
			out = append(out, "ok")
		case "dis":
			if err := ns[k][n].Disconnect(ctx); err != nil {
				out = append(out, err.Error())
				continue
			}
			out = append(out, "ok")
		case "bump":
			c := ns[k][n]
			if in.Side == "c" {
				c = x.srv.GetConnections()[fmt.Sprint(k)].Namespace(n)
			}
			m, err := c.Ask(ctx, "Bump", nil)
			if err != nil {
				out = append(out, err.Error())
				continue
			}
			var v any
			if err := json.Unmarshal(m.Body, &v); err != nil {
				v = "no reply: " + string(m.Body)
			}
			out = append(out, v)
		}
	}
	template := "same"
	if tplWas() != was {
		template = "changed: " + tplWas()
	}
	return map[string]any{"out": out, "template": template}
}

type lone struct {
	Conn *neffos.NSConn
	Tag  string
	seen *neffos.NSConn
}

func (l *lone) OnNamespaceConnect(m neffos.Message) error { l.seen = l.Conn; return nil }
func (l *lone) Who(m neffos.Message) error {
	if l.seen != l.Conn {
		return tagged{"another instance connected"}
	}
	return tagged{fmt.Sprintf("%p %p %s", l, l.Conn, l.Tag)}
}

func manyPart(raw json.RawMessage) any {
	var in struct {
		Inj bool
		N   int
	}
	must(raw, &in)
	st := neffos.NewStruct(&lone{Tag: "t"})
	if in.Inj {
		st.SetInjector(func(t reflect.Type, c *neffos.NSConn) reflect.Value { return reflect.ValueOf(&lone{Tag: "t"}) })
	}
	evs := st.Events()
	conns := make([]neffos.NSConn, in.N)
	start, wg := make(chan struct{}), sync.WaitGroup{}
	for i := range conns {
		wg.Add(1)
		go func(c *neffos.NSConn) {
			defer wg.Done()
			<-start
			for k := 0; k < 20; k++ {
				evs[neffos.OnNamespaceConnect](c, neffos.Message{})
			}
		}(&conns[i])
	}
	close(start)
	wg.Wait()
	own, insts := 0, map[string]bool{}
	for i := range conns {
		t, _ := evs["Who"](&conns[i], neffos.Message{}).(tagged)
		var p, c, tag string
		fmt.Sscan(t.by, &p, &c, &tag)
		if c == fmt.Sprintf("%p", &conns[i]) && tag == "t" && !insts[p] {
			own++
		}
		insts[p] = true
	}
	return map[string]any{"own": own}
}
