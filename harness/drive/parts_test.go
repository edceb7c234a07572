package drive

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/gobwas"
	"github.com/kataras/neffos/gorilla"
)

// Parts of the system that are specified as tables: each case carries what to do and what has to be observed,
// both computed by TLC (spec/Http.tla, Handlers.tla, Codec.tla, ...).

type partCase struct {
	Part string          `json:"part"`
	N    int             `json:"n"`
	In   json.RawMessage `json:"in"`
	Want any             `json:"want"`
}

var parts = map[string]func(json.RawMessage) any{}

// TestParts runs the cases of $DRV_IN; the ones observed otherwise are written to $DRV_OUT.
func TestParts(t *testing.T) {
	in, out := os.Getenv("DRV_IN"), os.Getenv("DRV_OUT")
	if in == "" {
		t.Skip()
	}
	partT = t
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	o, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	defer o.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	n, bad := 0, 0
	for sc.Scan() {
		var c partCase
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			t.Fatal(err)
		}
		fmt.Fprintf(os.Stderr, "RUNNING case %d\n", c.N)
		got := runPart(c)
		n++
		b, _ := json.Marshal(got)
		var g any
		json.Unmarshal(b, &g)
		if !reflect.DeepEqual(canon(g), canon(c.Want)) {
			bad++
			if bad <= 50 {
				b, _ = json.Marshal(map[string]any{"n": c.N, "case": c, "got": g})
				o.Write(append(b, '\n'))
			}
		}
	}
	fmt.Fprintf(o, "{\"done\":%d,\"bad\":%d}\n", n, bad)
}

// canon sorts the lists named "events", which are sets.
func canon(v any) any {
	m, ok := v.(map[string]any)
	if !ok {
		return v
	}
	if l, ok := m["events"].([]any); ok {
		sort.Slice(l, func(i, j int) bool {
			a, _ := json.Marshal(l[i])
			b, _ := json.Marshal(l[j])
			return bytes.Compare(a, b) < 0
		})
	}
	return m
}

func runPart(c partCase) (got any) {
	defer func() {
		if r := recover(); r != nil {
			got = map[string]any{"panic": fmt.Sprint(r)}
		}
	}()
	return parts[c.Part](c.In)
}

// soon waits for something that is due right away.
func soon(f func() bool) bool {
	for i := 0; i < 4000; i++ {
		if f() {
			return true
		}
		if i > 20 {
			time.Sleep(time.Millisecond)
		}
	}
	return false
}

// ---- the HTTP entry point ----

type idleSocket struct {
	c    net.Conn
	p    net.Conn
	r    *http.Request
	done chan struct{}
	once sync.Once
}

type closeConn struct {
	net.Conn
	s *idleSocket
}

func (c closeConn) Close() error { c.s.once.Do(func() { close(c.s.done) }); return nil }

func newIdle(r *http.Request) *idleSocket {
	s := &idleSocket{r: r, done: make(chan struct{})}
	a, _ := newPipe()
	s.c = closeConn{a, s}
	return s
}
func (s *idleSocket) NetConn() net.Conn      { return s.c }
func (s *idleSocket) Request() *http.Request { return s.r }
func (s *idleSocket) ReadData(time.Duration) ([]byte, neffos.MessageType, error) {
	<-s.done
	return nil, 0, net.ErrClosed
}
func (s *idleSocket) WriteBinary([]byte, time.Duration) error { return nil }
func (s *idleSocket) WriteText([]byte, time.Duration) error   { return nil }

type wrapSocket struct{ neffos.Socket }

var defaultIDs sync.Map

func init() { parts["http"] = httpPart }

func httpPart(raw json.RawMessage) any {
	var in struct {
		Method string      `json:"method"`
		Closed bool        `json:"closed"`
		Upg    string      `json:"upg"`
		OnErr  bool        `json:"onerr"`
		Gen    string      `json:"gen"`
		Wrap   bool        `json:"wrap"`
		Via    string      `json:"via"`
		Params [][2]string `json:"params"`
		HasA   bool        `json:"hasA"`
		Recon  string      `json:"recon"`
	}
	if err := json.Unmarshal(raw, &in); err != nil {
		panic(err)
	}
	errUp := errors.New("no upgrade")
	var seen http.Header
	var upErr error
	base := map[string]neffos.Upgrader{"gobwas": gobwas.DefaultUpgrader, "gorilla": gorilla.DefaultUpgrader,
		"ok": func(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) { return newIdle(r), nil },
		"err": func(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
			http.Error(w, "no", http.StatusBadRequest)
			return nil, errUp
		}}[in.Upg]
	srv := neffos.New(func(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
		seen = r.Header.Clone()
		s, err := base(w, r)
		upErr = err
		return s, err
	}, neffos.Namespaces{"n": neffos.Events{}})
	defer srv.Close()
	gen := func(name string) neffos.IDGenerator {
		return func(w http.ResponseWriter, r *http.Request) string {
			if seen == nil || !reflect.DeepEqual(seen, r.Header) { // as the upgrader saw them
				return "other headers"
			}
			return name
		}
	}
	if in.Gen == "server" || in.Gen == "custom" {
		srv.IDGenerator = gen("server")
	}
	var custom neffos.IDGenerator
	if in.Gen == "custom" {
		custom = gen("custom")
	}
	var onc, oue int32
	var hooked *neffos.Conn
	srv.OnConnect = func(c *neffos.Conn) error { atomic.AddInt32(&onc, 1); hooked = c; return nil }
	badHook := false
	if in.OnErr {
		srv.OnUpgradeError = func(err error) {
			atomic.AddInt32(&oue, 1)
			if err == nil || err != upErr {
				badHook = true
			}
		}
	}
	if in.Closed {
		srv.Close()
	}
	r := httptest.NewRequest(in.Method, "/", nil)
	raws := []string{}
	for _, p := range in.Params {
		raws = append(raws, url.QueryEscape(p[0])+"="+url.QueryEscape(p[1]))
	}
	q := ""
	for i, x := range raws {
		if i > 0 {
			q += "&"
		}
		q += x
	}
	r.URL.RawQuery = q
	if in.HasA {
		r.Header.Set("A", "0")
	}
	if in.Recon != "none" {
		r.Header.Set("X-Websocket-Reconnect", in.Recon)
	}
	rw := httptest.NewRecorder()
	rw.Code = 0
	var wrap func(neffos.Socket) neffos.Socket
	if in.Wrap {
		wrap = func(s neffos.Socket) neffos.Socket { return wrapSocket{s} }
	}
	var nc *neffos.Conn
	errs := "unseen"
	if in.Via == "serve" {
		srv.ServeHTTP(rw, r)
	} else {
		c, err := srv.Upgrade(rw, r, wrap, custom)
		nc = c
		switch {
		case err == nil:
			errs = "none"
		case neffos.IsTryingToReconnect(err):
			errs = "retry"
		case upErr != nil && err == upErr:
			errs = "upgrader"
		default:
			errs = "other"
		}
	}
	want := uint64(0)
	if hooked != nil {
		want = 1
	}
	soon(func() bool { return srv.GetTotalConnections() == want })
	total := srv.GetTotalConnections()
	if n := len(srv.GetConnections()); uint64(n) != total {
		total = 100 + uint64(n)
	}
	status := "none"
	switch {
	case rw.Code == 0:
	case rw.Code >= 400 && upErr != nil:
		status = "failed"
	default:
		status = fmt.Sprint(rw.Code)
	}
	res := map[string]any{"status": status, "allow": rw.Header().Get("Allow"), "err": errs, "conn": nc != nil, "total": total, "onconnect": onc, "onupgradeerror": oue,
		"id": "", "wrapped": false, "headers": []any{}, "tries": 0, "reconnected": false}
	if badHook {
		res["onupgradeerror"] = -1
	}
	if c := hooked; c != nil {
		if nc != nil && nc != c {
			res["conn"] = "another"
		}
		id := c.ID()
		if in.Gen == "default" && id != "" && id != "server" && id != "custom" {
			if _, dup := defaultIDs.LoadOrStore(id, true); !dup {
				id = "default"
			}
		}
		res["id"] = id
		_, res["wrapped"] = c.Socket().(wrapSocket)
		names := []string{}
		for k := range seen {
			names = append(names, k)
		}
		sort.Slice(names, func(i, j int) bool { return hdrOrder(names[i]) < hdrOrder(names[j]) })
		hs := []any{}
		for _, k := range names {
			hs = append(hs, map[string]any{"name": k, "values": seen[k]})
		}
		res["headers"] = hs
		res["tries"] = c.ReconnectTries
		res["reconnected"] = c.WasReconnected()
		c.Close()
	}
	return res
}

func hdrOrder(s string) string { return s }
