package drive

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/kataras/neffos"
	nexc "github.com/kataras/neffos/stackexchange/nats"
	rexc "github.com/kataras/neffos/stackexchange/redis"
	"github.com/kataras/neffos/vsched/vdep"
	"github.com/nats-io/nats.go"
)

// broker is a minimal redis or nats server: publish/subscribe with patterns, each client
// gets what it is subscribed to in the order it was published.
type broker struct {
	mu    sync.Mutex
	cl    map[*bclient]bool
	order []*bclient
	pools []func() error
	nats  bool
	down  bool
}

type bclient struct {
	b    *broker
	nc   net.Conn
	mu   sync.Mutex
	out  [][]byte
	wake chan struct{}
	// redis: "s:channel" or "p:pattern", nats: "sid" -> subject
	subs map[string]string
	ids  []string
	echo bool
	left map[string]int
}

func (b *broker) dial(string, string) (net.Conn, error) {
	x, y := net.Pipe()
	c := &bclient{b: b, nc: y, wake: make(chan struct{}, 1), subs: map[string]string{}, echo: true, left: map[string]int{}}
	b.mu.Lock()
	if b.down {
		b.mu.Unlock()
		select {}
	}
	if b.cl == nil {
		b.cl = map[*bclient]bool{}
	}
	b.cl[c] = true
	b.order = append(b.order, c)
	b.mu.Unlock()
	go c.writer()
	go func() {
		r := bufio.NewReader(c.nc)
		if b.nats {
			c.serveNats(r)
		} else {
			c.serveRedis(r)
		}
		c.nc.Close()
		b.mu.Lock()
		delete(b.cl, c)
		b.mu.Unlock()
		c.send(nil)
	}()
	return x, nil
}

// Dial is for nats.SetCustomDialer.
func (b *broker) Dial(network, addr string) (net.Conn, error) { return b.dial(network, addr) }

func (c *bclient) send(p []byte) {
	c.mu.Lock()
	c.out = append(c.out, p)
	c.mu.Unlock()
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

func (c *bclient) writer() {
	for range c.wake {
		c.mu.Lock()
		out := c.out
		c.out = nil
		c.mu.Unlock()
		for _, p := range out {
			if p == nil {
				return
			}
			if _, err := c.nc.Write(p); err != nil {
				return
			}
		}
	}
}

// count is the number of subscriptions.
func (b *broker) count() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	n := 0
	for c := range b.cl {
		n += len(c.subs)
	}
	return n
}

func (b *broker) stop() {
	b.mu.Lock()
	pools, cl := b.pools, b.order
	b.down = true
	b.mu.Unlock()
	for _, f := range pools {
		f()
	}
	for _, c := range cl {
		c.nc.Close()
	}
}

func (c *bclient) serveRedis(r *bufio.Reader) {
	line := func() (string, error) {
		s, err := r.ReadString('\n')
		return strings.TrimRight(s, "\r\n"), err
	}
	for {
		l, err := line()
		if err != nil || !strings.HasPrefix(l, "*") {
			return
		}
		n, _ := strconv.Atoi(l[1:])
		var args []string
		for i := 0; i < n; i++ {
			l, err := line()
			if err != nil || !strings.HasPrefix(l, "$") {
				return
			}
			m, _ := strconv.Atoi(l[1:])
			p := make([]byte, m+2)
			if _, err := io.ReadFull(r, p); err != nil {
				return
			}
			args = append(args, string(p[:m]))
		}
		if len(args) == 0 {
			return
		}
		bulk := func(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }
		b := c.b
		b.mu.Lock()
		switch cmd := strings.ToUpper(args[0]); cmd {
		case "PING":
			if len(c.subs) > 0 {
				c.send([]byte("*2\r\n$4\r\npong\r\n$0\r\n\r\n"))
			} else {
				c.send([]byte("+PONG\r\n"))
			}
		case "AUTH", "SELECT", "CLIENT":
			c.send([]byte("+OK\r\n"))
		case "SUBSCRIBE", "PSUBSCRIBE", "UNSUBSCRIBE", "PUNSUBSCRIBE":
			kind := "s:"
			if strings.HasPrefix(cmd, "P") {
				kind = "p:"
			}
			chans := args[1:]
			if len(chans) == 0 {
				for k := range c.subs {
					if strings.HasPrefix(k, kind) {
						chans = append(chans, k[2:])
					}
				}
				sort.Strings(chans)
			}
			for _, ch := range chans {
				if strings.HasSuffix(cmd, "UNSUBSCRIBE") {
					delete(c.subs, kind+ch)
				} else {
					c.subs[kind+ch] = ch
				}
				c.send([]byte("*3\r\n" + bulk(strings.ToLower(cmd)) + bulk(ch) + fmt.Sprintf(":%d\r\n", len(c.subs))))
			}
			if len(chans) == 0 {
				c.send([]byte("*3\r\n" + bulk(strings.ToLower(cmd)) + "$-1\r\n" + fmt.Sprintf(":%d\r\n", len(c.subs))))
			}
		case "PUBLISH":
			if len(args) != 3 {
				c.send([]byte("-ERR wrong number of arguments for 'publish' command\r\n"))
				break
			}
			n := 0
			for _, d := range b.order {
				if !b.cl[d] {
					continue
				}
				var keys []string
				for k := range d.subs {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range keys {
					switch {
					case k[:2] == "s:" && k[2:] == args[1]:
						d.send([]byte("*3\r\n" + bulk("message") + bulk(args[1]) + bulk(args[2])))
						n++
					case k[:2] == "p:" && glob(k[2:], args[1]):
						d.send([]byte("*4\r\n" + bulk("pmessage") + bulk(k[2:]) + bulk(args[1]) + bulk(args[2])))
						n++
					}
				}
			}
			c.send([]byte(fmt.Sprintf(":%d\r\n", n)))
		case "QUIT":
			b.mu.Unlock()
			return
		default:
			c.send([]byte("-ERR unknown command\r\n"))
		}
		b.mu.Unlock()
	}
}

// glob is redis' pattern matching, without classes.
func glob(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for i := 0; i <= len(s); i++ {
				if glob(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if s == "" {
				return false
			}
		case '\\':
			if len(p) > 1 {
				p = p[1:]
			}
			fallthrough
		default:
			if s == "" || s[0] != p[0] {
				return false
			}
		}
		p, s = p[1:], s[1:]
	}
	return s == ""
}

func (c *bclient) serveNats(r *bufio.Reader) {
	c.send([]byte(`INFO {"server_id":"B","version":"2.10.0","proto":1,"headers":true,"max_payload":67108864,"host":"127.0.0.1","port":4222}` + "\r\n"))
	b := c.b
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch strings.ToUpper(f[0]) {
		case "CONNECT":
			var o struct {
				Echo *bool `json:"echo"`
			}
			json.Unmarshal([]byte(strings.TrimSpace(l[7:])), &o)
			c.echo = o.Echo == nil || *o.Echo
		case "PING":
			c.send([]byte("PONG\r\n"))
		case "PONG":
		case "SUB":
			if len(f) < 3 || strings.HasSuffix(f[1], ".") || strings.Contains(f[1], "..") {
				c.send([]byte("-ERR 'Invalid Subject'\r\n"))
				continue
			}
			b.mu.Lock()
			c.subs[f[len(f)-1]] = f[1]
			c.ids = append(c.ids, f[len(f)-1])
			b.mu.Unlock()
		case "UNSUB":
			b.mu.Lock()
			if len(f) > 2 {
				c.left[f[1]], _ = strconv.Atoi(f[2])
			} else {
				delete(c.subs, f[1])
			}
			b.mu.Unlock()
		case "PUB", "HPUB":
			n, _ := strconv.Atoi(f[len(f)-1])
			p := make([]byte, n+2)
			if _, err := io.ReadFull(r, p); err != nil {
				return
			}
			b.mu.Lock()
			for _, d := range b.order {
				if !b.cl[d] || (d == c && !c.echo) {
					continue
				}
				for _, sid := range d.ids {
					subj, ok := d.subs[sid]
					if !ok || !subject(subj, f[1]) {
						continue
					}
					if f[0] == "PUB" {
						d.send([]byte(fmt.Sprintf("MSG %s %s %d\r\n%s", f[1], sid, n, p)))
					} else {
						d.send([]byte(fmt.Sprintf("HMSG %s %s %s %d\r\n%s", f[1], sid, f[len(f)-2], n, p)))
					}
					if d.left[sid] > 0 {
						if d.left[sid]--; d.left[sid] == 0 {
							delete(d.subs, sid)
						}
					}
				}
			}
			b.mu.Unlock()
		}
	}
}

func subject(p, s string) bool {
	pt, st := strings.Split(p, "."), strings.Split(s, ".")
	for i, t := range pt {
		if t == ">" {
			return len(st) > i
		}
		if i >= len(st) || (t != "*" && t != st[i]) {
			return false
		}
	}
	return len(pt) == len(st)
}

func (w *World) useLiveExchange(srv *neffos.Server, exc string) error {
	if w.broker == nil {
		b := &broker{nats: strings.HasPrefix(exc, "nats")}
		w.broker = b
		w.stop = b.stop
		vdep.Dial = b.dial
		vdep.OnPool = func(close func() error) { b.pools = append(b.pools, close) }
	}
	switch {
	case strings.HasPrefix(exc, "redis"):
		x, err := rexc.NewStackExchange(rexc.Config{MaxActive: 2}, "ch")
		if err != nil {
			return err
		}
		return srv.UseStackExchange(x)
	case strings.HasPrefix(exc, "nats"):
		x, err := nexc.NewStackExchange("nats://127.0.0.1:4222", nats.SetCustomDialer(w.broker), nats.NoReconnect())
		if err != nil {
			return err
		}
		return srv.UseStackExchange(x)
	}
	return errors.New("unknown exchange " + exc)
}
