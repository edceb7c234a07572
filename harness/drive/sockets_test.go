package drive

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	gobwasws "github.com/gobwas/ws"
	gorillaws "github.com/gorilla/websocket"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/gobwas"
	"github.com/kataras/neffos/gorilla"
)

func init() {
	parts["sockread"] = bubble(sockRead)
	parts["sockwrite"] = bubble(sockWrite)
	parts["socktime"] = bubble(sockTime)
}

var partT *testing.T

// bubble: virtual time
func bubble(f func(json.RawMessage) any) func(json.RawMessage) any {
	return func(raw json.RawMessage) (out any) {
		synctest.Test(partT, func(*testing.T) {
			defer func() {
				if r := recover(); r != nil {
					out = map[string]any{"panic": fmt.Sprint(r)}
				}
			}()
			out = f(raw)
		})
		return
	}
}

// slowConn hands over what is written in two halves, others may run in between
type slowConn struct {
	*pipeEnd
	pause time.Duration
}

func (s slowConn) Write(b []byte) (int, error) {
	if s.pause == 0 || len(b) < 2 {
		return s.pipeEnd.Write(b)
	}
	h := len(b) / 2
	if n, err := s.pipeEnd.Write(b[:h]); err != nil {
		return n, err
	}
	time.Sleep(s.pause)
	n, err := s.pipeEnd.Write(b[h:])
	return h + n, err
}

type adapter struct {
	Impl string `json:"impl"`
	Role string `json:"role"`
}

// open returns the adapter and the raw end of its peer; first is sent together with a server's handshake.
func (a adapter) open(pause time.Duration, chunk int, first []byte) (neffos.Socket, *pipeEnd, *bufio.Reader) {
	mine, peer := newPipe()
	mine.chunk = chunk
	c := slowConn{mine, pause}
	if a.Role == "server" {
		r := httptest.NewRequest("GET", "/", nil)
		r.Header = http.Header{"Connection": {"Upgrade"}, "Upgrade": {"websocket"}, "Sec-Websocket-Version": {"13"}, "Sec-Websocket-Key": {base64.StdEncoding.EncodeToString(make([]byte, 16))}}
		up := gobwas.DefaultUpgrader
		if a.Impl == "gor" {
			up = gorilla.DefaultUpgrader
		}
		hj := false
		s, err := up(hijackRW{nullRW{http.Header{}}, c, bufio.NewReader(c), &hj}, r)
		if err != nil {
			panic(err)
		}
		br := bufio.NewReader(peer)
		res, err := http.ReadResponse(br, r)
		if err != nil || res.StatusCode != 101 {
			panic(fmt.Sprint("handshake: ", err))
		}
		peer.Write(first)
		return s, peer, br
	}
	ch := make(chan *bufio.Reader, 1)
	go func() {
		br := bufio.NewReader(peer)
		r, err := http.ReadRequest(br)
		if err != nil {
			panic(err)
		}
		h := sha1.Sum([]byte(r.Header.Get("Sec-WebSocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
		b := "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + base64.StdEncoding.EncodeToString(h[:]) + "\r\n\r\n"
		peer.Write(append([]byte(b), first...))
		ch <- br
	}()
	dial := func(context.Context, string, string) (net.Conn, error) { return c, nil }
	d := gobwas.Dialer(gobwasws.Dialer{NetDial: dial})
	if a.Impl == "gor" {
		d = gorilla.Dialer(&gorillaws.Dialer{NetDialContext: dial}, nil)
	}
	s, err := d(context.Background(), "ws://x/")
	if err != nil {
		panic(err)
	}
	return s, peer, <-ch
}

func wsFrame(op byte, fin bool, p []byte, mask bool) []byte {
	b := []byte{op}
	if fin {
		b[0] |= 0x80
	}
	m := byte(0)
	if mask {
		m = 0x80
	}
	switch n := len(p); {
	case n < 126:
		b = append(b, m|byte(n))
	case n < 65536:
		b = binary.BigEndian.AppendUint16(append(b, m|126), uint16(n))
	default:
		b = binary.BigEndian.AppendUint64(append(b, m|127), uint64(n))
	}
	if !mask {
		return append(b, p...)
	}
	k := []byte{1, 2, 3, 4}
	b = append(b, k...)
	for i, x := range p {
		b = append(b, x^k[i%4])
	}
	return b
}

func readWsFrame(br *bufio.Reader) (op byte, fin, masked bool, p []byte, err error) {
	var h [2]byte
	if _, err = io.ReadFull(br, h[:]); err != nil {
		return
	}
	op, fin, masked = h[0]&15, h[0]&0x80 != 0, h[1]&0x80 != 0
	if h[0]&0x70 != 0 {
		err = fmt.Errorf("reserved bits")
		return
	}
	n := uint64(h[1] & 127)
	var x [8]byte
	if n == 126 {
		_, err = io.ReadFull(br, x[6:])
		n = binary.BigEndian.Uint64(x[:])
	} else if n == 127 {
		_, err = io.ReadFull(br, x[:])
		n = binary.BigEndian.Uint64(x[:])
	}
	if err != nil {
		return
	}
	if n > 1<<20 {
		err = fmt.Errorf("too long")
		return
	}
	var k [4]byte
	if masked {
		if _, err = io.ReadFull(br, k[:]); err != nil {
			return
		}
	}
	p = make([]byte, n)
	_, err = io.ReadFull(br, p)
	if masked {
		for i := range p {
			p[i] ^= k[i%4]
		}
	}
	return
}

func content(kind string, n, salt int) []byte {
	b := make([]byte, 0, n)
	if kind == "binary" {
		for i := 0; i < n; i++ {
			b = append(b, byte(i*7+salt))
		}
		return b
	}
	for len(b)+2 <= n {
		b = append(b, "é"...)
	}
	if len(b) < n {
		b = append(b, byte('a'+salt%26))
	}
	return b
}

type step struct {
	Do     string `json:"do"`
	Kind   string `json:"kind"`
	Size   int    `json:"size"`
	Frames int    `json:"frames"`
	Mid    string `json:"mid"`
	Empty  string `json:"empty"`
}

func (s step) bytes(mask bool, salt int) []byte {
	switch s.Do {
	case "ping":
		return wsFrame(9, true, content("binary", s.Size, 1), mask)
	case "pong":
		return wsFrame(10, true, content("binary", s.Size, 1), mask)
	}
	p := content(s.Kind, s.Size, salt)
	op := byte(1)
	if s.Kind == "binary" {
		op = 2
	}
	cuts := []int{0}
	for i := 1; i < s.Frames; i++ {
		cuts = append(cuts, (len(p)/s.Frames)*i|1)
	}
	if s.Frames > 1 && s.Empty == "first" {
		cuts[1] = 0
	}
	if s.Frames > 1 && s.Empty == "last" {
		cuts[s.Frames-1] = len(p)
	}
	cuts = append(cuts, len(p))
	for i := range cuts {
		cuts[i] = min(cuts[i], len(p))
	}
	var out []byte
	for i := 0; i < s.Frames; i++ {
		out = append(out, wsFrame(op, i == s.Frames-1, p[cuts[i]:cuts[i+1]], mask)...)
		op = 0
		if i < s.Frames-1 {
			switch s.Mid {
			case "ping":
				out = append(out, wsFrame(9, true, content("binary", 3, 1), mask)...)
			case "pong":
				out = append(out, wsFrame(10, true, content("binary", 3, 1), mask)...)
			case "pingping":
				out = append(out, wsFrame(9, true, content("binary", 3, 1), mask)...)
				out = append(out, wsFrame(9, true, content("binary", 2, 1), mask)...)
			}
		}
	}
	return out
}

func sockRead(raw json.RawMessage) any {
	var in struct {
		A      adapter
		Script []step
		End    string
		Chunk  int
	}
	must(raw, &in)
	mask := in.A.Role == "server"
	var all []byte
	big := 0
	for i, s := range in.Script {
		all = append(all, s.bytes(mask, i)...)
		big += s.Size
	}
	chunk := in.Chunk
	if chunk > 0 && big > 1000 {
		chunk = 997
	}
	switch in.End {
	case "close":
		all = append(all, wsFrame(8, true, []byte{3, 232}, mask)...)
	case "midhdr":
		all = append(all, wsFrame(1, true, content("text", 300, 0), mask)[:2]...)
	case "midframe":
		all = append(all, wsFrame(1, true, content("text", 300, 0), mask)[:100]...)
	case "midmsg":
		all = append(all, wsFrame(1, false, content("text", 30, 0), mask)...)
	}
	s, peer, br := in.A.open(0, chunk, all)
	type got struct {
		b   []byte
		t   neffos.MessageType
		err error
	}
	var mu sync.Mutex
	var reads []got
	go func() {
		for i := 0; ; i++ {
			b, t, err := s.ReadData(0)
			mu.Lock()
			reads = append(reads, got{append([]byte{}, b...), t, err})
			mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	pongs := []int{}
	bad := ""
	go func() {
		for {
			op, fin, masked, p, err := readWsFrame(br)
			if err != nil {
				return
			}
			mu.Lock()
			switch {
			case op == 10 && fin && bytes.Equal(p, content("binary", len(p), 1)) && masked == !mask:
				pongs = append(pongs, len(p))
			case op == 8:
			default:
				bad = fmt.Sprintf("wrote op %d %x", op, p)
			}
			mu.Unlock()
		}
	}()
	synctest.Wait()
	end := "none"
	mu.Lock()
	if n := len(reads); n > 0 && reads[n-1].err != nil && in.End == "open" {
		end = "early: " + reads[n-1].err.Error()
	}
	mu.Unlock()
	switch in.End {
	case "lost":
		peer.lose()
	default:
		peer.Close()
	}
	synctest.Wait()
	s.NetConn().Close()
	synctest.Wait()
	mu.Lock()
	defer mu.Unlock()
	msgs := []any{}
	k := 0
	for _, r := range reads {
		if r.err != nil {
			if end == "none" {
				end = "error"
			}
			if len(r.b) > 0 {
				end = "error with data"
			}
			break
		}
		for k < len(in.Script) && in.Script[k].Do != "msg" {
			k++
		}
		kind := map[neffos.MessageType]string{neffos.TextMessage: "text", neffos.BinaryMessage: "binary"}[r.t]
		m := map[string]any{"kind": kind, "size": len(r.b)}
		if k >= len(in.Script) || !bytes.Equal(r.b, content(in.Script[k].Kind, in.Script[k].Size, k)) {
			m["kind"] = "other content"
		}
		k++
		msgs = append(msgs, m)
	}
	if bad != "" {
		end = bad
	}
	return map[string]any{"msgs": msgs, "pongs": pongs, "end": end}
}

func sockWrite(raw json.RawMessage) any {
	var in struct {
		A     adapter
		Ws    [][]int
		Pings int
	}
	must(raw, &in)
	mask := in.A.Role == "server"
	s, peer, br := in.A.open(time.Millisecond, 0, nil)
	got := make([][]int, len(in.Ws))
	for i := range got {
		got[i] = []int{}
	}
	pongs, bad, maskedAll, over := 0, "", true, false
	var mu sync.Mutex
	go func() {
		for { // answers the pings
			if _, _, err := s.ReadData(0); err != nil {
				return
			}
		}
	}()
	go func() {
		var cur []byte
		var curOp byte
		for {
			op, fin, masked, p, err := readWsFrame(br)
			if err != nil {
				mu.Lock()
				if !over {
					bad = err.Error()
				}
				mu.Unlock()
				return
			}
			mu.Lock()
			maskedAll = maskedAll && masked
			switch {
			case op == 10:
				pongs++
			case op == 8:
			case op == 1 || op == 2 || op == 0:
				if (op == 0) != (curOp != 0) {
					bad = "continuation"
				}
				if op != 0 {
					curOp = op
				}
				cur = append(cur, p...)
				if !fin {
					break
				}
				if len(cur) == 0 || int(cur[0]-'0') >= len(in.Ws) {
					bad = "unknown message"
				} else {
					w := int(cur[0] - '0')
					want := append([]byte{'0' + byte(w)}, content("text", len(cur)-1, len(got[w]))...)
					wop := byte(1)
					if len(got[w])%2 == 1 {
						wop = 2
					}
					if !bytes.Equal(cur, want) || curOp != wop {
						bad = "content"
					}
					got[w] = append(got[w], len(cur)-1)
				}
				cur, curOp = nil, 0
			default:
				bad = "op"
			}
			mu.Unlock()
		}
	}()
	for w, sizes := range in.Ws {
		go func() {
			for i, n := range sizes {
				b := append([]byte{'0' + byte(w)}, content("text", n, i)...)
				keep := string(b)
				var err error
				if i%2 == 1 {
					err = s.WriteBinary(b, 0)
				} else {
					err = s.WriteText(b, 0)
				}
				if string(b) != keep {
					err = fmt.Errorf("buffer modified")
				}
				if err != nil {
					mu.Lock()
					bad = err.Error()
					mu.Unlock()
				}
			}
		}()
	}
	for i := 0; i < in.Pings; i++ {
		peer.Write(wsFrame(9, true, []byte("p"), mask))
		time.Sleep(time.Duration(500+700*i) * time.Microsecond)
	}
	time.Sleep(time.Minute)
	synctest.Wait()
	mu.Lock()
	over = true
	mu.Unlock()
	s.NetConn().Close()
	peer.Close()
	synctest.Wait()
	mu.Lock()
	defer mu.Unlock()
	return map[string]any{"ws": got, "pongs": pongs, "masked": maskedAll, "bad": bad}
}

func sockTime(raw json.RawMessage) any {
	var in struct {
		A    adapter
		What string
		Gaps []int
	}
	must(raw, &in)
	const limit = 10 * time.Second
	mask := in.A.Role == "server"
	s, peer, br := in.A.open(0, 0, nil)
	defer synctest.Wait()
	defer peer.Close()
	defer s.NetConn().Close()
	out := []any{}
	add := func(err error) bool {
		if err != nil {
			out = append(out, "error")
			return false
		}
		out = append(out, "ok")
		return true
	}
	sec := func(n int) time.Duration { return time.Duration(n) * time.Second }
	switch in.What {
	case "read":
		go func() {
			for _, g := range in.Gaps {
				time.Sleep(sec(g))
				peer.Write(wsFrame(1, true, []byte("x"), mask))
			}
		}()
		for range in.Gaps {
			t0 := time.Now()
			b, _, err := s.ReadData(limit)
			if err == nil && string(b) != "x" {
				err = fmt.Errorf("content")
			}
			if d := time.Since(t0); err != nil && d != limit {
				out = append(out, fmt.Sprint("after ", d))
				break
			}
			if !add(err) {
				break
			}
		}
		time.Sleep(time.Minute)
	case "write":
		go io.Copy(io.Discard, br)
		for _, g := range in.Gaps {
			time.Sleep(sec(g))
			add(s.WriteText([]byte("x"), limit))
		}
	case "stall":
		mine := s.NetConn().(slowConn).pipeEnd
		mine.setFull(true)
		go func() {
			time.Sleep(sec(in.Gaps[0]))
			mine.setFull(false)
		}()
		t0 := time.Now()
		err := s.WriteText([]byte("x"), limit)
		if d := time.Since(t0); err != nil && d != limit {
			out = append(out, fmt.Sprint("after ", d))
		} else {
			add(err)
		}
		time.Sleep(time.Minute)
	case "queue":
		mine := s.NetConn().(slowConn).pipeEnd
		go io.Copy(io.Discard, br)
		mine.setFull(true)
		res := make(chan error, 2)
		go func() { res <- s.WriteText([]byte("x"), limit) }()
		time.Sleep(time.Millisecond)
		go func() { res <- s.WriteText([]byte("y"), limit) }()
		synctest.Wait()
		time.Sleep(sec(in.Gaps[0]))
		mine.mu.Lock()
		mine.some = 3
		if !mask {
			mine.some = 7
		}
		mine.notify()
		mine.mu.Unlock()
		time.Sleep(sec(in.Gaps[1]))
		mine.setFull(false)
		add(<-res)
		add(<-res)
	}
	return out
}
