package drive

import (
	"encoding/json"
	"errors"
	"strings"

	"github.com/kataras/neffos"
)

func init() {
	parts["send"] = sendPart
	parts["recv"] = recvPart
	parts["object"] = objectPart
	parts["bytes"] = bytesPart
}

type dynError struct{ text string }

func (e *dynError) Error() string              { return e.text }
func (e *dynError) ResolveError(t string) bool { return strings.HasPrefix(t, "dynq:") }

var (
	knownStatic = errors.New("static")
	knownDyn    = &dynError{"dyn"}
)

func seeMessage(m neffos.Message) map[string]any {
	r := map[string]any{"ns": m.Namespace, "room": m.Room, "evt": m.Event, "body": string(m.Body), "err": "", "errtext": "", "native": m.IsNative, "bin": m.SetBinary,
		"waits": []bool{m.IsWait(true), m.IsWait(false)}, "exchange": m.FromStackExchange, "explicit": m.FromExplicit}
	switch m.Err {
	case nil:
	case neffos.ErrBadNamespace:
		r["err"], r["errtext"] = "badns", "\\badns"
	case knownStatic:
		r["err"], r["errtext"] = "static", "static"
	case error(knownDyn):
		r["err"], r["errtext"] = "dyn", "dynq:1"
	default:
		r["err"], r["errtext"] = "text", m.Err.Error()
	}
	if m.To != "" || m.IsForced || m.IsLocal {
		r["err"] = "local information"
	}
	return r
}

func known() {
	neffos.RegisterKnownError(knownStatic)
	neffos.RegisterKnownError(knownDyn)
	neffos.RegisterKnownError(knownDyn)
}

func frameType(bin bool) neffos.MessageType {
	if bin {
		return neffos.BinaryMessage
	}
	return neffos.TextMessage
}

func sendPart(raw json.RawMessage) any {
	var in struct {
		Ns, Room, Evt, Body, Err string
		Native, Bin              bool
	}
	must(raw, &in)
	known()
	m := neffos.Message{Namespace: in.Ns, Room: in.Room, Event: in.Evt, IsNative: in.Native, SetBinary: in.Bin, To: "secret"}
	if in.Body != "" {
		m.Body = []byte(in.Body)
	}
	switch in.Err {
	case "none":
	case "static":
		m.Err = knownStatic
	case "badns":
		m.Err = neffos.ErrBadNamespace
	case "reply":
		m.Err = neffos.Reply([]byte("replied"))
	case "reply;":
		m.Err = neffos.Reply([]byte(";replied;"))
	default:
		m.Err = errors.New(in.Err)
	}
	b := m.Serialize()
	frame := strings.ReplaceAll(string(b), neffos.ErrBadNamespace.Error(), "\\badns")
	if in.Native {
		g := neffos.DeserializeMessage(frameType(in.Bin), b, true, true)
		x := "only"
		if len(b) > 0 && (string(g.Body) != in.Body || g.Event != neffos.OnNativeMessage || !g.IsNative || g.SetBinary != in.Bin) {
			x = "not the bytes"
		}
		return map[string]any{"frame": frame, "msg": map[string]any{"native": x}}
	}
	return map[string]any{"frame": frame, "msg": seeMessage(neffos.DeserializeMessage(frameType(in.Bin), b, false, false))}
}

func recvPart(raw json.RawMessage) any {
	var in struct {
		Payload          string
		Allow, Only, Bin bool
	}
	must(raw, &in)
	known()
	b := []byte(strings.ReplaceAll(in.Payload, "\\badns", neffos.ErrBadNamespace.Error()))
	keep := string(b)
	m := neffos.DeserializeMessage(frameType(in.Bin), b, in.Allow, in.Only)
	m.Body = []byte(strings.ReplaceAll(string(m.Body), neffos.ErrBadNamespace.Error(), "\\badns"))
	if string(b) != keep {
		return "payload modified"
	}
	return seeMessage(m)
}

// bytesPart sends the bytes in one field and returns what arrives.
func bytesPart(raw json.RawMessage) any {
	var in struct {
		F string
		B []int
	}
	must(raw, &in)
	known()
	b := make([]byte, len(in.B))
	for i, x := range in.B {
		b[i] = byte(x)
	}
	v := string(b)
	ints := func(s string) []int {
		r := make([]int, len(s))
		for i := range r {
			r[i] = int(s[i])
		}
		return r
	}
	var m neffos.Message
	switch in.F {
	case "ns":
		m.Namespace = v
	case "room":
		m.Room = v
	case "evt":
		m.Event = v
	case "body":
		m.Body = b
	case "err":
		m.Err = errors.New(v)
	case "reply":
		m.Err = neffos.Reply(b)
	}
	frame := m.Serialize()
	g := neffos.DeserializeMessage(neffos.TextMessage, append([]byte(nil), frame...), false, false)
	e := ""
	if g.Err != nil {
		e = g.Err.Error()
	}
	back := map[string]string{"ns": g.Namespace, "room": g.Room, "evt": g.Event, "body": string(g.Body), "err": e, "reply": string(g.Body)}
	r := map[string]any{"frame": ints(string(frame)), "back": ints(back[in.F])}
	delete(back, in.F)
	if in.F == "body" {
		delete(back, "reply")
	} else if in.F == "reply" {
		delete(back, "body")
	}
	for f, x := range back {
		if x != "" {
			r["also "+f] = x
		}
	}
	return r
}

type custObj struct{ fail bool }

func (o custObj) Marshal() ([]byte, error) {
	if o.fail {
		return nil, errors.New("cannot")
	}
	return []byte("<custom>"), nil
}
func (o *custObj) Unmarshal(b []byte) error {
	if string(b) != "<custom>" {
		return errors.New("what is this")
	}
	o.fail = true
	return nil
}

func objectPart(raw json.RawMessage) any {
	var in struct{ V string }
	must(raw, &in)
	type ab struct {
		A int
		B string
	}
	var v, back any
	eq := func() bool { return false }
	switch in.V {
	case "custom", "customerr":
		o := &custObj{}
		v, back = custObj{in.V == "customerr"}, o
		eq = func() bool { return o.fail }
	case "struct":
		o := &ab{}
		v, back = ab{1, ";"}, o
		eq = func() bool { return *o == ab{1, ";"} }
	case "string":
		o := new(string)
		v, back = "s", o
		eq = func() bool { return *o == "s" }
	case "bytes":
		o := new([]byte)
		v, back = []byte{0, 1}, o
		eq = func() bool { return string(*o) == "\x00\x01" }
	case "number":
		o := new(int)
		v, back = 7, o
		eq = func() bool { return *o == 7 }
	case "bad":
		v, back = make(chan int), new(int)
	}
	m := neffos.Message{Body: neffos.Marshal(v)}
	x := "same"
	if err := m.Unmarshal(back); err != nil {
		x = "error"
	} else if !eq() {
		x = "different"
	} else if in.V == "custom" {
		x = "custom"
	}
	return map[string]any{"body": string(m.Body), "back": x}
}
