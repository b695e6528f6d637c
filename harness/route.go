package main

// Route paths (K02): texts and built paths as bytes, and the provider that a client with a path reaches.

import (
	"bytes"
	"encoding/json"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
)

type uItem struct {
	K string `json:"k"`
	N int    `json:"n"`
	S string `json:"s"` // an address, or what is no item
}

func (i uItem) ev() ev {
	s := []int{}
	if i.K == "addr" {
		s = ints([]byte(i.S))
	}
	return ev{"k": i.K, "n": i.N, "s": s}
}
func uItems(items []uItem) []ev {
	out := []ev{}
	for _, i := range items {
		out = append(out, i.ev())
	}
	return out
}

type uStep struct {
	K     string  `json:"k"` // class, inst, attr, elem, sym, port, slot, addr, parse, custom
	N     uint32  `json:"n"`
	S     string  `json:"s"`
	B     []int   `json:"b"`
	Text  string  `json:"text"`
	Items []uItem `json:"items"`
}

type uOp struct {
	Do    string  `json:"do"` // parse, build, serialize, segment, handle, reach
	Text  string  `json:"text"`
	Items []uItem `json:"items"`
	Steps []uStep `json:"steps"`
	ID    int     `json:"id"`
	Size  int     `json:"size"`
}

type uScn struct {
	Ops []uOp `json:"ops"`
}

func init() {
	areas["route"] = runRoute
	areas["reach"] = runRoute
	areaNS["reach"] = true
	areaPar["reach"] = 1
}

func n4(n uint32) []int { return ints(u32(n)) }

func (s uStep) ev() ev {
	e := ev{"k": s.K, "n": n4(s.N), "s": []int{}, "items": []ev{}}
	switch s.K {
	case "sym":
		e["s"] = ints([]byte(strings.ToLower(s.S)))
	case "custom":
		e["s"] = s.B
	case "parse":
		e["items"] = uItems(s.Items)
	}
	return e
}

func runRoute(raw json.RawMessage, tr *Trace) {
	var sc uScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		infra("%v", err)
	}
	var server *gologix.Server
	for _, o := range sc.Ops {
		if tr.isDead() {
			return
		}
		switch o.Do {
		case "parse":
			tr.guard("ParsePath", 10*time.Second, func() {
				b, err := gologix.ParsePath(o.Text)
				var out []byte
				if err == nil {
					out = b.Bytes()
				}
				tr.Emit("parse", ev{"text": o.Text, "items": uItems(o.Items), "ok": err == nil, "bytes": ints(out), "err": errStr(err)})
				if err != nil {
					return
				}
				// who got it may do with it what they like
				b2, err2 := gologix.ParsePath(o.Text)
				if err2 == nil {
					b.Write([]byte{1, 99, 1, 98})
					b2.Write([]byte{1, 97})
					for i := range b.Bytes() {
						b.Bytes()[i] ^= 0x55
					}
					b.Next(1)
					out = b2.Bytes()
					out = out[:max(0, len(out)-2)]
				}
				tr.Emit("parse", ev{"text": o.Text, "items": uItems(o.Items), "ok": err2 == nil, "bytes": ints(out), "err": errStr(err2)})
			})
		case "build", "serialize":
			tr.guard(o.Do, 10*time.Second, func() {
				steps := []ev{}
				pb := gologix.NewPathBuilder()
				var parts []any
				for _, s := range o.Steps {
					steps = append(steps, s.ev())
					switch s.K {
					case "class":
						pb.Class(gologix.CIPClass(s.N))
						parts = append(parts, gologix.CIPClass(s.N))
					case "inst":
						pb.Instance(gologix.CIPInstance(s.N))
						parts = append(parts, gologix.CIPInstance(s.N))
					case "attr":
						pb.Attribute(gologix.CIPAttribute(s.N))
						parts = append(parts, gologix.CIPAttribute(s.N))
					case "elem":
						pb.Element(gologix.CIPElement(s.N))
						parts = append(parts, gologix.CIPElement(s.N))
					case "sym":
						pb.Symbolic(s.S)
					case "port":
						pb.Port(byte(s.N))
						parts = append(parts, gologix.CIPPort{PortNo: byte(s.N)})
					case "slot":
						pb.Slot(byte(s.N))
						parts = append(parts, gologix.CIPAddress(s.N))
					case "addr":
						pb.Address(gologix.CIPAddress(s.N))
						parts = append(parts, gologix.CIPAddress(s.N))
					case "parse":
						pb.Parse(s.Text)
					case "custom":
						b := make([]byte, len(s.B))
						for i, x := range s.B {
							b[i] = byte(x)
						}
						pb.Custom(b)
					}
				}
				err := pb.Err
				out := pb.Bytes()
				if o.Do == "serialize" {
					var b *bytes.Buffer
					if b, err = gologix.Serialize(parts...); err == nil {
						out = b.Bytes()
					}
				}
				tr.Emit("build", ev{"steps": steps, "ok": err == nil, "bytes": ints(foldSymbols(out)), "err": errStr(err)})
			})
		case "segment":
			for _, s := range o.Steps {
				tr.guard("segment", 10*time.Second, func() {
					var b []byte
					var n int
					back := s.N
					var err error
					switch s.K {
					case "class":
						x, y := gologix.CIPClass(s.N), gologix.CIPClass(0)
						b, n = x.Bytes(), x.Len()
						err = y.Read(bytes.NewReader(b))
						back = uint32(y)
					case "inst":
						x, y := gologix.CIPInstance(s.N), gologix.CIPInstance(0)
						b, n = x.Bytes(), x.Len()
						err = y.Read(bytes.NewReader(b))
						back = uint32(y)
					case "attr":
						x, y := gologix.CIPAttribute(s.N), gologix.CIPAttribute(0)
						b, n = x.Bytes(), x.Len()
						err = y.Read(bytes.NewReader(b))
						back = uint32(y)
					case "elem":
						x := gologix.CIPElement(s.N)
						b, n = x.Bytes(), x.Len()
					}
					if err != nil {
						back = ^s.N
					}
					tr.Emit("segment", ev{"k": s.K, "n": n4(s.N), "len": n, "bytes": ints(b), "back": n4(back)})
				})
			}
		case "handle", "reach":
			if server == nil {
				server = theServer()
				server.Router.Path = map[string]gologix.CIPEndpoint{}
			}
			var path *bytes.Buffer
			var err error
			if !tr.guard("ParsePath", 10*time.Second, func() { path, err = gologix.ParsePath(o.Text) }) {
				return
			}
			tr.Emit("parse", ev{"text": o.Text, "items": uItems(o.Items), "ok": err == nil, "bytes": ints(okBytes(path, err)), "err": errStr(err)})
			if err != nil {
				return
			}
			if o.Do == "handle" {
				m := &gologix.MapTagProvider{}
				m.TagWrite("who", int32(o.ID))
				server.Router.Handle(path.Bytes(), m)
				tr.Emit("handle", ev{"items": uItems(o.Items), "id": o.ID})
				continue
			}
			tr.guard("reach", 20*time.Second, func() {
				c := gologix.NewClient("127.0.0.1")
				c.Logger = quiet{}
				c.KeepAliveAutoStart = false
				c.AutoConnect = false
				c.SocketTimeout = 5 * time.Second
				c.Controller.Path = path
				if o.Size > 0 {
					c.ConnectionSize = uint16(o.Size)
				}
				for range [2]int{} { // also when it connects again
					id := int32(-1)
					err := c.Connect()
					if err == nil {
						err = c.Read("who", &id)
						c.Disconnect()
					}
					tr.Emit("reach", ev{"items": uItems(o.Items), "ok": err == nil, "id": int(id), "err": errStr(err)})
				}
			})
		default:
			infra("op %q", o.Do)
		}
	}
}

func okBytes(b *bytes.Buffer, err error) []byte {
	if err != nil {
		return nil
	}
	return append([]byte{}, b.Bytes()...)
}

// foldSymbols writes the names in a path in lower case, where they can be told apart from the rest.
func foldSymbols(b []byte) []byte {
	out := append([]byte{}, b...)
	for i := 0; i+1 < len(out); {
		n := 2
		switch t := out[i]; {
		case t == 0x91:
			l := int(out[i+1])
			for j := i + 2; j < i+2+l && j < len(out); j++ {
				if out[j] >= 'A' && out[j] <= 'Z' {
					out[j] += 'a' - 'A'
				}
			}
			n = 2 + l + l%2
		case t < 0x10:
		case t < 0x20:
			n = 2 + int(out[i+1]) + int(out[i+1])%2
		case t%4 == 1:
			n = 4
		case t%4 == 2:
			n = 6
		}
		i += n
	}
	return out
}
