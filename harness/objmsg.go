package main

// Messages to objects (A01): what a device is asked for, and what the caller gets of its answer.

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"math"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/canned"
)

type jAns struct {
	St    int     `json:"st"`
	Ext   []int   `json:"ext"`
	Data  []int   `json:"data"`
	Other int     `json:"other"` // added to the service of the answer
	Items [][]int `json:"items"` // discovery: the items
}

type jStep struct {
	Do    string  `json:"do"` // call, take, rest, reset
	Op    string  `json:"op"`
	Svc   int     `json:"svc"`
	Build string  `json:"build"` // how the path is made: builder, serialize, bytes
	Segs  []uStep `json:"segs"`
	Path  []int   `json:"path"`
	Data  []int   `json:"data"`
	Attrs []int   `json:"attrs"`
	Ans   jAns    `json:"ans"`
	Kind  string  `json:"kind"`
}

type jScn struct {
	Steps []jStep `json:"steps"`
	Size  int     `json:"size"`
}

func init() { areas["objmsg"] = runObjMsg }

func bytesOf(n []int) []byte {
	b := make([]byte, len(n))
	for i := range n {
		b[i] = byte(n[i])
	}
	return b
}

// jTake reads one value of the item and gives its bytes.
func jTake(it *gologix.CIPItem, kind string) (k int, got []byte, err error) {
	switch kind {
	case "byte":
		v, e := it.Byte()
		return 1, []byte{v}, e
	case "int16":
		v, e := it.Int16()
		return 2, u16(uint16(v)), e
	case "uint16":
		v, e := it.Uint16()
		return 2, u16(v), e
	case "int32":
		v, e := it.Int32()
		return 4, u32(uint32(v)), e
	case "uint32":
		v, e := it.Uint32()
		return 4, u32(v), e
	case "int64":
		v, e := it.Int64()
		return 8, u64(uint64(v)), e
	case "uint64":
		v, e := it.Uint64()
		return 8, u64(v), e
	case "float32":
		v, e := it.Float32()
		return 4, u32(math.Float32bits(v)), e
	case "float64":
		v, e := it.Float64()
		return 8, u64(math.Float64bits(v)), e
	case "struct":
		v := struct {
			A uint16
			B int32
			C [3]byte
			D uint8
		}{}
		e := it.DeSerialize(&v)
		return 10, cat(u16(v.A), u32(uint32(v.B)), v.C[:], []byte{v.D}), e
	}
	infra("kind %q", kind)
	return
}

func (s jStep) path() ([]byte, error) {
	switch s.Build {
	case "bytes":
		return bytesOf(s.Path), nil
	case "serialize":
		var parts []any
		for _, g := range s.Segs {
			switch g.K {
			case "class":
				parts = append(parts, gologix.CIPClass(g.N))
			case "inst":
				parts = append(parts, gologix.CIPInstance(g.N))
			case "attr":
				parts = append(parts, gologix.CIPAttribute(g.N))
			case "elem":
				parts = append(parts, gologix.CIPElement(g.N))
			}
		}
		b, err := gologix.Serialize(parts...)
		if err != nil {
			return nil, err
		}
		return b.Bytes(), nil
	}
	pb := gologix.NewPathBuilder()
	for _, g := range s.Segs {
		switch g.K {
		case "class":
			pb.Class(gologix.CIPClass(g.N))
		case "inst":
			pb.Instance(gologix.CIPInstance(g.N))
		case "attr":
			pb.Attribute(gologix.CIPAttribute(g.N))
		case "elem":
			pb.Element(gologix.CIPElement(g.N))
		case "sym":
			pb.Symbolic(g.S)
		}
	}
	return pb.Bytes(), pb.Err
}

func runObjMsg(raw json.RawMessage, tr *Trace) {
	var sc jScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		infra("%v", err)
	}
	p := newPLC(tr)
	defer p.stop()
	var cur *jStep
	answers := 0
	p.hook = func(q *Req) *Act {
		s := cur
		if s == nil {
			return nil
		}
		answers++
		switch q.F.Cmd {
		case cmdListIdentity, cmdListServices:
			tr.Emit("ask", ev{"svc": int(q.F.Cmd), "path": []int{}, "data": ints(q.F.Body)})
			body, all := u16(uint16(len(s.Ans.Items))), []byte{}
			typ := uint16(0x0C)
			if q.F.Cmd == cmdListServices {
				typ = 0x100
			}
			for i, it := range s.Ans.Items {
				body = cat(body, u16(typ), u16(uint16(len(it))), bytesOf(it))
				if i == 0 || q.F.Cmd == cmdListServices {
					all = cat(all, bytesOf(it))
				}
			}
			p.mu.Lock()
			p.body = map[uint16][]byte{q.F.Cmd: body}
			p.mu.Unlock()
			tr.Emit("answer", ev{"svc": 0, "st": 0, "ext": [][]int{}, "data": ints(all)})
			return nil
		case cmdUnit:
		default:
			return nil
		}
		tr.Emit("ask", ev{"svc": int(q.Svc), "path": ints(q.RawPath), "data": ints(q.Data)})
		ext, bext := []uint16{}, [][]int{}
		for _, x := range s.Ans.Ext {
			ext = append(ext, uint16(x))
			bext = append(bext, ints(u16(uint16(x))))
		}
		svc := q.Svc | 0x80
		a := &Act{Use: true, Status: byte(s.Ans.St), Ext: ext, Data: bytesOf(s.Ans.Data)}
		if s.Ans.Other != 0 {
			svc = (q.Svc+byte(s.Ans.Other))&0x7f | 0x80
			a.MutItem = func(b []byte) []byte { b[2] = svc; return b }
		}
		tr.Emit("answer", ev{"svc": int(svc), "st": s.Ans.St, "ext": bext, "data": s.Ans.Data})
		return a
	}
	c := gologix.NewClient("127.0.0.1")
	c.Controller.Port = p.port()
	c.SocketTimeout = 5 * time.Second
	c.AutoConnect = false
	c.KeepAliveAutoStart = false
	c.Logger = quiet{}
	if sc.Size > 0 {
		c.ConnectionSize = uint16(sc.Size)
	}
	if err := c.Connect(); err != nil {
		infra("connect: %v", err)
	}
	defer c.Disconnect()
	defer func() { cur = nil }()
	var it *gologix.CIPItem
	var kept []*gologix.CIPItem
	// what was returned stays as it is
	defer func() {
		if tr.isDead() {
			return
		}
		for i, it := range kept {
			tr.Emit("again", ev{"i": i + 1, "got": ints(it.Data[min(2, len(it.Data)):])})
		}
	}()
	for i := range sc.Steps {
		s := sc.Steps[i]
		if tr.isDead() {
			return
		}
		switch s.Do {
		case "call":
			it = nil
			var path []byte
			ok := tr.guard("path", 10*time.Second, func() {
				var err error
				if path, err = s.path(); err != nil {
					tr.kill("nopath", ev{"err": err.Error()})
				}
			})
			if !ok || tr.isDead() {
				return
			}
			steps := []ev{}
			for _, g := range s.Segs {
				e := g.ev()
				delete(e, "items")
				steps = append(steps, e)
			}
			attrs := [][]int{}
			for _, a := range s.Attrs {
				attrs = append(attrs, ints(u16(uint16(a))))
			}
			tr.Emit("call", ev{"op": s.Op, "svc": s.Svc, "steps": steps, "path": ints(path), "data": s.Data, "attrs": attrs})
			cur = &s
			var err error
			rest := []byte{}
			if !tr.guard(s.Op, 20*time.Second, func() { it, rest, err = s.call(c, path) }) {
				return
			}
			cur = nil
			st := -1
			var se gologix.CIPStatusError
			if errors.As(err, &se) {
				st = int(se.Status) & 0xff
			}
			if err != nil {
				it, rest = nil, nil
			}
			if it != nil {
				kept = append(kept, it)
			}
			tr.Emit("ret", ev{"err": err != nil, "st": st, "rest": ints(rest), "msg": errStr(err)})
		case "take", "rest", "reset":
			if it == nil {
				it = &gologix.CIPItem{}
			}
			tr.guard(s.Do, 10*time.Second, func() {
				switch s.Do {
				case "take":
					k, got, err := jTake(it, s.Kind)
					if err != nil {
						got = nil
					}
					tr.Emit("take", ev{"k": k, "got": ints(got), "kind": s.Kind})
				case "rest":
					tr.Emit("rest", ev{"got": ints(it.Rest())})
				case "reset":
					it.Reset()
					all := it.Rest()
					if len(all) >= 2 {
						all = all[2:]
					}
					it.Pos = len(it.Data)
					tr.Emit("reset", ev{"got": ints(all)})
				}
			})
		}
	}
}

func (s jStep) call(c *gologix.Client, path []byte) (it *gologix.CIPItem, rest []byte, err error) {
	num := func(k string) uint32 {
		for _, g := range s.Segs {
			if g.K == k {
				return g.N
			}
		}
		return 0
	}
	cl, in, at := gologix.CIPClass(num("class")), gologix.CIPInstance(num("inst")), gologix.CIPAttribute(num("attr"))
	switch s.Op {
	case "generic":
		it, err = c.GenericCIPMessage(gologix.CIPService(s.Svc), path, bytesOf(s.Data))
	case "attr":
		it, err = c.GetAttrSingle(cl, in, at)
	case "list":
		var attrs []gologix.CIPAttribute
		for _, a := range s.Attrs {
			attrs = append(attrs, gologix.CIPAttribute(a))
		}
		it, err = c.GetAttrList(cl, in, attrs...)
	case "props":
		v, e := c.GetControllerPropList()
		b := make([]byte, 0, 64)
		b, _ = binary.Append(b, le, v)
		return nil, b, e
	case "forces":
		v, e := canned.GetForces(c)
		return nil, u16(uint16(v)), e
	case "faults":
		v, e := canned.GetFaults(c)
		rest = cat(u32(uint32(v.MajorType)), u32(uint32(v.MinorType)), u16(v.MajorCount), u16(v.MinorCount))
		for _, x := range v.Events {
			rest = cat(rest, u64(x.Timestamp), u16(x.FaultClass), u16(x.FaultCode), x.Detail[:])
		}
		return nil, rest, e
	case "identity":
		v, e := c.ListIdentity()
		if e != nil {
			return nil, nil, e
		}
		a := v.SocketAddress
		be := binary.BigEndian
		return nil, cat(u16(v.EncapProtocolVersion), be.AppendUint16(nil, a.Family), be.AppendUint16(nil, a.Port), be.AppendUint32(nil, a.Address),
			be.AppendUint32(nil, a.Zero0), be.AppendUint32(nil, a.Zero1), u16(uint16(v.Vendor)), u16(uint16(v.DeviceType)), u16(v.ProductCode),
			u16(v.Revision), u16(v.Status), u32(v.SerialNumber), []byte{byte(len(v.ProductName))}, []byte(v.ProductName), []byte{v.State}), nil
	case "services":
		v, e := c.ListServices()
		if e != nil {
			return nil, nil, e
		}
		for _, x := range v {
			n := make([]byte, 16)
			copy(n, x.Name)
			rest = cat(rest, u16(x.EncapProtocolVersion), u16(uint16(x.Capabilities)), n)
		}
		return nil, rest, nil
	}
	if err == nil && it != nil {
		rest = it.Rest()
	}
	return it, rest, err
}
