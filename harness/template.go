package main

// Reading structure types (C11).

import (
	"encoding/json"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
)

type tmplCall struct {
	API   string   `json:"api"` // "members": one template; "all": the tags of the controller, one of each structure
	Tops  []int    `json:"tops"`
	Attrs [][3]int `json:"attrs"` // decisions: id, status (-1: hang up), attribute without value
	Parts [][3]int `json:"parts"` // decisions: id, how much (units of Unit), status
}

type tmplScn struct {
	Templates []*Template `json:"templates"`
	Calls     []tmplCall  `json:"calls"`
	Units     int         `json:"units"` // a definition has that many units (0: n counts bytes)
	Size      int         `json:"size"`
	Fresh     bool        `json:"fresh"` // a new client for each call
}

func init() { areas["template"] = runTemplate }

func subOf(typ int) int {
	if typ&0x8000 != 0 && typ&0x1000 == 0 {
		return typ & 0xFFF
	}
	return 0
}

func tree(u *gologix.UDTDescriptor) []ev {
	if u == nil {
		return []ev{}
	}
	ms := []ev{}
	for _, m := range u.Members {
		ms = append(ms, ev{"name": m.Name, "info": int(m.Info.Info), "type": int(m.Info.Type), "off": int(m.Info.Offset), "udt": tree(m.UDT)})
	}
	return []ev{{"name": u.Name, "members": ms}}
}

func runTemplate(raw json.RawMessage, tr *Trace) {
	var sc tmplScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		infra("%v", err)
	}
	p := newPLC(tr)
	defer p.stop()
	o := &objects{templates: map[int]*Template{}}
	defs := []ev{}
	for _, t := range sc.Templates {
		o.templates[t.ID] = t
		ms := []ev{}
		for _, m := range t.Members {
			ms = append(ms, ev{"name": m.Name, "info": m.Info, "type": m.Type, "off": m.Off, "sub": subOf(m.Type)})
		}
		defs = append(defs, ev{"id": t.ID, "name": t.Name, "members": ms, "len": len(t.wire())})
	}
	tr.Emit("cfg", ev{"defs": defs})
	var call tmplCall
	take := func(l *[][3]int, id int) ([3]int, bool) {
		for i, d := range *l {
			if d[0] == id {
				*l = append((*l)[:i:i], (*l)[i+1:]...)
				return d, true
			}
		}
		return [3]int{}, false
	}
	var cur *Req
	o.tattr = func(id int) (byte, int) {
		d, _ := take(&call.Attrs, id)
		tr.Emit("attrs", ev{"id": id, "st": d[1], "all": d[2] == 0})
		return byte(d[1]), d[2]
	}
	o.part = func(id, off, left int) (int, byte) {
		t := o.templates[id]
		total := len(t.wire())
		n, st := left, byte(0)
		if d, ok := take(&call.Parts, id); ok {
			n, st = d[1], byte(d[2])
			if sc.Units > 0 { // up to the next unit boundary n units on
				at := off * sc.Units / total
				n = (at+d[1])*total/sc.Units - off
				if d[1] == 0 {
					n = 0
				}
			}
			n = max(0, min(n, left))
			if st == 0 {
				n = left
			}
		}
		room := cur.Conn.opens[cur.OT].Size - 20
		if n > room {
			n, st = room, 6
		}
		if n < total-off && st == 0 {
			st = 6 // there is more than was asked for
		}
		if st != 0 && st != 6 {
			n = 0
		}
		tr.Emit("part", ev{"id": id, "off": off, "n": n, "st": int(st)})
		return n, st
	}
	p.service = func(q *Req) (bool, byte, []uint16, []byte) {
		cur = q
		if class, id, ok := classInst(q.Path); ok && class == 0x6C && q.Svc == svcGetAttrList && o.templates[id] == nil {
			tr.Emit("notemplate", ev{"id": id})
		}
		return o.serve(p, q)
	}
	p.hook = func(q *Req) *Act {
		class, id, ok := classInst(q.Path)
		if !ok || class != 0x6C || q.F.Cmd != cmdUnit {
			return nil
		}
		l := &call.Parts
		if q.Svc == svcGetAttrList {
			l = &call.Attrs
		} else if q.Svc != svcRead {
			return nil
		}
		for _, d := range *l {
			if d[0] == id {
				if q.Svc == svcGetAttrList && d[1] < 0 || q.Svc == svcRead && d[2] < 0 {
					take(l, id)
					tr.Emit("lost", nil)
					return &Act{Close: true}
				}
				break
			}
		}
		return nil
	}
	var c *gologix.Client
	connect := func() {
		c = newClient(p, 3000)
		if sc.Size > 0 {
			c.ConnectionSize = uint16(sc.Size)
		}
		if err := c.Connect(); err != nil {
			infra("connect: %v", err)
		}
	}
	connect()
	defer func() {
		if c.Connected() {
			_ = c.Disconnect()
		}
	}()
	for i, cl := range sc.Calls {
		fresh := i == 0
		if i > 0 && (sc.Fresh || !c.Connected()) {
			if c.Connected() {
				_ = c.Disconnect()
			}
			connect()
			fresh = true
		}
		call = cl
		tr.Emit("call", ev{"tops": call.Tops, "fresh": fresh})
		var err error
		trees := []ev{}
		ok := tr.guard(call.API, 60*time.Second, func() {
			if call.API == "members" {
				var u gologix.UDTDescriptor
				u, err = c.ListMembers(uint32(call.Tops[0]))
				if err == nil {
					trees = append(trees, ev{"id": call.Tops[0], "tree": tree(&u)})
				}
				return
			}
			o.syms = nil
			for i, id := range call.Tops {
				o.syms = append(o.syms, Sym{Inst: i + 1, Name: "t" + strings.Repeat("x", i), Type: 0x8000 | id})
			}
			err = c.ListAllTags(0)
			for _, kt := range c.KnownTags {
				trees = append(trees, ev{"id": int(kt.Info.Template_ID()), "tree": tree(kt.UDT)})
			}
		})
		if !ok {
			return
		}
		why := ""
		if err != nil {
			why = err.Error()
		}
		tr.Emit("ret", ev{"ok": err == nil, "why": why, "api": call.API, "trees": trees})
	}
}
