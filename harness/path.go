package main

// Tag paths (C14): whatever the client is asked to access, the target records which path it understands.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
)

type pEntry struct {
	Scope string `json:"scope"` // "" or program:name
	Pid   int    `json:"pid"`   // instance of the program
	Inst  int    `json:"inst"`
	Name  string `json:"name"`
	Type  int    `json:"type"`
	Dims  []int  `json:"dims"`
}

type pPart struct {
	Name string   `json:"name"`
	Idx  []string `json:"idx"`
}

type pStep struct {
	Do      string   `json:"do"` // table, list, call
	Entries []pEntry `json:"entries"`
	API     string   `json:"api"`
	Parts   []pPart  `json:"parts"`
	Bit     int      `json:"bit"`
	Spell   string   `json:"spell"`
	Type    string   `json:"type"`
	N       int      `json:"n"`
	OK      bool     `json:"ok"`
}

type pScn struct {
	FW    int     `json:"fw"`
	Steps []pStep `json:"steps"`
}

func init() { areas["path"] = runPath }

// entry is the listed tag an instance path stands for.
func (sc *pScn) resolve(segs []seg, tab []pEntry) []seg {
	isInst := func(i int, class uint32) bool {
		return len(segs) >= i+2 && segs[i].Kind == "class" && segs[i].N == class && segs[i+1].Kind == "inst"
	}
	for _, e := range tab {
		switch {
		case isInst(0, 0x6B) && e.Scope == "" && int(segs[1].N) == e.Inst:
			return append([]seg{{Kind: "sym", Name: e.Name}}, segs[2:]...)
		case isInst(0, 0x68) && isInst(2, 0x6B) && e.Scope != "" && int(segs[1].N) == e.Pid && int(segs[3].N) == e.Inst:
			return append([]seg{{Kind: "sym", Name: e.Scope}, {Kind: "sym", Name: e.Name}}, segs[4:]...)
		case len(segs) > 0 && segs[0].Kind == "sym" && strings.EqualFold(segs[0].Name, e.Scope) && isInst(1, 0x6B) && int(segs[2].N) == e.Inst:
			return append([]seg{segs[0], {Kind: "sym", Name: e.Name}}, segs[3:]...)
		}
	}
	return segs
}

func runPath(raw json.RawMessage, tr *Trace) {
	var sc pScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		infra("%v", err)
	}
	p := newPLC(tr)
	defer p.stop()
	p.fw = byte(sc.FW)
	o := &objects{templates: map[int]*Template{}}
	var tab []pEntry
	var cur pStep
	report := func(kind string, segs []seg, n int) []byte {
		es := []ev{}
		for _, s := range segs {
			e := ev{"k": s.Kind, "name": low(s.Name), "n": ""}
			if s.Kind != "sym" {
				e["n"] = fmt.Sprint(s.N)
			}
			es = append(es, e)
		}
		h := fnv.New32a()
		h.Write([]byte(low(pathStr(sc.resolve(segs, tab)))))
		data := fill(cur.Type, max(1, n), int(h.Sum32()&0xffff))
		size := typeSize[cur.Type]
		vals := []string{}
		for i := 0; i < n; i++ {
			vals = append(vals, showElem(cur.Type, data[i*size:(i+1)*size]))
		}
		bits := []int{}
		for i := 0; i < 8*size && size <= 8; i++ {
			bits = append(bits, int(data[i/8]>>(i%8))&1)
		}
		tr.Emit("req", ev{"kind": kind, "segs": es, "n": n, "val": strings.Join(vals, ","), "bits": bits})
		return data
	}
	p.service = func(q *Req) (bool, byte, []uint16, []byte) {
		switch {
		case q.Svc == svcRead && (len(q.Path) == 0 || q.Path[0].Kind == "sym" || q.Path[0].N == 0x6B || q.Path[0].N == 0x68):
			if len(q.Data) != 2 {
				tr.Emit("strange", ev{"svc": int(q.Svc)})
				return true, 0x13, nil, nil
			}
			data := report("read", q.Path, int(le.Uint16(q.Data)))
			if cur.Type == "STRING" {
				return true, 0, nil, cat([]byte{0xA0, 2}, u16(stringCRC), data)
			}
			return true, 0, nil, cat([]byte{typeCode[cur.Type], 0}, data)
		case q.Svc == svcWrite:
			_, n, _, err := parseWrite(q.Data)
			if err != nil {
				tr.Emit("strange", ev{"svc": int(q.Svc)})
				return true, 0x13, nil, nil
			}
			report("write", q.Path, n)
			return true, 0, nil, nil
		case q.Svc == 0x4E && len(q.Path) == 2 && q.Path[0].N == 0xB2:
			d := q.Data
			if len(d) < 8 || len(d) != 8+2*int(d[7]) {
				tr.Emit("strange", ev{"svc": int(q.Svc)})
				return true, 0x13, nil, nil
			}
			segs, err := parsePath(d[8:])
			if err != nil {
				tr.Emit("strange", ev{"svc": int(q.Svc)})
				return true, 0x04, nil, nil
			}
			report("add", segs, int(d[4]))
			return true, 0, nil, u16(1)
		}
		return o.serve(p, q)
	}
	p.seen = func(q *Req) {
		if q.Bad != "" {
			tr.Emit("strange", ev{"svc": int(q.Svc)})
		}
	}
	c := newClient(p, 0)
	if err := c.Connect(); err != nil {
		infra("connect: %v", err)
	}
	defer func() {
		if c.Connected() {
			_ = c.Disconnect()
		}
	}()
	var buf *gologix.DataTableBuffer
	for _, s := range sc.Steps {
		switch s.Do {
		case "table":
			p.mu.Lock()
			tab = s.Entries
			o.syms, o.programs = nil, nil
			es := []ev{}
			progs := map[string]int{}
			for _, e := range tab {
				sym := Sym{Inst: e.Inst, Name: e.Name, Type: e.Type, Dims: e.Dims}
				if e.Scope == "" {
					o.syms = append(o.syms, sym)
				} else {
					if _, ok := progs[e.Scope]; !ok {
						progs[e.Scope] = len(o.programs)
						o.programs = append(o.programs, Program{ID: e.Pid, Name: e.Scope[len("program:"):]})
					}
					pr := &o.programs[progs[e.Scope]]
					pr.Syms = append(pr.Syms, sym)
				}
				pid := ""
				if e.Scope != "" {
					pid = fmt.Sprint(e.Pid)
				}
				es = append(es, ev{"scope": low(e.Scope), "pid": pid, "inst": fmt.Sprint(e.Inst), "name": low(e.Name)})
			}
			p.mu.Unlock()
			tr.Emit("table", ev{"entries": es})
		case "list":
			var err error
			if !tr.guard("list", 60*time.Second, func() { err = c.ListAllTags(0) }) {
				return
			}
			if err != nil {
				tr.Emit("listfailed", ev{"why": err.Error()})
				return
			}
		case "call":
			cur = s
			width := 0
			switch s.Type {
			case "REAL", "LREAL", "STRING":
			case "BOOL":
				width = 1
			default:
				width = 8 * typeSize[s.Type]
			}
			if s.API == "add" && buf == nil {
				b, err := c.NewDataTableBuffer()
				if err != nil {
					infra("buffer: %v", err)
				}
				buf = b
			}
			kind := "read"
			switch s.API {
			case "write", "wmap":
				kind = "write"
			case "add":
				kind = "add"
			}
			parts := []ev{}
			for _, q := range s.Parts {
				idx := q.Idx
				if idx == nil {
					idx = []string{}
				}
				parts = append(parts, ev{"name": low(q.Name), "idx": idx})
			}
			tr.Emit("call", ev{"kind": kind, "parts": parts, "bit": s.Bit, "ok": s.OK, "n": s.N, "width": width, "api": s.API})
			var val string
			var err error
			if !tr.guard(s.API, 60*time.Second, func() { val, err = pathCall(c, buf, s) }) {
				return
			}
			tr.Emit("ret", ev{"ok": err == nil, "val": val, "why": errStr(err)})
		default:
			infra("do %q", s.Do)
		}
	}
}

func pathCall(c *gologix.Client, buf *gologix.DataTableBuffer, s pStep) (string, error) {
	typ := s.Type
	if s.Bit >= 0 {
		typ = "BOOL"
	}
	switch s.API {
	case "ptr":
		var d any
		if s.N > 1 {
			d = sliceOf(typ, s.N)
		} else {
			d = ptrOf(typ)
		}
		err := c.Read(s.Spell, d)
		return showSlice(d), err
	case "single":
		v, err := c.Read_single(s.Spell, cipOf[typ], uint16(s.N))
		if b, ok := v.([]byte); ok && typ == "STRING" {
			v = string(b)
		}
		return showSlice(v), err
	case "list", "map", "multimap", "group", "struct":
		it := mItem{Def: s.Spell, Name: s.Spell, N: s.N, Bit: s.Bit, Type: s.Type, Arr: s.N > 1}
		r, err := multiCall(c, mScn{API: s.API, Items: []mItem{it}})
		if err != nil {
			return "", err
		}
		return strings.Join(r[0], ","), nil
	case "write", "wmap":
		var v any
		if s.N > 1 {
			v = sliceOf(s.Type, s.N)
		} else {
			it := mItem{Type: s.Type, Bit: -1}
			v = it.example(0)
		}
		if s.API == "write" {
			return "", c.Write(s.Spell, v)
		}
		return "", c.WriteMap(map[string]any{s.Spell: v})
	case "add":
		if err := buf.AddTag(s.Spell, cipOf[s.Type]); err != nil {
			return "", err
		}
		err := buf.SyncTags()
		return "", err
	}
	infra("api %q", s.API)
	return "", nil
}
