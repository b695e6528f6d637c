package main

// Sequence counts of connected requests, over long and mixed histories (C03).

import (
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"github.com/danomagnum/gologix"
)

type seqScn struct {
	Clients int        `json:"clients"`
	Threads [][]string `json:"threads"` // operations of each goroutine
	Repeat  int        `json:"repeat"`
	Pair    []string   `json:"pair"`   // two operations, and a search for an alignment of their counts that repeats
	Other   int        `json:"other"`  // requests by another client between two requests of the first
	Refuse  int        `json:"refuse"` // refuse every n-th request
	Drop    int        `json:"drop"`   // hang up after every n-th request
	Size    int        `json:"size"`
}

func init() { areas["seq"] = runSeq }

type seqRec struct {
	tr    *Trace
	mu    sync.Mutex
	buf   map[int][]int
	last  map[int]int
	first map[int]int // first count since mark
	n     int
}

func (r *seqRec) add(c, seq int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n++
	if _, ok := r.first[c]; !ok {
		r.first[c] = seq
	}
	r.last[c] = seq
	r.buf[c] = append(r.buf[c], seq)
	if len(r.buf[c]) >= 500 {
		r.tr.Emit("sent", ev{"c": c, "counts": r.buf[c]})
		r.buf[c] = nil
	}
}

func (r *seqRec) flush() {
	r.mu.Lock()
	defer r.mu.Unlock()
	for c, b := range r.buf {
		if len(b) > 0 {
			r.tr.Emit("sent", ev{"c": c, "counts": b})
		}
	}
	r.buf = map[int][]int{}
}

// span runs f and returns the first and last count seen on connection c meanwhile.
func (r *seqRec) span(c int, f func()) (first, last int, ok bool) {
	r.mu.Lock()
	r.first = map[int]int{}
	r.mu.Unlock()
	f()
	r.mu.Lock()
	defer r.mu.Unlock()
	first, ok = r.first[c]
	return first, r.last[c], ok
}

type seqUDT struct {
	A int32
	B int32
}

type seqMulti struct {
	A int32   `gologix:"dint"`
	B []int32 `gologix:"arr[2]"`
}

func seqPLC(tr *Trace) *PLC {
	p := newPLC(tr)
	p.addTag(&Tag{Name: "dint", Type: 0xC4, Size: 4, Data: fill("DINT", 1, 1)})
	p.addTag(&Tag{Name: "real", Type: 0xCA, Size: 4, Data: fill("REAL", 1, 2)})
	p.addTag(&Tag{Name: "arr", Type: 0xC4, Size: 4, Data: fill("DINT", 200, 3)})
	p.addTag(&Tag{Name: "big", Type: 0xC4, Size: 4, Data: fill("DINT", 200, 4)})
	p.addTag(&Tag{Name: "udt", Struct: true, CRC: 0x1111, Size: 8, Data: fill("DINT", 2, 5)})
	o := &objects{
		syms:     []Sym{{Inst: 1, Name: "dint", Type: 0xC4}, {Inst: 2, Name: "u", Type: 0x8123}, {Inst: 3, Name: "real", Type: 0xCA}, {Inst: 9, Name: "arr", Type: 0x20C4, Dims: []int{200}}},
		programs: []Program{{ID: 1, Name: "Main", Syms: []Sym{{Inst: 1, Name: "x", Type: 0xC4}, {Inst: 2, Name: "y", Type: 0xC4}}}},
		templates: map[int]*Template{0x123: {ID: 0x123, Name: "T", Tail: "n", Size: 8, Handle: 7,
			Members: []Member{{"a", 0, 0xC4, 0}, {"b", 0, 0xC4, 4}}}},
		page: func(scope string, start int, left []Sym) (int, byte) {
			if len(left) > 1 {
				return 1, 6
			}
			return len(left), 0
		},
		part: func(id, off, left int) (int, byte) {
			if left > 10 {
				return 10, 6
			}
			return left, 0
		},
	}
	p.service = func(q *Req) (bool, byte, []uint16, []byte) {
		if (q.Svc == svcRead || q.Svc == svcFragRead) && q.P == "big" && len(q.Data) >= 2 && le.Uint16(q.Data) == 100 {
			off := 0
			if q.Svc == svcFragRead {
				off = int(le.Uint32(q.Data[2:]))
			}
			end, st := off+150, byte(6)
			if end >= 400 {
				end, st = 400, 0
			}
			return true, st, nil, cat([]byte{0xC4, 0}, p.tags["big"].Data[off:end])
		}
		return o.serve(p, q)
	}
	return p
}

func seqOp(c *gologix.Client, buf **gologix.DataTableBuffer, op string) error {
	switch op {
	case "read":
		var v int32
		return c.Read("dint", &v)
	case "readbit":
		var v bool
		return c.Read("dint.3", &v)
	case "readarr":
		return c.Read("arr", make([]int32, 7))
	case "frag":
		return c.Read("big", make([]int32, 100))
	case "readudt":
		var v seqUDT
		return c.Read("udt", &v)
	case "readlist":
		_, err := c.ReadList([]string{"dint", "real", "arr[3]"}, []any{int32(0), float32(0), int32(0)}, []int{1, 1, 1})
		return err
	case "readlistbig": // several messages
		var names []string
		var types []any
		var n []int
		for i := 0; i < 150; i++ {
			names, types, n = append(names, fmt.Sprintf("arr[%d]", i)), append(types, int32(0)), append(n, 1)
		}
		_, err := c.ReadList(names, types, n)
		return err
	case "readmap":
		return c.ReadMap(map[string]any{"dint": int32(0), "real": float32(0)})
	case "readmulti":
		s := seqMulti{B: make([]int32, 3)}
		return c.ReadMulti(&s)
	case "single":
		_, err := c.Read_single("dint", gologix.CIPTypeDINT, 1)
		return err
	case "write":
		return c.Write("dint", int32(5))
	case "writearr":
		return c.Write("arr", []int32{1, 2, 3})
	case "writeudt":
		return c.Write("udt", seqUDT{1, 2})
	case "writemap":
		return c.WriteMap(map[string]any{"dint": int32(1), "real": float32(2)})
	case "writemapbig":
		m := map[string]any{}
		for i := 0; i < 60; i++ {
			m[fmt.Sprintf("arr[%d]", i)] = int32(i)
		}
		return c.WriteMap(m)
	case "getattr":
		_, err := c.GetAttrSingle(gologix.CipObject_Identity, 1, 4)
		return err
	case "getattrlist":
		_, err := c.GetAttrList(gologix.CipObject_Identity, 1, 1, 2)
		return err
	case "generic":
		_, err := c.GenericCIPMessage(gologix.CIPService_GetAttributeSingle, []byte{0x20, 1, 0x24, 1, 0x30, 4}, []byte{})
		return err
	case "listall":
		return c.ListAllTags(0)
	case "listprog":
		return c.ListAllPrograms()
	case "listsub":
		_, err := c.ListSubTags(&gologix.KnownProgram{Name: "Main"}, 0)
		return err
	case "tattr":
		_, err := c.GetTemplateInstanceAttr(0x123)
		return err
	case "members":
		c.KnownTypesByID = map[uint32]gologix.UDTDescriptor{}
		_, err := c.ListMembers(0x123)
		return err
	case "dtnew":
		b, err := c.NewDataTableBuffer()
		if err == nil {
			*buf = b
		}
		return err
	case "dtread":
		if *buf == nil {
			if err := seqOp(c, buf, "dtnew"); err != nil {
				return err
			}
			if err := (*buf).AddTag("dint", gologix.CIPTypeDINT); err != nil {
				return err
			}
		}
		_, err := (*buf).ReadAll()
		return err
	case "dtlife":
		b, err := c.NewDataTableBuffer()
		if err != nil {
			return err
		}
		if err = b.AddTag("dint", gologix.CIPTypeDINT); err != nil {
			return err
		}
		if _, err = b.ReadAll(); err != nil {
			return err
		}
		if err = b.RemoveTag("dint"); err != nil {
			return err
		}
		return b.Close()
	}
	infra("unknown operation %s", op)
	return nil
}

func runSeq(raw json.RawMessage, tr *Trace) {
	var sc seqScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		infra("%v", err)
	}
	p := seqPLC(tr)
	defer p.stop()
	rec := &seqRec{tr: tr, buf: map[int][]int{}, last: map[int]int{}, first: map[int]int{}}
	var mu sync.Mutex
	k := 0
	p.accepted = func(c *PConn) { tr.Emit("conn", ev{"c": c.id}) }
	p.hook = func(q *Req) *Act {
		if q.F.Cmd != cmdUnit {
			return nil
		}
		mu.Lock()
		k++
		n := k
		mu.Unlock()
		rec.add(q.Conn.id, int(q.Seq))
		if sc.Drop > 0 && n%sc.Drop == 0 {
			return &Act{Close: true}
		}
		if sc.Refuse > 0 && n%sc.Refuse == 0 {
			return &Act{Use: true, Status: 0x05}
		}
		return nil
	}
	if sc.Clients == 0 {
		sc.Clients = 1
	}
	var cs []*gologix.Client
	var bufs []*gologix.DataTableBuffer
	for i := 0; i < sc.Clients; i++ {
		c := newClient(p, 0)
		if sc.Size > 0 {
			c.ConnectionSize = uint16(sc.Size)
		}
		if err := c.Connect(); err != nil {
			infra("connect: %v", err)
		}
		cs = append(cs, c)
		bufs = append(bufs, nil)
	}
	must := func(err error, what string) {
		if err != nil && sc.Refuse == 0 && sc.Drop == 0 {
			tr.Emit("failed", ev{"op": what, "why": err.Error()})
		}
	}
	limit := 300 * time.Second
	tr.guard("run", limit, func() {
		if len(sc.Threads) > 0 {
			var wg sync.WaitGroup
			for i, ops := range sc.Threads {
				wg.Add(1)
				go func(i int, ops []string) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							tr.kill("panic", ev{"msg": fmt.Sprint(r)})
						}
					}()
					var b *gologix.DataTableBuffer
					for r := 0; r < max(sc.Repeat, 1); r++ {
						for _, o := range ops {
							must(seqOp(cs[i%len(cs)], &b, o), o)
						}
					}
				}(i, ops)
			}
			wg.Wait()
		}
		if len(sc.Pair) == 2 {
			a := func() { must(seqOp(cs[0], &bufs[0], sc.Pair[0]), sc.Pair[0]) }
			b := func() { must(seqOp(cs[0], &bufs[0], sc.Pair[1]), sc.Pair[1]) }
			a()
			b()
			near := func(x, y int) bool { d := (y - x) & 0xffff; return d > 0 && d < 500 }
			fa1, la1, ok1 := rec.span(1, a)
			fb1, lb1, ok2 := rec.span(1, b)
			fa2, la2, _ := rec.span(1, a)
			fb2, _, _ := rec.span(1, b)
			if ok1 && ok2 && !(near(la1, fb1) && near(lb1, fa2) && near(la2, fb2)) {
				// the two count separately: let b catch up with a
				stepA, stepB := (fa2-fa1)&0xffff, (fb2-fb1)&0xffff
				if stepB != 0 && stepA != 0 {
					goal := (la2 + stepA) & 0xffff // the last count of the next a
					for i := 0; i < 70000; i++ {
						f, _, _ := rec.span(1, b)
						if (f+stepB)&0xffff == goal {
							break
						}
					}
					a()
					b()
				}
			}
		}
		if sc.Other > 0 {
			var b *gologix.DataTableBuffer
			for _, n := range []int{sc.Other - 1, sc.Other, sc.Other} {
				must(seqOp(cs[0], &b, "read"), "read")
				for i := 0; i < n; i++ {
					must(seqOp(cs[1], &b, "read"), "read")
				}
			}
			must(seqOp(cs[0], &b, "read"), "read")
		}
	})
	rec.flush()
	tr.Emit("done", nil)
	for _, c := range cs {
		if c.Connected() {
			_ = c.Disconnect()
		}
	}
}
