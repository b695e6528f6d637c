package main

// Bad replies to every kind of request (C09).

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
)

type rFault struct {
	K    int    `json:"k"` // which reply of the operation, from 1
	Kind string `json:"kind"`
	N    int    `json:"n"`
	M    int    `json:"m"`
	Name string `json:"name"`
}

type rStep struct {
	Op     string   `json:"op"`
	Faults []rFault `json:"faults"`
}

type rScn struct {
	Steps []rStep `json:"steps"`
	Size  int     `json:"size"`
	Tmo   int     `json:"tmo"`
	Fw    int     `json:"fw"`
	Fresh bool    `json:"fresh"` // a new client for every step
	List  bool    `json:"list"`  // the client has listed the tags
}

func init() { areas["replies"] = runReplies }

// rOp is one operation: run it; what is at the caller's place.
type rOp struct {
	open      bool
	top       int // template the caller asked for
	was, want string
	run       func() error
	val       func() string
}

type rUDT struct {
	Udt  fragStruct
	Tint int16 `gologix:"Tint"`
}

var rTypes = []string{"BOOL", "SINT", "INT", "DINT", "LINT", "UINT", "UDINT", "LWORD", "BYTE", "REAL", "LREAL"}

func rPLC(tr *Trace) (*PLC, *objects) {
	p := newPLC(tr)
	for i, t := range rTypes {
		p.addTag(mkTag(mTag{Name: "T" + t, Type: t, N: 1, Seed: i + 1}))
		p.addTag(mkTag(mTag{Name: "A" + t, Type: t, N: 5, Seed: i + 30}))
		p.addTag(mkTag(mTag{Name: "W" + t, Type: t, N: 5, Seed: i + 60}))
	}
	p.addTag(mkTag(mTag{Name: "TSTRING", Type: "STRING", N: 1, Seed: 21}))
	p.addTag(mkTag(mTag{Name: "ASTRING", Type: "STRING", N: 3, Seed: 22}))
	p.addTag(mkTag(mTag{Name: "WSTRING", Type: "STRING", N: 3, Seed: 23}))
	p.addTag(mkTag(mTag{Name: "TUDT", Type: "UDT", N: 1, Seed: 24}))
	p.addTag(mkTag(mTag{Name: "WUDT", Type: "UDT", N: 2, Seed: 25}))
	p.addTag(mkTag(mTag{Name: "Big", Type: "DINT", N: 300, Seed: 26}))
	p.addTag(mkTag(mTag{Name: "Probe", Type: "DINT", N: 1, Seed: 27}))
	o := &objects{
		syms: []Sym{{Inst: 1, Name: "dint", Type: 0xC4}, {Inst: 2, Name: "u", Type: 0x8123}, {Inst: 3, Name: "Program:Main", Type: 0x1068},
			{Inst: 9, Name: "arr", Type: 0x20C4, Dims: []int{200}}},
		programs: []Program{{ID: 1, Name: "Main", Syms: []Sym{{Inst: 1, Name: "x", Type: 0xC4}, {Inst: 2, Name: "y", Type: 0xC4}}}},
		templates: map[int]*Template{
			0x123: {ID: 0x123, Name: "Outer", Tail: "n", Size: 12, Handle: 7, Members: []Member{{"a", 0, 0xC4, 0}, {"in", 0, 0x8124, 4}, {"b", 3, 0x20C3, 8}}},
			0x124: {ID: 0x124, Name: "Inner", Tail: "n", Size: 4, Handle: 8, Members: []Member{{"x", 0, 0xC4, 0}}}},
		part: func(id, off, left int) (int, byte) {
			if left > 20 {
				return 20, 6
			}
			return left, 0
		},
		page: func(scope string, start int, left []Sym) (int, byte) {
			if len(left) > 2 {
				return 2, 6
			}
			return len(left), 0
		},
	}
	big := p.tags["big"]
	p.service = func(q *Req) (bool, byte, []uint16, []byte) {
		if (q.Svc == svcRead || q.Svc == svcFragRead) && q.P == "big" && len(q.Data) >= 2 {
			off := 0
			if q.Svc == svcFragRead && len(q.Data) == 6 {
				off = int(le.Uint32(q.Data[2:]))
			}
			left := big.Data[min(off, 1200):]
			if len(left) > 450 {
				return true, 6, nil, cat(big.head(), left[:452])
			}
			return true, 0, nil, cat(big.head(), left)
		}
		if q.P == "/c:100/i:1/a:7" && q.Svc == svcGetAttr {
			return true, 0, nil, []byte{1, 2, 3, 4}
		}
		if q.P == "/c:100/i:1" && q.Svc == 0x33 {
			return true, 0, nil, []byte{9, 8, 7}
		}
		return o.serve(p, q)
	}
	name := "FakePLC"
	ident := cat(u16(1), make([]byte, 16), u16(1), u16(14), u16(55), u16(0x0B20), u16(0x3060), u32(0xC0FFEE), []byte{byte(len(name))}, []byte(name), []byte{3})
	svcs := cat(u16(1), u16(0x120), []byte("Communications\x00\x00"))
	p.body = map[uint16][]byte{
		cmdListIdentity: cat(u16(1), u16(0x0C), u16(uint16(len(ident))), ident),
		cmdListServices: cat(u16(2), u16(0x100), u16(uint16(len(svcs))), svcs, u16(0x100), u16(uint16(len(svcs))), svcs),
	}
	return p, o
}

func rowOf(typ string, b []byte) string {
	size := typeSize[typ]
	var out []string
	for i := 0; i+size <= len(b); i += size {
		out = append(out, showRaw(typ, b[i:i+size]))
	}
	return strings.Join(out, ",")
}

// preset fills a value of a type with something recognizable.
func preset(v reflect.Value, typ string, n, seed int) {
	for i := 0; i < n; i++ {
		e := v
		if v.Kind() == reflect.Slice {
			e = v.Index(i)
		}
		switch e.Kind() {
		case reflect.Bool:
			e.SetBool(seed%2 == 0)
		case reflect.String:
			e.SetString(fmt.Sprintf("old%d", i))
		case reflect.Float32, reflect.Float64:
			e.SetFloat(float64(seed) + float64(i)/4)
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			e.SetInt(int64(-seed - i))
		case reflect.Struct:
			e.Set(reflect.ValueOf(fragStruct{A: int32(seed), B: 1, C: 2, D: 3}))
		default:
			e.SetUint(uint64(100 + seed + i))
		}
	}
}

func (st rStep) build(c *gologix.Client, p *PLC, bufs *int) *rOp {
	kind, typ, _ := strings.Cut(st.Op, ":")
	raw := func(name string) []byte { return p.tags[strings.ToLower(name)].Data }
	o := &rOp{was: "-", want: "-", val: func() string { return "-" }}
	var result string
	given := func(want string, f func() (string, error)) {
		o.want = want
		o.run = func() error {
			s, err := f()
			result = "-"
			if err == nil {
				result = s
			}
			return err
		}
		o.val = func() string { return result }
	}
	items := []mItem{
		{Name: "TDINT", Def: "TDINT", Type: "DINT", N: 1, Bit: -1}, {Name: "TSTRING", Def: "TSTRING", Type: "STRING", N: 1, Bit: -1},
		{Name: "AINT", Def: "AINT", Type: "INT", N: 3, Bit: -1, Arr: true}, {Name: "TLREAL", Def: "TLREAL", Type: "LREAL", N: 1, Bit: -1},
		{Name: "TINT.3", Def: "TINT.3", Type: "INT", N: 1, Bit: 3}, {Name: "TBOOL", Def: "TBOOL", Type: "BOOL", N: 1, Bit: -1},
		{Name: "TSINT", Def: "TSINT", Type: "SINT", N: 1, Bit: -1},
	}
	itemsWant := func() string {
		bit := fmt.Sprint(raw("TINT")[0]>>3&1 == 1)
		return strings.Join([]string{rowOf("DINT", raw("TDINT")), rowOf("STRING", raw("TSTRING")), rowOf("INT", raw("AINT")[:6]),
			rowOf("LREAL", raw("TLREAL")), bit, rowOf("BOOL", raw("TBOOL")), rowOf("SINT", raw("TSINT"))}, ";")
	}
	switch kind {
	case "read", "readn":
		name, n := "T"+typ, 1
		var dst reflect.Value
		if kind == "readn" {
			name, n = "A"+typ, 4
			if typ == "STRING" {
				n = 3
				dst = reflect.ValueOf(make([]string, n))
			} else {
				dst = reflect.ValueOf(sliceOf(typ, n))
			}
			preset(dst, typ, n, 7)
		} else if typ == "UDT" {
			dst = reflect.New(reflect.TypeOf(fragStruct{}))
			preset(dst.Elem(), typ, 1, 7)
		} else {
			dst = reflect.ValueOf(ptrOf(typ))
			preset(dst.Elem(), typ, 1, 7)
		}
		if typ == "UDT" {
			o.val = func() string { return udtHex(dst.Elem().Interface().(fragStruct)) }
			o.want = "x" + hex.EncodeToString(raw(name))
		} else {
			o.val = func() string { return showSlice(dst.Interface()) }
			o.want = rowOf(typ, raw(name)[:n*typeSize[typ]])
			if typ == "BOOL" && o.want == "true" {
				preset(dst.Elem(), typ, 1, 7) // something else than what is there
			} else if typ == "BOOL" {
				preset(dst.Elem(), typ, 1, 8)
			}
		}
		o.was = o.val()
		o.run = func() error { return c.Read(name, dst.Interface()) }
	case "big":
		dst := reflect.ValueOf(make([]int32, 300))
		preset(dst, "DINT", 300, 5)
		sum := func(s string) string { return fmt.Sprintf("%x", crc16arc(s)) + s[:40] }
		o.val = func() string { return sum(showSlice(dst.Interface())) }
		o.was, o.want = o.val(), sum(rowOf("DINT", raw("Big")))
		o.run = func() error { return c.Read("Big", dst.Interface()) }
	case "single":
		given(rowOf(typ, raw("T" + typ)[:typeSize[typ]]), func() (string, error) {
			v, err := c.Read_single("T"+typ, cipOf[typ], 1)
			return show(v), err
		})
	case "list", "map", "multimap", "struct", "group":
		if kind == "list" || kind == "group" {
			given(itemsWant(), func() (string, error) {
				rs, err := multiCall(c, mScn{API: kind, Items: items})
				out := []string{}
				for _, r := range rs {
					out = append(out, strings.Join(r, ","))
				}
				return strings.Join(out, ";"), err
			})
			break
		}
		o.want = itemsWant()
		if kind == "struct" {
			s, field := itemStruct(items, true)
			for i, it := range items {
				f := field(i)
				if it.Arr {
					f.Set(reflect.MakeSlice(f.Type(), it.N, it.N))
				}
				preset(f, it.Type, it.N, 9)
			}
			o.run = func() error { return c.ReadMulti(s.Interface()) }
			o.val = func() string {
				out := []string{}
				for i := range items {
					out = append(out, strings.Join(showList(field(i).Interface(), false), ","))
				}
				return strings.Join(out, ";")
			}
		} else {
			m := map[string]any{}
			for _, it := range items {
				v := reflect.New(reflect.TypeOf(it.example(it.N))).Elem()
				v.Set(reflect.ValueOf(it.example(it.N)))
				preset(v, it.Type, it.N, 9)
				m[it.Name] = v.Interface()
			}
			o.run = func() error {
				if kind == "map" {
					return c.ReadMap(m)
				}
				return c.ReadMulti(m)
			}
			o.val = func() string {
				out := []string{}
				for _, it := range items {
					out = append(out, strings.Join(showList(m[it.Name], false), ","))
				}
				if len(m) != len(items) {
					out = append(out, "?")
				}
				return strings.Join(out, ";")
			}
		}
		o.was = o.val()
	case "write", "writen":
		var v any
		if typ == "UDT" {
			v = fragStruct{1, 2, 3, 4}
		} else if kind == "writen" && typ == "STRING" {
			v = []string{"a", "bc", ""}
		} else if kind == "writen" {
			v = sliceOf(typ, 4)
		} else {
			v = reflect.ValueOf(ptrOf(typ)).Elem().Interface()
		}
		o.run = func() error { return c.Write("W"+typ, v) }
	case "wmap":
		o.run = func() error {
			return c.WriteMap(map[string]any{"WDINT": int32(4), "WSTRING": "x", "WREAL": float32(1), "WUDT": fragStruct{}, "WSINT": int8(3)})
		}
	case "wmulti":
		o.run = func() error {
			return c.WriteMulti(struct {
				A int32   `gologix:"WDINT"`
				B string  `gologix:"WSTRING"`
				C []int16 `gologix:"WINT"`
			}{4, "yy", []int16{1, 2, 3}})
		}
	case "attr":
		o.open = true
		given("01020304", func() (string, error) {
			it, err := c.GetAttrSingle(100, 1, 7)
			if err != nil {
				return "", err
			}
			return hex.EncodeToString(it.Rest()), nil
		})
	case "attrs":
		o.open = true
		given("03000000"+"03000000"+"04000000"+"04000000", func() (string, error) {
			it, err := c.GetAttrList(gologix.CipObject_ControllerInfo, 1, 3, 4)
			if err != nil {
				return "", err
			}
			return hex.EncodeToString(it.Rest()), nil
		})
	case "props":
		given("1 2 3 4 10", func() (string, error) {
			r, err := c.GetControllerPropList()
			return fmt.Sprint(r.Attr1, r.Attr2, r.Attr3, r.Attr4, r.Attr5), err
		})
	case "generic":
		o.open = true
		given("090807", func() (string, error) {
			it, err := c.GenericCIPMessage(0x33, logical(100, 1, -1), []byte{1})
			if err != nil {
				return "", err
			}
			return hex.EncodeToString(it.Rest()), nil
		})
	case "identity":
		given("FakePLC 12648430 3", func() (string, error) {
			r, err := c.ListIdentity()
			if err != nil {
				return "", err
			}
			return fmt.Sprint(r.ProductName, " ", r.SerialNumber, " ", r.State), nil
		})
	case "services":
		given("Communications,Communications", func() (string, error) {
			r, err := c.ListServices()
			out := []string{}
			for _, s := range r {
				out = append(out, s.Name)
			}
			return strings.Join(out, ","), err
		})
	case "listtags":
		given("arr dint program:main.x program:main.y u", func() (string, error) {
			err := c.ListAllTags(0)
			out := []string{}
			for k := range c.KnownTags {
				out = append(out, k)
			}
			sort.Strings(out)
			return strings.Join(out, " "), err
		})
	case "programs":
		given("main", func() (string, error) {
			err := c.ListAllPrograms()
			out := []string{}
			for k := range c.KnownPrograms {
				out = append(out, strings.ToLower(k))
			}
			return strings.Join(out, " "), err
		})
	case "subtags":
		given("program:Main.x program:Main.y", func() (string, error) {
			r, err := c.ListSubTags(&gologix.KnownProgram{Name: "Main"}, 1)
			out := []string{}
			for _, k := range r {
				out = append(out, k.Name)
			}
			return strings.Join(out, " "), err
		})
	case "members":
		o.top = 0x123
		c.KnownTypesByID = map[uint32]gologix.UDTDescriptor{}
		given("Outer a 0 c4 in 0 8124 b 3 20c3", func() (string, error) {
			u, err := c.ListMembers(0x123)
			s := u.Name
			for _, m := range u.Members {
				s += fmt.Sprintf(" %s %d %x", m.Name, m.Info.Info, int(m.Info.Type))
			}
			return s, err
		})
	case "tattr":
		o.top = 0x123
		given("3 12", func() (string, error) {
			r, err := c.GetTemplateInstanceAttr(0x123)
			return fmt.Sprint(r.MemberCount, " ", r.SizeBytes), err
		})
	case "connect":
		o.run = func() error { return c.Connect() }
	case "dtnew":
		o.run = func() error {
			_, err := c.NewDataTableBuffer()
			return err
		}
	case "dtadd", "dtaddn", "dtread", "dtraw", "dttyped", "dtremove", "dtclose", "dtref", "dtstruct":
		b, err := c.NewDataTableBuffer()
		if err != nil {
			infra("buffer: %v", err)
		}
		must := func(err error) {
			if err != nil {
				infra("buffer: %v", err)
			}
		}
		switch kind {
		case "dtadd":
			o.run = func() error { return b.AddTag("TDINT", gologix.CIPTypeDINT) }
		case "dtaddn":
			o.run = func() error {
				return b.AddTags(map[string]gologix.CIPType{"TDINT": gologix.CIPTypeDINT, "TREAL": gologix.CIPTypeREAL, "TINT": gologix.CIPTypeINT})
			}
		case "dtremove":
			must(b.AddTag("TDINT", gologix.CIPTypeDINT))
			must(b.AddTag("TREAL", gologix.CIPTypeREAL))
			o.run = func() error { return b.RemoveTag("TDINT") }
		case "dtclose":
			o.run = func() error { return b.Close() }
		case "dtref":
			dst := reflect.ValueOf(ptrOf("DINT"))
			preset(dst.Elem(), "DINT", 1, 7)
			must(b.AddTag("TREAL", gologix.CIPTypeREAL))
			must(b.AddTagRef("TDINT", dst.Interface()))
			must(b.AddTag("TINT", gologix.CIPTypeINT))
			o.val = func() string { return showSlice(dst.Interface()) }
			o.was, o.want = o.val(), rowOf("DINT", raw("TDINT"))
			o.run = func() error { _, err := b.ReadAll(); return err }
		case "dtstruct":
			s := struct {
				A int32     `gologix:"TDINT"`
				B []float32 `gologix:"AREAL[0]"`
				C int16     `gologix:"TINT"`
			}{1, []float32{1, 2, 3}, 5}
			must(b.AddTaggedStruct(&s))
			o.val = func() string {
				return show(s.A) + ";" + strings.Join(showList(s.B, false), ",") + ";" + show(s.C)
			}
			o.was = o.val()
			o.want = rowOf("DINT", raw("TDINT")) + ";" + rowOf("REAL", raw("AREAL")[:12]) + ";" + rowOf("INT", raw("TINT"))
			o.run = func() error { _, err := b.ReadAll(); return err }
		default:
			must(b.AddTag("TDINT", gologix.CIPTypeDINT))
			must(b.AddTags(map[string]gologix.CIPType{"TREAL": gologix.CIPTypeREAL, "TLINT": gologix.CIPTypeLINT}))
			want := []string{rowOf("DINT", raw("TDINT")), rowOf("REAL", raw("TREAL")), rowOf("LINT", raw("TLINT"))}
			names := []string{"TDINT", "TREAL", "TLINT"}
			if kind == "dtraw" {
				want = []string{fmt.Sprintf("%x", raw("TDINT")), fmt.Sprintf("%x", raw("TREAL")), fmt.Sprintf("%x", raw("TLINT"))}
			}
			given(strings.Join(want, ";"), func() (string, error) {
				out := []string{}
				switch kind {
				case "dtread":
					m, err := b.ReadAll()
					for _, n := range names {
						out = append(out, show(m[n]))
					}
					return strings.Join(out, ";"), err
				case "dtraw":
					m, err := b.ReadAllRaw()
					for _, n := range names {
						out = append(out, fmt.Sprintf("%x", m[n]))
					}
					return strings.Join(out, ";"), err
				}
				r, err := b.ReadAllTyped()
				if err != nil {
					return "", err
				}
				for _, n := range names {
					v, _ := r.Value(n)
					out = append(out, show(v))
				}
				return strings.Join(out, ";"), nil
			})
		}
	default:
		infra("op %q", st.Op)
	}
	return o
}

func runReplies(rawScn json.RawMessage, tr *Trace) {
	var sc rScn
	if err := json.Unmarshal(rawScn, &sc); err != nil {
		infra("%v", err)
	}
	p, _ := rPLC(tr)
	defer p.stop()
	if sc.Fw > 0 {
		p.fw = byte(sc.Fw)
	}
	var (
		armed bool
		k     int
		op    *rOp
		step  rStep
	)
	p.hook = func(q *Req) *Act {
		if !armed || q.F.Cmd == cmdUnregister {
			return nil
		}
		k++
		var f *rFault
		for i := range step.Faults {
			if step.Faults[i].K == k {
				f = &step.Faults[i]
			}
		}
		a := &Act{}
		cip := q.F.Cmd == cmdRR || q.F.Cmd == cmdUnit
		e := ev{"optional": false, "svc": 0, "head": 0, "encap": 0, "st": 0, "ends": true, "data": false, "count": false, "fault": f != nil, "stray": false}
		class, inst, isObj := classInst(q.Path)
		if cip {
			e["svc"] = int(q.Svc)
			kindOf, _, _ := strings.Cut(step.Op, ":")
			e["optional"] = q.Svc == svcGetAttr && q.P == "/c:1/i:1/a:4" ||
				q.Svc == svcLargeOpen ||
				isObj && class == 0x6C && (kindOf == "listtags" || inst != op.top) ||
				isObj && class == 0x68 && kindOf == "listtags" && f != nil && f.Kind == "status"
			e["head"] = 4
			if q.Connected {
				e["head"] = 6
			}
		}
		if f != nil && f.Kind == "status" {
			a.Use, a.Status = true, byte(f.N)
			for i := 0; i < f.M; i++ {
				a.Ext = append(a.Ext, uint16(0x2100+i))
			}
		}
		if f != nil && f.Kind == "encap" {
			a.Encap = uint32(f.N)
			if q.F.Cmd == cmdRegister {
				a.Use = true
			}
		}
		q.onAnswer = func(st byte, data []byte) {
			if cip {
				e["st"] = int(st)
			}
		}
		a.Mutate = func(out []byte) []byte {
			// where things are in the frame
			i1 := 24 + 8 + 4 // type of the data item
			if q.Connected {
				i1 += 4
			}
			item := i1 + 4
			if !cip {
				item = 24
			}
			full := len(out) - item
			sent := full
			if q.F.Cmd == cmdRegister {
				full, sent = 0, 0 // what is in it says nothing
			}
			e["full"] = full
			setLen := func(n int) {
				copy(out[2:], u16(uint16(n)))
			}
			pos := func(n int) int { // a position in the item
				if n < 0 {
					n = max(0, full+n)
				}
				return min(n, full)
			}
			if f != nil {
				rng := rand.New(rand.NewSource(int64(f.M)*7919 + int64(f.N)))
				switch f.Kind {
				case "status", "encap":
					e["encap"] = int(a.Encap & 0x7fffffff)
					if a.Encap != 0 && f.M == 1 {
						out = out[:24]
						setLen(0)
						sent = 0
					}
				case "cut": // everything agrees with the shorter item
					sent = pos(f.N)
					out = out[:item+sent]
					setLen(len(out) - 24)
					if cip {
						copy(out[i1+2:], u16(uint16(sent)))
					}
				case "body": // the items claim more than there is
					n := f.N
					if n < 0 {
						n = len(out) - 24 + n
					}
					n = max(0, min(n, len(out)-24))
					out = out[:24+n]
					setLen(n)
					sent = max(0, 24+n-item)
					if sent < full {
						e["ends"] = q.F.Cmd == cmdRegister
					}
				case "tcp", "stall":
					n := f.N
					if n < 0 {
						n = len(out) + n
					}
					n = max(0, min(n, len(out)-1))
					if f.Kind == "tcp" {
						a.Close = true
					}
					out = out[:n]
					e["ends"] = false
				case "more": // more data than there should be
					extra := make([]byte, f.N)
					rng.Read(extra)
					out = cat(out, extra)
					sent += f.N
					setLen(len(out) - 24)
					if cip {
						copy(out[i1+2:], u16(uint16(sent)))
					}
					e["data"] = true
				case "stray": // and then something that is no reply
					extra := make([]byte, f.N)
					rng.Read(extra)
					out = cat(out, extra)
					e["stray"] = true
				case "junk":
					n := f.N
					body := make([]byte, n)
					rng.Read(body)
					out = cat(out[:24], body)
					setLen(n)
					e["data"] = true
				case "bytes": // some bytes of the item are wrong
					for i := 0; i < f.N && full > 0; i++ {
						at := rng.Intn(full)
						if cip && at >= e["head"].(int)-2 && at < e["head"].(int) {
							continue // the status is another matter
						}
						out[item+at] = byte(rng.Intn(256))
					}
					e["data"] = true
				case "field":
					put16 := func(at, v int) {
						if at+2 <= len(out) {
							copy(out[at:], u16(uint16(v)))
						}
					}
					c0 := 24 + 6
					if !cip {
						c0 = 24
					}
					svcAt := item
					if q.Connected {
						svcAt += 2
					}
					switch f.Name {
					case "cmd":
						put16(0, f.N)
					case "session":
						copy(out[4:], u32(uint32(f.N)))
						if q.F.Cmd == cmdRegister {
							e["data"] = true
						}
					case "context":
						copy(out[12:], u64(uint64(f.N)))
					case "options":
						copy(out[20:], u32(uint32(f.N)))
					case "handle":
						if cip {
							copy(out[24:], u32(uint32(f.N)))
						}
					case "timeout":
						if cip {
							put16(28, f.N)
						}
					case "count": // of items
						if q.F.Cmd == cmdRegister {
							break
						}
						was := int(le.Uint16(out[c0:]))
						put16(c0, f.N)
						if cip {
							e["count"] = f.N != was
						} else {
							e["count"] = f.N > was || f.N == 0 && q.F.Cmd == cmdListIdentity
							e["data"] = f.N != was
						}
					case "len+":
						setLen(len(out) - 24 + f.N)
						e["ends"] = false
					case "len-":
						n := min(f.N, len(out)-24)
						setLen(len(out) - 24 - n)
						sent = max(0, sent-n)
						if n > 0 && q.F.Cmd != cmdRegister {
							e["ends"] = false
						}
						e["stray"] = n > 0
					case "type0":
						if cip {
							put16(c0+2, f.N)
						}
					case "len0":
						if cip {
							put16(c0+4, f.N)
							e["data"] = true
						}
					case "type1":
						if cip {
							put16(i1, f.N)
						}
					case "len1": // relative
						if cip {
							n := max(0, min(0xffff, full+f.N))
							put16(i1+2, n)
							sent = min(n, full)
							if n > full {
								e["ends"] = false
							}
						}
					case "seq":
						if q.Connected {
							put16(item, f.N)
						}
					case "svc":
						if cip {
							out[svcAt] = byte(f.N)
						}
					case "reserved":
						if cip {
							out[svcAt+1] = byte(f.N)
						}
					case "ext":
						if cip && f.N != 0 {
							out[svcAt+3] = byte(f.N)
							e["data"] = true
						}
					case "type": // of the value
						if cip && len(out) > svcAt+4 {
							out[svcAt+4] = byte(f.N)
							e["data"] = true
						}
					case "mcount":
						if q.Svc == svcMulti && le.Uint16(out[svcAt+4:]) != uint16(f.N) {
							put16(svcAt+4, f.N)
							e["count"] = true
						}
					case "moff":
						if q.Svc == svcMulti {
							put16(svcAt+6+2*f.M, f.N)
							e["data"] = true
						}
					default:
						infra("field %q", f.Name)
					}
				default:
					infra("kind %q", f.Kind)
				}
			}
			e["sent"] = sent
			tr.Emit("reply", e)
			return out
		}
		return a
	}
	var c *gologix.Client
	fresh := func() {
		if c != nil && c.Connected() {
			_ = c.Disconnect()
		}
		c = newClient(p, sc.Tmo)
		if sc.Size > 0 {
			c.ConnectionSize = uint16(sc.Size)
		}
	}
	connect := func() {
		if c.Connected() {
			return
		}
		if err := c.Connect(); err != nil {
			infra("connect: %v", err)
		}
	}
	probe := rowOf("DINT", p.tags["probe"].Data)
	nbuf := 0
	for i, s := range sc.Steps {
		step = s
		if i == 0 || sc.Fresh || s.Op == "connect" {
			fresh()
			if s.Op != "connect" {
				connect()
				if sc.List {
					if err := c.ListAllTags(0); err != nil {
						infra("list: %v", err)
					}
				}
			}
		}
		connectFirst := s.Op != "connect"
		if connectFirst {
			connect()
		}
		op = step.build(c, p, &nbuf)
		tr.Emit("begin", ev{"op": s.Op, "was": op.was, "want": op.want, "open": op.open})
		k, armed = 0, true
		var err error
		if !tr.guard(s.Op, 60*time.Second+20*time.Duration(sc.Tmo)*time.Millisecond, func() { err = op.run() }) {
			return
		}
		armed = false
		tr.Emit("end", ev{"ok": err == nil, "val": op.val(), "why": errStr(err)})
		for try := 1; try <= 2; try++ {
			var x int32
			if !tr.guard("use", 60*time.Second+20*time.Duration(sc.Tmo)*time.Millisecond, func() {
				err = nil
				if try == 2 && c.Connected() {
					_ = c.Disconnect() // where replies begin and end is lost
				}
				if !c.Connected() {
					err = c.Connect()
				}
				if err == nil {
					err = c.Read("Probe", &x)
				}
			}) {
				return
			}
			tr.Emit("use", ev{"try": try, "ok": err == nil, "val": show(x), "want": probe, "why": errStr(err)})
			if err == nil {
				break
			}
		}
	}
	if c.Connected() {
		_ = c.Disconnect()
	}
}
