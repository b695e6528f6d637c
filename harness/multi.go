package main

// Reading many tags in one call (C07, C13).

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
)

type mTag struct {
	Name string `json:"name"`
	Type string `json:"type"`
	N    int    `json:"n"`
	Seed int    `json:"seed"`
}

type mItem struct {
	Def  string `json:"def"`  // as given to the client (with placeholders)
	Name string `json:"name"` // with them filled in
	Base string `json:"base"` // the tag
	At   int    `json:"at"`   // its first element
	N    int    `json:"n"`    // elements
	Bit  int    `json:"bit"`  // -1: none
	Type string `json:"type"`
	Open bool   `json:"open"` // the caller does not say which type
	Arr  bool   `json:"arr"`  // given as a slice
	Emb  bool   `json:"emb"`
}

// a message that fails as a whole
type mWhole struct {
	K    int    `json:"k"` // which message, from 1 (0: none)
	Kind string `json:"kind"`
	St   int    `json:"st"`
}

type mScn struct {
	API     string         `json:"api"`
	Tags    []mTag         `json:"tags"`
	Items   []mItem        `json:"items"`
	Args    []any          `json:"args"`
	Size    int            `json:"size"`
	NoLarge bool           `json:"nolarge"`
	Fails   map[string]int `json:"fails"` // by path
	Whole   mWhole         `json:"whole"`
	Lenient bool           `json:"lenient"` // the general status is 0 although a service failed
	Pad     bool           `json:"pad"`     // replies of odd length are padded
	Back    bool           `json:"back"`    // the last reply comes first
	Again   bool           `json:"again"`   // a second call with the same client
	Tmo     int            `json:"tmo"`
}

func init() { areas["multi"] = runMulti }

const stringCRC = 0x0FCE

// crc16arc is CRC-16/ARC.
func crc16arc(s string) uint16 {
	c := uint16(0)
	for i := 0; i < len(s); i++ {
		c ^= uint16(s[i])
		for k := 0; k < 8; k++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xA001
			} else {
				c >>= 1
			}
		}
	}
	return c
}

var udtCRC = crc16arc("fragStruct,DINT,INT,INT,REAL")

func mkTag(d mTag) *Tag {
	switch d.Type {
	case "STRING":
		return &Tag{Name: d.Name, Struct: true, CRC: stringCRC, Size: 88, Data: fill("STRING", max(1, d.N), d.Seed)}
	case "UDT":
		return &Tag{Name: d.Name, Struct: true, CRC: udtCRC, Size: 12, Data: fill("DINT", 3*max(1, d.N), d.Seed)}
	case "TINY", "TAIL": // structures with padding at their end
		t := &Tag{Name: d.Name, Struct: true, CRC: crc16arc("tinyStruct,SINT"), Size: 4}
		for i := 0; i < max(1, d.N); i++ {
			if d.Type == "TAIL" {
				t.CRC, t.Size = crc16arc("tailStruct,LINT,SINT"), 16
				t.Data = cat(t.Data, fill("LINT", 1, d.Seed+i))
			}
			t.Data = cat(t.Data, fill("SINT", 1, d.Seed+i+500))
			t.Data = cat(t.Data, make([]byte, (i+1)*t.Size-len(t.Data)))
		}
		return t
	}
	return &Tag{Name: d.Name, Type: typeCode[d.Type], Size: typeSize[d.Type], Data: fill(d.Type, max(1, d.N), d.Seed)}
}

func showElem(typ string, b []byte) string {
	if typ == "STRING" && le.Uint32(b) > 84 {
		return fmt.Sprintf("?LEN=%d", le.Uint32(b))
	}
	if typ == "TINY" {
		b = b[:1]
	} else if typ == "TAIL" {
		b = b[:9]
	}
	return showRaw(typ, b)
}

type tinyStruct struct{ A int8 }

type tailStruct struct {
	A int64
	B int8
}

func udtHex(d fragStruct) string {
	return "x" + hex.EncodeToString(cat(u32(uint32(d.A)), u16(uint16(d.B)), u16(uint16(d.C)), u32(f32bits(d.D))))
}

// showList shows a result: a value, or a slice of them.
func showList(v any, raw bool) []string {
	if v == nil {
		return []string{"nil"}
	}
	if b, ok := v.([]byte); ok && raw {
		return []string{"x" + hex.EncodeToString(b)}
	}
	one := func(x any) string {
		switch y := x.(type) {
		case fragStruct:
			return udtHex(y)
		case tinyStruct:
			return "x" + hex.EncodeToString([]byte{byte(y.A)})
		case tailStruct:
			return "x" + hex.EncodeToString(cat(u64(uint64(y.A)), []byte{byte(y.B)}))
		case []byte:
			return fmt.Sprintf("?%x", y)
		}
		return show(x)
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Slice {
		out := []string{}
		for i := 0; i < rv.Len(); i++ {
			out = append(out, one(rv.Index(i).Interface()))
		}
		return out
	}
	return []string{one(v)}
}

func goType(typ string) reflect.Type {
	switch typ {
	case "UDT":
		return reflect.TypeOf(fragStruct{})
	case "TINY":
		return reflect.TypeOf(tinyStruct{})
	case "TAIL":
		return reflect.TypeOf(tailStruct{})
	}
	return reflect.TypeOf(ptrOf(typ)).Elem()
}

func (it mItem) path() string {
	s := it.Name
	if it.Bit >= 0 {
		s = s[:strings.LastIndex(s, ".")]
	}
	return low(s)
}

// example is a value of the type that the caller expects.
func (it mItem) example(length int) any {
	if it.Open {
		return nil
	}
	t := goType(it.Type)
	if it.Bit >= 0 {
		t = reflect.TypeOf(false)
	}
	if it.Arr {
		return reflect.MakeSlice(reflect.SliceOf(t), length, length).Interface()
	}
	return reflect.Zero(t).Interface()
}

func (it mItem) raw() bool { return it.Open && (it.Type == "STRING" || typeSize[it.Type] == 0) }

func runMulti(rawScn json.RawMessage, tr *Trace) {
	var sc mScn
	if err := json.Unmarshal(rawScn, &sc); err != nil {
		infra("%v", err)
	}
	p := newPLC(tr)
	defer p.stop()
	p.noLarge = sc.NoLarge
	vals, bits := []ev{}, []ev{}
	for _, d := range sc.Tags {
		t := mkTag(d)
		p.addTag(t)
		vs, rs, bs := []string{}, []string{}, [][]string{}
		for i := 0; i < max(1, d.N); i++ {
			b := t.Data[i*t.Size : (i+1)*t.Size]
			vs = append(vs, showElem(d.Type, b))
			rs = append(rs, "x"+hex.EncodeToString(b))
			if t.Size <= 8 {
				e := []string{}
				for k := 0; k < 8*t.Size; k++ {
					e = append(e, fmt.Sprint(b[k/8]>>(k%8)&1 == 1))
				}
				bs = append(bs, e)
			}
		}
		vals = append(vals, ev{"n": low(d.Name), "v": vs})
		vals = append(vals, ev{"n": low(d.Name) + "#raw", "v": rs})
		bits = append(bits, ev{"n": low(d.Name), "v": bs})
	}
	tr.Emit("cfg", ev{"vals": vals, "bits": bits})
	k := 0
	exec := func(q *Req) (byte, []byte) {
		st, data := p.tagService(q)
		if f, ok := sc.Fails[low(q.P)]; ok && f != 0 {
			st = byte(f)
			if st == 6 && len(data) > 6 {
				data = data[:len(data)-(len(data)-2)/2]
			} else if st != 6 {
				data = nil
			}
		}
		return st, data
	}
	p.hook = func(q *Req) *Act {
		if !q.Connected || q.Svc == svcGetAttr {
			return nil
		}
		subs := []*Req{q}
		multi := q.Svc == svcMulti && q.P == "/c:2/i:1"
		if q.Bad == "" && multi {
			subs = nil
			parts, err := splitMulti(q.Data)
			if err != nil {
				q.Bad = err.Error()
			}
			for _, b := range parts {
				s := &Req{Conn: q.Conn, F: q.F, Connected: true, OT: q.OT, Seq: q.Seq}
				s.splitReq(b)
				if s.Bad != "" {
					q.Bad = s.Bad
				}
				subs = append(subs, s)
			}
		}
		if q.Bad != "" {
			tr.Emit("bad", ev{"why": q.Bad})
			return nil
		}
		k++
		a := &Act{Use: true}
		es := []ev{}
		var bodies [][]byte
		rlen := 6
		for _, s := range subs {
			n := -1
			if s.Svc == svcRead && len(s.Data) == 2 {
				n = int(le.Uint16(s.Data))
			}
			st, data := exec(s)
			es = append(es, ev{"path": low(s.P), "n": n, "st": int(st)})
			if multi {
				b := cat([]byte{s.Svc | 0x80, 0, st, 0}, data)
				if sc.Pad && len(b)%2 == 1 {
					b = append(b, 0)
				}
				bodies = append(bodies, b)
				if st != 0 && !sc.Lenient {
					a.Status = 0x1E
				}
			} else {
				a.Status, a.Data = st, data
			}
		}
		if multi {
			a.Data = joinMulti(bodies)
			if sc.Back {
				a.Data = joinBack(bodies)
			}
		}
		rlen += len(a.Data)
		whole := sc.Whole.K == k
		if whole {
			switch sc.Whole.Kind {
			case "status":
				a.Status, a.Data = byte(sc.Whole.St), nil
			case "encap":
				a.Encap = uint32(sc.Whole.St)
			case "close":
				a.Close = true
			case "silent":
				a.Silent = true
			case "cut":
				a.MutItem = func(b []byte) []byte { return b[:6] }
			default:
				infra("kind %q", sc.Whole.Kind)
			}
		}
		tr.Emit("ask", ev{"subs": es, "whole": whole, "len": len(q.Item), "rlen": rlen, "max": q.Conn.opens[q.OT].Size})
		return a
	}
	c := newClient(p, sc.Tmo)
	if sc.Size > 0 {
		c.ConnectionSize = uint16(sc.Size)
	}
	if err := c.Connect(); err != nil {
		infra("connect: %v", err)
	}
	defer func() {
		if c.Connected() {
			_ = c.Disconnect()
		}
	}()
	items := []ev{}
	for _, it := range sc.Items {
		base := low(it.Base)
		if it.raw() {
			base += "#raw"
		}
		items = append(items, ev{"path": it.path(), "base": base, "at": it.At, "n": it.N, "bit": it.Bit, "open": it.Open})
	}
	limit := 60*time.Second + 10*time.Duration(sc.Tmo)*time.Millisecond
	calls := 1
	if sc.Again {
		calls = 2
	}
	for call := 0; call < calls; call++ {
		tr.Emit("begin", ev{"items": items, "ordered": sc.API == "list" || sc.API == "struct"})
		var err error
		results := [][]string{}
		if !tr.guard(sc.API, limit, func() { results, err = multiCall(c, sc) }) {
			return
		}
		if err != nil {
			results = [][]string{}
		}
		tr.Emit("end", ev{"ok": err == nil, "results": results, "why": errStr(err)})
		if !c.Connected() {
			return
		}
	}
}

func multiCall(c *gologix.Client, sc mScn) ([][]string, error) {
	results := [][]string{}
	fromMap := func(m map[string]any, get func(k string, v any) []string) {
		for _, it := range sc.Items {
			v, ok := m[it.Name]
			if !ok {
				results = append(results, []string{"?missing"})
				continue
			}
			r := showList(v, it.raw())
			if get != nil {
				if g := get(it.Name, v); strings.Join(g, ",") != strings.Join(r, ",") {
					r = append(g, "?accessor")
				}
			}
			results = append(results, r)
		}
		if len(m) != len(sc.Items) {
			results = append(results, []string{fmt.Sprintf("?%d entries", len(m))})
		}
	}
	switch sc.API {
	case "list":
		var names []string
		var types []any
		var ns []int
		for _, it := range sc.Items {
			names = append(names, it.Name)
			types = append(types, it.example(0))
			ns = append(ns, it.N)
		}
		vs, err := c.ReadList(names, types, ns)
		if err != nil {
			return nil, err
		}
		for i, v := range vs {
			raw := i < len(sc.Items) && sc.Items[i].raw()
			results = append(results, showList(v, raw))
		}
		return results, nil
	case "map", "multimap":
		m := map[string]any{}
		for _, it := range sc.Items {
			m[it.Name] = it.example(it.N)
		}
		var err error
		if sc.API == "map" {
			err = c.ReadMap(m)
		} else {
			err = c.ReadMulti(m)
		}
		if err != nil {
			return nil, err
		}
		fromMap(m, nil)
		return results, nil
	case "group":
		var defs []gologix.TagDef
		for _, it := range sc.Items {
			d := gologix.TagDef{Name: it.Def, Type: cipOf[it.Type], Elements: it.N}
			if it.N == 1 && !it.Arr {
				d.Elements = 0
			}
			if it.Bit >= 0 {
				d.Type = gologix.CIPTypeBOOL
			}
			defs = append(defs, d)
		}
		r, err := c.ReadTagGroup(gologix.NewTagGroup(defs...), fixArgs(sc.Args)...)
		if err != nil {
			return nil, err
		}
		fromMap(r.Raw(), func(k string, v any) []string {
			switch x := v.(type) {
			case []int32:
				s, err := r.Int32Slice(k)
				if err != nil {
					return []string{"?" + err.Error()}
				}
				return showList(s, false)
			case []float32:
				s, err := r.Float32Slice(k)
				if err != nil {
					return []string{"?" + err.Error()}
				}
				return showList(s, false)
			case string, bool, int16, int32, uint32, float32, float64, []any:
				return accessor(r, k, x)
			}
			y, err := r.Value(k)
			if err != nil {
				return []string{"?" + err.Error()}
			}
			return showList(y, false)
		})
		return results, nil
	case "struct":
		s, field := itemStruct(sc.Items, true)
		for i, it := range sc.Items {
			if it.Arr {
				f := field(i)
				f.Set(reflect.MakeSlice(f.Type(), it.N, it.N))
			}
		}
		if err := c.ReadMulti(s.Interface(), fixArgs(sc.Args)...); err != nil {
			return nil, err
		}
		for i := range sc.Items {
			results = append(results, showList(field(i).Interface(), false))
		}
		return results, nil
	}
	infra("api %q", sc.API)
	return nil, nil
}

// itemStruct makes a struct with a tagged field for each item.
func itemStruct(items []mItem, others bool) (reflect.Value, func(i int) reflect.Value) {
	var out, emb []reflect.StructField
	at := -1
	for i, it := range items {
		t := goType(it.Type)
		if it.Bit >= 0 {
			t = reflect.TypeOf(false)
		}
		if it.Arr {
			t = reflect.SliceOf(t)
		}
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t, Tag: reflect.StructTag(fmt.Sprintf("gologix:%q", it.Def))}
		if it.Emb {
			if emb == nil {
				at = len(out)
			}
			emb = append(emb, f)
			continue
		}
		out = append(out, f)
		if others && i%3 == 1 { // a field that is not for the target
			out = append(out, reflect.StructField{Name: fmt.Sprintf("X%d", i), Type: reflect.TypeOf(0)})
		}
	}
	if emb != nil {
		e := reflect.StructField{Name: "E", Type: reflect.StructOf(emb), Anonymous: true}
		out = append(out[:at:at], append([]reflect.StructField{e}, out[at:]...)...)
	}
	s := reflect.New(reflect.StructOf(out))
	return s, func(i int) reflect.Value { return s.Elem().FieldByName(fmt.Sprintf("F%d", i)) }
}
