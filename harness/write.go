package main

// Writing tags (C08, C13).

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"
)

type wItem struct {
	Name string  `json:"name"`
	Type string  `json:"type"`
	N    int     `json:"n"`    // elements
	Kind string  `json:"kind"` // scalar slice array nest, or one of the unsupported ones
	Seed int     `json:"seed"`
	Len  int     `json:"len"` // of a string
	Nest []wItem `json:"nest"`
}

type wScn struct {
	API     string         `json:"api"` // single map struct
	Tags    []mTag         `json:"tags"`
	Items   []wItem        `json:"items"`
	Size    int            `json:"size"`
	NoLarge bool           `json:"nolarge"`
	Fails   map[string]int `json:"fails"`
	Ext     int            `json:"ext"` // extended status of a failure (-1: none)
	Whole   mWhole         `json:"whole"`
	Lenient bool           `json:"lenient"`
	Again   bool           `json:"again"`
	Tmo     int            `json:"tmo"`
}

func init() { areas["write"] = runWrite }

type wWant struct {
	path string
	typ  string
	n    int
	val  []string
	sup  bool
}

// value makes the Go value of an item and says what is to arrive at the target.
func (it wItem) value(name string) (any, []wWant) {
	w := wWant{path: low(name), typ: it.Type, n: it.N, sup: true}
	switch it.Kind {
	case "nest":
		var fs []reflect.StructField
		var vs []any
		var ws []wWant
		for _, f := range it.Nest {
			v, w := f.value(name + "." + f.Name)
			fs = append(fs, reflect.StructField{Name: f.Name, Type: reflect.TypeOf(v)})
			vs = append(vs, v)
			ws = append(ws, w...)
		}
		s := reflect.New(reflect.StructOf(fs)).Elem()
		for i, v := range vs {
			s.Field(i).Set(reflect.ValueOf(v))
		}
		return s.Interface(), ws
	case "longstr", "longstrs":
		s := strings.Repeat("q", it.Len)
		w.typ, w.sup = "STRING", it.Len <= 82
		if it.Kind == "longstrs" {
			w.sup = false
			w.n, w.val = 2, []string{fmt.Sprintf("%q", s), `"b"`}
			return []string{s, "b"}, []wWant{w}
		}
		w.n, w.val = 1, []string{fmt.Sprintf("%q", s)}
		return s, []wWant{w}
	case "strings":
		w.sup = false
		v := []string{}
		w.typ = "STRING"
		b := fill("STRING", it.N, it.Seed)
		for i := 0; i < it.N; i++ {
			x := b[88*i:]
			v = append(v, string(x[4:4+le.Uint32(x)]))
			w.val = append(w.val, fmt.Sprintf("%q", v[i]))
		}
		return v, []wWant{w}
	case "bools":
		w.sup, w.typ = false, "BOOL"
		v := []bool{}
		for i := 0; i < it.N; i++ {
			v = append(v, (it.Seed+i)%3 == 0)
			w.val = append(w.val, fmt.Sprint(v[i]))
		}
		return v, []wWant{w}
	case "nil":
		w.sup, w.val = false, []string{"nil"}
		return nil, []wWant{w}
	case "int":
		w.sup, w.val = false, []string{fmt.Sprint(it.Seed)}
		return it.Seed, []wWant{w}
	case "bit":
		// a bit of a word: there is no service with which the library could do that
		w.sup, w.typ, w.val = false, "bit", []string{"true"}
		w.path = low(name[:strings.LastIndex(name, ".")])
		return true, []wWant{w}
	}
	b := fill(it.Type, it.N, it.Seed)
	if it.Type == "UDT" {
		b = fill("DINT", 3*it.N, it.Seed)
		var s fragStruct
		if err := binary.Read(bytes.NewReader(b), le, &s); err != nil {
			infra("%v", err)
		}
		w.typ, w.val = fmt.Sprintf("A0:%04x", udtCRC), []string{"x" + hex.EncodeToString(b)}
		return s, []wWant{w}
	}
	size := typeSize[it.Type]
	for i := 0; i < it.N; i++ {
		w.val = append(w.val, showRaw(it.Type, b[i*size:(i+1)*size]))
	}
	switch {
	case it.Type == "STRING":
		return string(b[4 : 4+le.Uint32(b)]), []wWant{w}
	case it.Kind == "scalar" || it.Kind == "ptr":
		x := ptrOf(it.Type)
		if err := binary.Read(bytes.NewReader(b), le, x); err != nil {
			infra("%v", err)
		}
		if it.Kind == "ptr" {
			w.sup = false
			return x, []wWant{w}
		}
		return reflect.ValueOf(x).Elem().Interface(), []wWant{w}
	}
	s := sliceOf(it.Type, it.N)
	if err := binary.Read(bytes.NewReader(b), le, s); err != nil {
		infra("%v", err)
	}
	if it.Kind == "array" { // a Go array
		rv := reflect.ValueOf(s)
		a := reflect.New(reflect.ArrayOf(it.N, rv.Type().Elem())).Elem()
		reflect.Copy(a, rv)
		return a.Interface(), []wWant{w}
	}
	return s, []wWant{w}
}

// wReq is what a write request says.
func wReq(q *Req) (typ string, n int, val []string, crc int, data []byte) {
	d := q.Data
	crc = -1
	if len(d) < 4 {
		return "?short", -1, []string{}, -1, nil
	}
	if d[0] == 0xA0 && d[1] == 2 {
		if len(d) < 6 {
			return "?short", -1, []string{}, -1, nil
		}
		crc, n, data = int(le.Uint16(d[2:])), int(le.Uint16(d[4:])), d[6:]
		typ = fmt.Sprintf("A0:%04x", crc)
		if crc == stringCRC {
			typ = "STRING"
		}
	} else {
		n, data = int(le.Uint16(d[2:])), d[4:]
		typ = fmt.Sprintf("?%04x", le.Uint16(d))
		for name, c := range typeCode {
			if uint16(c) == le.Uint16(d) && name != "STRING" {
				typ = name
			}
		}
	}
	val = []string{}
	size := typeSize[typ]
	switch {
	case size == 0:
		val = append(val, "x"+hex.EncodeToString(data))
	case len(data) != n*size:
		val = append(val, fmt.Sprintf("?%d bytes", len(data)))
	default:
		for i := 0; i < n; i++ {
			val = append(val, showElem(typ, data[i*size:(i+1)*size]))
		}
	}
	return
}

func runWrite(rawScn json.RawMessage, tr *Trace) {
	var sc wScn
	if err := json.Unmarshal(rawScn, &sc); err != nil {
		infra("%v", err)
	}
	p := newPLC(tr)
	defer p.stop()
	p.noLarge = sc.NoLarge
	for _, d := range sc.Tags {
		p.addTag(mkTag(d))
	}
	k := 0
	p.hook = func(q *Req) *Act {
		if !q.Connected || q.Svc == svcGetAttr {
			return nil
		}
		subs := []*Req{q}
		multi := q.Svc == svcMulti && q.P == "/c:2/i:1"
		if q.Bad == "" && multi {
			subs = nil
			parts, err := splitMulti(q.Data)
			if err != nil {
				q.Bad = err.Error()
			}
			for _, b := range parts {
				s := &Req{Conn: q.Conn, F: q.F, Connected: true, OT: q.OT, Seq: q.Seq}
				s.splitReq(b)
				if s.Bad != "" {
					q.Bad = s.Bad
				}
				subs = append(subs, s)
			}
		}
		if q.Bad != "" {
			tr.Emit("bad", ev{"why": q.Bad})
			return nil
		}
		k++
		whole := sc.Whole.K == k
		a := &Act{Use: true}
		es := []ev{}
		var bodies [][]byte
		for _, s := range subs {
			if s.Svc != svcWrite {
				tr.Emit("strange", ev{"svc": int(s.Svc)})
				return nil
			}
			typ, n, val, crc, _ := wReq(s)
			st := byte(0)
			t, _, ok := p.locate(s.Path)
			if f := sc.Fails[low(s.P)]; f != 0 {
				st = byte(f)
			} else if ok && t.Struct && crc != int(t.CRC) {
				st = 0xFF
			} else {
				st, _ = p.tagService(s)
			}
			es = append(es, ev{"path": low(s.P), "type": typ, "n": n, "val": val, "st": int(st)})
			var ext []uint16
			if st != 0 && sc.Ext >= 0 {
				ext = []uint16{uint16(sc.Ext)}
			}
			if st != 0 && sc.Ext == -2 {
				ext = []uint16{0x2105, 0x0001}
			}
			if multi {
				b := []byte{s.Svc | 0x80, 0, st, byte(len(ext))}
				for _, x := range ext {
					b = cat(b, u16(x))
				}
				bodies = append(bodies, b)
				if st != 0 && !sc.Lenient {
					a.Status = 0x1E
				}
			} else {
				a.Status, a.Ext = st, ext
			}
		}
		if multi {
			a.Data = joinMulti(bodies)
		}
		if whole {
			switch sc.Whole.Kind {
			case "status":
				a.Status, a.Ext, a.Data = byte(sc.Whole.St), nil, nil
			case "encap":
				a.Encap = uint32(sc.Whole.St)
			case "close":
				a.Close = true
			case "silent":
				a.Silent = true
			case "cut":
				a.MutItem = func(b []byte) []byte { return b[:4] }
			default:
				infra("kind %q", sc.Whole.Kind)
			}
		}
		tr.Emit("put", ev{"subs": es, "whole": whole, "len": len(q.Item), "max": q.Conn.opens[q.OT].Size})
		return a
	}
	c := newClient(p, sc.Tmo)
	if sc.Size > 0 {
		c.ConnectionSize = uint16(sc.Size)
	}
	if err := c.Connect(); err != nil {
		infra("connect: %v", err)
	}
	defer func() {
		if c.Connected() {
			_ = c.Disconnect()
		}
	}()
	limit := 60*time.Second + 10*time.Duration(sc.Tmo)*time.Millisecond
	calls := 1
	if sc.Again {
		calls = 2
	}
	for call := 0; call < calls; call++ {
		items := []ev{}
		m := map[string]any{}
		var fs []reflect.StructField
		var vs []any
		for i, it := range sc.Items {
			it.Seed += call
			v, ws := it.value(it.Name)
			for _, w := range ws {
				items = append(items, ev{"path": w.path, "type": w.typ, "n": w.n, "val": w.val, "sup": w.sup})
			}
			m[it.Name] = v
			if sc.API == "struct" {
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(v), Tag: reflect.StructTag(fmt.Sprintf("gologix:%q", it.Name))})
				vs = append(vs, v)
				if i%3 == 1 {
					fs = append(fs, reflect.StructField{Name: fmt.Sprintf("X%d", i), Type: reflect.TypeOf(0)})
					vs = append(vs, i)
				}
			}
		}
		tr.Emit("begin", ev{"items": items})
		var err error
		if !tr.guard(sc.API, limit, func() {
			switch sc.API {
			case "single":
				err = c.Write(sc.Items[0].Name, m[sc.Items[0].Name])
			case "map":
				err = c.WriteMap(m)
			case "struct":
				s := reflect.New(reflect.StructOf(fs)).Elem()
				for i, v := range vs {
					s.Field(i).Set(reflect.ValueOf(v))
				}
				err = c.WriteMulti(s.Interface())
			default:
				infra("api %q", sc.API)
			}
		}) {
			return
		}
		tr.Emit("end", ev{"ok": err == nil, "why": errStr(err)})
		if !c.Connected() {
			return
		}
	}
}
