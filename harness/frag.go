package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
)

type fragStep struct {
	N     int    `json:"n"`  // bytes of the value in this reply (-1: all that is left)
	St    byte   `json:"st"` // general status
	Fault string `json:"fault"`
}

type fragScn struct {
	Type  string     `json:"type"`
	Elems int        `json:"elems"`
	Start int        `json:"start"` // index of the first element read (-1: no index)
	API   string     `json:"api"`
	Steps []fragStep `json:"steps"`
	Tmo   int        `json:"tmo"`
	Seed  int        `json:"seed"`
}

func init() { areas["frag"] = runFrag }

func newClient(p *PLC, tmo int) *gologix.Client {
	c := gologix.NewClient("127.0.0.1")
	c.Controller.Port = p.port()
	c.Logger = quiet{}
	c.SocketTimeout = 30 * time.Second
	if tmo > 0 {
		c.SocketTimeout = time.Duration(tmo) * time.Millisecond
	}
	return c
}

func sliceOf(typ string, n int) any {
	switch typ {
	case "SINT":
		return make([]int8, n)
	case "USINT", "BYTE":
		return make([]byte, n)
	case "INT":
		return make([]int16, n)
	case "UINT", "WORD":
		return make([]uint16, n)
	case "DINT":
		return make([]int32, n)
	case "UDINT", "DWORD":
		return make([]uint32, n)
	case "LINT":
		return make([]int64, n)
	case "LWORD":
		return make([]uint64, n)
	case "REAL":
		return make([]float32, n)
	case "LREAL":
		return make([]float64, n)
	}
	return nil
}

func ptrOf(typ string) any {
	s := sliceOf(typ, 1)
	if s == nil {
		switch typ {
		case "BOOL":
			return new(bool)
		case "STRING":
			return new(string)
		}
		return nil
	}
	return reflect.New(reflect.TypeOf(s).Elem()).Interface()
}

func showSlice(v any) string {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Pointer {
		return show(rv.Elem().Interface())
	}
	if rv.Kind() != reflect.Slice {
		return show(v)
	}
	var out []string
	for i := 0; i < rv.Len(); i++ {
		out = append(out, show(rv.Index(i).Interface()))
	}
	return strings.Join(out, ",")
}

type fragStruct struct {
	A int32
	B int16
	C int16
	D float32
}

func runFrag(raw json.RawMessage, tr *Trace) {
	var sc fragScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		infra("%v", err)
	}
	p := newPLC(tr)
	defer p.stop()
	first := sc.Start
	name := "Arr"
	if first >= 0 {
		name = fmt.Sprintf("Arr[%d]", first)
	} else {
		first = 0
	}
	typ := sc.Type
	isText := typ == "STRING"
	isStruct := typ == "UDT" || isText
	size := typeSize[typ]
	tag := &Tag{Name: "Arr", Type: typeCode[typ], Size: size}
	if isText {
		size = 88
		tag = &Tag{Name: "Arr", Struct: true, CRC: stringCRC, Size: size, Data: fill("STRING", first+sc.Elems+2, sc.Seed)}
	} else if isStruct {
		size = 12
		tag.Size, tag.Struct, tag.CRC = 12, true, 0x1234
		tag.Data = fill("DINT", 3*(first+sc.Elems+2), sc.Seed)
	} else {
		tag.Data = fill(typ, first+sc.Elems+2, sc.Seed)
	}
	p.addTag(tag)
	want := tag.Data[first*size : (first+sc.Elems)*size]
	wantS := showRawAll(typ, size, want)
	if sc.API == "bools" {
		var out []string
		for _, b := range want {
			for i := 0; i < 8; i++ {
				out = append(out, fmt.Sprint(b>>i&1 == 1))
			}
		}
		wantS = strings.Join(out, ",")
	}
	if isText {
		var out []string
		for i := 0; i < sc.Elems; i++ {
			out = append(out, string(want[88*i+4:88*i+4+int(le.Uint32(want[88*i:]))]))
		}
		wantS = strings.Join(out, ",")
	} else if isStruct {
		wantS = "x" + hex.EncodeToString(want)
	}
	tr.Emit("cfg", ev{"total": len(want), "elems": sc.Elems, "path": strings.ToLower(name), "want": wantS, "struct": isStruct})
	k := 0
	p.hook = func(q *Req) *Act {
		if q.Bad != "" {
			tr.Emit("bad", ev{"why": q.Bad})
			return nil
		}
		if q.Svc != svcRead && q.Svc != svcFragRead {
			return nil
		}
		off, el := -1, -1
		if len(q.Data) >= 2 {
			el = int(le.Uint16(q.Data))
		}
		if q.Svc == svcFragRead {
			off = -2
			if len(q.Data) == 6 {
				off = int(le.Uint32(q.Data[2:]))
			}
		}
		tr.Emit("req", ev{"svc": int(q.Svc), "path": strings.ToLower(q.P), "elems": el, "off": off})
		st := fragStep{N: -1}
		if k < len(sc.Steps) {
			st = sc.Steps[k]
		}
		k++
		from := off
		if from < 0 {
			from = 0
		}
		var rest []byte
		if from < len(want) {
			rest = want[from:]
		}
		if st.N >= 0 && st.N < len(rest) {
			rest = rest[:st.N]
		}
		a := &Act{Use: true, Status: st.St}
		if st.St == 0 || st.St == 6 {
			a.Data = cat(tag.head(), rest)
		}
		n := len(rest)
		if st.Fault != "" {
			n = 0
		}
		switch st.Fault {
		case "silent":
			a.Silent = true
		case "close":
			a.Close = true
			a.Raw = nil
		case "cut": // connection lost in the middle of the reply
			a.Mutate = func(b []byte) []byte { return b[:len(b)-1-len(b)/3] }
			a.Close = true
		case "short": // a reply that ends before its type word
			a.MutItem = func(b []byte) []byte { return b[:6] }
		case "encap":
			a.Encap = 1
		}
		tr.Emit("reply", ev{"n": n, "st": int(st.St), "fault": st.Fault})
		return a
	}
	c := newClient(p, sc.Tmo)
	c.AutoConnect = false
	if err := c.Connect(); err != nil {
		infra("connect: %v", err)
	}
	var err error
	got := ""
	tr.Emit("call", nil)
	limit := 60 * time.Second
	if sc.Tmo > 0 {
		limit += 10 * time.Duration(sc.Tmo) * time.Millisecond
	}
	if !tr.guard("read", limit, func() {
		switch sc.API {
		case "slice":
			dst := sliceOf(typ, sc.Elems)
			err = c.Read(name, dst)
			got = showSlice(dst)
		case "ptr":
			dst := ptrOf(typ)
			err = c.Read(name, dst)
			got = showSlice(dst)
		case "bools":
			dst := make([]bool, sc.Elems*32)
			err = c.Read(name, dst)
			got = showSlice(dst)
		case "strings":
			dst := make([]string, sc.Elems)
			err = c.Read(name, dst)
			got = strings.Join(dst, ",")
		case "string":
			dst := ""
			err = c.Read(name, &dst)
			got = dst
		case "stringsingle":
			var v any
			v, err = c.Read_single(name, gologix.CIPTypeSTRING, uint16(sc.Elems))
			if b, ok := v.([]byte); ok {
				v = []any{b}
			}
			l, _ := v.([]any)
			var out []string
			for _, x := range l {
				b, _ := x.([]byte)
				out = append(out, string(b))
			}
			got = strings.Join(out, ",")
		case "stringlist":
			var l []any
			l, err = c.ReadList([]string{name}, []any{""}, []int{sc.Elems})
			var out []string
			if err == nil && len(l) == 1 {
				if s, ok := l[0].(string); ok {
					out = append(out, s)
				}
				s, _ := l[0].([]any)
				for _, x := range s {
					out = append(out, fmt.Sprint(x))
				}
			}
			got = strings.Join(out, ",")
		case "single":
			var v any
			ct := gologix.CIPType(typeCode[typ])
			if isStruct {
				ct = gologix.CIPTypeStruct
			}
			v, err = c.Read_single(name, ct, uint16(sc.Elems))
			if b, ok := v.([]byte); ok && isStruct {
				got = "x" + hex.EncodeToString(b)
			} else if err == nil {
				if s, ok := v.([]any); ok {
					got = showSlice(s)
				} else {
					got = show(v)
				}
			}
		case "udts":
			dst := make([]fragStruct, sc.Elems)
			err = c.Read(name, dst)
			var b []byte
			for _, d := range dst {
				b = cat(b, u32(uint32(d.A)), u16(uint16(d.B)), u16(uint16(d.C)), u32(f32bits(d.D)))
			}
			got = "x" + hex.EncodeToString(b)
		case "udt":
			var d fragStruct
			err = c.Read(name, &d)
			got = "x" + hex.EncodeToString(cat(u32(uint32(d.A)), u16(uint16(d.B)), u16(uint16(d.C)), u32(f32bits(d.D))))
		}
	}) {
		return
	}
	if err != nil {
		got = ""
	}
	why := ""
	if err != nil {
		why = err.Error()
	}
	tr.Emit("ret", ev{"ok": err == nil, "got": got, "why": why})
	if c.Connected() {
		_ = c.Disconnect()
	}
}
