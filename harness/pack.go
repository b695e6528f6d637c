package main

// Structures packed and unpacked (K01): types are built by reflection from a shape, filled with values, and the bytes
// and the values found after unpacking are recorded.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/lgxtypes"
)

type kField struct {
	K   string   `json:"k"` // bool, np (boolean with nopack), num, timer, counter, control, string, one, many
	T   string   `json:"t"` // num: Go type
	N   int      `json:"n"` // elements of an array; -1: not an array
	Sub []kField `json:"sub"`
}

type kTest struct {
	Do    string `json:"do"`    // pack, unpack, rows
	Room  int    `json:"room"`  // pack: the writer fails after so many bytes; -1: never
	Less  int    `json:"less"`  // unpack: bytes missing at the end (or more than there are)
	More  int    `json:"more"`  // unpack: bytes too many
	Dirty bool   `json:"dirty"` // unpack: the padding is not zero
	Slow  bool   `json:"slow"`  // unpack: the reader gives a byte at a time
	Used  bool   `json:"used"`  // unpack: the structure has other values before
	N     int    `json:"n"`     // rows: so many structures
}

type kScn struct {
	Seed   int64    `json:"seed"`
	Fields []kField `json:"fields"`
	Tests  []kTest  `json:"tests"`
	Zero   int      `json:"zero"` // 0: random values; 1: all zero; 2: all ones
}

func init() { areas["pack"] = runPack }

var predef = map[string]reflect.Type{"timer": reflect.TypeOf(lgxtypes.TIMER{}), "counter": reflect.TypeOf(lgxtypes.COUNTER{}),
	"control": reflect.TypeOf(lgxtypes.CONTROL{}), "string": reflect.TypeOf(lgxtypes.STRING{})}

// the bits of the control word, from bit 31 down
var predefBits = map[reflect.Type][]string{predef["timer"]: {"EN", "TT", "DN"}, predef["counter"]: {"CU", "CD", "DN", "OV", "UN"},
	predef["control"]: {"EN", "EU", "DN", "EM", "ER", "UL", "IN", "FD"}}
var predefWords = map[reflect.Type][]string{predef["timer"]: {"PRE", "ACC"}, predef["counter"]: {"PRE", "ACC"}, predef["control"]: {"LEN", "POS"}}

var numType = map[string]reflect.Type{"int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)),
	"int64": reflect.TypeOf(int64(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)),
	"uint64": reflect.TypeOf(uint64(0)), "float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0))}

func structOf(fields []kField) reflect.Type {
	var fs []reflect.StructField
	for i, f := range fields {
		var t reflect.Type
		tag := reflect.StructTag("")
		switch f.K {
		case "bool":
			t = reflect.TypeOf(false)
		case "np":
			t, tag = reflect.TypeOf(false), `pack:"nopack"`
		case "num":
			t = numType[f.T]
		case "one", "many":
			t = structOf(f.Sub)
		default:
			t = predef[f.K]
		}
		if f.N >= 0 {
			t = reflect.ArrayOf(f.N, t)
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t, Tag: tag})
	}
	return reflect.StructOf(fs)
}

// fillValue gives every value in v (zero: 0 random, 1 zero, 2 all ones).
func fillValue(rng *rand.Rand, v reflect.Value, zero int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(zero == 2 || zero == 0 && rng.Intn(2) == 1)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillValue(rng, v.Index(i), zero)
		}
	case reflect.Struct:
		if bits, ok := predefBits[v.Type()]; ok {
			for _, b := range append(bits, predefWords[v.Type()]...) {
				fillValue(rng, v.FieldByName(b), zero)
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			fillValue(rng, v.Field(i), zero)
		}
	default:
		b := make([]byte, v.Type().Size())
		switch {
		case zero == 2:
			for i := range b {
				b[i] = 0xFF
			}
		case zero == 0:
			rng.Read(b)
			// a signaling NaN does not survive a conversion
			if v.Kind() == reflect.Float32 && b[3]&0x7F == 0x7F && b[2]&0x80 != 0 {
				b[2] |= 0x40
			}
			if v.Kind() == reflect.Float64 && b[7]&0x7F == 0x7F && b[6]&0xF0 == 0xF0 {
				b[6] |= 0x08
			}
		}
		if err := binary.Read(bytes.NewReader(b), le, v.Addr().Interface()); err != nil {
			infra("fill: %v", err)
		}
	}
}

func rawBytes(v reflect.Value) []int {
	var b bytes.Buffer
	if err := binary.Write(&b, le, v.Interface()); err != nil {
		infra("raw: %v", err)
	}
	return ints(b.Bytes())
}

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

// fieldsOf describes the values in a structure as the specification has them.
func fieldsOf(v reflect.Value) []ev {
	out := []ev{}
	none := [][]ev{}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		t := f.Type()
		if t.Kind() == reflect.Array {
			t = t.Elem()
		}
		var els []reflect.Value
		if f.Kind() == reflect.Array {
			for j := 0; j < f.Len(); j++ {
				els = append(els, f.Index(j))
			}
		} else {
			els = []reflect.Value{f}
		}
		switch {
		case t.Kind() == reflect.Bool:
			k := "bool"
			if v.Type().Field(i).Tag.Get("pack") == "nopack" {
				k = "raw"
			}
			vals := []int{}
			for _, e := range els {
				n := 0
				if e.Bool() {
					n = 1
				}
				vals = append(vals, n)
			}
			out = append(out, ev{"k": k, "w": 1, "vals": vals, "elems": none})
		case predefBits[t] != nil:
			vals := []int{}
			for _, e := range els {
				var w uint32
				for j, b := range predefBits[t] {
					if e.FieldByName(b).Bool() {
						w |= 1 << (31 - j)
					}
				}
				vals = append(vals, ints(u32(w))...)
				for _, x := range predefWords[t] {
					vals = append(vals, rawBytes(e.FieldByName(x))...)
				}
			}
			out = append(out, ev{"k": "raw", "w": 4, "vals": vals, "elems": none})
		case t.Kind() == reflect.Struct:
			elems := [][]ev{}
			for _, e := range els {
				elems = append(elems, fieldsOf(e))
			}
			k := "one"
			if f.Kind() == reflect.Array {
				k = "many"
			}
			out = append(out, ev{"k": k, "w": 0, "vals": []int{}, "elems": elems})
		default:
			vals := []int{}
			for _, e := range els {
				vals = append(vals, rawBytes(e)...)
			}
			out = append(out, ev{"k": "raw", "w": int(t.Size()), "vals": vals, "elems": none})
		}
	}
	return out
}

// roomWriter fails when it has taken so many bytes.
type roomWriter struct {
	bytes.Buffer
	room int
}

func (w *roomWriter) Write(b []byte) (int, error) {
	if w.room < 0 {
		return w.Buffer.Write(b)
	}
	n := min(len(b), w.room-w.Len())
	w.Buffer.Write(b[:n])
	if n < len(b) {
		return n, errors.New("full")
	}
	return n, nil
}

type slowReader struct{ r io.Reader }

func (s slowReader) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1]
	}
	return s.r.Read(b)
}

func packed(v reflect.Value) []byte {
	var b bytes.Buffer
	gologix.Pack(&b, v.Interface())
	return b.Bytes()
}

func runPack(raw json.RawMessage, tr *Trace) {
	var sc kScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		infra("%v", err)
	}
	rng := rand.New(rand.NewSource(sc.Seed))
	typ := structOf(sc.Fields)
	if len(sc.Fields) == 1 && sc.Fields[0].N < 0 && predefBits[predef[sc.Fields[0].K]] != nil && sc.Seed%2 == 0 {
		typ = predef[sc.Fields[0].K] // on its own
	}
	desc := func(v reflect.Value) []ev {
		if predefBits[v.Type()] == nil {
			return fieldsOf(v)
		}
		w := reflect.New(structOf(sc.Fields)).Elem()
		w.Field(0).Set(v)
		return fieldsOf(w)
	}
	for _, t := range sc.Tests {
		v := reflect.New(typ).Elem()
		fillValue(rng, v, sc.Zero)
		reader := func(b []byte) io.Reader {
			if t.Slow {
				return slowReader{bytes.NewReader(b)}
			}
			return bytes.NewBuffer(append([]byte{}, b...))
		}
		switch t.Do {
		case "pack":
			w := &roomWriter{room: t.Room}
			tr.guard("Pack", 20*time.Second, func() {
				n, err := gologix.Pack(w, v.Interface())
				room := t.Room
				if room < 0 {
					room = 1 << 20
				}
				tr.Emit("pack", ev{"fields": desc(v), "room": room, "bytes": ints(w.Bytes()), "n": n, "ok": err == nil, "err": errStr(err)})
			})
		case "unpack", "rows":
			if tr.isDead() {
				return
			}
			tr.guard("Unpack", 20*time.Second, func() {
				n := 1
				if t.Do == "rows" {
					n = t.N
				}
				rows := reflect.MakeSlice(reflect.SliceOf(typ), n, n)
				var data []byte
				align := 1
				if t.Do == "rows" {
					align = typ.Align()
				}
				for i := 0; i < n; i++ {
					x := reflect.New(typ).Elem()
					fillValue(rng, x, sc.Zero)
					b := packed(x)
					if t.Dirty {
						fillValue(rng, x, 2)
						mask := packed(x)
						fillValue(rng, x, sc.Zero)
						b = packed(x)
						for j := range b {
							b[j] |= byte(rng.Intn(256)) & ^mask[j]
						}
					}
					for len(b)%align != 0 {
						b = append(b, byte(0xA5))
					}
					data = append(data, b...)
					if t.Used {
						fillValue(rng, rows.Index(i), 0)
					}
				}
				if t.Less > 0 {
					data = data[:max(0, len(data)-t.Less)]
				}
				for i := 0; i < t.More; i++ {
					data = append(data, 0x5A)
				}
				var dst any = rows.Interface()
				if t.Do == "unpack" {
					dst = rows.Index(0).Addr().Interface()
				} else if t.Used {
					p := reflect.New(rows.Type())
					p.Elem().Set(rows)
					dst = p.Interface()
				}
				got, err := gologix.Unpack(reader(data), dst)
				if t.Do == "unpack" {
					tr.Emit("unpack", ev{"fields": desc(rows.Index(0)), "bytes": ints(data), "n": got, "ok": err == nil, "err": errStr(err)})
					return
				}
				rs := [][]ev{}
				for i := 0; i < n; i++ {
					rs = append(rs, desc(rows.Index(i)))
				}
				tr.Emit("unpackrows", ev{"rows": rs, "bytes": ints(data), "n": got, "ok": err == nil, "err": errStr(err)})
			})
		}
	}
}
