package main

// Structure types named (K03): the declared types of kinds.go are named by the real code, and written by the real
// client to a target that records the number, the count and the bytes it gets.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/lgxtypes"
)

type nScn struct {
	Seed  int64  `json:"seed"`
	Kinds []int  `json:"kinds"` // into kinds, or -1 to -4: a predefined structure
	Do    string `json:"do"`    // name, write, map
	Zero  int    `json:"zero"`
}

func init() { areas["naming"] = runNaming; areaPar["naming"] = 8 }

var predefList = []reflect.Type{reflect.TypeOf(lgxtypes.TIMER{}), reflect.TypeOf(lgxtypes.COUNTER{}), reflect.TypeOf(lgxtypes.CONTROL{}), reflect.TypeOf(lgxtypes.STRING{})}

var numName = map[reflect.Kind]string{reflect.Int8: "SINT", reflect.Int16: "INT", reflect.Int32: "DINT", reflect.Int64: "LINT", reflect.Uint16: "UINT",
	reflect.Uint32: "UDINT", reflect.Uint64: "ULINT", reflect.Float32: "REAL", reflect.Float64: "LREAL"}

func isPredef(t reflect.Type) bool {
	for _, p := range predefList {
		if p == t {
			return true
		}
	}
	return false
}

func declOf(t reflect.Type) ev {
	fs := []ev{}
	for i := 0; i < t.NumField() && !isPredef(t); i++ {
		f := t.Field(i).Type
		n := -1
		if f.Kind() == reflect.Array {
			n, f = f.Len(), f.Elem()
		}
		switch {
		case f.Kind() == reflect.Bool:
			fs = append(fs, ev{"k": "bool", "t": "", "n": n, "sub": []ev{}})
		case isPredef(f):
			fs = append(fs, ev{"k": "known", "t": f.Name(), "n": n, "sub": []ev{}})
		case f.Kind() == reflect.Struct:
			fs = append(fs, ev{"k": "type", "t": "", "n": n, "sub": []ev{declOf(f)}})
		default:
			fs = append(fs, ev{"k": "num", "t": numName[f.Kind()], "n": n, "sub": []ev{}})
		}
	}
	return ev{"name": t.Name(), "fields": fs}
}

func runNaming(raw json.RawMessage, tr *Trace) {
	var sc nScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		infra("%v", err)
	}
	rng := rand.New(rand.NewSource(sc.Seed))
	vals := []reflect.Value{}
	for _, k := range sc.Kinds {
		t := predefList[0]
		if k < 0 {
			t = predefList[-1-k]
		} else {
			t = reflect.TypeOf(kinds[k])
		}
		v := reflect.New(t).Elem()
		fillValue(rng, v, sc.Zero)
		if sc.Do != "name" && len(packed(v)) > 3000 {
			continue // more than a message takes
		}
		vals = append(vals, v)
	}
	if sc.Do == "name" {
		for _, v := range vals {
			tr.guard("TypeEncode", 20*time.Second, func() {
				text, crc, err := gologix.TypeEncode(v.Interface())
				tr.Emit("named", ev{"type": declOf(v.Type()), "text": text, "crc": int(crc), "ok": err == nil})
			})
		}
		return
	}

	if len(vals) == 0 {
		return
	}
	p := newPLC(tr)
	defer p.stop()
	byPath := map[string]reflect.Value{}
	data := map[string]any{}
	for i, v := range vals {
		name := fmt.Sprintf("Tag%d", i)
		byPath[low(name)] = v
		data[name] = v.Interface()
	}
	p.service = func(q *Req) (bool, byte, []uint16, []byte) {
		if q.Svc != svcWrite {
			return false, 0, nil, nil
		}
		v, ok := byPath[low(q.P)]
		if !ok || len(q.Data) < 6 {
			tr.Emit("strange", ev{"path": q.P, "data": ints(q.Data)})
			return true, 0x05, nil, nil
		}
		tr.Emit("wrote", ev{"type": declOf(v.Type()), "fields": valuesOf(v), "head": ints(q.Data[:6]), "data": ints(q.Data[6:])})
		return true, 0, nil, nil
	}
	c := newClient(p, 0)
	tr.guard("Connect", 20*time.Second, func() {
		if err := c.Connect(); err != nil {
			infra("connect: %v", err)
		}
	})
	done := func(n int, err error) { tr.Emit("written", ev{"n": n, "ok": err == nil, "err": errStr(err)}) }
	switch sc.Do {
	case "write":
		for i := range vals {
			name := fmt.Sprintf("Tag%d", i)
			tr.guard("Write", 20*time.Second, func() { done(1, c.Write(name, data[name])) })
		}
	case "map":
		tr.guard("WriteMap", 20*time.Second, func() { done(len(data), c.WriteMap(data)) })
	}
	tr.guard("Disconnect", 20*time.Second, func() { c.Disconnect() })
}

// valuesOf describes the values of a structure, which may be a predefined one.
func valuesOf(v reflect.Value) []ev {
	if predefBits[v.Type()] == nil {
		return fieldsOf(v)
	}
	w := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: v.Type()}})).Elem()
	w.Field(0).Set(v)
	return fieldsOf(w)
}
