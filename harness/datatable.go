package main

// Data-table buffers (C12).

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
)

type dtTag struct {
	Def  string `json:"def"`  // as it is given to the client (with placeholders, for groups and structs)
	Name string `json:"name"` // with them filled in
	Type string `json:"type"`
	N    int    `json:"n"`   // elements (0: a scalar)
	Emb  bool   `json:"emb"` // in an embedded struct
}

type dtOp struct {
	Op    string  `json:"op"`  // new add sync read remove close set
	B     int     `json:"b"`   // which buffer
	How   string  `json:"how"` // add: one ref bulk group struct; read: all typed raw
	Tags  []dtTag `json:"tags"`
	Args  []any   `json:"args"`
	Name  string  `json:"name"`
	Valid bool    `json:"valid"`
	Sts   []int   `json:"sts"` // decisions about the requests of this call
	Cut   int     `json:"cut"` // bytes missing at the end of the reply to a read (-1: all of them)
	Seed  int     `json:"seed"`
}

type dtScn struct {
	Tags []struct {
		Name string `json:"name"`
		Type string `json:"type"`
		N    int    `json:"n"` // elements (0: not an array)
		Seed int    `json:"seed"`
	} `json:"tags"`
	Ops   []dtOp `json:"ops"`
	Size  int    `json:"size"`
	First int    `json:"first"` // buffers are numbered from here
}

var cipOf = map[string]gologix.CIPType{"BOOL": gologix.CIPTypeBOOL, "SINT": gologix.CIPTypeSINT, "INT": gologix.CIPTypeINT,
	"DINT": gologix.CIPTypeDINT, "LINT": gologix.CIPTypeLINT, "USINT": gologix.CIPTypeUSINT, "UINT": gologix.CIPTypeUINT,
	"UDINT": gologix.CIPTypeUDINT, "LWORD": gologix.CIPTypeLWORD, "BYTE": gologix.CIPTypeBYTE, "WORD": gologix.CIPTypeWORD,
	"REAL": gologix.CIPTypeREAL, "LREAL": gologix.CIPTypeLREAL, "STRING": gologix.CIPTypeSTRING, "DWORD": gologix.CIPTypeDWORD,
	"NONE": gologix.CIPTypeUnknown}

func init() { areas["datatable"] = runDataTable }

func low(s string) string { return strings.ToLower(s) }

// elements names the elements a tag stands for.
func (t dtTag) elements() []string {
	if t.N == 0 || t.N == 1 {
		return []string{t.Name}
	}
	base, idx, rest := t.Name, 0, ""
	if i := strings.LastIndex(t.Name, "["); i >= 0 && strings.HasSuffix(t.Name, "]") {
		base = t.Name[:i]
		dims := t.Name[i+1 : len(t.Name)-1]
		if j := strings.LastIndex(dims, ","); j >= 0 {
			rest, dims = dims[:j+1], dims[j+1:]
		}
		fmt.Sscan(dims, &idx)
	}
	var out []string
	for i := 0; i < t.N; i++ {
		out = append(out, fmt.Sprintf("%s[%s%d]", base, rest, idx+i))
	}
	return out
}

type dtRef struct {
	name string
	v    reflect.Value // the value
}

func runDataTable(raw json.RawMessage, tr *Trace) {
	var sc dtScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		infra("%v", err)
	}
	p := newPLC(tr)
	p.fw = 20
	defer p.stop()
	o := &objects{nextBuf: sc.First}
	type named struct {
		t *Tag
		i int
	}
	elems := map[string]named{}
	vals := []ev{}
	for _, d := range sc.Tags {
		t := &Tag{Name: d.Name, Type: typeCode[d.Type], Size: typeSize[d.Type], Data: fill(d.Type, max(1, d.N), d.Seed)}
		p.addTag(t)
		types := d.Type
		for i := 0; i < max(1, d.N); i++ {
			n := low(d.Name)
			if d.N > 0 {
				n = fmt.Sprintf("%s[%d]", n, i)
			}
			elems[n] = named{t, i}
			vals = append(vals, ev{"n": n, "v": showRaw(types, t.Data[i*t.Size:(i+1)*t.Size])})
		}
	}
	tr.Emit("cfg", ev{"vals": vals})
	var op dtOp
	decide := func() byte {
		if len(op.Sts) == 0 {
			return 0
		}
		s := op.Sts[0]
		op.Sts = op.Sts[1:]
		return byte(s)
	}
	o.bufOp = func(string, int) byte { return decide() }
	p.service = func(q *Req) (bool, byte, []uint16, []byte) {
		class, inst, ok := classInst(q.Path)
		if !ok || class != 0xB2 {
			return false, 0, nil, nil
		}
		limit := q.Conn.opens[q.OT].Size
		es := []ev{}
		good := true
		if q.Svc == 0x4E && len(q.Data) >= 5 {
			d := q.Data[5:]
			for i := 0; i < int(q.Data[4]) && good; i++ {
				if len(d) < 3 || len(d) < 3+2*int(d[2]) {
					good = false
					break
				}
				l := 2 * int(d[2])
				segs, err := parsePath(d[3 : 3+l])
				good = err == nil
				es = append(es, ev{"name": low(pathStr(segs)), "size": int(le.Uint16(d))})
				d = d[3+l:]
			}
			good = good && len(d) == 0
		}
		done, st, ext, data := o.buffer(p, q, inst)
		e := ev{"inst": inst, "st": int(st)}
		switch {
		case q.Svc == 0x08:
			if st == 0 {
				e["inst"] = int(le.Uint16(data))
			}
			tr.Emit("create", e)
		case q.Svc == 0x09:
			tr.Emit("delete", e)
		case q.Svc == 0x4E && good:
			e["es"], e["len"], e["max"] = es, len(q.Item), limit
			tr.Emit("add", e)
		case q.Svc == 0x4F && len(q.Data) == 2:
			e["index"] = int(le.Uint16(q.Data))
			tr.Emit("remove", e)
		case q.Svc == svcRead && len(q.Data) == 0:
			e["fault"] = false
			if st == 0 && op.Cut != 0 && len(data) > 0 {
				n := len(data) - op.Cut
				if op.Cut < 0 || n < 0 {
					n = 0
				}
				data = data[:n]
				e["fault"] = true
			}
			tr.Emit("read", e)
		default:
			tr.Emit("strange", ev{"svc": int(q.Svc)})
		}
		return done, st, ext, data
	}
	c := newClient(p, 3000)
	if sc.Size > 0 {
		c.ConnectionSize = uint16(sc.Size)
	}
	if err := c.Connect(); err != nil {
		infra("connect: %v", err)
	}
	defer func() {
		if c.Connected() {
			_ = c.Disconnect()
		}
	}()
	bufs := map[int]*gologix.DataTableBuffer{}
	refs := map[int]map[string]reflect.Value{}
	spell := map[string]string{}
	refsOf := func(b int) []ev {
		out := []ev{}
		for n, v := range refs[b] {
			out = append(out, ev{"n": n, "v": show(v.Interface())})
		}
		sort.Slice(out, func(i, j int) bool { return out[i]["n"].(string) < out[j]["n"].(string) })
		return out
	}
	back := func(key string) string {
		if spell[low(key)] == key {
			return low(key)
		}
		return "?" + key
	}
	for _, op0 := range sc.Ops {
		op = op0
		b := op.B
		if op.Op == "set" {
			for n, e := range elems {
				if op.Name == "" || n == op.Name {
					typ := typeName(e.t)
					lo := e.i * e.t.Size
					copy(e.t.Data[lo:lo+e.t.Size], fill(typ, e.i+1, op.Seed)[lo:])
					tr.Emit("set", ev{"n": n, "v": showRaw(typ, e.t.Data[lo:lo+e.t.Size])})
				}
			}
			continue
		}
		if op.Op != "new" && bufs[b] == nil {
			continue // it could not be created
		}
		adds, groups, rs := []ev{}, []ev{}, []ev{}
		newRefs := map[string]reflect.Value{}
		var str reflect.Value
		if op.Op == "add" {
			if op.How == "struct" {
				str = dtStruct(op.Tags)
			}
			ptr := reflect.Value{}
			for i, t := range op.Tags {
				els := t.elements()
				for _, n := range els {
					adds = append(adds, ev{"name": low(n), "size": typeSize[t.Type]})
					spell[low(n)] = n
				}
				if len(els) > 1 {
					ns := []string{}
					for _, n := range els {
						ns = append(ns, low(n))
					}
					groups = append(groups, ev{"base": low(t.Name), "names": ns})
					spell[low(t.Name)] = t.Name
				}
				if op.How == "ref" {
					ptr = reflect.ValueOf(ptrOf(t.Type))
					newRefs[low(t.Name)] = ptr.Elem()
				}
				if op.How == "struct" {
					f := str.Elem().FieldByName(fmt.Sprintf("F%d", i))
					for k, n := range els {
						if t.N > 0 {
							newRefs[low(n)] = f.Index(k)
						} else {
							newRefs[low(n)] = f
						}
					}
				}
			}
			for n, v := range newRefs {
				rs = append(rs, ev{"n": n, "v": show(v.Interface())})
			}
			op.Args = fixArgs(op.Args)
			tr.Emit("begin", ev{"op": op.Op, "b": b, "name": "", "adds": adds, "groups": groups, "refs": rs, "valid": op.Valid})
			_ = ptr
			op0 = op
			_ = op0
			var err error
			ok := tr.guard("add/"+op.How, 60*time.Second, func() {
				switch op.How {
				case "one":
					err = bufs[b].AddTag(op.Tags[0].Def, cipOf[op.Tags[0].Type])
				case "ref":
					err = bufs[b].AddTagRef(op.Tags[0].Def, ptr.Interface())
				case "bulk":
					m := map[string]gologix.CIPType{}
					for _, t := range op.Tags {
						m[t.Def] = cipOf[t.Type]
					}
					err = bufs[b].AddTags(m)
				case "group":
					var defs []gologix.TagDef
					for _, t := range op.Tags {
						defs = append(defs, gologix.TagDef{Name: t.Def, Type: cipOf[t.Type], Elements: t.N})
					}
					err = bufs[b].AddTagGroup(gologix.NewTagGroup(defs...), op.Args...)
				case "struct":
					err = bufs[b].AddTaggedStruct(str.Interface(), op.Args...)
				default:
					infra("how %q", op.How)
				}
			})
			if !ok {
				return
			}
			if err == nil {
				if refs[b] == nil {
					refs[b] = map[string]reflect.Value{}
				}
				for n, v := range newRefs {
					refs[b][n] = v
				}
			}
			tr.Emit("end", ev{"op": "add", "ok": err == nil, "why": errStr(err)})
			continue
		}
		tr.Emit("begin", ev{"op": op.Op, "b": b, "name": low(op.Name), "adds": adds, "groups": groups, "refs": rs, "valid": true})
		var err error
		result := []ev{}
		end := ev{"op": op.Op}
		ok := tr.guard(op.Op, 60*time.Second, func() {
			switch op.Op {
			case "new":
				var x *gologix.DataTableBuffer
				x, err = c.NewDataTableBuffer()
				if err == nil {
					bufs[b] = x
					delete(refs, b)
				}
			case "sync":
				err = bufs[b].SyncTags()
			case "remove":
				err = bufs[b].RemoveTag(op.Name)
				if err == nil {
					delete(refs[b], low(op.Name))
				}
			case "close":
				err = bufs[b].Close()
			case "read":
				end["how"] = op.How
				switch op.How {
				case "all":
					var m map[string]any
					m, err = bufs[b].ReadAll()
					for n, v := range m {
						result = append(result, ev{"name": back(n), "val": show(v)})
					}
				case "raw":
					var m map[string][]byte
					m, err = bufs[b].ReadAllRaw()
					for n, v := range m {
						s := "?"
						if e, ok := elems[low(n)]; ok && len(v) == e.t.Size {
							s = showRaw(typeName(e.t), v)
						}
						result = append(result, ev{"name": back(n), "val": s})
					}
				case "typed":
					var r *gologix.TagGroupResult
					r, err = bufs[b].ReadAllTyped()
					if err == nil {
						for n, v := range r.Raw() {
							vs := accessor(r, n, v)
							result = append(result, ev{"name": back(n), "val": vs})
						}
					}
				default:
					infra("how %q", op.How)
				}
				if err != nil {
					result = []ev{}
				}
				end["result"], end["refs"] = result, refsOf(b)
			default:
				infra("op %q", op.Op)
			}
		})
		if !ok {
			return
		}
		end["ok"], end["why"] = err == nil, errStr(err)
		tr.Emit("end", end)
	}
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func fixArgs(a []any) []any {
	var out []any
	for _, x := range a {
		if f, ok := x.(float64); ok && f == float64(int(f)) {
			out = append(out, int(f))
		} else {
			out = append(out, x)
		}
	}
	return out
}

func typeName(t *Tag) string {
	for n, c := range typeCode {
		if c == t.Type {
			return n
		}
	}
	return "?"
}

// dtStruct makes a struct with a field for each tag; some of them are in an embedded struct.
func dtStruct(tags []dtTag) reflect.Value {
	var out, emb []reflect.StructField
	at := -1
	for i, t := range tags {
		v := reflect.TypeOf(ptrOf(t.Type)).Elem()
		if t.N > 0 {
			v = reflect.SliceOf(v)
		}
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: v, Tag: reflect.StructTag(fmt.Sprintf("gologix:%q", t.Def))}
		if t.Emb {
			if emb == nil {
				at = len(out)
			}
			emb = append(emb, f)
			continue
		}
		out = append(out, f)
		if i%3 == 1 { // a field without a tag
			out = append(out, reflect.StructField{Name: fmt.Sprintf("X%d", i), Type: reflect.TypeOf(0)})
		}
	}
	if emb != nil {
		e := reflect.StructField{Name: "E", Type: reflect.StructOf(emb), Anonymous: true}
		out = append(out[:at:at], append([]reflect.StructField{e}, out[at:]...)...)
	}
	s := reflect.New(reflect.StructOf(out))
	for i, t := range tags {
		if t.N > 0 {
			f := s.Elem().FieldByName(fmt.Sprintf("F%d", i))
			f.Set(reflect.MakeSlice(f.Type(), t.N, t.N))
		}
	}
	return s
}

// accessor reads a value with the accessor for its type, if there is one.
func accessor(r *gologix.TagGroupResult, n string, v any) []string {
	var x any
	var err error
	switch y := v.(type) {
	case string:
		x, err = r.String(n)
	case bool:
		x, err = r.Bool(n)
	case int16:
		x, err = r.Int16(n)
	case int32:
		x, err = r.Int32(n)
	case uint32:
		x, err = r.Uint32(n)
	case float32:
		x, err = r.Float32(n)
	case float64:
		x, err = r.Float64(n)
	case []any:
		l := y
		if len(y) > 0 {
			switch y[0].(type) {
			case int32:
				var z []int32
				z, err = r.Int32Slice(n)
				l = nil
				for _, e := range z {
					l = append(l, e)
				}
			case float32:
				var z []float32
				z, err = r.Float32Slice(n)
				l = nil
				for _, e := range z {
					l = append(l, e)
				}
			}
		}
		if err != nil {
			return []string{"?" + err.Error()}
		}
		out := []string{}
		for _, e := range l {
			out = append(out, show(e))
		}
		return out
	default:
		x, err = r.Value(n)
	}
	if err != nil {
		return []string{"?" + err.Error()}
	}
	return []string{show(x)}
}
