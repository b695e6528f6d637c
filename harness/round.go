package main

// Round trips (E01): several of the library's clients read and write through the library's server.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/danomagnum/gologix"
)

type vTag struct {
	Name string `json:"name"`
	Type string `json:"type"`
	N    int    `json:"n"` // elements (0: a scalar)
	Seed int    `json:"seed"`
	Odd  bool   `json:"odd"` // values that are easily mistaken
}

// a part of a call: what is read or written
type vPart struct {
	mItem
	Idx  bool `json:"idx"` // an index was given
	Seed int  `json:"seed"`
	Odd  bool `json:"odd"`
}

type vOp struct {
	Do    string  `json:"do"` // read, write, again (disconnect and connect), dump
	API   string  `json:"api"`
	Parts []vPart `json:"parts"`
	Args  []any   `json:"args"`
	Must  bool    `json:"must"`
	C     int     `json:"c"` // the client
}

type vScn struct {
	Tags   []vTag    `json:"tags"`
	Path   []int     `json:"path"`
	Sizes  []int     `json:"sizes"` // of the clients' connections
	Phases [][][]vOp `json:"phases"`
}

func init() {
	areas["round"] = runRound
	areaNS["round"] = true
	areaPar["round"] = 1
}

func (p vPart) ev(write bool) ev {
	at := -1
	if p.Idx {
		at = p.At
	}
	v := []string{}
	if write {
		v = rawElems(p.Type, fillx(p.Type, p.N, p.Seed, p.Odd))
	}
	size := typeSize[p.Type]
	return ev{"tag": low(p.Base), "at": at, "n": p.N, "whole": p.N*size <= 400, "v": v}
}

func (p vPart) value() any { return goValue(p.Type, fillx(p.Type, p.N, p.Seed, p.Odd), p.Arr) }

func roundWrite(c *gologix.Client, o vOp) error {
	m := map[string]any{}
	var fs []reflect.StructField
	var vs []any
	for i, p := range o.Parts {
		v := p.value()
		m[p.Name] = v
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(v), Tag: reflect.StructTag(fmt.Sprintf("gologix:%q", p.Name))})
		vs = append(vs, v)
		if i%3 == 1 {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("X%d", i), Type: reflect.TypeOf(0)})
			vs = append(vs, i)
		}
	}
	switch o.API {
	case "single":
		return c.Write(o.Parts[0].Name, o.Parts[0].value())
	case "map":
		return c.WriteMap(m)
	case "struct", "multi":
		s := reflect.New(reflect.StructOf(fs)).Elem()
		for i, v := range vs {
			s.Field(i).Set(reflect.ValueOf(v))
		}
		return c.WriteMulti(s.Interface())
	}
	infra("api %q", o.API)
	return nil
}

func roundRead(c *gologix.Client, o vOp) ([][]string, error) {
	if o.API == "single" {
		p := o.Parts[0]
		t := goType(p.Type)
		if p.Arr {
			s := reflect.MakeSlice(reflect.SliceOf(t), p.N, p.N)
			err := c.Read(p.Name, s.Interface())
			return [][]string{showList(s.Interface(), false)}, err
		}
		q := reflect.New(t)
		err := c.Read(p.Name, q.Interface())
		return [][]string{showList(q.Elem().Interface(), false)}, err
	}
	items := []mItem{}
	for _, p := range o.Parts {
		items = append(items, p.mItem)
	}
	return multiCall(c, mScn{API: o.API, Items: items, Args: o.Args})
}

func runRound(raw json.RawMessage, tr *Trace) {
	var sc vScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		infra("%v", err)
	}
	server := theServer()
	m := &gologix.MapTagProvider{}
	for _, t := range sc.Tags {
		v := goValue(t.Type, fillx(t.Type, max(1, t.N), t.Seed, t.Odd), t.N > 0)
		if err := m.TagWrite(t.Name, v); err != nil {
			infra("%v", err)
		}
	}
	server.Router.Path = map[string]gologix.CIPEndpoint{}
	server.Router.Handle(pathBytes(sc.Path), m)
	tr.Emit("table", ev{"tags": dumpStore(m)})
	var cs []*gologix.Client
	defer func() {
		for _, c := range cs {
			c.Disconnect()
		}
	}()
	for _, size := range sc.Sizes {
		c := gologix.NewClient("127.0.0.1")
		c.Logger = quiet{}
		c.KeepAliveAutoStart = false
		c.SocketTimeout = 15 * time.Second
		p, err := gologix.ParsePath(strings.ReplaceAll(pathText(sc.Path), ".", ","))
		if err != nil {
			infra("%v", err)
		}
		c.Controller.Path = p
		if size > 0 {
			c.ConnectionSize = uint16(size)
		}
		if err := c.Connect(); err != nil {
			infra("connect: %v", err)
		}
		cs = append(cs, c)
	}
	var mu sync.Mutex
	id := 0
	for _, threads := range sc.Phases {
		ok := tr.guard("calls", 90*time.Second, func() {
			var wg sync.WaitGroup
			for _, ops := range threads {
				ops := ops
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							tr.kill("panic", ev{"in": "calls", "msg": fmt.Sprint(r)})
						}
					}()
					for _, o := range ops {
						c := cs[o.C]
						mu.Lock()
						id++
						me := id
						mu.Unlock()
						switch o.Do {
						case "again":
							if err := c.Disconnect(); err != nil {
								tr.Emit("bad", ev{"what": "disconnect", "err": errStr(err)})
							}
							if err := c.Connect(); err != nil {
								tr.Emit("bad", ev{"what": "connect", "err": errStr(err)})
							}
						case "read", "write":
							ps := []ev{}
							for _, p := range o.Parts {
								ps = append(ps, p.ev(o.Do == "write"))
							}
							tr.Emit("call", ev{"id": me, "write": o.Do == "write", "parts": ps, "c": o.C, "api": o.API})
							vals := [][]string{}
							var err error
							if o.Do == "write" {
								err = roundWrite(c, o)
							} else if r, e := roundRead(c, o); e == nil {
								vals = r
							} else {
								err = e
							}
							tr.Emit("ret", ev{"id": me, "ok": err == nil, "must": o.Must, "vals": vals, "err": errStr(err)})
						default:
							infra("op %q", o.Do)
						}
					}
				}()
			}
			wg.Wait()
		})
		if !ok {
			return
		}
		tr.Emit("end", ev{"tags": dumpStore(m)})
	}
}
