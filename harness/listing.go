package main

// Listing tags page by page (C10).

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/danomagnum/gologix"
)

type listEntry struct {
	Sym
	Hidden bool   `json:"hidden"`
	Prog   string `json:"prog"` // lower-case name of the program it names
}

type listScope struct {
	Name    string      `json:"name"` // as published; "" for the controller
	Entries []listEntry `json:"entries"`
}

// listCall is a call, or (with scopes) a change of what the target publishes.
type listCall struct {
	Scopes    []listScope `json:"scopes"`
	Templates []*Template `json:"templates"`
	Keep      bool        `json:"keep"` // by the client of the call before
	API       string      `json:"api"`
	Scope     string      `json:"scope"`
	From      int         `json:"from"`
	Progs     int         `json:"progs"` // status of the program object; -1: hang up
	Pages     [][3]any    `json:"pages"` // decisions: scope (lower case), n, status; when used up, everything
	Limit     int         `json:"limit"` // entries per page when the decisions are used up (0: all)
	Crowd     [][]string  `json:"crowd"` // what each of several goroutines does, all at the same time
	KA        bool        `json:"ka"`    // and keepalive lists the tags whenever the controller has changed, which it always has
}

type listScn struct {
	Scopes    []listScope `json:"scopes"`
	Templates []*Template `json:"templates"`
	Calls     []listCall  `json:"calls"`
	Size      int         `json:"size"`
}

func init() { areas["listing"] = runListing }

func dimsStr(d []int) string {
	for len(d) > 0 && d[len(d)-1] == 0 {
		d = d[:len(d)-1]
	}
	return fmt.Sprint(d)
}

func entryKey(prog string, e listEntry) string {
	name := e.Name
	if prog != "" {
		name = "program:" + prog + "." + name
	}
	return strings.ToLower(name)
}

func entryID(prog string, e listEntry, o *objects) string {
	udt := ""
	if t := o.templates[e.Type&0xFFF]; t != nil && e.Type&0x8000 != 0 && prog == "" { // only the controller's tags come with it
		udt = t.Name
		for _, m := range t.Members {
			udt += " " + m.Name
		}
	}
	return fmt.Sprintf("%s %d %04x %s%s", entryKey(prog, e), e.Inst, e.Type, dimsStr(e.Dims), udt)
}

func knownID(kt gologix.KnownTag) string {
	info := int(kt.Info.Type) | int(kt.Info.TypeInfo)<<8
	udt := ""
	if kt.UDT != nil {
		udt = kt.UDT.Name
		for _, m := range kt.UDT.Members {
			udt += " " + m.Name
		}
	}
	return fmt.Sprintf("%s %d %04x %s%s", strings.ToLower(kt.Name), uint32(kt.Instance), info, fmt.Sprint(kt.Array_Order), udt)
}

func allKnown(c *gologix.Client) (known, progs []string) {
	known, progs = []string{}, []string{}
	for k, kt := range c.KnownTags {
		s := knownID(kt)
		if k != strings.ToLower(kt.Name) {
			s = "key " + k + " for " + s
		}
		known = append(known, s)
	}
	for _, kp := range c.KnownPrograms {
		progs = append(progs, strings.ToLower(kp.Name))
	}
	sort.Strings(known)
	sort.Strings(progs)
	return known, progs
}

// listCrowd: several goroutines list, look up structures and use tags, and keepalive may list as well.
func listCrowd(c *gologix.Client, call *listCall, fresh bool, crowd *atomic.Int64, tr *Trace) bool {
	crowd.Add(1)
	var wg sync.WaitGroup
	var failed atomic.Bool
	why := make(chan string, 1000)
	ok := tr.guard("crowd", 60*time.Second, func() {
		for _, ops := range call.Crowd {
			wg.Add(1)
			go func(ops []string) {
				defer wg.Done()
				for _, op := range ops {
					var err error
					switch op {
					case "all":
						err = c.ListAllTags(0)
					case "progs":
						err = c.ListAllPrograms()
					case "members":
						_, err = c.ListMembers(0x124)
					case "read":
						var x []int32 = make([]int32, 3)
						err = c.Read("CrowdDint", x)
					case "multi":
						_, err = c.ReadList([]string{"CrowdDint", "CrowdText"}, []any{int32(0), ""}, []int{1, 1})
					case "table":
						var b *gologix.DataTableBuffer
						b, err = c.NewDataTableBuffer()
						if err == nil {
							err = b.AddTag("CrowdText", gologix.CIPTypeSTRING)
						}
						if err == nil {
							err = b.Close()
						}
					default:
						infra("crowd %q", op)
					}
					if err != nil {
						failed.Store(true)
						why <- op + ": " + err.Error()
					}
				}
			}(ops)
		}
		wg.Wait()
	})
	if !ok {
		return false
	}
	if call.KA {
		_ = c.KeepAliveCancel(true)
		_ = c.Disconnect() // and whatever it is still doing fails
		c.KeepAliveAutoStart = false
		time.Sleep(30 * time.Millisecond)
		if err := c.Connect(); err != nil {
			infra("connect: %v", err)
		}
	}
	crowd.Store(0)
	known, _ := allKnown(c)
	s := ""
	if failed.Load() {
		s = <-why
	}
	tr.Emit("crowd", ev{"ok": !failed.Load(), "why": s, "known": known, "ka": call.KA, "fresh": fresh})
	return true
}

func runListing(raw json.RawMessage, tr *Trace) {
	var sc listScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		infra("%v", err)
	}
	p := newPLC(tr)
	defer p.stop()
	o := &objects{}
	var scs []listScope
	publish := func(list []listScope, ts []*Template) {
		scs = list
		if len(ts) > 0 {
			o.templates = map[int]*Template{}
		}
		for _, t := range ts {
			o.templates[t.ID] = t
		}
		o.syms, o.programs = nil, nil
		scopes := []ev{}
		progNames := []string{}
		for _, s := range scs {
			var syms []Sym
			es := []ev{}
			for _, e := range s.Entries {
				syms = append(syms, e.Sym)
				es = append(es, ev{"inst": e.Inst, "key": entryKey(s.Name, e), "id": entryID(s.Name, e, o), "hidden": e.Hidden, "prog": e.Prog})
			}
			if s.Name == "" {
				o.syms = syms
			} else {
				o.programs = append(o.programs, Program{ID: len(o.programs)*150 + 3, Name: s.Name, Syms: syms})
				progNames = append(progNames, strings.ToLower(s.Name))
			}
			scopes = append(scopes, ev{"name": strings.ToLower(s.Name), "entries": es})
		}
		tr.Emit("cfg", ev{"scopes": scopes, "programs": progNames})
	}
	publish(sc.Scopes, sc.Templates)
	var call listCall
	var cur *Req
	var crowd atomic.Int64
	key := func(scope string) string { return strings.TrimPrefix(strings.ToLower(scope), "program:") }
	next := func(scope string) (n, st int, ok bool) {
		for i, d := range call.Pages {
			if d[0].(string) == scope {
				call.Pages = append(call.Pages[:i:i], call.Pages[i+1:]...)
				return int(d[1].(float64)), int(d[2].(float64)), true
			}
		}
		return 0, 0, false
	}
	o.page = func(scope string, start int, left []Sym) (int, byte) {
		n, st, ok := next(key(scope))
		if !ok {
			n = len(left)
			if call.Limit > 0 && n > call.Limit {
				n, st = call.Limit, 6
			}
		}
		n = min(n, len(left))
		if st == 0 {
			n = len(left)
		}
		// what fits in a reply
		room := 460
		if op := cur.Conn.opens[cur.OT]; op != nil {
			room = op.Size - 20
		}
		for i, used := 0, 0; i < n; i++ {
			used += len(symEntry(left[i]))
			if used > room {
				n, st = i, 6
			}
		}
		if st != 0 && st != 6 {
			n = 0
		}
		if crowd.Load() == 0 {
			tr.Emit("page", ev{"scope": key(scope), "start": start, "n": n, "st": st})
		}
		return n, byte(st)
	}
	p.addTag(mkTag(mTag{Name: "CrowdDint", Type: "DINT", N: 3, Seed: 1}))
	p.addTag(mkTag(mTag{Name: "CrowdText", Type: "STRING", N: 1, Seed: 2}))
	p.service = func(q *Req) (bool, byte, []uint16, []byte) {
		scope, rest := o.splitScope(q.Path)
		if class, _, ok := classInst(rest); ok && class == 0x68 && scope == "" && q.Svc == svcInstAttrs {
			if crowd.Load() == 0 {
				tr.Emit("progs", ev{"st": call.Progs})
			}
			if call.Progs != 0 {
				return true, byte(call.Progs), nil, nil
			}
		}
		cur = q
		return o.serve(p, q)
	}
	p.hook = func(q *Req) *Act {
		scope, rest := o.splitScope(q.Path)
		class, inst, ok := classInst(rest)
		if n := crowd.Load(); n != 0 && q.Svc == svcGetAttrList && strings.HasPrefix(q.P, "/c:172") {
			return &Act{Use: true, Data: u32(uint32(crowd.Add(1)))}
		}
		if !ok || q.Svc != svcInstAttrs || q.F.Cmd != cmdUnit {
			return nil
		}
		if class == 0x68 && call.Progs < 0 {
			tr.Emit("progs", ev{"st": -1})
			return &Act{Close: true}
		}
		if class == 0x6B {
			for _, d := range call.Pages {
				if d[0].(string) == key(scope) {
					if d[2].(float64) < 0 {
						next(key(scope))
						tr.Emit("page", ev{"scope": key(scope), "start": inst, "n": 0, "st": -1})
						return &Act{Close: true}
					}
					break
				}
			}
		}
		return nil
	}
	var c *gologix.Client
	for _, call = range sc.Calls {
		if call.Scopes != nil {
			publish(call.Scopes, call.Templates)
			continue
		}
		fresh := c == nil || !call.Keep
		if fresh {
			if c != nil && c.Connected() {
				_ = c.Disconnect()
			}
			c = newClient(p, 3000)
			if sc.Size > 0 {
				c.ConnectionSize = uint16(sc.Size)
			}
			if call.KA {
				c.KeepAliveAutoStart, c.KeepAlivePollTags, c.KeepAliveFrequency = true, true, time.Millisecond
				crowd.Store(1)
			}
		}
		if !c.Connected() {
			if err := c.Connect(); err != nil {
				infra("connect: %v", err)
			}
		}
		if call.Crowd != nil {
			if !listCrowd(c, &call, fresh, &crowd, tr) {
				return
			}
			continue
		}
		tr.Emit("call", ev{"api": call.API, "scope": call.Scope, "from": call.From, "fresh": fresh})
		var err error
		list := []string{}
		ok := tr.guard(call.API, 60*time.Second, func() {
			switch call.API {
			case "all":
				err = c.ListAllTags(uint32(call.From))
			case "progs":
				err = c.ListAllPrograms()
			case "sub":
				name := call.Scope
				for _, s := range scs {
					if strings.EqualFold(s.Name, name) {
						name = s.Name
					}
				}
				var kts []gologix.KnownTag
				kts, err = c.ListSubTags(&gologix.KnownProgram{Name: name}, uint32(call.From))
				for _, kt := range kts {
					list = append(list, knownID(kt))
				}
			}
		})
		if !ok {
			return
		}
		known, progs := allKnown(c)
		why := ""
		if err != nil {
			why = err.Error()
		}
		tr.Emit("ret", ev{"ok": err == nil, "why": why, "known": known, "list": list, "programs": progs})
	}
	if c != nil && c.Connected() {
		_ = c.Disconnect()
	}
}
