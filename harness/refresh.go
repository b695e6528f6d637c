package main

// Keepalive that polls tags (C15): the client lists the controller's tags when it begins to poll and after every poll
// that shows other properties than the one before.

import (
	"encoding/json"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/danomagnum/gologix"
)

type refSym struct {
	Name string `json:"name"`
	Inst int    `json:"inst"`
	Val  int32  `json:"val"`
}

type refOp struct {
	Op string `json:"op"` // connect, poll, change, midchange, leave, drop, settle, sleep
	N  int    `json:"n"`
}

type refScn struct {
	Want     bool       `json:"want"`
	Props    []int      `json:"props"`
	Period   int        `json:"period"`
	Page     int        `json:"page"`
	Program  bool       `json:"program"`
	NoProg   bool       `json:"noprog"`
	Versions [][]refSym `json:"versions"` // the tags of the controller; names with a colon are a program's
	Prop     int        `json:"prop"`     // which of the properties changes
	Refuse   int        `json:"refuse"`   // this page of a listing is refused (counted over all)
	Match    bool       `json:"match"`    // the user compares property lists, keepalive does not poll
	Readers  int        `json:"readers"`
	Hurry    bool       `json:"hurry"` // readers do not pause
	FW       int        `json:"fw"`
	Ops      []refOp    `json:"ops"`
}

func init() { areas["refresh"] = runRefresh }

type refresh struct {
	sc    *refScn
	tr    *Trace
	o     *objects
	mu    sync.Mutex
	v     int
	mid   bool
	pages int
	nreqs int
	polls int
	con   int // the connection polled last
	given int // a listing was refused on this connection
}

func (s *refresh) tags() []ev {
	out := []ev{}
	for _, t := range s.sc.Versions[s.v%len(s.sc.Versions)] {
		out = append(out, ev{"name": strings.ToLower(t.Name), "val": int(t.Val)})
	}
	return out
}

// setup makes the objects those of the current version.
func (s *refresh) setup() {
	s.o.syms, s.o.programs = nil, nil
	prog := Program{ID: 0x31, Name: "Main"}
	for _, t := range s.sc.Versions[s.v%len(s.sc.Versions)] {
		if i := strings.Index(t.Name, "."); i >= 0 {
			prog.Syms = append(prog.Syms, Sym{Inst: t.Inst, Name: t.Name[i+1:], Type: 0xC4})
			continue
		}
		s.o.syms = append(s.o.syms, Sym{Inst: t.Inst, Name: t.Name, Type: 0xC4})
	}
	if s.sc.Program {
		s.o.programs = []Program{prog}
	}
	for _, l := range [][]Sym{s.o.syms, prog.Syms} {
		sort.Slice(l, func(i, j int) bool { return l[i].Inst < l[j].Inst })
	}
}

func (s *refresh) change() {
	s.v++
	s.setup()
	s.tr.Emit("change", ev{"v": s.v, "tags": s.tags()})
}

func (s *refresh) find(path []seg) (int32, bool) {
	scope, rest := s.o.splitScope(path)
	for _, t := range s.sc.Versions[s.v%len(s.sc.Versions)] {
		name, in := t.Name, ""
		if i := strings.Index(t.Name, "."); i >= 0 {
			in, name = strings.ToLower(t.Name[:i]), t.Name[i+1:]
		}
		if in != scope {
			continue
		}
		if _, inst, ok := classInst(rest); ok && rest[0].N == 0x6B && inst == t.Inst {
			return t.Val, true
		}
		if len(rest) == 1 && rest[0].Kind == "sym" && strings.EqualFold(rest[0].Name, name) {
			return t.Val, true
		}
	}
	return 0, false
}

func (s *refresh) service(q *Req) (bool, byte, []uint16, []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := q.Conn.id
	switch {
	case q.Svc == svcGetAttrList && strings.HasPrefix(q.P, "/c:172"):
		s.nreqs++
		s.polls++
		s.con = n
		props := []int{}
		out := []byte{}
		if len(q.Data) >= 2 {
			for i := 0; i+4 <= len(q.Data); i += 2 {
				id := int(le.Uint16(q.Data[2+i:]))
				props = append(props, id)
				val, st := uint32(id*1000), uint16(0)
				if len(s.sc.Props) > 0 && id == s.sc.Props[s.sc.Prop%len(s.sc.Props)] {
					val += uint32(s.v)
				}
				if s.sc.Match {
					val = uint32(id * 1000)
					if s.v > 0 && id == s.sc.Props[(s.sc.Prop+s.v)%len(s.sc.Props)] {
						if s.v%3 == 2 {
							st = uint16(s.v)
						} else {
							val += uint32(s.v)
						}
					}
				}
				out = cat(out, u16(uint16(id)), u16(st))
				if id < 3 {
					out = cat(out, u16(uint16(val)))
				} else {
					out = cat(out, u32(val))
				}
			}
		}
		if s.sc.Match {
			return true, 0, nil, cat(u16(uint16(len(props))), out)
		}
		s.tr.Emit("poll", ev{"n": n, "props": props})
		return true, 0, nil, cat(u16(uint16(len(props))), out)
	case q.Svc == svcInstAttrs:
		s.nreqs++
		if s.mid {
			s.mid = false
			s.change()
		}
		scope, rest := s.o.splitScope(q.Path)
		class, inst, _ := classInst(rest)
		main := class == 0x6B && scope == ""
		s.pages++
		refuse := s.sc.Refuse == s.pages
		var st byte
		var ext []uint16
		var data []byte
		done := true
		if refuse {
			s.given = n
			st = 0x02
		} else {
			done, st, ext, data = s.o.serve(nil, q)
		}
		if main || refuse {
			s.tr.Emit("page", ev{"n": n, "first": !main || inst <= 1, "last": main && st == 0, "refused": refuse})
		} else {
			s.tr.Emit("side", ev{"n": n})
		}
		return done, st, ext, data
	case q.Svc == svcRead || q.Svc == svcFragRead:
		if v, ok := s.find(q.Path); ok {
			return true, 0, nil, cat([]byte{0xC4, 0}, u32(uint32(v)))
		}
		return true, 0x05, nil, nil
	}
	return false, 0, nil, nil
}

// until waits for a condition, but not forever.
func (s *refresh) until(d time.Duration, f func() bool) {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		s.mu.Lock()
		ok := f()
		s.mu.Unlock()
		if ok {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

func listOf[T any](x T) []T { return []T{x} }

// match reads the property list again and again and compares each with those before.
func (s *refresh) match(c *gologix.Client) {
	if err := c.Connect(); err != nil {
		s.tr.hopeless("connect", ev{"why": err.Error()})
		return
	}
	l, err := c.GetControllerPropList()
	lists, versions := listOf(l), []int{s.v}
	for _, op := range s.sc.Ops {
		if op.Op == "change" {
			s.mu.Lock()
			s.change()
			s.mu.Unlock()
		}
		if err == nil {
			l, err = c.GetControllerPropList()
		}
		if err != nil {
			s.tr.Emit("failed", ev{"why": err.Error()})
			return
		}
		for i := range lists {
			s.tr.Emit("match", ev{"a": versions[i], "b": s.v, "yes": lists[i].Match(l)})
		}
		lists, versions = append(lists, l), append(versions, s.v)
	}
}

func runRefresh(raw json.RawMessage, tr *Trace) {
	sc := &refScn{}
	if err := json.Unmarshal(raw, sc); err != nil {
		infra("%v", err)
	}
	s := &refresh{sc: sc, tr: tr}
	s.o = &objects{noProg: sc.NoProg}
	s.o.page = func(scope string, inst int, left []Sym) (int, byte) {
		if sc.Page > 0 && len(left) > sc.Page {
			return sc.Page, 6
		}
		return len(left), 0
	}
	s.setup()
	p := newPLC(tr)
	defer p.stop()
	p.service = s.service
	p.fw = byte(sc.FW)
	p.accepted = func(c *PConn) { tr.Emit("opened", ev{"n": c.id}) }
	c := newClient(p, 0)
	c.AutoConnect = false
	c.KeepAliveAutoStart, c.KeepAlivePollTags = !sc.Match, sc.Want
	c.KeepAliveFrequency = time.Duration(sc.Period) * time.Millisecond
	c.KeepAliveProps = nil
	for _, x := range sc.Props {
		c.KeepAliveProps = append(c.KeepAliveProps, gologix.CIPAttribute(x))
	}
	tr.Emit("cfg", ev{"want": sc.Want, "props": sc.Props, "tags": s.tags()})
	read := func(name string) {
		var v int32
		err := c.Read(name, &v)
		why := ""
		if err != nil {
			why = err.Error()
		}
		tr.Emit("read", ev{"name": strings.ToLower(name), "ok": err == nil, "val": int(v), "why": why})
	}
	var stop atomic.Bool
	var gone, up atomic.Int64 // readers under way; whether they may
	var wg sync.WaitGroup
	defer func() { stop.Store(true); wg.Wait() }()
	for i := 0; i < sc.Readers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() && !tr.isDead() {
				gone.Add(1)
				if up.Load() == 1 {
					read("keep")
				}
				gone.Add(-1)
				if !sc.Hurry || up.Load() == 0 {
					time.Sleep(3 * time.Millisecond)
				}
			}
		}()
	}
	pause := func() {
		up.Store(0)
		for gone.Load() > 0 && !tr.isDead() {
			time.Sleep(200 * time.Microsecond)
		}
	}
	polled := func(more int) {
		s.mu.Lock()
		want := s.polls + more
		s.mu.Unlock()
		end := time.Now().Add(time.Duration(20*sc.Period) * time.Millisecond)
		s.until(8*time.Second, func() bool { return s.polls >= want || s.given > 0 && s.given == s.con && time.Now().After(end) })
	}
	settle := func() {
		polled(3)
		known := []string{}
		if !tr.guard("settle", 10*time.Second, func() {
			s.mu.Lock()
			given := s.given > 0 && s.given == s.con
			s.mu.Unlock()
			if !given {
				for k := range c.KnownTags {
					known = append(known, strings.ToLower(k))
				}
			}
		}) {
			return
		}
		sort.Strings(known)
		tr.Emit("settled", ev{"known": known})
		for _, t := range sc.Versions[s.v%len(sc.Versions)] {
			read(t.Name)
		}
	}
	if sc.Match {
		if !tr.guard("match", 30*time.Second, func() { s.match(c) }) {
			return
		}
		tr.guard("disconnect", 30*time.Second, func() { _ = c.Disconnect() })
		return
	}
	for _, op := range sc.Ops {
		if tr.isDead() {
			return
		}
		switch op.Op {
		case "connect":
			var err error
			if !tr.guard("connect", 30*time.Second, func() { err = c.Connect() }) {
				return
			}
			if err != nil {
				tr.hopeless("connect", ev{"why": err.Error()})
				return
			}
			up.Store(1)
		case "poll":
			polled(1)
		case "change":
			s.mu.Lock()
			s.change()
			s.mu.Unlock()
		case "midchange": // while tags are listed, or when they are next listed
			s.mu.Lock()
			s.mid = true
			s.mu.Unlock()
			if sc.Want {
				s.until(500*time.Millisecond, func() bool { return !s.mid })
			}
			s.mu.Lock()
			if s.mid {
				s.mid = false
				s.change()
			}
			s.mu.Unlock()
		case "settle":
			settle()
		case "sleep":
			time.Sleep(time.Duration(op.N) * time.Millisecond)
		case "leave":
			settle()
			pause()
			if !tr.guard("disconnect", 30*time.Second, func() { _ = c.Disconnect() }) {
				return
			}
			time.Sleep(time.Duration(sc.Period) * time.Millisecond)
		case "drop": // the target hangs up; keepalive notices and gives up
			settle()
			pause()
			s := p.openConns(1, time.Second)
			for _, n := range s {
				p.conns[n-1].c.Close()
			}
			end := time.Now().Add(8 * time.Second)
			for c.Connected() && time.Now().Before(end) {
				time.Sleep(time.Millisecond)
			}
			time.Sleep(time.Duration(sc.Period) * time.Millisecond)
		}
	}
	settle()
	pause()
	tr.guard("disconnect", 30*time.Second, func() { _ = c.Disconnect() })
}
