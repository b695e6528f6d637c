package main

// Sessions: connecting, disconnecting, reading, keepalive, from one or several goroutines, with a target that may
// refuse, stay silent, answer late, cut replies short or drop the connection (C01 - C05).

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/danomagnum/gologix"
)

type sesOp struct {
	Op    string `json:"op"`
	N     int    `json:"n"`
	Force bool   `json:"force"`
	Kind  string `json:"kind"`
}

type sesScn struct {
	Auto    bool      `json:"auto"`
	Size    int       `json:"size"`
	Vendor  int       `json:"vendor"`
	KA      bool      `json:"ka"`
	Period  int       `json:"period"` // keepalive period, ms
	Threads [][]sesOp `json:"threads"`
	Dec     []string  `json:"dec"`  // what happens to the k-th request
	Poll    []string  `json:"poll"` // what happens to the k-th keepalive poll
	Jitter  int       `json:"jitter"`
	Tmo     int       `json:"tmo"`
	Zero    bool      `json:"zero"` // a client made without NewClient: what is not given has defaults
}

func init() { areas["session"] = runSession }

type session struct {
	sc    *sesScn
	tr    *Trace
	p     *PLC
	c     *gologix.Client
	calls atomic.Int64
	reqs  atomic.Int64
	mu    sync.Mutex
	k, kp int
	ident bool
}

// sesBig elements still fit in a reply on the smallest connection.
const sesBig = 100

func u32s(v uint32) string { return strconv.FormatUint(uint64(v), 10) }

func (s *session) classify(q *Req) (kind, key string) {
	switch q.F.Cmd {
	case cmdRegister:
		return "reg", ""
	case cmdRR:
		switch q.Svc {
		case svcFwdOpen, svcLargeOpen:
			return "open", ""
		case svcFwdClose:
			return "close", ""
		}
		return "other", q.P
	case cmdUnit:
		switch {
		case strings.HasPrefix(q.P, "/c:119/i:"):
			return "unit", "o" + strings.SplitN(q.P[9:], "/", 2)[0]
		case q.Svc == svcGetAttr && q.P == "/c:1/i:1/a:4":
			return "unit", "ident"
		case q.Svc == svcGetAttrList && strings.HasPrefix(q.P, "/c:172"):
			return "unit", "poll"
		case q.Svc == svcMulti:
			subs, err := splitMulti(q.Data)
			if err == nil && len(subs) > 0 {
				sq := &Req{}
				sq.splitReq(subs[0])
				return "unit", strings.SplitN(strings.ToLower(sq.P), "[", 2)[0]
			}
		}
		return "unit", strings.SplitN(strings.ToLower(q.P), "[", 2)[0]
	}
	return "other", ""
}

func (s *session) hook(q *Req) *Act {
	sc, tr := s.sc, s.tr
	kind, key := s.classify(q)
	e := ev{"n": q.Conn.id, "kind": kind, "key": key, "session": u32s(q.F.Session), "ot": u32s(q.OT), "seq": int(q.Seq),
		"large": q.Svc == svcLargeOpen, "size": 0, "serial": "", "vendor": "", "orig": "", "bad": q.Bad}
	d := q.Data
	if kind == "open" && len(d) >= 36 {
		e["serial"], e["vendor"], e["orig"] = fmt.Sprint(le.Uint16(d[10:])), fmt.Sprint(le.Uint16(d[12:])), u32s(le.Uint32(d[14:]))
		if q.Svc == svcLargeOpen {
			e["size"] = int(le.Uint32(d[26:]) & 0xffff)
		} else {
			e["size"] = int(le.Uint16(d[26:]) & 0x1ff)
		}
	}
	if kind == "close" && len(d) >= 10 {
		e["serial"], e["vendor"], e["orig"] = fmt.Sprint(le.Uint16(d[2:])), fmt.Sprint(le.Uint16(d[4:])), u32s(le.Uint32(d[6:]))
	}
	tr.Emit("req", e)
	s.reqs.Add(1)
	dec := "ok"
	s.mu.Lock()
	if key == "poll" {
		if s.kp < len(sc.Poll) {
			dec = sc.Poll[s.kp]
		}
		s.kp++
	} else if key != "ident" || s.ident {
		if s.k < len(sc.Dec) {
			dec = sc.Dec[s.k]
		}
		s.k++
	}
	s.mu.Unlock()
	if sc.Jitter > 0 {
		time.Sleep(time.Duration(int(q.Seq)*7919%sc.Jitter) * time.Microsecond)
	}
	a := &Act{}
	n := q.Conn.id
	fault := func() { tr.Emit("fault", ev{"n": n, "kind": dec}) }
	switch dec {
	case "ok":
		if strings.HasPrefix(key, "o") {
			n, _ := strconv.Atoi(key[1:])
			a.Use, a.Data = true, u32(uint32(100000+n*17))
			if q.Svc == svcGetAttrList {
				a.Data = cat(u16(1), a.Data)
			}
		}
	case "refuse":
		a.Use, a.Status = true, 0x05
		switch kind {
		case "open":
			a.Status, a.Ext = 0x01, []uint16{0x0113}
		case "reg":
			a.Encap = 0x69
		case "unit":
			if q.Svc == svcMulti {
				a.Status = 0x1E
			}
		}
	case "encap":
		a.Use, a.Encap = true, 0x65
	case "silent":
		fault()
		a.Silent = true
	case "close":
		fault()
		a.Close = true
	case "cut":
		fault()
		a.Close = true
		a.Mutate = func(b []byte) []byte { return b[:len(b)-1-len(b)/4] }
	case "late": // the reply is sent when the next request arrives on this connection
		fault()
		a.Hold = 1
	case "halflate":
		fault()
		a.Hold = 31
	case "headlate":
		fault()
		a.Hold = 25
	}
	if !a.Silent && !a.Close && a.Hold == 0 {
		s.p.answeredOne(q, func(st byte, data []byte) {
			r := ev{"n": n, "kind": kind, "key": key, "st": int(st), "session": u32s(q.Conn.session), "ot": "", "val": ""}
			if a.Encap != 0 {
				r["st"] = 1000
			}
			if kind == "open" && st == 0 && a.Encap == 0 && len(data) >= 4 {
				r["ot"] = u32s(le.Uint32(data))
			}
			if kind == "unit" && st == 0 && len(data) >= 6 && (q.Svc == svcRead || q.Svc == svcFragRead) {
				r["val"] = fmt.Sprint(int32(le.Uint32(data[2:])))
			}
			if strings.HasPrefix(key, "o") && st == 0 && len(data) >= 4 {
				r["val"] = fmt.Sprint(int32(le.Uint32(data[len(data)-4:])))
			}
			if kind == "unit" && q.Svc == svcMulti && st == 0 && len(data) >= 14 {
				r["val"] = fmt.Sprint(int32(le.Uint32(data[int(le.Uint16(data[2:]))+6:])))
			}
			tr.Emit("rep", r)
		})
	}
	return a
}

func runSession(raw json.RawMessage, tr *Trace) {
	s := &session{sc: &sesScn{}, tr: tr}
	sc := s.sc
	if err := json.Unmarshal(raw, sc); err != nil {
		infra("%v", err)
	}
	p := newPLC(tr)
	s.p = p
	defer p.stop()
	p.accepted = func(c *PConn) { tr.Emit("tcp", ev{"n": c.id}) }
	p.late = func(c *PConn) { tr.Emit("late", ev{"n": c.id}) }
	p.hook = s.hook
	nt := 0
	for _, th := range sc.Threads {
		nt += len(th)
	}
	for i := 1; i <= nt+1; i++ {
		d := cat(u32(uint32(100000+i*17)), u32(uint32(200000+i*17)), u32(3), u32(4))
		for len(d) < 4*sesBig {
			d = append(d, u32(uint32(100000+i*17))...)
		}
		p.addTag(&Tag{Name: fmt.Sprintf("t%d", i), Type: 0xC4, Size: 4, Data: d})
	}
	c := newClient(p, sc.Tmo)
	if sc.Zero {
		z := &gologix.Client{Logger: quiet{}}
		z.Controller.IpAddress, z.Controller.Port, z.SocketTimeout = "127.0.0.1", p.port(), c.SocketTimeout
		c = z
	}
	s.c = c
	c.AutoConnect = sc.Auto
	if sc.Size != 0 {
		c.ConnectionSize = uint16(sc.Size)
	}
	if sc.Vendor != 0 {
		c.VendorId = uint16(sc.Vendor)
	}
	c.KeepAliveAutoStart = sc.KA
	if sc.Period == 0 {
		sc.Period = 40
	}
	c.KeepAliveFrequency = time.Duration(sc.Period) * time.Millisecond
	size := sc.Size
	if size == 0 {
		size = 4000
	}
	tr.Emit("cfg", ev{"auto": sc.Auto, "size": size, "ka": sc.KA, "vendor": fmt.Sprint(c.VendorId), "orig": u32s(c.SerialNumber)})
	// the first thread runs alone, then all the others together, then the last operations
	var wg sync.WaitGroup
	for i, th := range sc.Threads {
		if i == 0 || len(sc.Threads) == 1 {
			for _, o := range th {
				s.op(o)
			}
			continue
		}
		wg.Add(1)
		go func(th []sesOp) {
			defer wg.Done()
			for _, o := range th {
				s.op(o)
			}
		}(th)
	}
	wg.Wait()
	if tr.isDead() {
		return
	}
	s.op(sesOp{Op: "quiesce"})
	if c.Connected() {
		s.op(sesOp{Op: "disconnect"})
		s.op(sesOp{Op: "quiesce"})
	}
}

func (s *session) limit() time.Duration {
	d := 45 * time.Second
	if s.sc.Tmo > 0 {
		d += time.Duration(20*s.sc.Tmo) * time.Millisecond
	}
	return d
}

func (s *session) item(it *gologix.CIPItem, err error) (error, string) {
	if err != nil {
		return err, ""
	}
	v, err := it.Int32()
	if err == nil && len(it.Rest()) > 0 {
		return nil, "more"
	}
	return err, fmt.Sprint(v)
}

func (s *session) op(o sesOp) {
	tr, c := s.tr, s.c
	if tr.isDead() {
		return
	}
	id := int(s.calls.Load())
	run := func(op string, keys []string, extra ev, f func() (error, string)) {
		id = int(s.calls.Add(1))
		if keys == nil {
			keys = []string{}
		}
		for i := range keys {
			keys[i] = strings.ReplaceAll(keys[i], "#", fmt.Sprint(id))
		}
		e := ev{"c": id, "op": op, "keys": keys, "force": o.Force}
		var err error
		var val string
		tr.Emit("call", e)
		if !tr.guard(op, s.limit(), func() { err, val = f() }) {
			return
		}
		why := ""
		if err != nil {
			why, val = err.Error(), ""
		}
		tr.Emit("ret", ev{"c": id, "op": op, "ok": err == nil, "val": val, "why": why})
	}
	tag := func() string { return fmt.Sprintf("t%d", id) }
	switch o.Op {
	case "connect":
		run("connect", nil, nil, func() (error, string) { return c.Connect(), "" })
	case "disconnect":
		run("disconnect", nil, nil, func() (error, string) { return c.Disconnect(), "" })
	case "read":
		run("unit", []string{"t#"}, nil, func() (error, string) {
			var v int32
			err := c.Read(tag(), &v)
			return err, fmt.Sprint(v)
		})
	case "readbig":
		run("unit", []string{"t#"}, nil, func() (error, string) {
			v := make([]int32, sesBig)
			err := c.Read(tag(), v)
			for _, x := range v[4:] {
				if x != v[0] {
					return err, "mixed"
				}
			}
			return err, fmt.Sprint(v[0])
		})
	case "readmap":
		run("unit", []string{"t#"}, nil, func() (error, string) {
			m := map[string]any{tag(): int32(0)}
			err := c.ReadMap(m)
			return err, fmt.Sprint(m[tag()])
		})
	case "readlist":
		run("unit", []string{"t#"}, nil, func() (error, string) {
			v, err := c.ReadList([]string{tag()}, []any{int32(0)}, []int{1})
			if err != nil {
				return err, ""
			}
			if len(v) != 1 {
				return nil, fmt.Sprintf("%d values", len(v))
			}
			return nil, fmt.Sprint(v[0])
		})
	case "write":
		run("unit", []string{"t#"}, nil, func() (error, string) {
			return c.Write(tag(), int32(100000+id*17)), ""
		})
	case "writemap":
		run("unit", []string{"t#"}, nil, func() (error, string) {
			return c.WriteMap(map[string]any{tag(): int32(100000 + id*17)}), ""
		})
	case "attr":
		run("unit", []string{"o#"}, nil, func() (error, string) {
			it, err := c.GetAttrSingle(119, gologix.CIPInstance(id), 2)
			return s.item(it, err)
		})
	case "attrlist":
		run("plain", []string{"o#"}, nil, func() (error, string) {
			it, err := c.GetAttrList(119, gologix.CIPInstance(id), 2)
			return s.item(it, err)
		})
	case "generic":
		run("plain", []string{"o#"}, nil, func() (error, string) {
			path, err := gologix.Serialize(gologix.CIPClass(119), gologix.CIPInstance(id))
			if err != nil {
				return err, ""
			}
			it, err := c.GenericCIPMessage(0x33, path.Bytes(), []byte{1, 2, 3, 4})
			return s.item(it, err)
		})
	case "probe":
		tr.Emit("probe", ev{"conn": c.Connected()})
	case "quiesce":
		want := 0
		conn := c.Connected()
		if conn {
			want = 1
		}
		open := s.p.openConns(want, 3*time.Second)
		tr.Emit("quiesce", ev{"open": open, "conn": conn})
	case "drop": // the target closes every connection while nothing is going on
		var ids []int
		s.p.mu.Lock()
		for _, pc := range s.p.conns {
			if !pc.gone.Load() {
				ids = append(ids, pc.id)
			}
		}
		s.p.mu.Unlock()
		for _, n := range ids {
			tr.Emit("drop", ev{"n": n})
			s.p.conns[n-1].c.Close()
		}
		s.p.openConns(0, 3*time.Second)
	case "await": // until the target has received n requests
		end := time.Now().Add(10 * time.Second)
		for int(s.reqs.Load()) < o.N && time.Now().Before(end) {
			time.Sleep(time.Millisecond)
		}
	case "sleep":
		time.Sleep(time.Duration(o.N) * time.Millisecond)
		if o.N >= 50 {
			tr.Emit("slept", nil)
		}
	case "kastart":
		run("kastart", nil, nil, func() (error, string) {
			begun := make(chan bool)
			defer func() { <-begun }()
			go func() {
				close(begun)
				defer func() {
					if r := recover(); r != nil {
						tr.kill("panic", ev{"in": "KeepAlive", "msg": fmt.Sprint(r)})
					}
				}()
				c.KeepAlive()
			}()
			return nil, ""
		})
	case "kacancel":
		run("kacancel", nil, nil, func() (error, string) { return c.KeepAliveCancel(o.Force), "" })
	case "kawindow": // watch the polling for n periods
		per := time.Duration(s.sc.Period) * time.Millisecond
		tr.Emit("kabegin", nil)
		t0 := time.Now()
		time.Sleep(time.Duration(o.N) * per)
		tr.Emit("kaend", ev{"periods": int(time.Since(t0)/per) + 1, "asked": o.N})
	case "kasettle": // long enough for everything that is under way to come to an end
		time.Sleep(time.Duration(o.N) * time.Duration(s.sc.Period) * time.Millisecond)
		end := time.Now().Add(5 * time.Second)
		for c.Connected() == (o.Kind == "down") && time.Now().Before(end) {
			time.Sleep(2 * time.Millisecond)
		}
		tr.Emit("kasettled", nil)
	}
}
