package main

// S01-S04, S06, S07: raw originators, which share no code with the library, drive the library's server.

import (
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"math"
	"math/rand"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/danomagnum/gologix"
)

func init() {
	areas["server"] = runServer
	areaPar["server"] = 1
	areaNS["server"] = true
}

type srvTag struct {
	N, T  string
	Arr   bool
	K     int
	Seed  int
	Small bool
}
type srvStore struct {
	Path []int
	Kind string // map, nolist
	Tags []srvTag
}

// sop is one service: what it does (F), to what, with which values.
type sop struct {
	F               string // read, frag, write, fwrite, gas, sas, gaa, sym, other
	Svc             int    // of "other"
	Tag             string
	Idx             int // -1: no index
	N               int // elements asked for or written
	Eo              int // first element of a fragment
	T               string
	Seed            int
	Small           bool
	Cls, Inst, Attr int
	Start           int
	Wide            int // bytes of the index in the path, at least
}
type sreq struct {
	K                    string // reg, li, ls, nop, unk, unreg, open, close, svc, bad
	Cmd                  int    // of unk
	Via                  string // c: on a connection, u: in an unconnected send, d: unconnected, on its own
	Conn                 string
	Path                 []int
	Ops                  []sop
	Multi                bool
	Large                bool
	Propose              int // connection id which the originator proposes (0: none)
	TO                   int
	Serial, Vendor, Orig int
	Bad                  string
	Cut                  int
}
type srvPart struct {
	S     int
	Burst int
	Reqs  []sreq
	Junk  []junkMsg
}
type junkMsg struct {
	Req  sreq
	Muts [][2]int // position (negative: from the end) and value; position 100000+n: cut to n bytes; 200000+n: insert n
	Raw  []byte
	UDP  bool
}
type srvIdent struct {
	Nums   [5]int
	Serial uint32
	Name   string
}
type srvScn struct {
	Stores []srvStore
	Orders [][]string // of all names, in lower case: every order in which the tags may be numbered
	Ident  srvIdent
	Phases [][]srvPart
}

var srv *gologix.Server
var srvOnce sync.Once

func theServer() *gologix.Server {
	srvOnce.Do(func() {
		// on the host's network (no namespace) another driver may still have the ports
		var ln net.Listener
		var err error
		for i := 0; i < 3000; i++ {
			if ln, err = net.Listen("tcp", "0.0.0.0:44818"); err == nil {
				ln.Close()
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		if err != nil {
			infra("port 44818: %v", err)
		}
		srv = gologix.NewServer(gologix.NewRouter())
		srv.Logger = slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.Level(100)}))
		fail := make(chan error, 1)
		go func() { fail <- srv.Serve() }()
		for i := 0; i < 200; i++ {
			c, err := dialTimeout("127.0.0.1:44818", time.Second)
			if err == nil {
				c.Close()
				return
			}
			select {
			case err := <-fail:
				infra("server: %v", err)
			case <-time.After(20 * time.Millisecond):
			}
		}
		infra("the server does not accept connections")
	})
	return srv
}

func pathBytes(p []int) []byte {
	var b []byte
	for _, x := range p {
		b = append(b, byte(x))
	}
	return b
}
func pathText(p []int) string {
	var s []string
	for _, x := range p {
		s = append(s, strconv.Itoa(x))
	}
	return strings.Join(s, ".")
}

// a provider that does not list its tags
type noList struct{ m *gologix.MapTagProvider }

func (n noList) TagRead(tag string, qty int16) (any, error) { return n.m.TagRead(tag, qty) }
func (n noList) TagWrite(tag string, v any) error           { return n.m.TagWrite(tag, v) }
func (n noList) IORead() ([]byte, error)                    { return nil, fmt.Errorf("no") }
func (n noList) IOWrite(items []gologix.CIPItem) error      { return fmt.Errorf("no") }

func fillx(typ string, n, seed int, small bool) []byte {
	if !small {
		return fill(typ, n, seed)
	}
	var b []byte
	if typ == "STRING" {
		// strings that are easily mistaken: empty, with zeros in them and at the end, as long as can be, not text
		odd := []string{"", "\x00", "ab\x00", "a\x00b", "\xff\xfe\x80", strings.Repeat("z", 82), strings.Repeat("y", 81) + "\x00", " x ", "\u00e9t\u00e9"}
		for i := 0; i < n; i++ {
			b = append(b, strElem(odd[(seed+i)%len(odd)])...)
		}
		return b
	}
	for i := 0; i < n; i++ {
		x := (seed*7 + i*3) % 100
		switch typ {
		case "BOOL":
			b = append(b, byte(x&1))
		case "REAL":
			b = append(b, u32(math.Float32bits(float32(x)))...)
		case "LREAL":
			b = append(b, u64(math.Float64bits(float64(x)))...)
		default:
			b = append(b, u64(uint64(x))[:typeSize[typ]]...)
		}
	}
	return b
}

func rawElems(typ string, b []byte) []string {
	size := typeSize[typ]
	out := []string{}
	for i := 0; i+size <= len(b); i += size {
		out = append(out, showRaw(typ, b[i:i+size]))
	}
	return out
}

// the Go value for the raw image of a tag
func goValue(typ string, b []byte, arr bool) any {
	size := typeSize[typ]
	n := len(b) / size
	at := func(i int) []byte { return b[i*size : (i+1)*size] }
	switch typ {
	case "BOOL":
		return b[0] != 0
	case "STRING":
		s := make([]string, n)
		for i := range s {
			e := at(i)
			s[i] = string(e[4 : 4+le.Uint32(e)])
		}
		if arr {
			return s
		}
		return s[0]
	case "BYTE":
		return one(append([]byte{}, b...), arr)
	case "SINT":
		return one(each(n, func(i int) int8 { return int8(at(i)[0]) }), arr)
	case "INT":
		return one(each(n, func(i int) int16 { return int16(le.Uint16(at(i))) }), arr)
	case "UINT":
		return one(each(n, func(i int) uint16 { return le.Uint16(at(i)) }), arr)
	case "DINT":
		return one(each(n, func(i int) int32 { return int32(le.Uint32(at(i))) }), arr)
	case "UDINT":
		return one(each(n, func(i int) uint32 { return le.Uint32(at(i)) }), arr)
	case "LINT":
		return one(each(n, func(i int) int64 { return int64(le.Uint64(at(i))) }), arr)
	case "LWORD":
		return one(each(n, func(i int) uint64 { return le.Uint64(at(i)) }), arr)
	case "REAL":
		return one(each(n, func(i int) float32 { return math.Float32frombits(le.Uint32(at(i))) }), arr)
	case "LREAL":
		return one(each(n, func(i int) float64 { return math.Float64frombits(le.Uint64(at(i))) }), arr)
	}
	infra("no Go type for %s", typ)
	return nil
}
func each[T any](n int, f func(int) T) []T {
	out := make([]T, n)
	for i := range out {
		out[i] = f(i)
	}
	return out
}
func one[T any](s []T, arr bool) any {
	if arr {
		return s
	}
	return s[0]
}

func srvType(v any) string {
	switch v.(type) {
	case bool:
		return "BOOL"
	case byte:
		return "BYTE"
	case int8:
		return "SINT"
	case int16:
		return "INT"
	case uint16:
		return "UINT"
	case int32:
		return "DINT"
	case uint32:
		return "UDINT"
	case int64:
		return "LINT"
	case uint64:
		return "LWORD"
	case float32:
		return "REAL"
	case float64:
		return "LREAL"
	case string:
		return "STRING"
	}
	return fmt.Sprintf("?%T", v)
}

// the kinds of values the server's store knows
func canon(t string) string {
	switch t {
	case "USINT":
		return "BYTE"
	case "WORD":
		return "UINT"
	case "DWORD":
		return "UDINT"
	}
	return t
}

func dumpStore(m *gologix.MapTagProvider) []ev {
	m.Mutex.Lock()
	defer m.Mutex.Unlock()
	out := []ev{}
	var names []string
	for n := range m.Data {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		v := m.Data[n]
		t, arr := "", true
		vals := []string{}
		add := func(x any) {
			if u := srvType(x); t == "" {
				t = u
			} else if t != u {
				t = "MIX"
			}
			vals = append(vals, show(x))
		}
		if elems, ok := elements(v); ok {
			for _, x := range elems {
				add(x)
			}
		} else {
			arr = false
			add(v)
		}
		out = append(out, ev{"n": strings.ToLower(n), "t": t, "arr": arr, "v": vals})
	}
	return out
}

func elements(v any) ([]any, bool) {
	switch x := v.(type) {
	case []byte:
		return anys(x), true
	case []bool:
		return anys(x), true
	case []int8:
		return anys(x), true
	case []int16:
		return anys(x), true
	case []uint16:
		return anys(x), true
	case []int32:
		return anys(x), true
	case []uint32:
		return anys(x), true
	case []int64:
		return anys(x), true
	case []uint64:
		return anys(x), true
	case []float32:
		return anys(x), true
	case []float64:
		return anys(x), true
	case []string:
		return anys(x), true
	case []any:
		return x, true
	}
	return nil, false
}
func anys[T any](s []T) []any {
	out := make([]any, len(s))
	for i := range s {
		out[i] = s[i]
	}
	return out
}

// the same values in every other kind that can hold them exactly
func conversions(typ string, raw []byte) []ev {
	out := []ev{}
	if typ == "STRING" || typ == "BOOL" {
		return out
	}
	size := typeSize[typ]
	n := len(raw) / size
	for _, t := range []string{"BYTE", "SINT", "INT", "UINT", "DINT", "UDINT", "LINT", "LWORD", "REAL", "LREAL"} {
		if t == canon(typ) {
			continue
		}
		vals := []string{}
		for i := 0; i < n; i++ {
			e := raw[i*size : (i+1)*size]
			var neg bool
			var mag uint64
			switch typ {
			case "REAL", "LREAL":
				f := 0.0
				if typ == "REAL" {
					f = float64(math.Float32frombits(le.Uint32(e)))
				} else {
					f = math.Float64frombits(le.Uint64(e))
				}
				if t == "REAL" || t == "LREAL" {
					if t == "REAL" {
						if float64(float32(f)) == f {
							vals = append(vals, show(float32(f)))
						}
					} else {
						vals = append(vals, show(f))
					}
					continue
				}
				if f != math.Trunc(f) || math.Abs(f) >= 1<<53 || (f == 0 && math.Signbit(f)) {
					continue
				}
				neg, mag = f < 0, uint64(math.Abs(f))
			case "SINT", "INT", "DINT", "LINT":
				x, _ := strconv.ParseInt(showRaw(typ, e), 10, 64)
				neg = x < 0
				mag = uint64(x)
				if neg {
					mag = -mag
				}
			default:
				mag, _ = strconv.ParseUint(showRaw(typ, e), 10, 64)
			}
			bits, signed := typeSize[t]*8, t == "SINT" || t == "INT" || t == "DINT" || t == "LINT"
			switch {
			case t == "REAL":
				if mag >= 1<<24 {
					continue
				}
				f := float32(mag)
				if neg {
					f = -f
				}
				vals = append(vals, show(f))
			case t == "LREAL":
				if mag >= 1<<53 {
					continue
				}
				f := float64(mag)
				if neg {
					f = -f
				}
				vals = append(vals, show(f))
			case signed:
				lim := uint64(1) << (bits - 1)
				if neg && mag > lim || !neg && mag >= lim {
					continue
				}
				s := strconv.FormatUint(mag, 10)
				if neg && mag != 0 {
					s = "-" + s
				}
				vals = append(vals, s)
			default:
				if neg || bits < 64 && mag >= 1<<bits {
					continue
				}
				vals = append(vals, strconv.FormatUint(mag, 10))
			}
		}
		if len(vals) == n {
			out = append(out, ev{"t": t, "v": vals})
		}
	}
	return out
}

// ---------------------------------------------------------------------------------------------- one scenario

type srvRun struct {
	tr    *Trace
	sc    srvScn
	maps  []*gologix.MapTagProvider
	mu    sync.Mutex
	conns map[string]openConn
	ctx   atomic.Uint64
	seq   atomic.Uint32
	sess  map[int]*osess
}
type openConn struct{ ot, to uint32 }

// osess is a session of an originator with the server.
type osess struct {
	r       *srvRun
	id      int
	c       net.Conn
	handle  uint32
	mu      sync.Mutex
	pend    map[uint64]*pending
	closing atomic.Bool
	dead    chan bool // closed when the connection has ended
	tainted bool
}
type pending struct {
	q    sreq
	done chan bool
	once sync.Once
	svcs []int
}

var srvScns int

func runServer(raw json.RawMessage, tr *Trace) {
	var sc srvScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		infra("%v", err)
	}
	s := theServer()
	router := gologix.NewRouter()
	// connections that earlier scenarios left open are other originators' ones
	srvScns++
	for _, ph := range sc.Phases {
		for _, p := range ph {
			for i := range p.Reqs {
				p.Reqs[i].Orig += srvScns * 1000003
			}
		}
	}
	r := &srvRun{tr: tr, sc: sc, conns: map[string]openConn{}, sess: map[int]*osess{}}
	stores := []ev{}
	for _, st := range sc.Stores {
		m := &gologix.MapTagProvider{}
		tags := []ev{}
		for _, t := range st.Tags {
			k := max(t.K, 1)
			b := fillx(t.T, k, t.Seed, t.Small)
			if m.Data == nil {
				m.Data = map[string]any{}
			}
			m.Data[t.N] = goValue(t.T, b, t.Arr)
			tags = append(tags, ev{"n": strings.ToLower(t.N), "t": t.T, "arr": t.Arr, "v": rawElems(t.T, b)})
		}
		r.maps = append(r.maps, m)
		if st.Kind == "nolist" {
			router.Handle(pathBytes(st.Path), noList{m})
		} else {
			router.Handle(pathBytes(st.Path), m)
		}
		stores = append(stores, ev{"path": pathText(st.Path), "kind": st.Kind, "tags": tags})
	}
	s.Router = router
	id := sc.Ident
	for i := range id.Nums {
		s.Attributes[gologix.CIPAttribute(i+1)] = int16(id.Nums[i])
	}
	s.Attributes[6] = id.Serial
	s.Attributes[7] = id.Name
	ident := []string{}
	for i := range id.Nums {
		ident = append(ident, strconv.Itoa(int(uint16(id.Nums[i]))))
	}
	ident = append(ident, strconv.FormatUint(uint64(id.Serial), 10), id.Name, id.Name[:min(len(id.Name), 84)], id.Name[:min(len(id.Name), 82)])
	tr.Emit("setup", ev{"stores": stores, "orders": sc.Orders, "ident": ident})
	for _, ph := range sc.Phases {
		var wg sync.WaitGroup
		for _, p := range ph {
			if len(p.Junk) == 0 && r.sess[p.S] == nil {
				r.sess[p.S] = r.dial(p.S)
			}
		}
		for _, p := range ph {
			wg.Add(1)
			go func(p srvPart) {
				defer wg.Done()
				if len(p.Junk) > 0 {
					r.junk(p)
				} else if o := r.sess[p.S]; o != nil {
					o.part(p)
				}
			}(p)
		}
		wg.Wait()
	}
	for _, o := range r.sess {
		if o != nil {
			o.closing.Store(true)
			o.c.Close()
			<-o.dead
		}
	}
	// the server is still there
	c, err := dialTimeout("127.0.0.1:44818", 5*time.Second)
	if err != nil {
		tr.Emit("died", ev{"msg": err.Error()})
		return
	}
	c.Close()
	for i, m := range r.maps {
		if sc.Stores[i].Kind != "junk" {
			tr.Emit("dump", ev{"path": pathText(sc.Stores[i].Path), "tags": dumpStore(m)})
		}
	}
	tr.Emit("over", nil)
}

func (r *srvRun) dial(id int) *osess {
	r.tr.Emit("dial", ev{"s": id})
	c, err := dialTimeout("127.0.0.1:44818", 5*time.Second)
	if err != nil {
		r.tr.Emit("refused", ev{"s": id})
		return nil
	}
	o := &osess{r: r, id: id, c: c, pend: map[uint64]*pending{}, dead: make(chan bool)}
	go o.read()
	return o
}

func (o *osess) read() {
	defer close(o.dead)
	for {
		f, err := readFrame(o.c)
		if err != nil {
			if !o.closing.Load() {
				o.r.tr.Emit("closed", ev{"s": o.id})
			}
			return
		}
		o.mu.Lock()
		p := o.pend[f.Context]
		o.mu.Unlock()
		o.r.reply(o, p, f)
		if p != nil {
			p.once.Do(func() { close(p.done) })
		}
	}
}

func (o *osess) part(p srvPart) {
	var waiting []*pending
	flush := func() bool {
		for _, w := range waiting {
			if !o.await(w) {
				waiting = nil
				return false
			}
		}
		waiting = nil
		return true
	}
	for _, q := range p.Reqs {
		if o.isDead() {
			return
		}
		w := o.send(q)
		if w == nil {
			continue
		}
		waiting = append(waiting, w)
		if len(waiting) >= max(p.Burst, 1) {
			if !flush() {
				return
			}
		}
	}
	if !flush() || o.isDead() {
		return
	}
	// nothing else may have been sent before the answer to this
	if w := o.send(sreq{K: "li"}); w != nil {
		o.await(w)
	}
}

func (o *osess) isDead() bool {
	select {
	case <-o.dead:
		return true
	default:
		return false
	}
}

// await waits for the answer; false: it does not come.
func (o *osess) await(w *pending) bool {
	d := 5 * time.Second
	if w.q.K == "nop" || w.q.K == "unreg" {
		return true
	}
	if w.q.K == "bad" {
		d = 60 * time.Millisecond
	} else if o.tainted {
		d = 300 * time.Millisecond
	}
	select {
	case <-w.done:
		return true
	case <-o.dead:
		return false
	case <-time.After(d):
	}
	if w.q.K == "bad" {
		return true
	}
	o.r.tr.Emit("silent", ev{"s": o.id})
	return false
}

// ------------------------------------------------------------------------------------------------- requests

func typeHead(t string) []byte {
	if t == "STRING" {
		return []byte{0xA0, 2, 0xCE, 0x0F}
	}
	return []byte{typeCode[t], 0}
}
func words(path []byte) []byte { return cat([]byte{byte(len(path) / 2)}, path) }

func tagPath(op sop) []byte {
	var parts []any
	for _, s := range strings.Split(op.Tag, ".") {
		parts = append(parts, s)
	}
	switch {
	case op.Idx < 0:
	case op.Wide == 2 && op.Idx < 65536:
		return cat(symPath(parts...), []byte{0x29, 0}, u16(uint16(op.Idx)))
	case op.Wide == 4:
		return cat(symPath(parts...), []byte{0x2A, 0}, u32(uint32(op.Idx)))
	default:
		parts = append(parts, op.Idx)
	}
	return symPath(parts...)
}

// encode gives the service's bytes and its description.
func (op sop) encode() ([]byte, ev) {
	e := ev{"f": op.F, "svc": 0, "tag": strings.ToLower(op.Tag), "idx": op.Idx, "n": op.N, "eo": op.Eo, "t": canon(op.T), "v": []string{}, "as": []ev{},
		"cls": op.Cls, "inst": op.Inst, "attr": op.Attr, "start": op.Start}
	var b []byte
	value := func(n int) []byte {
		raw := fillx(op.T, n, op.Seed, op.Small)
		e["v"] = rawElems(op.T, raw)
		e["as"] = conversions(op.T, raw)
		return raw
	}
	switch op.F {
	case "read":
		b = cat([]byte{svcRead}, words(tagPath(op)), u16(uint16(op.N)))
	case "frag":
		b = cat([]byte{svcFragRead}, words(tagPath(op)), u16(uint16(op.N)), u32(uint32(op.Eo*typeSize[op.T])))
	case "write":
		b = cat([]byte{svcWrite}, words(tagPath(op)), typeHead(op.T), u16(uint16(op.N)), value(op.N))
	case "fwrite":
		b = cat([]byte{svcFragWrite}, words(tagPath(op)), typeHead(op.T), u16(uint16(op.N)), u32(0), value(op.N))
	case "gas":
		b = cat([]byte{svcGetAttr}, words(logical(op.Cls, op.Inst, op.Attr)))
	case "sas":
		b = cat([]byte{svcSetAttr}, words(logical(op.Cls, op.Inst, op.Attr)), typeHead(op.T), u16(1), value(1))
	case "gaa":
		b = cat([]byte{svcGAA}, words(logical(op.Cls, op.Inst, -1)))
	case "sym":
		b = cat([]byte{svcInstAttrs}, words(cat([]byte{0x20, 0x6B, 0x25, 0}, u16(uint16(op.Start)))), u16(2), u16(1), u16(2))
	case "other":
		b = cat([]byte{byte(op.Svc)}, words(logical(op.Cls, op.Inst, -1)), fill("BYTE", op.N, op.Seed))
	default:
		infra("operation %q", op.F)
	}
	e["svc"] = int(b[0])
	return b, e
}

func (r *srvRun) ctxNew(id int) uint64 {
	return 0xA7C5<<48 | uint64(id+1)<<32 | r.ctx.Add(1)
}

// encode makes the bytes of a request and its description.
func (o *osess) encode(q sreq, ctx uint64) (frame, ev, []int) {
	f := frame{Session: o.handle, Context: ctx}
	e := ev{"s": o.id, "ctx": fmt.Sprint(ctx), "k": q.K, "via": q.Via, "conn": "", "seq": 0, "path": pathText(q.Path), "ops": []ev{}, "multi": q.Multi,
		"svc": 0, "cmd": 0, "to": "0", "ser": 0, "ven": 0, "orig": "0", "api": []uint32{}}
	var svcs []int
	switch q.K {
	case "reg":
		f.Cmd, f.Session, f.Body = cmdRegister, 0, cat(u16(1), u16(0))
	case "unreg":
		f.Cmd = cmdUnregister
	case "li":
		f.Cmd = cmdListIdentity
	case "ls":
		f.Cmd = cmdListServices
	case "nop":
		f.Cmd, f.Body = 0, fill("BYTE", q.Cut, 5)
	case "unk":
		f.Cmd, f.Body = uint16(q.Cmd), fill("BYTE", q.Cut, 7)
	case "open", "close":
		f.Cmd = cmdRR
		m := q.connMgr()
		f.Body = cpf(cpfItem{ID: 0}, cpfItem{ID: 0xB2, Data: m})
		e["svc"] = int(m[0])
		e["to"], e["ser"], e["ven"], e["orig"] = fmt.Sprint(uint32(q.TO)), q.Serial, q.Vendor, fmt.Sprint(uint32(q.Orig))
		if q.K == "open" {
			ot, to := q.intervals()
			e["api"] = []uint32{ot, to}
		}
	case "svc", "bad":
		var m []byte
		var ops []ev
		if q.Multi {
			var subs [][]byte
			for _, op := range q.Ops {
				b, oe := op.encode()
				subs = append(subs, b)
				ops = append(ops, oe)
				svcs = append(svcs, oe["svc"].(int))
			}
			off := 2 + 2*len(subs)
			var table, body []byte
			for _, b := range subs {
				table = append(table, u16(uint16(off))...)
				off += len(b)
				body = append(body, b...)
			}
			m = cat([]byte{svcMulti, 2, 0x20, 2, 0x24, 1}, u16(uint16(len(subs))), table, body)
		} else {
			b, oe := q.Ops[0].encode()
			m = b
			ops = append(ops, oe)
			svcs = append(svcs, oe["svc"].(int))
		}
		e["ops"] = ops
		e["svc"] = int(m[0])
		if q.K == "bad" {
			m = q.spoilMsg(m)
			if len(m) == 0 || q.spoilsBody() {
				e["svc"] = 0 // the server cannot know it
			}
		}
		switch q.Via {
		case "c":
			f.Cmd = cmdUnit
			// "to:name" takes the originator's own id of a connection for the server's
			name, swapped := strings.CutPrefix(q.Conn, "to:")
			o.r.mu.Lock()
			oc, ok := o.r.conns[name]
			o.r.mu.Unlock()
			if swapped {
				oc.ot = oc.to
			}
			if !ok {
				oc.ot = 0x5EAD0000 + uint32(len(q.Conn))
			}
			seq := uint16(o.r.seq.Add(1) * 257)
			e["conn"], e["seq"] = fmt.Sprint(oc.ot), int(seq)
			f.Body = cpf(cpfItem{ID: 0xA1, Data: u32(oc.ot)}, cpfItem{ID: 0xB1, Data: cat(u16(seq), m)})
		case "u":
			f.Cmd = cmdRR
			route := pathBytes(q.Path)
			pad := []byte{}
			if len(m)%2 == 1 {
				pad = []byte{0}
			}
			us := cat([]byte{0x52, 2, 0x20, 6, 0x24, 1, 5, 0x99}, u16(uint16(len(m))), m, pad, []byte{byte(len(route) / 2), 0}, route)
			if q.Bad == "route" { // the route is not all there
				us = us[:len(us)-min(1+q.Cut, len(route)+1)]
			}
			f.Body = cpf(cpfItem{ID: 0}, cpfItem{ID: 0xB2, Data: us})
		default:
			f.Cmd = cmdRR
			f.Body = cpf(cpfItem{ID: 0}, cpfItem{ID: 0xB2, Data: m})
		}
		if q.K == "bad" {
			f.Body = q.spoilBody(f.Body)
		}
	default:
		infra("request %q", q.K)
	}
	e["cmd"] = int(f.Cmd)
	return f, e, svcs
}

// intervals are the packet intervals that are asked for.
func (q sreq) intervals() (uint32, uint32) {
	n := uint32(q.Serial%1000) * 1000
	return 2113537 + n, 5000000 + 2*n
}

func (q sreq) connMgr() []byte {
	id := cat(u16(uint16(q.Serial)), u16(uint16(q.Vendor)), u32(uint32(q.Orig)))
	path := cat(pathBytes(q.Path), []byte{0x20, 2, 0x24, 1})
	if q.K == "close" {
		return cat([]byte{svcFwdClose, 2, 0x20, 6, 0x24, 1, 10, 14}, id, []byte{byte(len(path) / 2), 0}, path)
	}
	head := cat([]byte{2, 0x20, 6, 0x24, 1, 7, 0xF9}, u32(uint32(q.Propose)), u32(uint32(q.TO)), id, u32(1))
	ot, to := q.intervals()
	if q.Large {
		return cat([]byte{svcLargeOpen}, head, u32(ot), u32(0x42000000|4002), u32(to), u32(0x42000000|4002), []byte{0xA3, byte(len(path) / 2)}, path)
	}
	return cat([]byte{svcFwdOpen}, head, u32(ot), u16(0x4200|504), u32(to), u16(0x4200|504), []byte{0xA3, byte(len(path) / 2)}, path)
}

// spoilMsg damages a request in a way that leaves no valid request (the lengths around it are those of what is sent).
func (q sreq) spoilMsg(m []byte) []byte {
	m = append([]byte{}, m...)
	switch q.Bad {
	case "cut":
		return m[:min(q.Cut, len(m)-1)]
	case "pathlen":
		m[1] = byte(200 + q.Cut%50)
	case "seg":
		m[2] = 0x77
	case "symlen":
		m[3] = byte(100 + q.Cut%100)
	case "type": // of a write
		at := 2 + int(m[1])*2
		m[at] = 0x42
	case "crc":
		at := 2 + int(m[1])*2
		return cat(m[:at], []byte{0xA0, 2, 0x34, 0x12}, m[at+2:])
	case "count": // more elements than there are
		at := 2 + int(m[1])*2 + 2
		if m[at-2] == 0xA0 {
			at += 2
		}
		copy(m[at:], u16(le.Uint16(m[at:])+uint16(1+q.Cut%60000)))
	case "moff":
		copy(m[8:], u16(uint16(len(m)+q.Cut)))
	case "moffneg":
		copy(m[8:], u16(uint16(0xFFF0+q.Cut%16)))
	case "mcount":
		copy(m[6:], u16(uint16(len(m)+q.Cut)))
	case "index": // a path that starts with an index
		return cat([]byte{m[0], m[1] + 1, 0x28, 1}, m[2:])
	case "nopath":
		return cat([]byte{m[0], 0}, m[2+2*int(m[1]):])
	}
	return m
}

func (q sreq) spoilsBody() bool {
	switch q.Bad {
	case "bcut", "bcutend", "items", "itemlen", "itemtype", "route":
		return true
	}
	return false
}

func (q sreq) spoilBody(b []byte) []byte {
	b = append([]byte{}, b...)
	switch q.Bad {
	case "bcut":
		return b[:min(q.Cut, len(b)-1)]
	case "bcutend":
		return b[:len(b)-1-min(q.Cut, len(b)-1)]
	case "items":
		copy(b[6:], u16([]uint16{0, 1, 3, 65535}[q.Cut%4]))
	case "itemlen":
		copy(b[10:], u16(le.Uint16(b[10:])+uint16(1+q.Cut)))
	case "itemtype":
		copy(b[8:], u16(0x1234))
	}
	return b
}

func (o *osess) send(q sreq) *pending {
	ctx := o.r.ctxNew(o.id)
	f, e, svcs := o.encode(q, ctx)
	w := &pending{q: q, done: make(chan bool), svcs: svcs}
	o.mu.Lock()
	o.pend[ctx] = w
	o.mu.Unlock()
	if q.K == "bad" {
		o.tainted = true
	}
	o.r.tr.Emit("req", e)
	o.c.SetWriteDeadline(time.Now().Add(3 * time.Second))
	if _, err := o.c.Write(f.bytes()); err != nil && !o.isDead() {
		// the reader reports the end of the connection
		select {
		case <-o.dead:
		case <-time.After(time.Second):
		}
	}
	return w
}

// --------------------------------------------------------------------------------------------------- replies

func (r *srvRun) reply(o *osess, p *pending, f frame) {
	e := ev{"s": o.id, "ctx": fmt.Sprint(f.Context), "cmd": int(f.Cmd), "handle": fmt.Sprint(f.Session), "encap": int(f.Status & 0x7fffffff),
		"conn": "", "seq": 0, "svc": 0, "st": -1, "res": []ev{}, "ot": "0", "to": "0", "ser": 0, "ven": 0, "orig": "0", "api": []uint32{}, "id": []string{}, "bare": len(f.Body) == 0}
	defer func() { r.tr.Emit("reply", e) }()
	if p == nil {
		return
	}
	switch p.q.K {
	case "reg":
		if len(f.Body) == 4 && f.Body[0] == 1 {
			e["st"] = 0
		}
		if f.Status == 0 {
			o.handle = f.Session
		}
		return
	case "li":
		items, err := parseItems(tail(f.Body, 2), 1)
		if err == nil && len(f.Body) > 2 && le.Uint16(f.Body) == 1 && items[0].ID == 0x0C {
			if id, ok := decodeListIdentity(items[0].Data); ok {
				e["id"], e["st"] = id, 0
			}
		}
		return
	case "ls":
		items, err := parseItems(tail(f.Body, 2), 1)
		if err == nil && len(f.Body) > 2 && le.Uint16(f.Body) == 1 && items[0].ID == 0x100 {
			d := items[0].Data
			if len(d) == 20 && le.Uint16(d) == 1 && le.Uint16(d[2:])&0x20 != 0 && strings.HasPrefix(string(d[4:]), "Communications") {
				e["st"] = 0
			}
		}
		return
	case "open", "close", "svc", "bad":
	default:
		e["st"] = 0
		return
	}
	items, err := parseCpf(f.Body)
	if err != nil || len(items) != 2 {
		return
	}
	d := items[1].Data
	if f.Cmd == cmdUnit {
		if items[0].ID != 0xA1 || items[1].ID != 0xB1 || len(items[0].Data) != 4 || len(d) < 2 {
			return
		}
		e["conn"] = fmt.Sprint(le.Uint32(items[0].Data))
		e["seq"] = int(le.Uint16(d))
		d = d[2:]
	} else if items[0].ID != 0 || items[1].ID != 0xB2 {
		return
	}
	svc, st, data, ok := splitReply(d)
	if !ok {
		return
	}
	e["svc"], e["st"] = svc, st
	switch p.q.K {
	case "open":
		if st != 0 {
			return
		}
		if len(data) != 26 {
			e["st"] = -1
			return
		}
		ot, to := le.Uint32(data), le.Uint32(data[4:])
		e["ot"], e["to"] = fmt.Sprint(ot), fmt.Sprint(to)
		e["ser"], e["ven"], e["orig"] = int(le.Uint16(data[8:])), int(le.Uint16(data[10:])), fmt.Sprint(le.Uint32(data[12:]))
		e["api"] = []uint32{le.Uint32(data[16:]) & 0x7fffffff, le.Uint32(data[20:]) & 0x7fffffff}
		r.mu.Lock()
		r.conns[p.q.Conn] = openConn{ot, to}
		r.mu.Unlock()
	case "close":
		if st != 0 {
			return
		}
		if len(data) < 8 {
			e["st"] = -1
			return
		}
		e["ser"], e["ven"], e["orig"] = int(le.Uint16(data)), int(le.Uint16(data[2:])), fmt.Sprint(le.Uint32(data[4:]))
	case "svc":
		if !p.q.Multi {
			if st == 0 || st == 6 {
				res := decodeOp(p.q.Ops[0], svc, st, data)
				if res["st"] == -1 {
					e["st"] = -1
				}
				e["res"] = []ev{res}
			}
			return
		}
		if st != 0 && st != 0x1E {
			return
		}
		res, ok := decodeMulti(p.q.Ops, data)
		if !ok {
			e["st"] = -1
			return
		}
		e["res"] = res
	}
}

func tail(b []byte, n int) []byte {
	if len(b) < n {
		return nil
	}
	return b[n:]
}

func splitReply(d []byte) (svc, st int, data []byte, ok bool) {
	if len(d) < 4 || len(d) < 4+2*int(d[3]) {
		return 0, -1, nil, false
	}
	return int(d[0]), int(d[2]), d[4+2*int(d[3]):], true
}

func decodeMulti(ops []sop, data []byte) ([]ev, bool) {
	if len(data) == 0 {
		return []ev{}, true
	}
	if len(data) < 2 || int(le.Uint16(data)) != len(ops) || len(data) < 2+2*len(ops) {
		return nil, false
	}
	out := []ev{}
	for i := range ops {
		a := int(le.Uint16(data[2+2*i:]))
		z := len(data)
		if i+1 < len(ops) {
			z = int(le.Uint16(data[4+2*i:]))
		}
		if a > z || z > len(data) || a < 2+2*len(ops) {
			return nil, false
		}
		svc, st, d, ok := splitReply(data[a:z])
		if !ok {
			return nil, false
		}
		out = append(out, decodeOp(ops[i], svc, st, d))
	}
	return out, true
}

// decodeOp reads the result of one service.
func decodeOp(op sop, svc, st int, data []byte) ev {
	e := ev{"svc": svc, "st": st, "t": "", "v": []string{}, "id": []string{}, "list": []ev{}}
	if st != 0 && st != 6 {
		return e
	}
	bad := func() ev { e["st"] = -1; return e }
	switch op.F {
	case "read", "frag":
		t, v, ok := decodeValue(data)
		if !ok {
			return bad()
		}
		e["t"], e["v"] = t, v
	case "write", "fwrite", "sas":
		if len(data) != 0 {
			return bad()
		}
	case "sym":
		list := []ev{}
		for len(data) > 0 {
			if len(data) < 6 {
				return bad()
			}
			inst, n := le.Uint32(data), int(le.Uint16(data[4:]))
			if len(data) < 8+n {
				return bad()
			}
			list = append(list, ev{"i": int(inst & 0x7fffffff), "n": strings.ToLower(string(data[6 : 6+n])), "t": symType(le.Uint16(data[6+n:]))})
			data = data[8+n:]
		}
		e["list"] = list
	case "gaa":
		switch op.Cls {
		case 1:
			id, rest, ok := decodeIdentity(data)
			if !ok || len(rest) != 0 {
				return bad()
			}
			e["id"] = id
		default:
			s, rest, ok := shortString(data)
			if !ok || len(rest) != 0 {
				return bad()
			}
			e["id"] = []string{s}
		}
	case "gas":
		if op.Cls != 1 {
			t, v, ok := decodeValue(data)
			if !ok {
				return bad()
			}
			e["t"], e["v"] = t, v
			break
		}
		s, ok := decodeAttr(op.Attr, data)
		if !ok {
			return bad()
		}
		e["id"] = []string{s}
	}
	return e
}

// decodeAttr reads an identity attribute, which may be preceded by a type.
func decodeAttr(attr int, d []byte) (string, bool) {
	if attr == 7 {
		if s, rest, ok := shortString(d); ok && len(rest) == 0 {
			return s, true
		}
		if len(d) == 90 {
			d = d[2:]
		}
		if len(d) == 92 { // a structure
			d = d[4:]
		}
		if len(d) == 88 && le.Uint32(d) <= 84 {
			return string(d[4 : 4+le.Uint32(d)]), true
		}
		return "", false
	}
	size := 2
	if attr == 6 {
		size = 4
	}
	if len(d) == size+2 {
		d = d[2:]
	}
	if len(d) != size {
		return "", false
	}
	if size == 4 {
		return fmt.Sprint(le.Uint32(d)), true
	}
	return fmt.Sprint(le.Uint16(d)), true
}

func shortString(d []byte) (string, []byte, bool) {
	if len(d) < 1 || len(d) < 1+int(d[0]) {
		return "", nil, false
	}
	n := 1 + int(d[0])
	return string(d[1:n]), d[n:], true
}

func decodeIdentity(d []byte) ([]string, []byte, bool) {
	if len(d) < 15 {
		return nil, nil, false
	}
	out := []string{}
	for i := 0; i < 5; i++ {
		out = append(out, fmt.Sprint(le.Uint16(d[2*i:])))
	}
	out = append(out, fmt.Sprint(le.Uint32(d[10:])))
	s, rest, ok := shortString(d[14:])
	return append(out, s), rest, ok
}

func decodeListIdentity(d []byte) ([]string, bool) {
	// protocol version, then the address in network order: family 2, port 44818, 4 bytes, 8 zeros
	if len(d) < 18 || le.Uint16(d) != 1 || d[2] != 0 || d[3] != 2 || int(d[4])<<8|int(d[5]) != 44818 || d[6] != 127 {
		return nil, false
	}
	id, rest, ok := decodeIdentity(d[18:])
	return id, ok && len(rest) == 1
}

func symType(code uint16) string {
	if code == 0x8FCE || code == 0xFF || code&0xFFF == 0xFCE {
		return "STRING"
	}
	return codeType(byte(code & 0xFF))
}

func codeType(c byte) string {
	for t, x := range typeCode {
		if x == c && t != "STRING" {
			return canon(t)
		}
	}
	return fmt.Sprintf("?%x", c)
}

func decodeValue(d []byte) (string, []string, bool) {
	if len(d) < 2 {
		return "", nil, false
	}
	if d[0] == 0xA0 {
		if len(d) < 4 || d[1] != 2 || d[2] != 0xCE || d[3] != 0x0F || (len(d)-4)%88 != 0 {
			return "", nil, false
		}
		v := []string{}
		for d = d[4:]; len(d) > 0; d = d[88:] {
			if le.Uint32(d) > 82 {
				return "", nil, false
			}
			v = append(v, showRaw("STRING", d[:88]))
		}
		return "STRING", v, true
	}
	t := codeType(d[0])
	if d[1] != 0 || t[0] == '?' || (len(d)-2)%typeSize[t] != 0 {
		return "", nil, false
	}
	return t, rawElems(t, d[2:]), true
}

// ------------------------------------------------------------------------------------------------------ junk

// junk sends damaged messages on connections of its own; nothing is expected of the server but that it serves the others.
func (r *srvRun) junk(p srvPart) {
	o := &osess{r: &srvRun{tr: &Trace{dead: true}, conns: map[string]openConn{}}, id: 50 + p.S, pend: map[uint64]*pending{}}
	rng := rand.New(rand.NewSource(int64(p.S)))
	reconnect := func() bool {
		if o.c != nil {
			o.c.Close()
		}
		c, err := dialTimeout("127.0.0.1:44818", 5*time.Second)
		if err != nil {
			r.tr.Emit("refused", ev{"s": o.id})
			return false
		}
		o.c, o.handle = c, 0
		ask := func(q sreq) (frame, bool) {
			f, _, _ := o.encode(q, rng.Uint64())
			c.SetDeadline(time.Now().Add(4 * time.Second))
			c.Write(f.bytes())
			g, err := readFrame(c)
			return g, err == nil
		}
		g, ok := ask(sreq{K: "reg"})
		if !ok {
			r.tr.Emit("silent", ev{"s": o.id})
			return false
		}
		o.handle = g.Session
		q := sreq{K: "open", Path: r.sc.Stores[0].Path, TO: 7000000 + p.S*1000 + int(rng.Int31n(1000)), Serial: int(rng.Int31n(1 << 14)), Vendor: 0x4A4A, Orig: 0x4A4A4A4A}
		g, ok = ask(q)
		if !ok {
			r.tr.Emit("silent", ev{"s": o.id})
			return false
		}
		if items, err := parseCpf(g.Body); err == nil && len(items) == 2 && len(items[1].Data) >= 12 {
			o.r.conns["j"] = openConn{le.Uint32(items[1].Data[4:]), 0}
		}
		return true
	}
	if !reconnect() {
		return
	}
	defer func() { o.c.Close() }()
	for _, j := range p.Junk {
		b := j.Raw
		if b == nil {
			f, _, _ := o.encode(j.Req, rng.Uint64())
			b = f.bytes()
		}
		for _, m := range j.Muts {
			at := m[0]
			switch {
			case at >= 200000:
				k := min(at-200000, len(b))
				b = cat(b[:k], fill("BYTE", m[1], at), b[k:])
			case at >= 100000:
				b = b[:min(at-100000, len(b))]
			default:
				if at < 0 {
					at += len(b)
				}
				if len(b) > 0 {
					b[((at%len(b))+len(b))%len(b)] = byte(m[1])
				}
			}
		}
		if j.UDP {
			if u, err := net.Dial("udp", "127.0.0.1:2222"); err == nil {
				u.Write(b)
				u.Close()
			}
			continue
		}
		o.c.SetDeadline(time.Now().Add(2 * time.Second))
		_, werr := o.c.Write(b)
		o.c.SetReadDeadline(time.Now().Add(4 * time.Millisecond))
		_, rerr := readFrame(o.c)
		var ne net.Error
		if werr != nil || rerr != nil && !(asNet(rerr, &ne) && ne.Timeout()) || rerr != nil && rng.Intn(3) > 0 {
			if !reconnect() {
				return
			}
		}
	}
}

func asNet(err error, ne *net.Error) bool {
	x, ok := err.(net.Error)
	*ne = x
	return ok
}
