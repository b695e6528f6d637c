package main

// S05: class-1 I/O of the server.  Originators on addresses of their own open connections over TCP; what the server
// sends them is taken off the wire, what they send goes to the server's UDP port.

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net"
	"runtime"
	"sync"
	"syscall"
	"time"

	"github.com/danomagnum/gologix"
)

func init() {
	areas["io"] = runIO
	areaPar["io"] = 1
	areaNS["io"] = true
}

type ioOp struct {
	Do     string
	C      string
	P      int
	S      int
	Sub    int
	To     int
	Rpi    int // microseconds
	Orpi   int
	Serial int
	Kind   string
	N      int
	Ms     int
	Extra  int
}
type ioScn struct {
	Provs []string // kinds
	Paths [][]int
	Ops   []ioOp
	Slow  int // factor for all waiting
}

type ioA struct {
	A, B, C int32
	D       [4]int32
	F       float32
}
type ioB struct {
	A int64
	F float64
	B uint32
	C int32
	D [3]uint16
	E int16
}

func (x *ioA) set(p, i int, slow bool) {
	y := func() {
		if slow {
			runtime.Gosched()
		}
	}
	x.A = int32(p*1000000 + i)
	y()
	x.B = ^x.A
	y()
	x.C = int32(i * 7919)
	y()
	for k := range x.D {
		x.D[k] = int32(i*31 + k)
		y()
	}
	x.F = float32(i) / 4
}
func (x *ioA) val(p int) int {
	i := int(x.A) - p*1000000
	var w ioA
	w.set(p, i, false)
	if w != *x || i < 0 {
		return -1
	}
	return i
}
func (x *ioA) bytes() []byte {
	return cat(u32(uint32(x.A)), u32(uint32(x.B)), u32(uint32(x.C)), u32(uint32(x.D[0])), u32(uint32(x.D[1])), u32(uint32(x.D[2])), u32(uint32(x.D[3])),
		u32(math.Float32bits(x.F)))
}
func (x *ioB) set(p, i int, slow bool) {
	x.A = int64(p)<<40 | int64(i)
	if slow {
		runtime.Gosched()
	}
	x.F = float64(i) / 8
	x.B = ^uint32(i)
	if slow {
		runtime.Gosched()
	}
	x.C = int32(-i)
	x.D = [3]uint16{uint16(i), uint16(i * 3), uint16(i * 5)}
	x.E = int16(i)
}
func (x *ioB) val(p int) int {
	i := int(x.A - int64(p)<<40)
	var w ioB
	if i < 0 || i > 1<<20 {
		return -1
	}
	w.set(p, i, false)
	if w != *x {
		return -1
	}
	return i
}
func (x *ioB) bytes() []byte {
	return cat(u64(uint64(x.A)), u64(math.Float64bits(x.F)), u32(x.B), u32(uint32(x.C)), u16(x.D[0]), u16(x.D[1]), u16(x.D[2]), u16(uint16(x.E)))
}

// ioRec is a provider that records what it is given.
type ioRec struct {
	r   *ioRun
	p   int
	mu  sync.Mutex
	in  int
	err bool
}

func (x *ioRec) TagRead(string, int16) (any, error) { return nil, errors.New("no") }
func (x *ioRec) TagWrite(string, any) error         { return errors.New("no") }
func (x *ioRec) IORead() ([]byte, error) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.err {
		return nil, errors.New("not now")
	}
	return ioImage("rec", x.p, x.in), nil
}
func (x *ioRec) IOWrite(items []gologix.CIPItem) error {
	v := -1
	if len(items) == 2 && len(items[1].Data) >= 6 {
		v = ioVal("rec", x.p, items[1].Data[6:])
	}
	x.r.tr.Emit("got", ev{"p": x.p, "v": v})
	if x.p == 0 {
		x.r.marks <- v
	}
	return nil
}

// ioImage is the wire form of image i of provider p.
func ioImage(kind string, p, i int) []byte {
	switch kind {
	case "struct":
		var x ioA
		x.set(p, i, false)
		return x.bytes()
	case "chan":
		var x ioB
		x.set(p, i, false)
		return x.bytes()
	}
	b := cat(u32(uint32(i)), u16(uint16(p)))
	for k := 0; k < 2*(i%20); k++ {
		b = append(b, byte(i+k*3))
	}
	return b
}
func ioVal(kind string, p int, d []byte) int {
	if len(d) < 6 {
		return -1
	}
	i := int(le.Uint32(d))
	switch kind {
	case "struct":
		i -= p * 1000000
	}
	if i < 0 || i > 1<<20 || string(ioImage(kind, p, i)) != string(d) {
		return -1
	}
	return i
}

type ioRun struct {
	tr    *Trace
	sc    ioScn
	marks chan int
	mu    sync.Mutex
	conns map[string]*ioConn
	sess  map[int]*ioSess
	subs  map[int]*ioSub
	provs []any
	out   *net.UDPConn
	last  int // the last value sent out
	img   []int
	mute  map[int]bool
	stop  bool
	sets  []ioSet
}

// image v was in, at provider p, at that time
type ioSet struct {
	p, v int
	at   int64
}
type ioConn struct {
	c, addr string
	p       int
	to, ot  uint32
	rpi     int
	seq     uint32
	outs    uint32
	lastImg int
	sentAt  int64
	n       int
	op      ioOp
	sess    *ioSess
	live    bool
}
type ioSess struct {
	c      net.Conn
	handle uint32
	addr   string
	ctx    uint64
}
type ioSub struct {
	ch   any
	gate chan bool
	park bool
	n    int
}

var ioRuns int

const ioTO = 0x40000000

func runIO(raw json.RawMessage, tr *Trace) {
	var sc ioScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		infra("%v", err)
	}
	if sc.Slow == 0 {
		sc.Slow = 1
	}
	ioRuns++
	s := theServer()
	router := gologix.NewRouter()
	r := &ioRun{tr: tr, sc: sc, marks: make(chan int, 1000), conns: map[string]*ioConn{}, sess: map[int]*ioSess{}, subs: map[int]*ioSub{}}
	provs := []ev{}
	for i, k := range sc.Provs {
		var p gologix.CIPEndpoint
		switch k {
		case "struct":
			var in, out ioA
			in.set(i, 0, false)
			out.set(i, 0, false)
			x := &gologix.IOProvider[ioA, ioA]{In: &in, Out: &out}
			p = x
		case "chan":
			x := &gologix.IOChannelProvider[ioB, ioB]{}
			var in ioB
			in.set(i, 0, false)
			x.SetInputData(in)
			p = x
		case "rec":
			p = &ioRec{r: r, p: i}
		case "tags":
			p = &gologix.MapTagProvider{}
		default:
			infra("provider %q", k)
		}
		r.provs = append(r.provs, p)
		r.img = append(r.img, 0)
		router.Handle(pathBytes(sc.Paths[i]), p)
		provs = append(provs, ev{"p": i, "kind": k})
	}
	s.Router = router
	ua, _ := net.ResolveUDPAddr("udp", "127.0.0.1:2222")
	out, err := net.DialUDP("udp", nil, ua)
	if err != nil {
		infra("%v", err)
	}
	r.out = out
	defer out.Close()
	tr.Emit("setup", ev{"provs": provs})
	var wg sync.WaitGroup
	var raws []*net.IPConn
	for _, a := range []string{"127.0.0.2", "127.0.0.3", "127.0.0.4"} {
		a := a
		c, err := net.ListenIP("ip4:udp", &net.IPAddr{IP: net.ParseIP(a)})
		if err != nil {
			infra("raw socket: %v", err)
		}
		c.SetReadBuffer(1 << 22)
		// the kernel tells when a packet was sent
		if sc, err := c.SyscallConn(); err == nil {
			sc.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_TIMESTAMPNS, 1) })
		}
		raws = append(raws, c)
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.receive(c, a)
		}()
	}
	for _, op := range sc.Ops {
		if tr.isDead() {
			break
		}
		r.do(op)
	}
	r.mu.Lock()
	r.stop = true
	r.mu.Unlock()
	// whatever is still open is closed, so that it does not go on
	for _, c := range r.conns {
		if c.live {
			r.request(c.sess, r.closeMsg(c.op), nil)
		}
	}
	for _, o := range r.sess {
		o.c.Close()
	}
	time.Sleep(60 * time.Millisecond)
	for _, c := range raws {
		c.Close()
	}
	wg.Wait()
	for _, x := range r.subs {
		close(x.gate)
	}
	tr.Emit("over", nil)
}

func (r *ioRun) wait(d time.Duration) { time.Sleep(d * time.Duration(r.sc.Slow)) }

func (r *ioRun) receive(c *net.IPConn, addr string) {
	buf, oob := make([]byte, 65536), make([]byte, 256)
	for {
		n, m, _, _, err := c.ReadMsgIP(buf, oob)
		if err != nil {
			return
		}
		at := int64(0)
		if cs, err := syscall.ParseSocketControlMessage(oob[:m]); err == nil {
			for _, x := range cs {
				if x.Header.Level == syscall.SOL_SOCKET && x.Header.Type == syscall.SO_TIMESTAMPNS && len(x.Data) == 16 {
					at = int64(le.Uint64(x.Data))*1e9 + int64(le.Uint64(x.Data[8:]))
				}
			}
		}
		b := buf[:n]
		if n > 20 && b[0]>>4 == 4 && int(le.Uint16([]byte{b[3], b[2]})) == n { // with the IP header
			b = b[int(b[0]&15)*4:]
		}
		if len(b) < 8 || be16(b[2:]) != 2222 {
			continue
		}
		r.packet(addr, at, b[8:])
	}
}
func be16(b []byte) int { return int(b[0])<<8 | int(b[1]) }

// at: when it was sent, in ns (0: not known)
func (r *ioRun) packet(addr string, at int64, b []byte) {
	e := ev{"addr": addr, "to": "", "seq": 0, "s16": 0, "p": -1, "v": -1, "ok": false, "min": 0}
	items, err := parseItems(tail(b, 2), 2)
	if err == nil && len(b) > 2 && le.Uint16(b) == 2 && items[0].ID == 0x8002 && len(items[0].Data) == 8 && items[1].ID == 0xB1 && len(items[1].Data) >= 2 {
		to := le.Uint32(items[0].Data)
		if to < ioTO || int(to-ioTO)/100000 != ioRuns {
			return // of an earlier scenario
		}
		e["ok"] = true
		e["to"], e["seq"] = fmt.Sprint(to), int(le.Uint32(items[0].Data[4:])&0x7fffffff)
		d := items[1].Data
		e["s16"] = int(le.Uint16(d))
		for i, k := range r.sc.Provs {
			if v := ioVal(k, i, d[2:]); v >= 0 {
				e["p"], e["v"] = i, v
			}
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.stop {
		return
	}
	for _, c := range r.conns {
		if fmt.Sprint(c.to) == e["to"] {
			// the image that was in when the packet before this one was sent
			for _, x := range r.sets {
				if x.p == c.p && x.at < c.sentAt {
					e["min"] = x.v
				}
			}
			c.sentAt = at
		}
	}
	r.tr.Emit("pkt", e)
	for _, c := range r.conns {
		if fmt.Sprint(c.to) == e["to"] {
			c.lastImg = e["v"].(int)
			c.n++
		}
	}
}

func (r *ioRun) session(id int) *ioSess {
	if o := r.sess[id]; o != nil {
		return o
	}
	addr := fmt.Sprintf("127.0.0.%d", 2+id%3)
	d := net.Dialer{Timeout: 5 * time.Second, LocalAddr: &net.TCPAddr{IP: net.ParseIP(addr)}}
	c, err := d.Dial("tcp", "127.0.0.1:44818")
	if err != nil {
		infra("dial: %v", err)
	}
	o := &ioSess{c: c, addr: addr}
	f, ok := r.exchange(o, frame{Cmd: cmdRegister, Body: cat(u16(1), u16(0))})
	if !ok {
		r.tr.Emit("silent", ev{"s": id})
	}
	o.handle = f.Session
	r.sess[id] = o
	return o
}

func (r *ioRun) exchange(o *ioSess, f frame) (frame, bool) {
	o.ctx++
	f.Context, f.Session = o.ctx, o.handle
	o.c.SetDeadline(time.Now().Add(5 * time.Second))
	if _, err := o.c.Write(f.bytes()); err != nil {
		return frame{}, false
	}
	g, err := readFrame(o.c)
	return g, err == nil && g.Context == f.Context
}

// request sends a connection manager request; d: the data of the reply, if it was accepted.
func (r *ioRun) request(o *ioSess, m []byte, d *[]byte) (answered, ok bool) {
	f, answered := r.exchange(o, frame{Cmd: cmdRR, Body: cpf(cpfItem{ID: 0}, cpfItem{ID: 0xB2, Data: m})})
	if !answered || f.Status != 0 {
		return answered, false
	}
	items, err := parseCpf(f.Body)
	if err != nil || len(items) != 2 {
		return true, false
	}
	svc, st, data, ok := splitReply(items[1].Data)
	if !ok || svc != int(m[0])|0x80 || st != 0 {
		return true, false
	}
	if d != nil {
		*d = data
	}
	return true, true
}

func (r *ioRun) triple(op ioOp) []byte {
	return cat(u16(uint16(op.Serial)), u16(0x77), u32(uint32(op.S+ioRuns*1000+5000000)))
}
func (r *ioRun) path(op ioOp) []byte {
	if op.P < 0 {
		return cat([]byte{1, 99}, []byte{0x20, 4, 0x24, 1})
	}
	return cat(pathBytes(r.sc.Paths[op.P]), []byte{0x20, 4, 0x24, 1})
}
func (r *ioRun) openMsg(op ioOp) []byte {
	path := r.path(op)
	to := uint32(0)
	if op.To > 0 {
		to = r.toID(op.To)
	}
	return cat([]byte{svcFwdOpen, 2, 0x20, 6, 0x24, 1, 7, 0xF9}, u32(uint32(op.Extra)), u32(to), r.triple(op), u32(1),
		u32(uint32(op.Orpi)), u16(0x4800|60), u32(uint32(op.Rpi)), u16(0x4800|60), []byte{1, byte(len(path) / 2)}, path)
}
func (r *ioRun) toID(k int) uint32 { return uint32(ioTO + ioRuns*100000 + k) }
func (r *ioRun) closeMsg(op ioOp) []byte {
	path := r.path(op)
	return cat([]byte{svcFwdClose, 2, 0x20, 6, 0x24, 1, 10, 14}, r.triple(op), []byte{byte(len(path) / 2), 0}, path)
}

// set puts image i in at the provider.
func (r *ioRun) set(p, i int, inplace bool) {
	r.tr.Emit("set", ev{"p": p, "v": i})
	switch x := r.provs[p].(type) {
	case *gologix.IOProvider[ioA, ioA]:
		if inplace {
			x.InMutex.Lock()
			x.In.set(p, i, true)
			x.InMutex.Unlock()
		} else {
			var in ioA
			in.set(p, i, false)
			x.SetInputData(in)
		}
	case *gologix.IOChannelProvider[ioB, ioB]:
		var in ioB
		in.set(p, i, false)
		x.SetInputData(in)
	case *ioRec:
		x.mu.Lock()
		x.in = i
		x.mu.Unlock()
	}
	r.mu.Lock()
	r.sets = append(r.sets, ioSet{p, i, time.Now().UnixNano()})
	r.mu.Unlock()
	r.tr.Emit("isset", ev{"p": p, "v": i})
}

func (r *ioRun) send(c *ioConn, ot uint32, kind string, extra int) {
	for _, x := range r.conns {
		if c != nil && x != c && x.live && x.ot == c.ot {
			return // its id is another's now
		}
	}
	r.last++
	v := r.last
	p, k, name := 0, "rec", ""
	if c != nil {
		p, k, name = c.p, r.sc.Provs[c.p], c.c
	}
	data := ioImage(k, p, v)
	good := true
	// every connection has a count of its own; some get round the end of it
	seq := uint32(v)
	if c != nil {
		c.outs++
		seq = c.outs
		if c.to%3 == 2 {
			seq += 65533
		}
	}
	id := cat(u32(ot), u32(seq))
	head := cat(u16(uint16(seq)), u32(uint32(1)))
	items := []cpfItem{{ID: 0x8002, Data: id}, {ID: 0xB1, Data: cat(head, data)}}
	switch kind {
	case "ok":
	case "idle":
		copy(items[1].Data[2:], u32(0))
	case "long":
		items[1].Data = append(items[1].Data, make([]byte, extra)...)
		good = k != "rec"
	case "short":
		items[1].Data = items[1].Data[:6+extra%len(data)]
		good = false
	case "nodata":
		items[1].Data = items[1].Data[:extra%6]
		good = false
	case "one":
		items = items[:1]
		good = false
	case "three":
		items = append(items, cpfItem{ID: 0x8000, Data: make([]byte, 4)})
		good = false
	case "type":
		items[1].ID = 0xB2
		good = false
	case "addr":
		items[0].ID = 0xA1
		items[0].Data = items[0].Data[:4]
		good = false
	}
	b := u16(uint16(len(items)))
	for _, it := range items {
		b = cat(b, u16(it.ID), u16(uint16(len(it.Data))), it.Data)
	}
	if kind == "cut" {
		b = b[:len(b)-1-extra%(len(b)-1)]
		good = false
	}
	r.tr.Emit("out", ev{"c": name, "ot": fmt.Sprint(ot), "v": v, "good": good, "free": !good && k == "rec"})
	r.out.Write(b)
}

func (r *ioRun) sync() {
	r.send(r.conns["mark"], r.conns["mark"].ot, "ok", 0)
	for {
		select {
		case v := <-r.marks:
			if v == r.last {
				// a delivery that has been made is seen
				r.wait(8 * time.Millisecond)
				r.tr.Emit("synced", nil)
				return
			}
		case <-time.After(3 * time.Second):
			r.tr.hopeless("unsynced", nil)
			return
		}
	}
}

func (r *ioRun) image(p int) {
	switch x := r.provs[p].(type) {
	case *gologix.IOProvider[ioA, ioA]:
		o := x.GetOutputData()
		r.tr.Emit("image", ev{"p": p, "v": o.val(p)})
	}
}

func (r *ioRun) do(op ioOp) {
	switch op.Do {
	case "open":
		o := r.session(op.S)
		c := &ioConn{c: op.C, addr: o.addr, p: op.P, to: r.toID(op.To), rpi: op.Rpi, op: op, sess: o, lastImg: -1}
		r.mu.Lock()
		r.conns[op.C] = c
		r.mu.Unlock()
		r.tr.Emit("open", ev{"c": op.C, "p": op.P, "to": fmt.Sprint(c.to), "addr": o.addr, "rpi": op.Rpi})
		var d []byte
		answered, ok := r.request(o, r.openMsg(op), &d)
		if ok && len(d) == 26 {
			c.ot = le.Uint32(d)
			c.live = true
			ok = le.Uint32(d[4:]) == c.to
		}
		if !answered {
			r.tr.hopeless("silent", ev{"s": op.S})
			return
		}
		r.tr.Emit("opened", ev{"c": op.C, "ok": ok, "ot": fmt.Sprint(c.ot)})
	case "close":
		c := r.conns[op.C]
		cl := c.op
		cl.Serial += op.N // another serial number than that of the connection
		cl.S += op.Extra
		r.tr.Emit("close", ev{"c": op.C, "named": op.N == 0 && op.Extra == 0})
		answered, ok := r.request(c.sess, r.closeMsg(cl), nil)
		if !answered {
			r.tr.hopeless("silent", ev{"s": op.S})
			return
		}
		if op.N == 0 && op.Extra == 0 {
			c.live = false
		}
		r.tr.Emit("closed", ev{"c": op.C, "ok": ok, "named": op.N == 0 && op.Extra == 0})
	case "drain":
		r.wait(60 * time.Millisecond)
		r.tr.Emit("quiet", nil)
		r.wait(time.Duration(op.Ms) * time.Millisecond)
	case "sleep":
		r.wait(time.Duration(op.Ms) * time.Millisecond)
	case "set":
		r.img[op.P]++
		r.set(op.P, r.img[op.P], op.Kind == "place")
	case "err":
		if x, ok := r.provs[op.P].(*ioRec); ok {
			r.tr.Emit("mute", ev{"p": op.P, "on": op.N == 1})
			x.mu.Lock()
			x.err = op.N == 1
			x.mu.Unlock()
			r.mu.Lock()
			if r.mute == nil {
				r.mute = map[int]bool{}
			}
			r.mute[op.P] = op.N == 1
			r.mu.Unlock()
		}
	case "storm": // images are put in as fast as can be
		end := time.Now().Add(time.Duration(op.Ms) * time.Millisecond)
		for k := 0; k < op.N || (op.N == 0 && time.Now().Before(end)); k++ {
			r.img[op.P]++
			r.set(op.P, r.img[op.P], op.Kind == "place" && k%2 == 0)
			if k%8 == 0 {
				time.Sleep(time.Duration(300) * time.Microsecond)
			}
		}
	case "settle":
		end := time.Now().Add(time.Second * time.Duration(2*r.sc.Slow))
		for {
			missing := ""
			r.mu.Lock()
			for _, c := range r.conns {
				if c.live && !r.mute[c.p] && c.lastImg != r.img[c.p] {
					missing = c.c
				}
			}
			r.mu.Unlock()
			if missing == "" {
				r.tr.Emit("settled", nil)
				return
			}
			if time.Now().After(end) {
				r.tr.hopeless("stale", ev{"c": missing})
				return
			}
			time.Sleep(time.Millisecond)
		}
	case "rate":
		r.mu.Lock()
		at := time.Now()
		was := map[string]int{}
		for _, c := range r.conns {
			was[c.c] = c.n
		}
		r.mu.Unlock()
		r.wait(time.Duration(op.Ms) * time.Millisecond)
		r.mu.Lock()
		us := int(time.Since(at).Microseconds())
		for _, c := range r.conns {
			if c.live && c.c != "mark" {
				r.tr.Emit("rate", ev{"c": c.c, "n": c.n - was[c.c], "us": us})
			}
		}
		r.mu.Unlock()
	case "out":
		c := r.conns[op.C]
		for k := 0; k < max(op.N, 1); k++ {
			if c == nil {
				r.send(nil, uint32(0x7EAD0000+op.Extra), op.Kind, op.Extra)
			} else {
				r.send(c, c.ot, op.Kind, op.Extra)
			}
		}
	case "watch": // outputs as fast as can be while the image is looked at
		c := r.conns[op.C]
		done := make(chan bool)
		go func() {
			for k := 0; k < op.N; k++ {
				r.send(c, c.ot, "ok", 0)
				if k%4 == 0 {
					time.Sleep(100 * time.Microsecond)
				}
			}
			close(done)
		}()
		for run := true; run; {
			select {
			case <-done:
				run = false
			default:
			}
			r.image(c.p)
			time.Sleep(20 * time.Microsecond)
		}
	case "sync":
		r.sync()
	case "image":
		r.image(op.P)
	case "sub":
		x := &ioSub{gate: make(chan bool), park: op.N == 1}
		r.subs[op.Sub] = x
		r.tr.Emit("sub", ev{"sub": op.Sub, "p": op.P, "waits": !x.park})
		ch := r.provs[op.P].(*gologix.IOChannelProvider[ioB, ioB]).GetOutputDataChannel()
		go func() {
			for {
				if x.park {
					if _, ok := <-x.gate; !ok {
						return
					}
				}
				select {
				case v := <-ch:
					r.tr.Emit("deliver", ev{"sub": op.Sub, "v": v.val(op.P)})
				case _, ok := <-x.gate:
					if !ok {
						return
					}
					x.park = true
				}
			}
		}()
		r.wait(10 * time.Millisecond)
	case "park":
		r.subs[op.Sub].gate <- true
		r.wait(5 * time.Millisecond)
		r.tr.Emit("park", ev{"sub": op.Sub})
	default:
		infra("operation %q", op.Do)
	}
}
