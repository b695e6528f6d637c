package main

// A scripted controller: it speaks enough EtherNet/IP and CIP to serve every request the library's client makes,
// reports what it saw, and can be told to misbehave at a chosen request.

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Tag is one value the controller stores.  Data is the raw little-endian image of all elements.
type Tag struct {
	Name   string
	Type   byte
	Size   int // bytes per element
	Struct bool
	CRC    uint16
	Data   []byte
}

type PLC struct {
	tr *Trace
	ln net.Listener

	mu    sync.Mutex
	tags  map[string]*Tag
	conns []*PConn

	fw         byte
	noLarge    bool   // refuse the large forward open
	maxSession uint32 // last session handle given out
	nextOT     uint32
	hook       func(q *Req) *Act // decides what happens to a request (nil: answer it normally)
	seen       func(q *Req)      // called for every request before it is acted on
	accepted   func(c *PConn)    // called for every TCP connection before it is served
	service    func(q *Req) (bool, byte, []uint16, []byte)
	late       func(c *PConn)
	body       map[uint16][]byte // replies to commands that carry no CIP request
	closed     atomic.Bool
	wg         sync.WaitGroup
}

type PConn struct {
	p       *PLC
	id      int
	c       net.Conn
	session uint32
	opens   map[uint32]*POpen // by OT id
	last    uint32
	held    []byte // the rest of a reply that is sent when the next request arrives
	gone    atomic.Bool
}

type POpen struct {
	OT, TO uint32
	Serial uint16
	Vendor uint16
	Orig   uint32
	Size   int
	Path   []byte
}

type Req struct {
	Conn      *PConn
	F         frame
	Connected bool
	OT        uint32
	Seq       uint16
	Svc       byte
	RawPath   []byte
	Path      []seg
	P         string // canonical path
	Data      []byte // after the path
	Item      []byte // the whole data item (with the sequence count when connected)
	Bad       string // why the request could not be parsed
	onAnswer  func(st byte, data []byte)
}

// Act says what to do with a request.
type Act struct {
	Silent  bool                // no reply
	Close   bool                // close the TCP connection (after Raw, if any)
	Raw     []byte              // send exactly these bytes
	Encap   uint32              // encapsulation status of the reply
	Status  byte                // CIP status
	Ext     []uint16            // extended status
	Data    []byte              // reply data
	Use     bool                // use Status/Ext/Data instead of executing the request
	Mutate  func([]byte) []byte // change the bytes of the reply frame
	MutItem func([]byte) []byte // change the bytes of the reply's data item
	Wait    <-chan struct{}
	Hold    int // with Hold > 0: only the first Hold-1 bytes now, the rest when the next request has arrived
}

func newPLC(tr *Trace) *PLC {
	p := &PLC{tr: tr, tags: map[string]*Tag{}, fw: 20, maxSession: 0x10, nextOT: 0x1000}
	var err error
	for i := 0; i < 50; i++ {
		p.ln, err = net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		infra("listen: %v", err)
	}
	go p.accept()
	return p
}

func (p *PLC) port() uint { return uint(p.ln.Addr().(*net.TCPAddr).Port) }

func (p *PLC) accept() {
	for {
		c, err := p.ln.Accept()
		if err != nil {
			return
		}
		p.mu.Lock()
		pc := &PConn{p: p, id: len(p.conns) + 1, c: c, opens: map[uint32]*POpen{}}
		p.conns = append(p.conns, pc)
		p.mu.Unlock()
		if p.accepted != nil {
			p.accepted(pc)
		}
		p.wg.Add(1)
		go pc.serve()
	}
}

// stop closes everything.
func (p *PLC) stop() {
	p.closed.Store(true)
	p.ln.Close()
	p.mu.Lock()
	for _, c := range p.conns {
		c.c.Close()
	}
	p.mu.Unlock()
}

// openConns waits until no more TCP connections than want are open (or the time is up) and returns the ids of
// those that are open: the peer has not closed them.
func (p *PLC) openConns(want int, d time.Duration) []int {
	end := time.Now().Add(d)
	for {
		var open []int
		p.mu.Lock()
		for _, c := range p.conns {
			if !c.gone.Load() {
				open = append(open, c.id)
			}
		}
		p.mu.Unlock()
		if len(open) <= want || time.Now().After(end) {
			if open == nil {
				open = []int{}
			}
			return open
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func (p *PLC) addTag(t *Tag) { p.tags[strings.ToLower(t.Name)] = t }

var reqCounter atomic.Int64

func (c *PConn) serve() {
	defer c.p.wg.Done()
	defer c.gone.Store(true)
	defer c.c.Close()
	for {
		f, err := readFrame(c.c)
		if err != nil {
			return
		}
		q := &Req{Conn: c, F: f}
		c.parse(q)
		if c.held != nil {
			if c.p.late != nil {
				c.p.late(c)
			}
			c.c.Write(c.held)
			c.held = nil
		}
		if c.p.seen != nil {
			c.p.seen(q)
		}
		var a *Act
		if c.p.hook != nil {
			a = c.p.hook(q)
		}
		if a == nil {
			a = &Act{}
		}
		if a.Wait != nil {
			<-a.Wait
		}
		out := []byte(nil)
		if a.Raw != nil {
			out = a.Raw
		} else if !a.Silent && !(a.Close && a.Mutate == nil) {
			out = c.answer(q, a)
			if a.Mutate != nil {
				out = a.Mutate(out)
			}
		}
		if a.Hold > 0 {
			k := a.Hold - 1
			if k > len(out)-1 {
				k = len(out) - 1
			}
			out, c.held = out[:k], out[k:]
		}
		if len(out) > 0 {
			if _, err := c.c.Write(out); err != nil {
				return
			}
		}
		if a.Close {
			return
		}
	}
}

func (c *PConn) parse(q *Req) {
	f := q.F
	switch f.Cmd {
	case cmdRR, cmdUnit:
	default:
		return
	}
	items, err := parseCpf(f.Body)
	if err != nil {
		q.Bad = err.Error()
		return
	}
	if len(items) != 2 {
		q.Bad = fmt.Sprintf("%d items", len(items))
		return
	}
	b := items[1].Data
	q.Item = b
	if f.Cmd == cmdUnit {
		q.Connected = true
		if items[0].ID != 0xA1 || len(items[0].Data) != 4 || items[1].ID != 0xB1 {
			q.Bad = "wrong item types for a connected request"
			return
		}
		q.OT = le.Uint32(items[0].Data)
		if len(b) < 2 {
			q.Bad = "short"
			return
		}
		q.Seq = le.Uint16(b)
		b = b[2:]
	} else if items[0].ID != 0 || items[1].ID != 0xB2 {
		q.Bad = "wrong item types for an unconnected request"
		return
	}
	q.splitReq(b)
}

func (q *Req) splitReq(b []byte) {
	if len(b) < 2 {
		q.Bad = "short request"
		return
	}
	q.Svc = b[0]
	n := int(b[1]) * 2
	if len(b) < 2+n {
		q.Bad = "short path"
		return
	}
	q.RawPath = b[2 : 2+n]
	var err error
	q.Path, err = parsePath(q.RawPath)
	if err != nil {
		q.Bad = err.Error()
	}
	q.P = pathStr(q.Path)
	q.Data = b[2+n:]
}

// answer builds the reply frame of a request.
func (c *PConn) answer(q *Req, a *Act) []byte {
	p := c.p
	f := frame{Cmd: q.F.Cmd, Session: q.F.Session, Context: q.F.Context, Status: a.Encap}
	switch q.F.Cmd {
	case cmdRegister:
		if a.Use && a.Encap != 0 {
			f.Body = q.F.Body
			f.Session = 0
			if q.onAnswer != nil {
				q.onAnswer(1, nil)
			}
			return f.bytes()
		}
		p.mu.Lock()
		p.maxSession++
		c.session = p.maxSession
		p.mu.Unlock()
		f.Session = c.session
		f.Body = q.F.Body
		if q.onAnswer != nil {
			q.onAnswer(0, nil)
		}
		return f.bytes()
	case cmdRR, cmdUnit:
	default:
		f.Body = p.body[q.F.Cmd]
		return f.bytes()
	}
	st, ext, data := a.Status, a.Ext, a.Data
	if !a.Use {
		p.mu.Lock()
		st, ext, data = c.exec(q)
		p.mu.Unlock()
	}
	if q.onAnswer != nil {
		q.onAnswer(st, data)
	}
	item := cat([]byte{q.Svc | 0x80, 0, st, byte(len(ext))})
	for _, x := range ext {
		item = cat(item, u16(x))
	}
	item = cat(item, data)
	if q.Connected {
		item = cat(u16(q.Seq), item)
		if a.MutItem != nil {
			item = a.MutItem(item)
		}
		to := uint32(0)
		if o := c.opens[q.OT]; o != nil {
			to = o.TO
		}
		f.Body = cpf(cpfItem{0xA1, u32(to)}, cpfItem{0xB1, item})
	} else {
		if a.MutItem != nil {
			item = a.MutItem(item)
		}
		f.Body = cpf(cpfItem{0, nil}, cpfItem{0xB2, item})
	}
	return f.bytes()
}

// exec carries out a request the way a controller does.  p.mu is held.
func (c *PConn) exec(q *Req) (byte, []uint16, []byte) {
	p := c.p
	if q.Bad != "" {
		return 0x04, nil, nil
	}
	if p.service != nil {
		if ok, st, ext, data := p.service(q); ok {
			return st, ext, data
		}
	}
	switch {
	case q.Svc == svcFwdOpen || q.Svc == svcLargeOpen:
		return c.forwardOpen(q)
	case q.Svc == svcFwdClose:
		return c.forwardClose(q)
	case q.Svc == svcGetAttr && q.P == "/c:1/i:1/a:4":
		return 0, nil, []byte{p.fw, 11}
	case q.Svc == svcGetAttrList:
		if len(q.Data) < 2 {
			return 0x13, nil, nil
		}
		n := int(le.Uint16(q.Data))
		out := u16(uint16(n))
		for i := 0; i < n; i++ {
			id := le.Uint16(q.Data[2+2*i:])
			out = cat(out, u16(id), u16(0))
			if id < 3 {
				out = cat(out, u16(id))
			} else {
				out = cat(out, u32(uint32(id)))
			}
		}
		return 0, nil, out
	case q.Svc == svcMulti && q.P == "/c:2/i:1":
		return c.multi(q)
	}
	st, data := p.tagService(q)
	return st, nil, data
}

func (c *PConn) forwardOpen(q *Req) (byte, []uint16, []byte) {
	d := q.Data
	large := q.Svc == svcLargeOpen
	if large && c.p.noLarge {
		return 0x08, nil, nil
	}
	o := &POpen{}
	if len(d) < 36 {
		return 0x13, nil, nil
	}
	o.TO = le.Uint32(d[6:])
	o.Serial = le.Uint16(d[10:])
	o.Vendor = le.Uint16(d[12:])
	o.Orig = le.Uint32(d[14:])
	pos := 26 // OT parameters
	if large {
		o.Size = int(le.Uint32(d[pos:]) & 0xffff)
		pos += 4 + 4 + 4
	} else {
		o.Size = int(le.Uint16(d[pos:]) & 0x1ff)
		pos += 2 + 4 + 2
	}
	if len(d) < pos+2 {
		return 0x13, nil, nil
	}
	n := int(d[pos+1]) * 2
	if len(d) != pos+2+n {
		return 0x13, nil, nil
	}
	o.Path = d[pos+2:]
	c.p.nextOT += 0x101
	o.OT = c.p.nextOT
	c.opens[o.OT] = o
	c.last = o.OT
	return 0, nil, cat(u32(o.OT), u32(o.TO), u16(o.Serial), u16(o.Vendor), u32(o.Orig), u32(le.Uint32(d[22:])), u32(le.Uint32(d[22:])), []byte{0, 0})
}

func (c *PConn) forwardClose(q *Req) (byte, []uint16, []byte) {
	d := q.Data
	if len(d) < 12 {
		return 0x13, nil, nil
	}
	s, v, g := le.Uint16(d[2:]), le.Uint16(d[4:]), le.Uint32(d[6:])
	for ot, o := range c.opens {
		if o.Serial == s && o.Vendor == v && o.Orig == g {
			delete(c.opens, ot)
			return 0, nil, cat(u16(s), u16(v), u32(g), []byte{0, 0})
		}
	}
	return 0x01, []uint16{0x0107}, cat(u16(s), u16(v), u32(g), []byte{0, 0})
}

func (c *PConn) multi(q *Req) (byte, []uint16, []byte) {
	subs, err := splitMulti(q.Data)
	if err != nil {
		return 0x13, nil, nil
	}
	var bodies [][]byte
	worst := byte(0)
	for _, s := range subs {
		sq := &Req{Conn: c, F: q.F, Connected: q.Connected, OT: q.OT, Seq: q.Seq}
		sq.splitReq(s)
		var st byte
		var ext []uint16
		var data []byte
		if sq.Bad != "" {
			st = 4
		} else if ok := false; c.p.service != nil {
			if ok, st, ext, data = c.p.service(sq); !ok {
				st, data = c.p.tagService(sq)
			}
		} else {
			st, data = c.p.tagService(sq)
		}
		if st != 0 {
			worst = 0x1E
		}
		b := []byte{sq.Svc | 0x80, 0, st, byte(len(ext))}
		for _, x := range ext {
			b = cat(b, u16(x))
		}
		bodies = append(bodies, cat(b, data))
	}
	return worst, nil, joinMulti(bodies)
}

// splitMulti cuts the data of a multiple service request into its embedded requests, checking the offset table.
func splitMulti(d []byte) ([][]byte, error) {
	if len(d) < 2 {
		return nil, fmt.Errorf("short multi")
	}
	n := int(le.Uint16(d))
	if len(d) < 2+2*n {
		return nil, fmt.Errorf("short multi")
	}
	var out [][]byte
	for i := 0; i < n; i++ {
		from := int(le.Uint16(d[2+2*i:]))
		to := len(d)
		if i+1 < n {
			to = int(le.Uint16(d[4+2*i:]))
		}
		if from < 2+2*n || to < from || to > len(d) {
			return nil, fmt.Errorf("bad offset")
		}
		out = append(out, d[from:to])
	}
	return out, nil
}

func joinMulti(bodies [][]byte) []byte {
	out := u16(uint16(len(bodies)))
	off := 2 + 2*len(bodies)
	var tail []byte
	for _, b := range bodies {
		out = cat(out, u16(uint16(off)))
		off += len(b)
		tail = cat(tail, b)
	}
	return cat(out, tail)
}

// joinBack is the same with the replies in the opposite order: where each of them is is said by the offsets.
func joinBack(bodies [][]byte) []byte {
	offs := make([]byte, 2*len(bodies))
	off := 2 + 2*len(bodies)
	var tail []byte
	for i := len(bodies) - 1; i >= 0; i-- {
		copy(offs[2*i:], u16(uint16(off)))
		off += len(bodies[i])
		tail = cat(tail, bodies[i])
	}
	return cat(u16(uint16(len(bodies))), offs, tail)
}

// locate resolves a symbolic path to a byte range of a tag: base name, optional element indices at the end.
func (p *PLC) locate(segs []seg) (*Tag, int, bool) {
	var idx []uint32
	end := len(segs)
	for end > 0 && segs[end-1].Kind == "elem" {
		end--
	}
	for _, s := range segs[end:] {
		idx = append(idx, s.N)
	}
	if end == 0 {
		return nil, 0, false
	}
	if t := p.tags[strings.ToLower(pathStr(segs))]; t != nil { // also a single element of an array of several dimensions
		return t, 0, true
	}
	t := p.tags[strings.ToLower(pathStr(segs[:end]))]
	if t == nil || len(idx) > 1 {
		return nil, 0, false
	}
	if len(idx) == 1 {
		return t, int(idx[0]), int(idx[0])*t.Size < len(t.Data)
	}
	return t, 0, true
}

func (t *Tag) head() []byte {
	if t.Struct {
		return cat([]byte{0xA0, 0x02}, u16(t.CRC))
	}
	return []byte{t.Type, 0}
}

func (p *PLC) tagService(q *Req) (byte, []byte) {
	t, at, ok := p.locate(q.Path)
	switch q.Svc {
	case svcRead, svcFragRead:
		if !ok {
			return 0x05, nil
		}
		if len(q.Data) < 2 || (q.Svc == svcFragRead && len(q.Data) != 6) || (q.Svc == svcRead && len(q.Data) != 2) {
			return 0x13, nil
		}
		n := int(le.Uint16(q.Data))
		lo, hi := at*t.Size, (at+n)*t.Size
		if n == 0 || hi > len(t.Data) {
			return 0x09, nil
		}
		if q.Svc == svcFragRead {
			lo += int(le.Uint32(q.Data[2:]))
			if lo > hi {
				return 0x09, nil
			}
		}
		return 0, cat(t.head(), t.Data[lo:hi])
	case svcWrite:
		if !ok {
			return 0x05, nil
		}
		typ, n, val, err := parseWrite(q.Data)
		if err != nil {
			return 0x13, nil
		}
		if (t.Struct && typ != 0xA0) || (!t.Struct && typ != t.Type) {
			return 0xFF, nil
		}
		if n == 0 || (at+n)*t.Size > len(t.Data) {
			return 0x09, nil
		}
		if len(val) != n*t.Size {
			return 0x13, nil
		}
		copy(t.Data[at*t.Size:], val)
		return 0, nil
	}
	return 0x08, nil
}

// parseWrite splits the body of a write request.
func parseWrite(d []byte) (typ byte, n int, val []byte, err error) {
	if len(d) < 4 {
		return 0, 0, nil, fmt.Errorf("short write")
	}
	if d[0] == 0xA0 {
		if len(d) < 6 || d[1] != 2 {
			return 0, 0, nil, fmt.Errorf("short struct write")
		}
		return 0xA0, int(le.Uint16(d[4:])), d[6:], nil
	}
	return d[0], int(le.Uint16(d[2:])), d[4:], nil
}

// answeredOne arranges for f to be called with the status and data of the reply to q, before it is written.
func (p *PLC) answeredOne(q *Req, f func(st byte, data []byte)) { q.onAnswer = f }
