package main

// The controller's symbol, program and template objects, and its data-table buffers.

import (
	"strings"
)

type Sym struct {
	Inst int    `json:"inst"`
	Name string `json:"name"`
	Type int    `json:"type"`
	Dims []int  `json:"dims"`
}

type Program struct {
	ID   int    `json:"id"`
	Name string `json:"name"`
	Syms []Sym  `json:"syms"`
}

type Member struct {
	Name string `json:"name"`
	Info int    `json:"info"`
	Type int    `json:"type"`
	Off  int    `json:"off"`
}

type Template struct {
	ID      int      `json:"id"`
	Name    string   `json:"name"`
	Tail    string   `json:"tail"` // what follows the name, after a semicolon
	Size    int      `json:"size"` // bytes of the structure
	Handle  int      `json:"handle"`
	Members []Member `json:"members"`
	Extra   int      `json:"extra"` // bytes after the member names
}

// image is the definition as the controller stores it.
func (t *Template) image() []byte {
	var b []byte
	for _, m := range t.Members {
		b = cat(b, u16(uint16(m.Info)), u16(uint16(m.Type)), u32(uint32(m.Off)))
	}
	b = cat(b, []byte(t.Name))
	if t.Tail != "" {
		b = cat(b, []byte(";"+t.Tail))
	}
	b = append(b, 0)
	for _, m := range t.Members {
		b = cat(b, []byte(m.Name), []byte{0})
	}
	return cat(b, make([]byte, t.Extra))
}

// words is the size the controller reports for the definition, in 32-bit words: 23 bytes more than the image.
func (t *Template) words() int { return (len(t.image()) + 23 + 3) / 4 }

// wire is what the controller sends for the definition: the image, padded to what was announced.
func (t *Template) wire() []byte {
	b := t.image()
	return cat(b, make([]byte, t.words()*4-23-len(b)))
}

type bufEntry struct {
	Index int
	Size  int
	Path  string
	Batch int
	Tag   *Tag
	At    int
}

type dtBuffer struct {
	ID      int
	Next    int // index of the next entry
	Batch   int
	Entries []bufEntry
}

type objects struct {
	syms      []Sym
	programs  []Program
	noProg    bool // the program object is not supported
	templates map[int]*Template
	bufs      map[int]*dtBuffer
	nextBuf   int
	// page decides about one page of a symbol list: how many of the entries from start on, and the status
	page func(scope string, start int, left []Sym) (n int, st byte)
	// part decides about one part of a template definition
	part func(id, off, left int) (n int, st byte)
	// tattr decides about a request for the attributes of a template
	tattr func(id int) (st byte, bad int)
	// maxEntries bounds the entries a buffer accepts in one request (0: no bound)
	bufOp func(op string, id int) byte
}

func (o *objects) scopeSyms(scope string) ([]Sym, bool) {
	if scope == "" {
		return o.syms, true
	}
	for _, p := range o.programs {
		if strings.EqualFold("program:"+p.Name, scope) {
			return p.Syms, true
		}
	}
	return nil, false
}

// splitScope separates a leading program segment from a path.
func (o *objects) splitScope(segs []seg) (scope string, rest []seg) {
	if len(segs) == 4 && segs[0].Kind == "class" && segs[0].N == 0x68 && segs[1].Kind == "inst" {
		for _, p := range o.programs {
			if p.ID == int(segs[1].N) {
				return "program:" + strings.ToLower(p.Name), segs[2:]
			}
		}
	}
	if len(segs) > 0 && segs[0].Kind == "sym" && strings.HasPrefix(strings.ToLower(segs[0].Name), "program:") {
		return strings.ToLower(segs[0].Name), segs[1:]
	}
	return "", segs
}

func classInst(segs []seg) (class, inst int, ok bool) {
	if len(segs) == 2 && segs[0].Kind == "class" && segs[1].Kind == "inst" {
		return int(segs[0].N), int(segs[1].N), true
	}
	return 0, 0, false
}

func symEntry(s Sym) []byte {
	b := cat(u32(uint32(s.Inst)), u16(uint16(len(s.Name))), []byte(s.Name), u16(uint16(s.Type)))
	for i := 0; i < 3; i++ {
		d := 0
		if i < len(s.Dims) {
			d = s.Dims[i]
		}
		b = cat(b, u32(uint32(d)))
	}
	return b
}

// serve answers requests to these objects; done is false if the request is for something else.
func (o *objects) serve(p *PLC, q *Req) (done bool, st byte, ext []uint16, data []byte) {
	scope, rest := o.splitScope(q.Path)
	class, inst, ok := classInst(rest)
	if !ok {
		return false, 0, nil, nil
	}
	switch {
	case class == 0x6B && q.Svc == svcInstAttrs:
		syms, ok := o.scopeSyms(scope)
		if !ok {
			return true, 0x05, nil, nil
		}
		if len(q.Data) != 8 || le.Uint16(q.Data) != 3 || le.Uint16(q.Data[2:]) != 1 || le.Uint16(q.Data[4:]) != 2 || le.Uint16(q.Data[6:]) != 8 {
			return true, 0x13, nil, nil
		}
		var left []Sym
		for _, s := range syms {
			if s.Inst >= inst {
				left = append(left, s)
			}
		}
		n, st := len(left), byte(0)
		if o.page != nil {
			n, st = o.page(scope, inst, left)
		}
		if st != 0 && st != 6 {
			return true, st, nil, nil
		}
		for _, s := range left[:n] {
			data = cat(data, symEntry(s))
		}
		return true, st, nil, data
	case class == 0x68 && scope == "" && q.Svc == svcInstAttrs:
		if o.noProg {
			return true, 0x08, nil, nil
		}
		for _, pr := range o.programs {
			data = cat(data, u16(uint16(pr.ID)), u16(0), u32(uint32(len(pr.Name))), []byte(pr.Name))
		}
		return true, 0, nil, data
	case class == 0x6C && q.Svc == svcGetAttrList:
		t := o.templates[inst]
		if t == nil {
			return true, 0x05, nil, nil
		}
		if len(q.Data) != 10 || le.Uint16(q.Data) != 4 {
			return true, 0x13, nil, nil
		}
		bad := 0
		if o.tattr != nil {
			if st, bad = o.tattr(inst); st != 0 {
				return true, st, nil, nil
			}
		}
		data = u16(4)
		for i := 0; i < 4; i++ {
			id := le.Uint16(q.Data[2+2*i:])
			ast := uint16(0)
			if int(id) == bad {
				ast = 0x14
			}
			data = cat(data, u16(id), u16(ast))
			switch id {
			case 1:
				data = cat(data, u16(uint16(t.Handle)))
			case 2:
				data = cat(data, u16(uint16(len(t.Members))))
			case 4:
				data = cat(data, u32(uint32(t.words())))
			case 5:
				data = cat(data, u32(uint32(t.Size)))
			default:
				return true, 0x13, nil, nil
			}
		}
		return true, 0, nil, data
	case class == 0x6C && q.Svc == svcRead:
		t := o.templates[inst]
		if t == nil {
			return true, 0x05, nil, nil
		}
		if len(q.Data) != 6 {
			return true, 0x13, nil, nil
		}
		img := t.wire()
		off, want := int(le.Uint32(q.Data)), int(le.Uint16(q.Data[4:]))
		if off > len(img) {
			return true, 0xFF, nil, nil
		}
		left := img[off:]
		if want < len(left) {
			left = left[:want]
		}
		n, st := len(left), byte(0)
		if o.part != nil {
			n, st = o.part(inst, off, len(left))
		}
		if st != 0 && st != 6 {
			return true, st, nil, nil
		}
		return true, st, nil, left[:n]
	case class == 0xB2:
		return o.buffer(p, q, inst)
	}
	return false, 0, nil, nil
}

// buffer is the data-table buffer object.
func (o *objects) buffer(p *PLC, q *Req, inst int) (bool, byte, []uint16, []byte) {
	deny := func(op string) byte {
		if o.bufOp != nil {
			return o.bufOp(op, inst)
		}
		return 0
	}
	if inst == 0 {
		if q.Svc != 0x08 {
			return true, 0x08, nil, nil
		}
		if st := deny("create"); st != 0 {
			return true, st, nil, nil
		}
		o.nextBuf++
		if o.bufs == nil {
			o.bufs = map[int]*dtBuffer{}
		}
		o.bufs[o.nextBuf] = &dtBuffer{ID: o.nextBuf, Next: 1}
		return true, 0, nil, u16(uint16(o.nextBuf))
	}
	b := o.bufs[inst]
	if b == nil {
		return true, 0x05, nil, nil
	}
	switch q.Svc {
	case 0x09:
		if st := deny("delete"); st != 0 {
			return true, st, nil, nil
		}
		delete(o.bufs, inst)
		return true, 0, nil, nil
	case 0x4E:
		if st := deny("add"); st != 0 {
			return true, st, nil, nil
		}
		d := q.Data
		if len(d) < 5 || d[0] != 2 || d[1] != 0 || d[2] != 1 || d[3] != 1 {
			return true, 0x13, nil, nil
		}
		n := int(d[4])
		d = d[5:]
		var es []bufEntry
		for i := 0; i < n; i++ {
			if len(d) < 3 || len(d) < 3+2*int(d[2]) {
				return true, 0x13, nil, nil
			}
			size, l := int(le.Uint16(d)), 2*int(d[2])
			segs, err := parsePath(d[3 : 3+l])
			if err != nil {
				return true, 0x04, nil, nil
			}
			t, at, ok := p.locate(segs)
			if !ok {
				return true, 0x05, nil, nil
			}
			if size != t.Size {
				return true, 0xFF, nil, nil
			}
			es = append(es, bufEntry{Index: b.Next + i, Size: size, Path: pathStr(segs), Batch: b.Batch + 1, Tag: t, At: at})
			d = d[3+l:]
		}
		if len(d) != 0 || n == 0 {
			return true, 0x15, nil, nil
		}
		b.Batch++
		b.Next += n
		b.Entries = append(b.Entries, es...)
		return true, 0, nil, u16(uint16(b.Batch))
	case 0x4F:
		if st := deny("remove"); st != 0 {
			return true, st, nil, nil
		}
		if len(q.Data) != 2 {
			return true, 0x13, nil, nil
		}
		k := int(le.Uint16(q.Data))
		for i, e := range b.Entries {
			if e.Index == k {
				b.Entries = append(b.Entries[:i:i], b.Entries[i+1:]...)
				return true, 0, nil, nil
			}
		}
		return true, 0x05, nil, nil
	case svcRead:
		if st := deny("read"); st != 0 {
			return true, st, nil, nil
		}
		var out []byte
		batch := 0
		for _, e := range b.Entries {
			if e.Batch != batch {
				batch = e.Batch
				out = cat(out, u16(uint16(batch)))
			}
			lo := e.At * e.Tag.Size
			out = cat(out, e.Tag.Data[lo:lo+e.Size])
		}
		return true, 0, nil, out
	}
	return true, 0x08, nil, nil
}
