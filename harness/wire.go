package main

// An implementation of the EtherNet/IP encapsulation, common packet format and CIP request framing that is
// independent of the library under test.  It is used by the fake PLC (client checks) and by the raw originator
// (server checks).

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"time"
)

const (
	cmdListServices = 0x04
	cmdListIdentity = 0x63
	cmdRegister     = 0x65
	cmdUnregister   = 0x66
	cmdRR           = 0x6F
	cmdUnit         = 0x70
)

const (
	svcGAA         = 0x01
	svcGetAttrList = 0x03
	svcMulti       = 0x0A
	svcGetAttr     = 0x0E
	svcSetAttr     = 0x10
	svcRead        = 0x4C
	svcWrite       = 0x4D
	svcFwdClose    = 0x4E
	svcFragRead    = 0x52
	svcFragWrite   = 0x53
	svcFwdOpen     = 0x54
	svcInstAttrs   = 0x55
	svcLargeOpen   = 0x5B
)

type frame struct {
	Cmd     uint16
	Len     uint16
	Session uint32
	Status  uint32
	Context uint64
	Options uint32
	Body    []byte
}

var le = binary.LittleEndian

func u16(v uint16) []byte { return le.AppendUint16(nil, v) }
func u32(v uint32) []byte { return le.AppendUint32(nil, v) }
func u64(v uint64) []byte { return le.AppendUint64(nil, v) }

func cat(parts ...[]byte) []byte {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}

func (f frame) bytes() []byte {
	return cat(u16(f.Cmd), u16(uint16(len(f.Body))), u32(f.Session), u32(f.Status), u64(f.Context), u32(f.Options), f.Body)
}

func readFrame(r io.Reader) (frame, error) {
	var f frame
	h := make([]byte, 24)
	if _, err := io.ReadFull(r, h); err != nil {
		return f, err
	}
	f.Cmd = le.Uint16(h)
	f.Len = le.Uint16(h[2:])
	f.Session = le.Uint32(h[4:])
	f.Status = le.Uint32(h[8:])
	f.Context = le.Uint64(h[12:])
	f.Options = le.Uint32(h[20:])
	f.Body = make([]byte, f.Len)
	if _, err := io.ReadFull(r, f.Body); err != nil {
		return f, err
	}
	return f, nil
}

type cpfItem struct {
	ID   uint16
	Data []byte
}

func cpf(items ...cpfItem) []byte {
	b := cat(u32(0), u16(0), u16(uint16(len(items))))
	for _, it := range items {
		b = cat(b, u16(it.ID), u16(uint16(len(it.Data))), it.Data)
	}
	return b
}

func parseCpf(b []byte) ([]cpfItem, error) {
	if len(b) < 8 {
		return nil, fmt.Errorf("short cpf")
	}
	n := int(le.Uint16(b[6:]))
	return parseItems(b[8:], n)
}

func parseItems(b []byte, n int) ([]cpfItem, error) {
	var out []cpfItem
	for i := 0; i < n; i++ {
		if len(b) < 4 {
			return nil, fmt.Errorf("short item header")
		}
		l := int(le.Uint16(b[2:]))
		if len(b) < 4+l {
			return nil, fmt.Errorf("short item data")
		}
		out = append(out, cpfItem{ID: le.Uint16(b), Data: b[4 : 4+l]})
		b = b[4+l:]
	}
	if len(b) != 0 {
		return out, fmt.Errorf("%d trailing bytes", len(b))
	}
	return out, nil
}

// seg is one segment of an EPATH.
type seg struct {
	Kind string // sym, elem, class, inst, attr, port
	Name string
	N    uint32
}

func parsePath(b []byte) ([]seg, error) {
	var out []seg
	need := func(n int) error {
		if len(b) < n {
			return fmt.Errorf("short path")
		}
		return nil
	}
	for len(b) > 0 {
		t := b[0]
		if err := need(2); err != nil {
			return out, err
		}
		num := func(kind string, base byte) error {
			switch t - base {
			case 0:
				out = append(out, seg{Kind: kind, N: uint32(b[1])})
				b = b[2:]
			case 1:
				if err := need(4); err != nil {
					return err
				}
				out = append(out, seg{Kind: kind, N: uint32(le.Uint16(b[2:]))})
				b = b[4:]
			case 2:
				if err := need(6); err != nil {
					return err
				}
				out = append(out, seg{Kind: kind, N: le.Uint32(b[2:])})
				b = b[6:]
			}
			return nil
		}
		var err error
		switch {
		case t == 0x91:
			n := int(b[1])
			if n == 0 {
				return out, fmt.Errorf("empty symbol")
			}
			if err := need(2 + n + n%2); err != nil {
				return out, err
			}
			if n%2 == 1 && b[2+n] != 0 {
				return out, fmt.Errorf("bad pad")
			}
			out = append(out, seg{Kind: "sym", Name: string(b[2 : 2+n])})
			b = b[2+n+n%2:]
		case t >= 0x28 && t <= 0x2A:
			err = num("elem", 0x28)
		case t >= 0x20 && t <= 0x22:
			err = num("class", 0x20)
		case t >= 0x24 && t <= 0x26:
			err = num("inst", 0x24)
		case t >= 0x30 && t <= 0x32:
			err = num("attr", 0x30)
		default:
			return out, fmt.Errorf("unknown segment %#x", t)
		}
		if err != nil {
			return out, err
		}
	}
	return out, nil
}

// pathStr renders a parsed path canonically: tag.member[1,2].x or class.inst.attr forms.
func pathStr(segs []seg) string {
	s := ""
	for _, g := range segs {
		switch g.Kind {
		case "sym":
			if s != "" {
				s += "."
			}
			s += g.Name
		case "elem":
			if strings.HasSuffix(s, "]") {
				s = fmt.Sprintf("%s,%d]", s[:len(s)-1], g.N)
			} else {
				s = fmt.Sprintf("%s[%d]", s, g.N)
			}
		default:
			s += fmt.Sprintf("/%s:%d", g.Kind[:1], g.N)
		}
	}
	return s
}

func symPath(parts ...any) []byte {
	var b []byte
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			b = cat(b, []byte{0x91, byte(len(v))}, []byte(v))
			if len(v)%2 == 1 {
				b = append(b, 0)
			}
		case int:
			switch {
			case v < 256:
				b = cat(b, []byte{0x28, byte(v)})
			case v < 65536:
				b = cat(b, []byte{0x29, 0}, u16(uint16(v)))
			default:
				b = cat(b, []byte{0x2A, 0}, u32(uint32(v)))
			}
		}
	}
	return b
}

func logical(class, inst, attr int) []byte {
	var b []byte
	add := func(base byte, v int) {
		if v < 0 {
			return
		}
		if v < 256 {
			b = cat(b, []byte{base, byte(v)})
		} else if v < 65536 {
			b = cat(b, []byte{base + 1, 0}, u16(uint16(v)))
		} else {
			b = cat(b, []byte{base + 2, 0}, u32(uint32(v)))
		}
	}
	add(0x20, class)
	add(0x24, inst)
	add(0x30, attr)
	return b
}

func dialTimeout(addr string, d time.Duration) (net.Conn, error) {
	return net.DialTimeout("tcp", addr, d)
}
