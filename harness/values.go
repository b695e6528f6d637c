package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"strings"
)

// Type codes of the atomic CIP types, from the CIP specification.
var typeCode = map[string]byte{"BOOL": 0xC1, "SINT": 0xC2, "INT": 0xC3, "DINT": 0xC4, "LINT": 0xC5, "USINT": 0xC6, "UINT": 0xC7,
	"UDINT": 0xC8, "LWORD": 0xD4, "BYTE": 0xD1, "WORD": 0xD2, "REAL": 0xCA, "LREAL": 0xCB, "STRING": 0xCE, "DWORD": 0xD3}
var typeSize = map[string]int{"BOOL": 1, "SINT": 1, "INT": 2, "DINT": 4, "LINT": 8, "USINT": 1, "UINT": 2,
	"UDINT": 4, "LWORD": 8, "BYTE": 1, "WORD": 2, "REAL": 4, "LREAL": 8, "STRING": 88, "DWORD": 4}

// show renders one element canonically: integers in decimal, floats by their bits, strings quoted, bytes in hex.
func show(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case float32:
		return fmt.Sprintf("f%08x", math.Float32bits(x))
	case float64:
		return fmt.Sprintf("d%016x", math.Float64bits(x))
	case string:
		return fmt.Sprintf("%q", x)
	case bool:
		return fmt.Sprint(x)
	case int8, int16, int32, int64, uint8, uint16, uint32, uint64, int, uint:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("?%T:%v", v, v)
}

// showRaw renders the element stored in b (of the named type) the same way.
func showRaw(typ string, b []byte) string {
	switch typ {
	case "BOOL":
		return fmt.Sprint(b[0] != 0)
	case "SINT":
		return fmt.Sprint(int8(b[0]))
	case "USINT", "BYTE":
		return fmt.Sprint(b[0])
	case "INT":
		return fmt.Sprint(int16(le.Uint16(b)))
	case "UINT", "WORD":
		return fmt.Sprint(le.Uint16(b))
	case "DINT":
		return fmt.Sprint(int32(le.Uint32(b)))
	case "UDINT", "DWORD":
		return fmt.Sprint(le.Uint32(b))
	case "LINT":
		return fmt.Sprint(int64(le.Uint64(b)))
	case "LWORD":
		return fmt.Sprint(le.Uint64(b))
	case "REAL":
		return fmt.Sprintf("f%08x", le.Uint32(b))
	case "LREAL":
		return fmt.Sprintf("d%016x", le.Uint64(b))
	case "STRING":
		return fmt.Sprintf("%q", string(b[4:4+le.Uint32(b)]))
	}
	return "x" + hex.EncodeToString(b)
}

func showRawAll(typ string, size int, b []byte) string {
	var out []string
	for i := 0; i+size <= len(b); i += size {
		out = append(out, showRaw(typ, b[i:i+size]))
	}
	return strings.Join(out, ",")
}

// fill makes the raw image of n elements of a type; every element is different for different seeds and indices.
func fill(typ string, n, seed int) []byte {
	size := typeSize[typ]
	b := make([]byte, 0, n*size)
	for i := 0; i < n; i++ {
		x := uint64(seed)*1000003 + uint64(i)*7919 + 17
		x = x*0x9E3779B97F4A7C15 ^ (x << 7)
		switch typ {
		case "BOOL":
			b = append(b, byte(x>>13&1))
		case "REAL":
			b = append(b, u32(math.Float32bits(float32(int32(x>>20))/8))...)
		case "LREAL":
			b = append(b, u64(math.Float64bits(float64(int64(x>>10))/16))...)
		case "STRING":
			s := fmt.Sprintf("s%d.%d-%s", seed, i, strings.Repeat("abcdefg", int(x>>9%11)))
			switch x >> 21 % 12 {
			case 0: // as many characters as there can be
				s = (s + strings.Repeat("0123456789", 9))[:82]
			case 1: // characters that mean something elsewhere
				s = (s + strings.Repeat("x", 90))[:80] + "\x00\x00"
			case 2:
				s += "\x00"
			case 3:
				s = "\x00\xff \n" + s + "\xe9 "
			}
			b = append(b, strElem(s)...)
		default:
			b = append(b, u64(x >> 3)[:size]...)
		}
	}
	return b
}

// strElem is the controller's image of one STRING: length, 82 characters, 2 bytes of padding.
func f32bits(f float32) uint32 { return math.Float32bits(f) }

func strElem(s string) []byte {
	if len(s) > 82 {
		s = s[:82]
	}
	b := make([]byte, 88)
	copy(b, u32(uint32(len(s))))
	copy(b[4:], s)
	return b
}
