package main

// Project files (L01): a file is written from an abstract project, loaded, and what came of it is recorded.

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix/l5x"
)

type xVal struct {
	K   string `json:"k"` // num, bool, real, text, struct, arr, none
	T   string `json:"t"` // data type
	Neg bool   `json:"neg"`
	Bas int    `json:"base"`
	Dig []int  `json:"dig"` // digits, the highest first
	Num int    `json:"num"` // real: in 1024ths
	S   string `json:"s"`
	M   []xTag `json:"m"`
	E   []xVal `json:"e"`
}

type xTag struct {
	Name  string `json:"name"`
	Desc  string `json:"desc"`
	Alias bool   `json:"alias"`
	Val   xVal   `json:"val"`
}

type xRung struct {
	At   string `json:"at"`
	Text string `json:"text"`
}

type xRoutine struct {
	Name  string  `json:"name"`
	Rungs []xRung `json:"rungs"`
}

type xProg struct {
	Name     string     `json:"name"`
	Tags     []xTag     `json:"tags"`
	Routines []xRoutine `json:"routines"`
}

type xNote struct {
	Op   string `json:"op"`
	Text string `json:"text"`
}

type xMod struct {
	Name string  `json:"name"`
	In   []xNote `json:"in"`
	Out  []xNote `json:"out"`
	Bare int     `json:"bare"` // how much of what has no notes is left out: 1 the tags, 2 the connection, 3 the connections, 4 all
}

type xTask struct {
	Name  string   `json:"name"`
	Progs []string `json:"progs"`
}

type xMember struct {
	Name string `json:"name"`
	T    string `json:"t"`
	Desc string `json:"desc"`
	Open bool   `json:"open"` // a bit, or what holds bits
}

type xType struct {
	Name    string    `json:"name"`
	Desc    string    `json:"desc"`
	Members []xMember `json:"members"`
}

type xScn struct {
	Types []xType `json:"types"`
	Ctrl  []xTag  `json:"ctrl"`
	Progs []xProg `json:"progs"`
	Mods  []xMod  `json:"mods"`
	Tasks []xTask `json:"tasks"`
	Lean  bool    `json:"lean"`  // elements with nothing in them are left out
	L5K   bool    `json:"l5k"`   // the data is there in the other format too
	Force bool    `json:"force"` // and there is more data in further formats before and behind
	Text  bool    `json:"text"`  // the load is repeated with the project of a file that was read before
}

func init() { areas["l5x"] = runL5X; areaPar["l5x"] = 8 }

func esc(s string) string {
	var b strings.Builder
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func cdata(s string) string { return "<![CDATA[" + s + "]]>" }

// text of a value as it is in an attribute
func (v xVal) text() string {
	switch v.K {
	case "num":
		s := ""
		for i, d := range v.Dig {
			s += string("0123456789abcdef"[d])
			group := map[int]int{2: 4, 8: 3, 16: 4}[v.Bas]
			if left := len(v.Dig) - 1 - i; group > 0 && left > 0 && left%group == 0 {
				s += "_"
			}
		}
		if v.Bas != 10 {
			s = fmt.Sprintf("%d#%s", v.Bas, s)
		}
		if v.Neg {
			s = "-" + s
		}
		return s
	case "bool":
		return fmt.Sprint(v.Num)
	case "real":
		return strings.TrimSuffix(fmt.Sprintf("%.10f", float64(v.Num)/1024), "000")
	}
	infra("text of %q", v.K)
	return ""
}

var radix = map[int]string{2: "Binary", 8: "Octal", 10: "Decimal", 16: "Hex"}

// xml of a value with these further attributes; tag is the name of the element it is in
func (v xVal) xml(tag, attrs string) string {
	switch v.K {
	case "text":
		return fmt.Sprintf("<%s%s DataType=%q Radix=\"ASCII\">\n%s\n</%s>\n", tag, attrs, v.T, cdata("'"+v.S+"'"), tag)
	case "struct":
		s := fmt.Sprintf("<Structure DataType=%q>\n", v.T)
		for _, m := range v.M {
			s += m.Val.xml("DataValueMember", fmt.Sprintf(" Name=%q", m.Name))
		}
		return s + "</Structure>\n"
	case "arr":
		s := fmt.Sprintf("<Array DataType=%q Dimensions=\"%d\">\n", v.T, len(v.E))
		for i, e := range v.E {
			x := fmt.Sprintf("<Element Index=\"[%d]\"", i)
			if e.K == "struct" {
				s += x + ">\n" + e.xml("", "") + "</Element>\n"
			} else {
				s += x + fmt.Sprintf(" Value=%q/>\n", e.text())
			}
		}
		return s + "</Array>\n"
	}
	return fmt.Sprintf("<%s%s DataType=%q Radix=%q Value=%q/>\n", tag, attrs, v.T, radix[v.Bas], v.text())
}

func (sc *xScn) tag(t xTag) string {
	a := fmt.Sprintf("<Tag Name=%q ", t.Name)
	if t.Alias {
		return a + "TagType=\"Alias\" AliasFor=\"other\"/>\n"
	}
	a += fmt.Sprintf("TagType=\"Base\" DataType=%q", t.Val.T)
	if t.Val.K == "arr" {
		a += fmt.Sprintf(" Dimensions=\"%d\"", len(t.Val.E))
	}
	a += " ExternalAccess=\"Read/Write\">\n"
	if t.Desc != "" {
		a += "<Description>\n" + cdata(t.Desc) + "\n</Description>\n"
	}
	if sc.L5K {
		a += "<Data Format=\"L5K\">\n" + cdata("[0,[1,2],'x']") + "\n</Data>\n"
	}
	more := ""
	if sc.Force {
		more = "<Data Format=\"Message\">\n<MessageParameters MessageType=\"Unconfigured\"/>\n</Data>\n"
	}
	return a + more + "<Data Format=\"Decorated\">\n" + t.Val.xml("DataValue", "") + "</Data>\n" + more + "</Tag>\n"
}

func (sc *xScn) xml() string {
	var b strings.Builder
	coll := func(name string, n int, f func(i int)) {
		if n == 0 && sc.Lean {
			return
		}
		b.WriteString("<" + name + ">\n")
		for i := 0; i < n; i++ {
			f(i)
		}
		b.WriteString("</" + name + ">\n")
	}
	b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<RSLogix5000Content SchemaRevision=\"1.0\" SoftwareRevision=\"35.00\" TargetName=\"x\">\n<Controller Use=\"Target\" Name=\"x\">\n")
	coll("DataTypes", len(sc.Types), func(i int) {
		y := sc.Types[i]
		desc := func(s string) string {
			if s == "" {
				return ""
			}
			return "<Description>\n" + cdata(s) + "\n</Description>\n"
		}
		fmt.Fprintf(&b, "<DataType Name=%q Family=\"NoFamily\" Class=\"User\">\n%s", y.Name, desc(y.Desc))
		bit := 0
		coll("Members", len(y.Members), func(i int) {
			m := y.Members[i]
			a := ""
			if m.T == "BIT" {
				a = fmt.Sprintf(" Target=\"ZZZZZZZZZZ%s0\" BitNumber=\"%d\"", y.Name, bit)
				bit++
			} else if m.Open {
				bit, a = 0, " Hidden=\"true\""
			}
			fmt.Fprintf(&b, "<Member Name=%q DataType=%q Dimension=\"0\"%s ExternalAccess=\"Read/Write\">\n%s</Member>\n", m.Name, m.T, a, desc(m.Desc))
		})
		b.WriteString("</DataType>\n")
	})
	coll("Modules", len(sc.Mods), func(i int) {
		m := sc.Mods[i]
		fmt.Fprintf(&b, "<Module Name=%q>\n", m.Name)
		if m.Bare > 0 {
			b.WriteString([]string{"<Communications><Connections><Connection Name=\"c\"/></Connections></Communications>", "<Communications><Connections/></Communications>",
				"<Communications/>", ""}[m.Bare-1] + "</Module>\n")
			return
		}
		b.WriteString("<Communications>\n<Connections>\n<Connection Name=\"c\">\n")
		for _, d := range []struct {
			tag   string
			notes []xNote
		}{{"InputTag", m.In}, {"OutputTag", m.Out}} {
			if len(d.notes) == 0 && sc.Lean {
				continue
			}
			b.WriteString("<" + d.tag + ">\n<Comments>\n")
			for _, n := range d.notes {
				fmt.Fprintf(&b, "<Comment Operand=%q>\n%s\n</Comment>\n", n.Op, cdata(n.Text))
			}
			b.WriteString("</Comments>\n</" + d.tag + ">\n")
		}
		b.WriteString("</Connection>\n</Connections>\n</Communications>\n</Module>\n")
	})
	coll("Tags", len(sc.Ctrl), func(i int) { b.WriteString(sc.tag(sc.Ctrl[i])) })
	coll("Programs", len(sc.Progs), func(i int) {
		p := sc.Progs[i]
		fmt.Fprintf(&b, "<Program Name=%q>\n", p.Name)
		coll("Tags", len(p.Tags), func(i int) { b.WriteString(sc.tag(p.Tags[i])) })
		coll("Routines", len(p.Routines), func(i int) {
			r := p.Routines[i]
			fmt.Fprintf(&b, "<Routine Name=%q Type=\"RLL\">\n<RLLContent>\n", r.Name)
			for _, g := range r.Rungs {
				fmt.Fprintf(&b, "<Rung Number=%q Type=\"N\">\n", g.At)
				if g.Text != "" {
					b.WriteString("<Comment>\n" + cdata(g.Text) + "\n</Comment>\n")
				}
				b.WriteString("<Text>\n" + cdata("NOP();") + "\n</Text>\n</Rung>\n")
			}
			b.WriteString("</RLLContent>\n</Routine>\n")
		})
		b.WriteString("</Program>\n")
	})
	coll("Tasks", len(sc.Tasks), func(i int) {
		t := sc.Tasks[i]
		fmt.Fprintf(&b, "<Task Name=%q Type=\"CONTINUOUS\">\n", t.Name)
		coll("ScheduledPrograms", len(t.Progs), func(i int) { fmt.Fprintf(&b, "<ScheduledProgram Name=%q/>\n", t.Progs[i]) })
		b.WriteString("</Task>\n")
	})
	b.WriteString("</Controller>\n</RSLogix5000Content>\n")
	return b.String()
}

// got: a loaded value as it is told to the specification
func xGot(v any) ev {
	e := ev{"k": "other", "t": fmt.Sprintf("%T", v), "b": []int{}, "num": 0, "s": "", "m": []ev{}, "e": []ev{}}
	num := func(b []byte) { e["k"], e["b"] = "num", ints(b) }
	switch x := v.(type) {
	case bool:
		e["k"] = "bool"
		if x {
			e["num"] = 1
		}
	case int8:
		num([]byte{byte(x)})
	case int16:
		num(u16(uint16(x)))
	case int32:
		num(u32(uint32(x)))
	case int64:
		num(u64(uint64(x)))
	case float32:
		return xGot(float64(x))
	case float64:
		if f := x * 1024; f == math.Trunc(f) && math.Abs(f) < 1<<31 {
			e["k"], e["num"], e["t"] = "real", int(f), "real"
		}
	case string:
		e["k"], e["s"] = "text", x
	case map[string]any:
		e["k"], e["m"] = "struct", xMap(x)
	case []any:
		l := []ev{}
		for _, y := range x {
			l = append(l, xGot(y))
		}
		e["k"], e["e"] = "arr", l
	}
	return e
}

func xMap(m map[string]any) []ev {
	l := []ev{}
	for k, v := range m {
		l = append(l, ev{"name": k, "val": xGot(v)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i]["name"].(string) < l[j]["name"].(string) })
	return l
}

func xNotes(m map[string]string) []ev {
	l := []ev{}
	for k, v := range m {
		l = append(l, ev{"name": k, "text": v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i]["name"].(string) < l[j]["name"].(string) })
	return l
}

func runL5X(raw json.RawMessage, tr *Trace) {
	var sc xScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		infra("%v", err)
	}
	var doc any
	json.Unmarshal(raw, &doc)
	tr.Emit("file", ev{"doc": doc})
	var c l5x.RSLogix5000Content
	text := sc.xml()
	if err := xml.Unmarshal([]byte(text), &c); err != nil {
		infra("%v in %s", err, text)
	}
	for i := 0; i < 2; i++ {
		ok := tr.guard("load", 10*time.Second, func() {
			m, err := l5x.LoadTags(c)
			tr.Emit("tags", ev{"err": err != nil, "m": xMap(m), "msg": errStr(err)})
			n, err := l5x.LoadTagComments(c)
			tr.Emit("comments", ev{"err": err != nil, "m": xNotes(n), "msg": errStr(err)})
			n, err = l5x.LoadRungComments(c)
			tr.Emit("rungs", ev{"err": err != nil, "m": xNotes(n), "msg": errStr(err)})
		})
		if !ok || !sc.Text {
			return
		}
	}
}
