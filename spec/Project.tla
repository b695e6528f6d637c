-------------------------------- MODULE Project --------------------------------
(* Project files (property L01).  A file states values of tags, in the scope of the    *)
(* controller and of programs, and comments to tags, points of modules and rungs.      *)
(* Loading it gives just those, however often it is loaded.                             *)
(* A number is stated by its digits in some base; negative numbers in another base     *)
(* than ten are stated by the bits that they have.                                     *)
EXTENDS Integers, Sequences, FiniteSets, Props

VARIABLES doc, done   \* the file; what was asked of it
pvars == <<doc, done>>

Width(t) == CASE t = "SINT" -> 1 [] t = "INT" -> 2 [] t = "DINT" -> 4 [] t = "LINT" -> 8 [] OTHER -> 0
GoType(t) == CASE t = "SINT" -> "int8" [] t = "INT" -> "int16" [] t = "DINT" -> "int32" [] t = "LINT" -> "int64" [] OTHER -> t

\* bytes, the lowest first, times n plus c
RECURSIVE MulAdd(_, _, _)
MulAdd(b, n, c) == IF b = <<>> THEN <<>> ELSE LET x == b[1] * n + c IN <<x % 256>> \o MulAdd(Tail(b), n, x \div 256)
RECURSIVE Number(_, _, _)
Number(dig, base, b) == IF dig = <<>> THEN b ELSE Number(Tail(dig), base, MulAdd(b, base, dig[1]))
Negated(b) == MulAdd([i \in DOMAIN b |-> 255 - b[i]], 1, 1)
Bytes(v) == LET n == Number(v.dig, v.base, [i \in 1..Width(v.t) |-> 0]) IN IF v.neg THEN Negated(n) ELSE n

\* a value that was loaded: [k, t, b, num, s, m, e]; here m is a set of <<name, value>>
Blank == [k |-> "", t |-> "", b |-> <<>>, num |-> 0, s |-> "", m |-> {}, e |-> <<>>]
RECURSIVE Meant(_)
Meant(v) == CASE v.k = "num" -> [Blank EXCEPT !.k = "num", !.t = GoType(v.t), !.b = Bytes(v)]
              [] v.k = "bool" -> [Blank EXCEPT !.k = "bool", !.t = "bool", !.num = v.num]
              [] v.k = "real" -> [Blank EXCEPT !.k = "real", !.t = "real", !.num = v.num]
              [] v.k = "text" -> [Blank EXCEPT !.k = "text", !.t = "string", !.s = v.s]
              [] v.k = "struct" -> [Blank EXCEPT !.k = "struct", !.t = "map[string]interface {}", !.m = {<<v.m[i].name, Meant(v.m[i].val)>> : i \in DOMAIN v.m}]
              [] OTHER -> [Blank EXCEPT !.k = "arr", !.t = "[]interface {}", !.e = [i \in DOMAIN v.e |-> Meant(v.e[i])]]

Range(s) == {s[i] : i \in DOMAIN s}
\* tags that have a value
Valued(tags) == {t \in Range(tags) : ~t.alias}
Pairs(tags) == {<<t.name, Meant(t.val)>> : t \in Valued(tags)}
Simple(tags) == {t \in Valued(tags) : t.val.k \notin {"struct", "arr"}}

\* got: pairs of a name and a loaded value.  Structures and arrays of the controller may be left out
TagsRight(got) ==
    LET progs == {p : p \in Range(doc.progs)}
        mine == {<<"program:" \o p.name, [Blank EXCEPT !.k = "struct", !.t = "map[string]interface {}", !.m = Pairs(p.tags)]>> : p \in progs}
        ctrl == Pairs(doc.ctrl)
    IN /\ mine \subseteq got
       /\ (got \ mine) \subseteq ctrl
       /\ {<<t.name, Meant(t.val)>> : t \in Simple(doc.ctrl)} \subseteq got

\* notes: pairs of a place and a text; what says nothing is left out
Said(s) == {n \in s : n[2] # ""}
Join(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o " " \o b
\* a type that the project defines has a comment, and so have its members; a member of such a type has the comments of that too,
\* behind its own.  What is open (bits and what holds them) has some place and text
Defined(t) == {y \in Range(doc.types) : y.name = t}
RECURSIVE MemberNotes(_, _, _)
MemberNotes(t, at, text) ==
    UNION {UNION {LET place == at \o "." \o m.name  said == Join(Join(text, y.desc), m.desc) IN
                  {<<place, said>>} \cup MemberNotes(m.t, place, said) : m \in {x \in Range(y.members) : ~x.open}} : y \in Defined(t)}
NotesBelow(t) == MemberNotes(t.val.t, t.name, "")
\* a place below a tag
Below(place, tag) == Len(place) > Len(tag) /\ SubSeq(place, 1, Len(tag) + 1) = tag \o "."
\* a text may have a blank at its end where a comment below is missing
Same(n, want) == n[1] = want[1] /\ n[2] \in {want[2], want[2] \o " "}
Composed(t) == {<<n[1], Join(t.desc, n[2])>> : n \in Said(NotesBelow(t))}
CommentsRight(got) ==
    LET mods == Range(doc.mods)
        own == Said(UNION {{<<m.name \o ":I" \o n.op, n.text>> : n \in Range(m.in)} : m \in mods}
                    \cup UNION {{<<m.name \o ":O" \o n.op, n.text>> : n \in Range(m.out)} : m \in mods}
                    \cup {<<t.name, t.desc>> : t \in Valued(doc.ctrl)})
        others == Said(got) \ own
    IN /\ own \subseteq got
       /\ \A t \in Valued(doc.ctrl) : t.val.k # "arr" => \A want \in Composed(t) : \E n \in others : Same(n, want)
       \* nothing else is said, but of members, and of those nothing that is not so
       /\ \A n \in others : \E t \in Valued(doc.ctrl) :
            /\ Defined(t.val.t) # {} /\ Below(n[1], t.name)
            /\ n[1] \in {x[1] : x \in NotesBelow(t)} =>
                 \E want \in NotesBelow(t) : Same(n, <<want[1], Join(t.desc, want[2])>>)
TaskOf(p) == IF \E t \in Range(doc.tasks) : p \in Range(t.progs) THEN (CHOOSE t \in Range(doc.tasks) : p \in Range(t.progs)).name ELSE ""
RungsRight(got) ==
    Said(got) = Said(UNION {UNION {{<<TaskOf(p.name) \o "/" \o p.name \o "/" \o r.name \o "[" \o g.at \o "]", g.text>> : g \in Range(r.rungs)}
                                  : r \in Range(p.routines)} : p \in Range(doc.progs)})

NoDoc == [types |-> <<>>, ctrl |-> <<>>, progs |-> <<>>, mods |-> <<>>, tasks |-> <<>>]
PInit == doc = NoDoc /\ done = {}
File(d) == doc' = d /\ done' = {}
Tags(err, got) == ~err /\ TagsRight(got) /\ done' = done \cup {"tags"} /\ UNCHANGED doc
Comments(err, got) == ~err /\ CommentsRight(got) /\ done' = done \cup {"comments"} /\ UNCHANGED doc
Rungs(err, got) == ~err /\ RungsRight(got) /\ done' = done \cup {"rungs"} /\ UNCHANGED doc
===============================================================================
