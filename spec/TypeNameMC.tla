------------------------------ MODULE TypeNameMC ------------------------------
(* Types are declared field by field, and named and laid out as they grow.  The text  *)
(* names every hidden byte of booleans once; and types that have the same text have    *)
(* room for the same data, so that a target which compares only the number does not    *)
(* take data of another shape (as far as the number tells texts apart).               *)
EXTENDS TypeName, FiniteSets
CONSTANTS NFields

VARIABLES fields, s, lay
vars == <<fields, s, lay>>

F(k, t, n, sub) == [k |-> k, t |-> t, n |-> n, sub |-> sub]
Inner1 == [name |-> "I", fields |-> <<F("num", "DINT", -1, <<>>), F("bool", "", -1, <<>>)>>]
Inner2 == [name |-> "J", fields |-> <<F("bool", "", -1, <<>>), F("type", "", 2, <<Inner1>>), F("bool", "", -1, <<>>)>>]
Atoms == {F("bool", "", -1, <<>>), F("num", "SINT", -1, <<>>), F("num", "DINT", -1, <<>>), F("num", "LREAL", 2, <<>>), F("num", "SINT", 3, <<>>),
          F("known", "TIMER", -1, <<>>), F("known", "COUNTER", 2, <<>>), F("type", "", -1, <<Inner1>>), F("type", "", 3, <<Inner1>>), F("type", "", -1, <<Inner2>>)}

\* the layout of such a field, all values zero
Width(t) == CASE t = "SINT" -> 1 [] t \in {"INT", "UINT"} -> 2 [] t \in {"DINT", "UDINT", "REAL"} -> 4 [] OTHER -> 8
Zero(n) == [i \in 1..n |-> 0]
Times(n) == IF n < 0 THEN 1 ELSE n
RECURSIVE Laid(_), LaidAll(_)
Laid(f) == CASE f.k = "bool" -> [k |-> "bool", w |-> 1, vals |-> <<0>>, elems |-> <<>>]
             [] f.k = "num" -> [k |-> "raw", w |-> Width(f.t), vals |-> Zero(Width(f.t) * Times(f.n)), elems |-> <<>>]
             [] f.k = "known" -> [k |-> "raw", w |-> 4, vals |-> Zero(12 * Times(f.n)), elems |-> <<>>]
             [] f.k = "type" -> [k |-> IF f.n < 0 THEN "one" ELSE "many", w |-> 0, vals |-> <<>>, elems |-> [i \in 1..Times(f.n) |-> LaidAll(f.sub[1].fields)]]
LaidAll(fs) == [i \in DOMAIN fs |-> Laid(fs[i])]

Init == fields = <<>> /\ s = Begin("T") /\ lay = Start

Declare == \E a \in Atoms : /\ Len(fields) < NFields
                            /\ fields' = Append(fields, a)
                            /\ s' = Name(s, a)
                            /\ lay' = Put(lay, Laid(a))
Next == Declare
Spec == Init /\ [][Next]_vars

TypeOf(fs) == [name |-> "T", fields |-> fs]
Incremental == fields # <<>> => s.text = Text(TypeOf(fields)) /\ Flush(lay).cells = Layout(LaidAll(fields))
\* the last hidden byte is open in the name exactly when it is open in the layout
InStep == s.run = Len(lay.bits)
\* every hidden byte is named: as many as the structure has itself
RECURSIVE HiddenOf(_, _)
HiddenOf(fs, run) == IF fs = <<>> THEN 0
                     ELSE IF Head(fs).k = "bool" THEN (IF run = 0 THEN 1 ELSE 0) + HiddenOf(Tail(fs), (run + 1) % 8)
                     ELSE HiddenOf(Tail(fs), 0)
\* from the text alone (of the types here, whose nested texts are known) the length of the layout follows
Small == UNION {[1..n -> Atoms] : n \in 1..3}
ASSUME SizeTold == Cardinality({Text(TypeOf(f)) : f \in Small}) = Cardinality({<<Text(TypeOf(f)), Len(Layout(LaidAll(f)))>> : f \in Small})
\* published examples
ASSUME Examples == /\ Crc("UDT1,SINT,SINT[2],UDT2,DINT,SINT[3],UDT3,SINT,SINT[4],UDT3,SINT,SINT[4][2],UDT3,SINT,SINT[4][4]") = 24408
                   /\ Crc("TimerWrapper,TIMER,DINT,DINT,DINT") = 49723
                   /\ Crc("StringWrapper,STRING,DINT,SINT[82]") = 17917
\* the number tells the types here apart wherever the texts differ
ASSUME NumberTells == LET T == {Text(TypeOf(f)) : f \in UNION {[1..n -> Atoms] : n \in 1..2}} IN Cardinality(T) = Cardinality({Crc(x) : x \in T})
HiddenBytes(fs) == Cardinality({i \in DOMAIN Layout(LaidAll(fs)) : Layout(LaidAll(fs))[i].c = "bits"})
Hidden == (\A i \in DOMAIN fields : fields[i].k # "type") => HiddenOf(fields, 0) = HiddenBytes(fields)
===============================================================================
