------------------------------- MODULE TypeName -------------------------------
(* How a controller names a structure type (property K03).  Beside its data, a       *)
(* structure that is written carries a number that stands for its type: the CRC-16   *)
(* of a text made of the type's name and, in order, the names of what it is made of.  *)
(* Booleans have no name there; the hidden bytes that hold them have.                *)
(*   type   == [name |-> text, fields |-> <<field, ...>>]                             *)
(*   field  == [k |-> "bool" | "num" | "known" | "type", t |-> the controller's name   *)
(*              of the value or the predefined structure, n |-> elements of an array,   *)
(*              or -1, sub |-> <<type>>]                                                *)
EXTENDS PackLayout, TLC, Bitwise, SequencesExt

\* what is written for a predefined structure
Known(t) == CASE t = "STRING" -> "STRING,DINT,SINT[82]"
              [] t \in {"TIMER", "COUNTER", "CONTROL"} -> t \o ",DINT,DINT,DINT"

Count(n) == IF n < 0 THEN "" ELSE "[" \o ToString(n) \o "]"

\* a text in the making: the text so far, and how many booleans the last hidden byte holds (0: there is none)
Begin(name) == [text |-> name, run |-> 0]
RECURSIVE Text(_), Name(_, _), NameAll(_, _)
Name(s, f) ==
    IF f.k = "bool" THEN [text |-> IF s.run = 0 THEN s.text \o ",SINT" ELSE s.text, run |-> (s.run + 1) % 8]
    ELSE [text |-> s.text \o "," \o (CASE f.k = "num" -> f.t
                                       [] f.k = "known" -> Known(f.t)
                                       [] f.k = "type" -> Text(f.sub[1])) \o Count(f.n),
          run |-> 0]
NameAll(s, fs) == IF fs = <<>> THEN s ELSE NameAll(Name(s, Head(fs)), Tail(fs))
Text(t) == IF t.fields = <<>> THEN Known(t.name) ELSE NameAll(Begin(t.name), t.fields).text

---------------------------------------------------------------------------
\* CRC-16 with the polynomial 8005, bits reversed
Alphabet == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
AlphaCode(i) == IF i <= 10 THEN 47 + i ELSE IF i <= 36 THEN 54 + i ELSE 60 + i
Signs == [c \in {",", "[", "]", "_"} |-> CASE c = "," -> 44 [] c = "[" -> 91 [] c = "]" -> 93 [] c = "_" -> 95]
CharCode == [c \in {SubSeq(Alphabet, i, i) : i \in 1..62} |->
                AlphaCode(CHOOSE i \in 1..62 : SubSeq(Alphabet, i, i) = c)] @@ Signs
RECURSIVE Shifted(_, _)
Shifted(c, n) == IF n = 0 THEN c ELSE Shifted(IF c % 2 = 1 THEN (c \div 2) ^^ 40961 ELSE c \div 2, n - 1)
CrcTable == [b \in 0..255 |-> Shifted(b, 8)]
Crc(text) == FoldLeft(LAMBDA c, i : (c \div 256) ^^ CrcTable[(c % 256) ^^ CharCode[SubSeq(text, i, i)]], 0, [i \in 1..Len(text) |-> i])
Number(t) == IF t.fields # <<>> THEN Crc(Text(t))
             ELSE CASE t.name = "TIMER" -> 3971 [] t.name = "COUNTER" -> 3970 [] t.name = "CONTROL" -> 3969 [] t.name = "STRING" -> 4046

---------------------------------------------------------------------------
\* a type is named as it should be
NamedOk(t, text, crc) == text = Text(t) /\ crc = Number(t)

\* a structure is written: the type's number, one element, and the bytes of its layout (with padding at its end or not)
HeadOf(t) == LET c == Number(t) IN <<160, 2, c % 256, c \div 256, 1, 0>>
WroteOk(t, fields, head, data) ==
    LET want == Bytes(Layout(fields)) IN
    /\ head = HeadOf(t)
    /\ Len(data) >= Len(want) /\ Len(data) - Len(want) < 8
    /\ SubSeq(data, 1, Len(want)) = want
    /\ \A i \in (Len(want) + 1)..Len(data) : data[i] = 0
===============================================================================
