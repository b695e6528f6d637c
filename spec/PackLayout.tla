------------------------------ MODULE PackLayout ------------------------------
(* The memory layout of a controller's structures (property K01).  A structure is   *)
(* a sequence of fields, each                                                        *)
(*   [k |-> "bool", w |-> 1, vals |-> bits, elems |-> <<>>]   a boolean or an array  *)
(*                         of booleans: joins the run of booleans it stands in, and  *)
(*                         the run is kept in hidden bytes, lowest bit first         *)
(*   [k |-> "raw", w |-> width, vals |-> bytes, elems |-> <<>>]   a value, or an     *)
(*                         array of values, of that width (or a predefined type)     *)
(*   [k |-> "one", elems |-> <<fields>>]    a structure                              *)
(*   [k |-> "many", elems |-> <<fields, fields, ...>>]   an array of structures      *)
(* The layout is a sequence of cells: what stands in each byte.                      *)
EXTENDS Integers, Sequences, Props

Pad == [c |-> "pad", b |-> 0, bits |-> <<>>]
ByteCell(b) == [c |-> "byte", b |-> b, bits |-> <<>>]
BitsCell(s) == [c |-> "bits", b |-> 0, bits |-> s]

\* a layout in the making: the cells so far, and the booleans that have no byte yet
Start == [cells |-> <<>>, bits |-> <<>>]
Flush(s) == IF s.bits = <<>> THEN s ELSE [cells |-> Append(s.cells, BitsCell(s.bits)), bits |-> <<>>]
PadTo(cells, a) == cells \o [i \in 1..((a - (Len(cells) % a)) % a) |-> Pad]

RECURSIVE PutBits(_, _)
PutBits(s, vals) ==
    IF vals = <<>> THEN s
    ELSE LET m == Append(s.bits, Head(vals))
         IN PutBits(IF Len(m) = 8 THEN Flush([s EXCEPT !.bits = m]) ELSE [s EXCEPT !.bits = m], Tail(vals))

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Alignment(_), Put(_, _), PutAll(_, _), Layout(_), PutElems(_, _, _)
Alignment(f) == IF f.k \in {"bool", "raw"} THEN f.w
                ELSE Max({1} \union {Alignment(f.elems[1][i]) : i \in DOMAIN f.elems[1]})

Put(s, f) ==
    IF f.k = "bool" THEN PutBits(s, f.vals)
    ELSE LET at == PadTo(Flush(s).cells, Alignment(f))
         IN [cells |-> CASE f.k = "raw" -> at \o [i \in DOMAIN f.vals |-> ByteCell(f.vals[i])]
                         [] f.k = "one" -> at \o Layout(f.elems[1])
                         [] f.k = "many" -> PutElems(at, Alignment(f), f.elems),
             bits |-> <<>>]
PutElems(cells, a, elems) == IF elems = <<>> THEN cells
                             ELSE PutElems(cells \o PadTo(Layout(Head(elems)), a), a, Tail(elems))
PutAll(s, fields) == IF fields = <<>> THEN s ELSE PutAll(Put(s, Head(fields)), Tail(fields))
Layout(fields) == Flush(PutAll(Start, fields)).cells
\* an array (slice) of structures on its own
RowLayout(rows) == PutElems(<<>>, Alignment([k |-> "many", elems |-> rows]), rows)

Pow2(n) == 2 ^ n
RECURSIVE Weigh(_, _)
Weigh(bits, i) == IF i > Len(bits) THEN 0 ELSE bits[i] * Pow2(i - 1) + Weigh(bits, i + 1)
ByteOf(c) == IF c.c = "byte" THEN c.b ELSE IF c.c = "bits" THEN Weigh(c.bits, 1) ELSE 0
Bytes(cells) == [i \in DOMAIN cells |-> ByteOf(cells[i])]

\* how many bytes of data are needed before every value is there
Needed(cells) == Max({0} \union {i \in DOMAIN cells : cells[i].c # "pad"})
\* data, whatever stands in its padding, reads as these values
Holds(c, b) == CASE c.c = "pad" -> TRUE
                 [] c.c = "byte" -> b = c.b
                 [] c.c = "bits" -> \A i \in DOMAIN c.bits : (b \div Pow2(i - 1)) % 2 = c.bits[i]
Fits(data, cells) == /\ Len(data) >= Needed(cells)
                     /\ \A i \in 1..Needed(cells) : Holds(cells[i], data[i])

---------------------------------------------------------------------------
\* what packing and unpacking may do.  room: the bytes the writer takes before it fails
PackOk(cells, room, out, n, ok) ==
    IF room >= Len(cells) THEN ok /\ out = Bytes(cells) /\ n = Len(cells)
    ELSE ~ok /\ out = SubSeq(Bytes(cells), 1, Len(out))

\* cells: the layout of the values found in the structure after unpacking
UnpackOk(data, cells, n, ok) ==
    /\ Len(data) < Needed(cells) => ~ok
    /\ Len(data) >= Len(cells) => ok /\ n = Len(cells)
    /\ ok => Fits(data, cells)
===============================================================================
