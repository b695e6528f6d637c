------------------------------- MODULE Segments -------------------------------
(* The segments of a path, as whoever receives its bytes takes them apart (Decode).   *)
(* Numbers are four bytes, the lowest first, so that all of them can be told.          *)
EXTENDS Integers, Sequences

\* taking a path apart
Z4(b) == <<b, 0, 0, 0>>
PortSeg(p, link) == [k |-> "port", n |-> Z4(p), s |-> link]
Logical(k, n4) == [k |-> k, n |-> n4, s |-> <<>>]
Bad == [k |-> "bad", n |-> Z4(0), s |-> <<>>]
LogicalKind(b) == CASE b \in 32..34 -> "class" [] b \in 36..38 -> "inst" [] b \in 40..42 -> "elem" [] b \in 48..50 -> "attr" [] OTHER -> "none"
From(b, i) == SubSeq(b, i, Len(b))

RECURSIVE Decode(_)
Decode(b) ==
    IF b = <<>> THEN <<>>
    ELSE IF Len(b) < 2 THEN <<Bad>>
    ELSE IF b[1] < 16 THEN <<PortSeg(b[1], <<b[2]>>)>> \o Decode(From(b, 3))
    ELSE IF b[1] < 32
         THEN LET l == b[2] IN LET e == 2 + l + (l % 2) IN
              IF Len(b) < e \/ (l % 2 = 1 /\ b[e] # 0) THEN <<Bad>>
              ELSE <<PortSeg(b[1] - 16, SubSeq(b, 3, 2 + l))>> \o Decode(From(b, e + 1))
    ELSE IF b[1] = 145
         THEN LET l == b[2] IN LET e == 2 + l + (l % 2) IN
              IF l = 0 \/ Len(b) < e \/ (l % 2 = 1 /\ b[e] # 0) THEN <<Bad>>
              ELSE <<[k |-> "sym", n |-> Z4(0), s |-> SubSeq(b, 3, 2 + l)]>> \o Decode(From(b, e + 1))
    ELSE LET k == LogicalKind(b[1]) IN
         IF k = "none" THEN <<Bad>>
         ELSE IF b[1] % 4 = 0 THEN <<Logical(k, Z4(b[2]))>> \o Decode(From(b, 3))
         ELSE IF b[2] # 0 THEN <<Bad>>
         ELSE IF b[1] % 4 = 1 THEN IF Len(b) < 4 THEN <<Bad>> ELSE <<Logical(k, <<b[3], b[4], 0, 0>>)>> \o Decode(From(b, 5))
         ELSE IF Len(b) < 6 THEN <<Bad>> ELSE <<Logical(k, SubSeq(b, 3, 6))>> \o Decode(From(b, 7))
=============================================================================
