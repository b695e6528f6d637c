----------------------------- MODULE PackLayoutMC -----------------------------
(* Structures are built field by field (and nested ones beside them), and laid out   *)
(* as they grow.  Every value lies on a multiple of its width, counted from the      *)
(* start of the outermost structure; values do not share bytes; no more is left free  *)
(* than alignment needs; and another value somewhere gives other bytes, so that what  *)
(* was packed can be unpacked.                                                        *)
EXTENDS PackLayout, Json, TLC
CONSTANTS Fields, NFields, Inner, Gen

VARIABLES fields,    \* of the structure being built
          inner,     \* of a nested structure being built
          s, done
vars == <<fields, inner, s, done>>

Bool(v) == [k |-> "bool", w |-> 1, vals |-> v, elems |-> <<>>]
Raw(w, n) == [k |-> "raw", w |-> w, vals |-> [i \in 1..(w * n) |-> 1], elems |-> <<>>]
One(e) == [k |-> "one", w |-> 0, vals |-> <<>>, elems |-> <<e>>]
Many(e, n) == [k |-> "many", w |-> 0, vals |-> <<>>, elems |-> [i \in 1..n |-> e]]
Atoms == {Bool(<<1>>), Bool(<<1, 0, 1>>), Bool(<<1, 1, 1, 1, 1, 1, 1, 1, 1>>)} \union {Raw(w, 1) : w \in {1, 2, 4, 8}} \union {Raw(2, 3), Raw(1, 3)}
Chosen == {a \in Atoms : Fields = "all" \/ (a.k = "bool" /\ Len(a.vals) # 3) \/ (a.k = "raw" /\ a.w \in {4, 8})}

Init == fields = <<>> /\ inner = <<>> /\ s = Start /\ done = FALSE

Add == /\ ~done /\ Len(fields) < NFields /\ inner = <<>>
       /\ \E a \in Chosen : fields' = Append(fields, a) /\ s' = Put(s, a)
       /\ UNCHANGED <<inner, done>>
Grow == /\ ~done /\ Len(fields) < NFields /\ Len(inner) < Inner
        /\ \E a \in Chosen : inner' = Append(inner, a)
        /\ UNCHANGED <<fields, s, done>>
Nest == /\ ~done /\ inner # <<>>
        /\ \E f \in {One(inner), Many(inner, 2), Many(inner, 3), One(<<Raw(1, 1), One(inner)>>)} :
              fields' = Append(fields, f) /\ s' = Put(s, f)
        /\ inner' = <<>>
        /\ UNCHANGED done
Close == /\ ~done /\ inner = <<>> /\ fields # <<>>
         /\ done' = TRUE /\ s' = Flush(s)
         /\ UNCHANGED <<fields, inner>>
Next == Add \/ Grow \/ Nest \/ Close
Spec == Init /\ [][Next]_vars

\* the leaves of a structure: the widths of its values in order, 0 for a boolean
RECURSIVE Leaves(_), LeavesOf(_), Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
LeavesOf(f) == CASE f.k = "bool" -> [i \in DOMAIN f.vals |-> 0]
                 [] f.k = "raw" -> [i \in 1..(Len(f.vals) \div f.w) |-> f.w]
                 [] OTHER -> Cat([i \in DOMAIN f.elems |-> Leaves(f.elems[i])])
Leaves(fs) == Cat([i \in DOMAIN fs |-> LeavesOf(fs[i])])

\* walking over the cells and the leaves together
RECURSIVE Walk(_, _, _, _, _)
Walk(cells, i, bit, leaves, free) ==
    IF i > Len(cells) THEN leaves = <<>> /\ free < 8
    ELSE IF cells[i].c = "pad" THEN bit = 0 /\ Walk(cells, i + 1, 0, leaves, free + 1)
    ELSE IF cells[i].c = "bits"
         THEN IF bit = Len(cells[i].bits) THEN Walk(cells, i + 1, 0, leaves, 0)
              ELSE leaves # <<>> /\ Head(leaves) = 0 /\ bit < 8 /\ Walk(cells, i, bit + 1, Tail(leaves), 0)
    ELSE LET w == Head(leaves) IN
         /\ leaves # <<>> /\ w > 0
         /\ (i - 1) % w = 0                                           \* aligned
         /\ free < 8
         /\ \A j \in i..(i + w - 1) : j <= Len(cells) /\ cells[j].c = "byte"
         /\ Walk(cells, i + w, 0, Tail(leaves), 0)
Placed == done => Walk(s.cells, 1, 0, Leaves(fields), 0)
Incremental == done => s.cells = Layout(fields)

\* one value changed
RECURSIVE Changed(_), ChangedAll(_)
Changed(f) == IF f.k \in {"bool", "raw"} THEN {[f EXCEPT !.vals[i] = 1 - @] : i \in DOMAIN f.vals}
              ELSE UNION {{[f EXCEPT !.elems[i] = e] : e \in ChangedAll(f.elems[i])} : i \in DOMAIN f.elems}
ChangedAll(fs) == UNION {{[fs EXCEPT ![i] = x] : x \in Changed(fs[i])} : i \in DOMAIN fs}
Distinct == done => /\ Fits(Bytes(s.cells), s.cells)
                    /\ \A g \in ChangedAll(fields) : ~Fits(Bytes(s.cells), Layout(g)) /\ ~Fits(Bytes(Layout(g)), s.cells)
RECURSIVE Shape(_)
Shape(fs) == [i \in DOMAIN fs |-> IF fs[i].k \in {"bool", "raw"} THEN [k |-> fs[i].k, w |-> fs[i].w, n |-> Len(fs[i].vals), sub |-> <<>>]
                                  ELSE [k |-> fs[i].k, w |-> 0, n |-> Len(fs[i].elems), sub |-> Shape(fs[i].elems[1])]]
Emit == (Gen /\ done) => PrintT("SCN " \o ToJson(Shape(fields)))
===============================================================================
