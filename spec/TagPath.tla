------------------------------- MODULE TagPath -------------------------------
(* What a tag path means (property C14).  A path is a sequence of names, each      *)
(* with a list of indices, and possibly the number of a bit at the end.  However    *)
(* the client words a request - by names, or by the instance numbers under which    *)
(* the target has listed its tags - the target must understand it as just that      *)
(* path, and a bit of the value is the bit asked for.                               *)
EXTENDS Integers, Sequences, Props

VARIABLES tab,     \* the tags the target publishes now: scope, pid (instance of the program), inst, name
          op       \* the call in progress

pvs == <<tab, op>>

Sym(s) == [k |-> "sym", name |-> s, n |-> ""]
Elem(i) == [k |-> "elem", name |-> "", n |-> i]

RECURSIVE Flat(_)
Flat(parts) == IF parts = <<>> THEN <<>>
               ELSE <<Sym(Head(parts).name)>> \o [i \in 1..Len(Head(parts).idx) |-> Elem(Head(parts).idx[i])] \o Flat(Tail(parts))

Is2(s, i, class) == /\ Len(s) >= i + 1 /\ s[i].k = "class" /\ s[i].n = class /\ s[i + 1].k = "inst"
After(s, i) == SubSeq(s, i, Len(s))

\* all the meanings the target can give to the segments of a request
Meanings(s) ==
    IF Is2(s, 1, "107") THEN {<<Sym(e.name)>> \o After(s, 3) : e \in {x \in tab : x.scope = "" /\ x.inst = s[2].n}}
    ELSE IF Is2(s, 1, "104") /\ Is2(s, 3, "107")
         THEN {<<Sym(e.scope), Sym(e.name)>> \o After(s, 5) : e \in {x \in tab : x.pid = s[2].n /\ x.scope # "" /\ x.inst = s[4].n}}
    ELSE IF Len(s) >= 3 /\ s[1].k = "sym" /\ Is2(s, 2, "107")
         THEN {<<s[1], Sym(e.name)>> \o After(s, 4) : e \in {x \in tab : x.scope = s[1].name /\ x.inst = s[3].n}}
    ELSE {s}

Idle == [on |-> FALSE]
PInit == tab = {} /\ op = Idle

Publish(entries) == /\ ~op.on
                    /\ tab' = entries
                    /\ UNCHANGED op

\* parts and bit: what the caller wrote (ok: it is a path at all); n: elements; width: bits of the type, 0 if it has none
Call(kind, parts, bit, ok, n, width) ==
    /\ ~op.on
    /\ op' = [on |-> TRUE, kind |-> kind, parts |-> parts, bit |-> bit, ok |-> ok, n |-> n, width |-> width, asked |-> 0,
              val |-> "", bits |-> <<>>]
    /\ UNCHANGED tab

\* the target receives a request and answers it with a value
Request(kind, segs, n, val, bits) ==
    /\ op.on /\ op.ok
    /\ kind = op.kind
    /\ Flat(op.parts) \in Meanings(segs)
    /\ n = op.n
    /\ op.asked = 0
    /\ op' = [op EXCEPT !.asked = 1, !.val = val, !.bits = bits]
    /\ UNCHANGED tab

Exists == op.bit < 0 \/ op.bit < op.width

Return(ok, val) ==
    /\ op.on
    /\ (op.ok /\ Exists) => ok
    /\ ok => /\ op.asked = 1
             /\ Exists
             /\ op.kind = "read" => val = (IF op.bit < 0 THEN op.val ELSE IF op.bits[op.bit + 1] = 1 THEN "true" ELSE "false")
    /\ op' = Idle
    /\ UNCHANGED tab
=============================================================================
