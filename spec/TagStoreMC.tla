------------------------------ MODULE TagStoreMC ------------------------------
(* A map provider as one would write it - a table of values, a sorted list of the     *)
(* names that is kept until a tag is added, a lock, arrays that are written element    *)
(* by element - used by several sessions at once, against TagStore: what it answers    *)
(* and leaves in the table must be what one operation at a time would.                 *)
(* Careless is one way of getting it wrong; TLC finds each.                            *)
EXTENDS TagStore, Json
CONSTANTS MaxOps, Careless, Gen
VARIABLES
    tags,       \* the table as it should be
    itab,       \* the table as the provider has it
    icache,     \* the sorted names, or <<"?">>
    lock,       \* who has it; 0: nobody
    w,          \* session -> what its operation is at: [pc, op, pos, res]
    sent,       \* session -> number of operations begun
    hist,       \* the operations, when scenarios are generated
    ok          \* every answer so far was allowed

vars == <<tags, itab, icache, lock, w, sent, hist, ok>>
Sess == {1, 2}
Names == <<"a", "b", "c", "x">>     \* in order
NoList == <<"?">>
Page == 2

Blank == [f |-> "read", tag |-> "a", raw |-> "a", idx |-> -1, n |-> 1, eo |-> 0, t |-> "INT", v |-> <<>>, as |-> <<>>, start |-> 0]
V(s, n) == ToString(10 * s + n)
Menu(s, n) ==
    {[Blank EXCEPT !.idx = i, !.n = k] : i \in {-1, 1}, k \in {1, 2, 3}}
    \cup {[Blank EXCEPT !.raw = "A", !.n = 3], [Blank EXCEPT !.tag = "x", !.raw = "x"], [Blank EXCEPT !.tag = "b", !.raw = "b"]}
    \cup {[Blank EXCEPT !.f = "write", !.idx = i, !.n = k, !.v = [j \in 1..k |-> V(s, n)]] : i \in {-1, 2}, k \in {1, 2, 3}}
    \cup {[Blank EXCEPT !.f = "write", !.raw = "A", !.n = 3, !.v = [j \in 1..3 |-> V(s, n)]]}
    \cup {[Blank EXCEPT !.f = "write", !.t = "DINT", !.v = <<"99999", V(s, n)>>, !.n = 2],
          [Blank EXCEPT !.f = "write", !.t = "DINT", !.v = <<V(s, n)>>, !.as = <<[t |-> "INT", v |-> <<V(s, n)>>]>>, !.idx = 0]}
    \cup {[Blank EXCEPT !.f = "write", !.tag = t, !.raw = t, !.v = <<V(s, n)>>] : t \in {"b", "c", "x"}}
    \cup {[Blank EXCEPT !.f = "list", !.start = i] : i \in {0, 1, 2, 3}}
    \cup {[Blank EXCEPT !.f = "nth", !.start = i] : i \in {0, 1, 2, 4}}

Idle == [pc |-> "idle", op |-> Blank, pos |-> 0, res |-> NoRes]

MCInit ==
    /\ tags = [n \in {"a", "x"} |-> IF n = "a" THEN [t |-> "INT", arr |-> TRUE, v |-> <<"1", "1", "1">>] ELSE [t |-> "INT", arr |-> FALSE, v |-> <<"5">>]]
    /\ itab = tags /\ icache = NoList /\ lock = 0
    /\ w = [s \in Sess |-> Idle] /\ sent = [s \in Sess |-> 0] /\ hist = <<>> /\ ok = TRUE

\* a scenario is generated as rounds, in which each session has one operation
Invoke(s) ==
    /\ w[s].pc = "idle" /\ sent[s] < MaxOps
    /\ Gen => \A x \in Sess : sent[s] <= sent[x] /\ (w[x].pc # "idle" => sent[x] = sent[s] + 1)
    /\ \E op \in Menu(s, sent[s] + 1) :
         /\ w' = [w EXCEPT ![s] = [Idle EXCEPT !.pc = "enter", !.op = op]]
         /\ hist' = IF Gen THEN Append(hist, [s |-> s, f |-> op.f, raw |-> op.raw, idx |-> op.idx, n |-> op.n, t |-> op.t, v |-> op.v, start |-> op.start]) ELSE hist
    /\ sent' = [sent EXCEPT ![s] = @ + 1]
    /\ UNCHANGED <<tags, itab, icache, lock, ok>>

Enter(s) ==
    /\ w[s].pc = "enter"
    /\ Careless = "unlocked" \/ lock = 0
    /\ lock' = s
    /\ w' = [w EXCEPT ![s].pc = "do"]
    /\ UNCHANGED <<tags, itab, icache, sent, hist, ok>>

\* the name under which the provider looks
Key(op) == IF Careless = "case" THEN op.raw ELSE op.tag
At(op) == IF op.idx >= 0 THEN op.idx ELSE 0

\* what TagStore allows for the operation on the table as it should be
Allowed(op) == CASE op.f = "read" -> Keep(tags, ReadRes(tags, op))
                 [] op.f = "write" -> WriteRes(tags, op)
                 [] op.f = "list" -> Keep(tags, {[Done EXCEPT !.list = Symbols(tags, Names, op.start), !.part = TRUE]})
                 [] OTHER -> LET S == Sorted(tags, Names) IN
                             Keep(tags, IF op.start \in 1..Len(S) THEN {Val(tags[S[op.start]].t, <<tags[S[op.start]].v[1]>>)} ELSE {Err})
IsPrefix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* x: as it should be; y: what the provider gives, y.part: there is more
Good(x, y) == /\ x.ok = y.ok /\ x.t = y.t /\ x.v = y.v
              /\ IF y.part THEN x.part /\ y.list # <<>> /\ y.list # x.list /\ IsPrefix2(y.list, x.list) ELSE y.list = x.list

\* the operation of s is done, with this result and this table
Commit(s, res, tab) ==
    /\ w' = [w EXCEPT ![s].pc = "leave", ![s].res = res]
    /\ itab' = tab
    /\ LET S == {x \in Allowed(w[s].op) : Good(x.res, res) /\ x.tags = tab} IN
       IF S = {} THEN ok' = FALSE /\ UNCHANGED tags ELSE UNCHANGED ok /\ tags' = tab

DoRead(s) ==
    LET op == w[s].op k == Key(op) IN
    /\ op.f = "read"
    /\ Commit(s, IF k \notin DOMAIN itab THEN Err
                 ELSE LET g == itab[k] IN
                      IF ~g.arr THEN IF op.idx >= 0 THEN Err ELSE Val(g.t, g.v)
                      ELSE IF At(op) + op.n > Len(g.v) THEN Err
                      ELSE IF Careless = "first" THEN Val(g.t, SubSeq(g.v, 1, op.n))
                      ELSE Val(g.t, SubSeq(g.v, At(op) + 1, At(op) + op.n)), itab)
    /\ UNCHANGED icache

\* the values as the kind of the tag; <<>>: they are not
Conv(op, t) == IF op.t = t THEN op.v ELSE IF op.as # <<>> THEN op.as[1].v ELSE <<>>

DoWrite(s) ==
    LET op == w[s].op k == Key(op) IN
    /\ op.f = "write"
    /\ IF k \notin DOMAIN itab
       THEN IF op.idx >= 0 THEN Commit(s, Err, itab) /\ UNCHANGED icache
            ELSE /\ Commit(s, Done, Put(itab, k, [t |-> op.t, arr |-> Len(op.v) > 1, v |-> op.v]))
                 /\ icache' = IF Careless = "stale" \/ icache = NoList THEN icache
                              ELSE IF Careless = "append" THEN Append(icache, k) ELSE NoList
       ELSE LET g == itab[k] c == Conv(op, g.t) IN
            /\ UNCHANGED icache
            /\ IF ~g.arr THEN IF op.idx >= 0 \/ Len(op.v) # 1 \/ op.t # g.t THEN Commit(s, Err, itab) ELSE Commit(s, Done, Put(itab, k, [g EXCEPT !.v = op.v]))
               ELSE IF Careless # "partial" /\ (c = <<>> \/ At(op) + Len(op.v) > Len(g.v)) THEN Commit(s, Err, itab)
               ELSE w' = [w EXCEPT ![s].pc = "put"] /\ UNCHANGED <<itab, tags, ok>>

\* one element after the other
PutOne(s) ==
    LET op == w[s].op k == Key(op) g == itab[k] p == w[s].pos IN
    /\ w[s].pc = "put"
    /\ UNCHANGED <<icache, lock, sent, hist>>
    \* careless: only now it turns out that it does not fit
    /\ IF At(op) + p + 1 > Len(g.v) \/ Conv(op, g.t) = <<>> THEN Commit(s, Err, itab)
       ELSE LET tab == Put(itab, k, [g EXCEPT !.v[At(op) + p + 1] = Conv(op, g.t)[p + 1]]) IN
            IF p + 1 = Len(op.v) THEN Commit(s, Done, tab)
            ELSE itab' = tab /\ w' = [w EXCEPT ![s].pos = p + 1] /\ UNCHANGED <<tags, ok>>

List == IF icache = NoList THEN Sorted(itab, Names) ELSE icache
DoList(s) ==
    LET op == w[s].op
        a == IF op.start < 1 THEN 1 ELSE op.start
        all == [i \in 1..Len(List) |-> [i |-> i, n |-> List[i], t |-> itab[List[i]].t]]
        rest == SubSeq(all, IF Careless = "skip" THEN a + 1 ELSE a, Len(all)) IN
    /\ op.f \in {"list", "nth"}
    /\ icache' = List
    /\ Commit(s, IF op.f = "list"
                 THEN [Done EXCEPT !.list = IF Len(rest) > Page THEN SubSeq(rest, 1, Page) ELSE rest,
                                   !.part = IF Careless = "whole" THEN FALSE ELSE Len(rest) > Page]
                 ELSE IF op.start \in 1..Len(List) THEN Val(itab[List[op.start]].t, <<itab[List[op.start]].v[1]>>)
                 ELSE IF op.start = 0 /\ Careless = "zero" THEN Val(itab[List[1]].t, <<itab[List[1]].v[1]>>) ELSE Err, itab)

Do(s) == w[s].pc = "do" /\ (DoRead(s) \/ DoWrite(s) \/ DoList(s)) /\ UNCHANGED <<lock, sent, hist>>

Leave(s) ==
    /\ w[s].pc = "leave"
    /\ lock' = IF lock = s THEN 0 ELSE lock
    /\ w' = [w EXCEPT ![s] = Idle]
    /\ UNCHANGED <<tags, itab, icache, sent, hist, ok>>

MCNext == \E s \in Sess : Invoke(s) \/ Enter(s) \/ Do(s) \/ PutOne(s) \/ Leave(s)
Spec == MCInit /\ [][MCNext]_vars

\* every answer was one that is allowed
Right == ok
\* by themselves: nobody sees a table that is not the one it should be when nobody is at it; the first array keeps its kind and length
Quiet == lock = 0 => itab = tags
Shape == \A n \in DOMAIN itab : n = "a" => itab[n].t = "INT" /\ itab[n].arr /\ Len(itab[n].v) = 3
Cache == (lock = 0 /\ icache # NoList) => icache = Sorted(itab, Names)

\* nothing that both sessions use in a way that can be told from the outside is left out
Emit == (Gen /\ hist # <<>> /\ \A x \in Sess : w[x].pc = "idle" /\ sent[x] = sent[1]) => PrintT("SCN " \o ToJson(hist))
=============================================================================
