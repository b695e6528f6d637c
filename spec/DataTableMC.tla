----------------------------- MODULE DataTableMC -----------------------------
(* The bookkeeping of a client - it counts indices and batches for itself and    *)
(* cuts the bytes of a read by them - against the target of DataTable, over all   *)
(* histories of adding, reading and removing with refusals.  Mine is the client's  *)
(* list.  With Counting = "position" it takes the position in its own list for     *)
(* the index (which is wrong after a removal: TLC finds it).                        *)
EXTENDS DataTable, Json
CONSTANTS Tags, MaxOps, Counting, Gen
VARIABLES mine, count, ops, n

B == 1
Add1(t) == [None EXCEPT !.op = "add", !.b = B, !.adds = <<[name |-> t, size |-> 1]>>]
Op(o, t) == [None EXCEPT !.op = o, !.b = B, !.name = t]

\* a call begins; the target decides about one of its requests
H(o, t) == ops' = IF Gen THEN Append(ops, [op |-> o, name |-> t, sts |-> <<>>]) ELSE ops
Got(st) == ops' = IF Gen THEN [ops EXCEPT ![Len(ops)].sts = Append(@, st)] ELSE ops
NoH == ops' = ops

MCInit == DInit([t \in Tags |-> t]) /\ mine = <<>> /\ count = 0 /\ ops = <<>> /\ n = 0

\* the bytes of a read: a header per batch, then the values
RECURSIVE Layout(_, _)
Layout(es, batch) == IF es = <<>> THEN <<>>
                     ELSE (IF es[1].batch # batch THEN <<"hdr">> ELSE <<>>) \o <<es[1].name>> \o Layout(Tail(es), es[1].batch)
\* the client's reading of it
RECURSIVE Cut(_, _, _)
Cut(m, batch, data) == IF m = <<>> THEN data = <<>>
    ELSE LET d == IF m[1].batch # batch THEN (IF data # <<>> THEN Tail(data) ELSE <<>>) ELSE data IN
         /\ d # <<>> /\ d[1] = m[1].name
         /\ Cut(Tail(m), m[1].batch, Tail(d))

Synced == SelectSeq(mine, LAMBDA m : m.batch # 0)
New == SelectSeq(mine, LAMBDA m : m.batch = 0)

DoBegin ==
    /\ n < MaxOps /\ n' = n + 1
    /\ \/ n = 0 /\ Begin(Op("new", "")) /\ H("new", "") /\ UNCHANGED <<mine, count>>
       \/ n > 0 /\ \E t \in Tags : Begin(Add1(t)) /\ H("add", t) /\ UNCHANGED <<mine, count>>
       \/ n > 0 /\ \E o \in {"sync", "read", "close"} : Begin(Op(o, "")) /\ H(o, "") /\ UNCHANGED <<mine, count>>
       \/ n > 0 /\ \E t \in Tags : Begin(Op("remove", t)) /\ H("remove", t) /\ UNCHANGED <<mine, count>>

Stay == UNCHANGED <<mine, count, n>>

\* positions in mine of tags of this name
Pos(t) == {k \in 1..Len(mine) : mine[k].name = t}
First(S) == CHOOSE k \in S : \A j \in S : k <= j
St == {OK, 5}

DoCreate == \E st \in St : Create(1, st) /\ Got(st) /\ Stay
DoEndNew == \E ok \in BOOLEAN : EndNew(ok) /\ NoH /\ Stay
DoEndAdd == \E ok \in BOOLEAN : /\ EndAdd(ok) /\ NoH /\ UNCHANGED <<count, n>>
                                /\ mine' = IF ok THEN Append(mine, [name |-> call.adds[1].name, batch |-> 0,
                                                                    index |-> IF Counting = "position" THEN Len(mine) + 1 ELSE 0]) ELSE mine
DoAdd == /\ call.op \in {"sync", "read"} /\ New # <<>>
         /\ \E st \in St :
              /\ Add(1, [k \in 1..Len(New) |-> [name |-> New[k].name, size |-> 1]], st)
              /\ Got(st)
              /\ IF st = OK
                 THEN /\ mine' = Synced \o [k \in 1..Len(New) |-> [New[k] EXCEPT !.batch = tgt[1].batches + 1,
                                                     !.index = IF Counting = "position" THEN @ ELSE count + k]]
                      /\ count' = count + Len(New)
                 ELSE UNCHANGED <<mine, count>>
              /\ UNCHANGED n
DoEndSync == \E ok \in BOOLEAN : EndSync(ok) /\ NoH /\ Stay
DoRead == /\ New = <<>> /\ mine # <<>>
          /\ \E st \in St : Read(1, st, FALSE) /\ Got(st) /\ Stay
DoEndRead == \E ok \in BOOLEAN : EndRead(ok, IF ok THEN Result(B) ELSE {}, "all", <<>>) /\ NoH /\ Stay
\* the request carries the client's idea of the index
DoRemove == /\ call.op = "remove" /\ Pos(call.name) # {} /\ mine[First(Pos(call.name))].batch # 0
            /\ progress = "" /\ ~did /\ Open(B)
            /\ \E st \in St :
                 /\ Remove(1, mine[First(Pos(call.name))].index, st) /\ Got(st)
                 /\ mine' = IF st = OK THEN RemoveAt(mine, First(Pos(call.name))) ELSE mine
                 /\ UNCHANGED <<count, n>>
DoEndRemove == \E ok \in BOOLEAN :
                 /\ EndRemove(ok)
                 /\ ~did /\ ok => mine[First(Pos(call.name))].batch = 0
                 /\ NoH
                 /\ mine' = IF ok /\ ~did THEN RemoveAt(mine, First(Pos(call.name))) ELSE mine
                 /\ UNCHANGED <<count, n>>
DoDelete == \E st \in St : Delete(1, st) /\ Got(st) /\ Stay
DoEndClose == \E ok \in BOOLEAN : EndClose(ok) /\ NoH /\ Stay

MCNext == DoBegin \/ DoCreate \/ DoEndNew \/ DoEndAdd \/ DoAdd \/ DoEndSync \/ DoRead \/ DoEndRead \/ DoRemove \/ DoEndRemove
          \/ DoDelete \/ DoEndClose
vars == <<dvs, mine, count, ops, n>>
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)

\* what the client makes of a read is what the target means
Agree == (Open(B) /\ 1 \in DOMAIN tgt) =>
            /\ Cut(Synced, 0, Layout(tgt[1].entries, 0))
            /\ \A k \in 1..Len(Synced) : Synced[k].index = tgt[1].entries[k].index /\ Synced[k].name = tgt[1].entries[k].name
\* every call comes back
Returns == (call.op # "") ~> (call.op = "")
Emit == (Gen /\ call.op = "" /\ n = MaxOps) => PrintT("SCN " \o ToJson(ops))
=============================================================================
