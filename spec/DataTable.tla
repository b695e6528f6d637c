------------------------------ MODULE DataTable ------------------------------
(* C12: data-table buffers.  The target keeps, per buffer, a list of entries:   *)
(* each has an index (counted from 1, never used again), the tag it stands for   *)
(* and the batch it was added with.  Reading a buffer returns the values of its  *)
(* entries in that order, one header per batch.  The client adds tags locally,   *)
(* hands them to the target before the next read, and removes them again.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

OK == 0

VARIABLES
    tgt,        \* instance -> [next, batches, entries: sequence of [index, name, size, batch]]
    vals,       \* tag name -> its value
    buf,        \* buffer of the client -> [inst, open, pending: sequence of [name, size], groups, refs: name -> value stored there]
    call,       \* the running call: [op, b, name, adds, groups, refs] (op = "" if none)
    progress,   \* of that call: "", "failed", "done"
    did         \* the call has read / created / removed / deleted at the target

dvs == <<tgt, vals, buf, call, progress, did>>

None == [op |-> "", b |-> 0, name |-> "", adds |-> <<>>, groups |-> {}, refs |-> <<>>, valid |-> TRUE]

DInit(v) == /\ tgt = <<>> /\ vals = v /\ buf = <<>>
            /\ call = None /\ progress = "" /\ did = FALSE

RemoveAt(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Open(b) == b \in DOMAIN buf /\ buf[b].open
Entries(b) == tgt[buf[b].inst].entries
InTarget(b) == IF Open(b) THEN {Entries(b)[k].name : k \in 1..Len(Entries(b))} ELSE {}
Pending(b) == IF Open(b) THEN {buf[b].pending[k].name : k \in 1..Len(buf[b].pending)} ELSE {}

SetValue(n, v) == /\ call.op = ""
                  /\ vals' = Put(vals, n, v)
                  /\ UNCHANGED <<tgt, buf, call, progress, did>>

Begin(c) == /\ call.op = "" /\ c.op # ""
            /\ call' = c /\ progress' = "" /\ did' = FALSE
            /\ UNCHANGED <<tgt, vals, buf>>

(* requests at the target *)
Create(inst, st) ==
    /\ call.op = "new" /\ progress = "" /\ ~did
    /\ IF st = OK
       THEN /\ inst \notin DOMAIN tgt
            /\ tgt' = Put(tgt, inst, [next |-> 1, batches |-> 0, entries |-> <<>>])
            /\ buf' = Put(buf, call.b, [inst |-> inst, open |-> TRUE, pending |-> <<>>, groups |-> {}, refs |-> <<>>])
            /\ did' = TRUE /\ UNCHANGED progress
       ELSE progress' = "failed" /\ UNCHANGED <<tgt, buf, did>>
    /\ UNCHANGED <<vals, call>>

\* es (entries, in their order) can be taken from the bag of pending tags: what remains of it
RECURSIVE Take(_, _)
Take(q, es) == IF es = <<>> THEN q
               ELSE LET I == {k \in 1..Len(q) : q[k].name = es[1].name /\ q[k].size = es[1].size} IN
                    IF I = {} THEN <<[name |-> "?", size |-> -1]>>
                    ELSE Take(RemoveAt(q, CHOOSE k \in I : \A j \in I : k <= j), Tail(es))
CanTake(q, es) == LET r == Take(q, es) IN ~(Len(r) = 1 /\ r[1].name = "?")

Add(inst, es, st) ==
    /\ call.op \in {"sync", "read"} /\ progress = "" /\ ~did
    /\ Open(call.b) /\ buf[call.b].inst = inst
    /\ es # <<>> /\ Len(es) <= 255
    /\ CanTake(buf[call.b].pending, es)
    /\ IF st = OK
       THEN /\ tgt' = [tgt EXCEPT ![inst] = [next |-> @.next + Len(es), batches |-> @.batches + 1,
                          entries |-> @.entries \o [k \in 1..Len(es) |-> [index |-> @.next + k - 1, name |-> es[k].name,
                                                                          size |-> es[k].size, batch |-> @.batches + 1]]]]
            /\ buf' = [buf EXCEPT ![call.b].pending = Take(@, es)]
            /\ UNCHANGED progress
       ELSE progress' = "failed" /\ UNCHANGED <<tgt, buf>>
    /\ UNCHANGED <<vals, call, did>>

Remove(inst, index, st) ==
    /\ call.op = "remove" /\ progress = "" /\ ~did
    /\ Open(call.b) /\ buf[call.b].inst = inst
    /\ \E k \in 1..Len(Entries(call.b)) :
          /\ Entries(call.b)[k].index = index
          /\ Entries(call.b)[k].name = call.name               \* the tag that was asked for, and no other
          /\ IF st = OK
             THEN tgt' = [tgt EXCEPT ![inst].entries = RemoveAt(@, k)] /\ did' = TRUE /\ UNCHANGED progress
             ELSE progress' = "failed" /\ UNCHANGED <<tgt, did>>
    /\ UNCHANGED <<vals, buf, call>>

\* fault: the reply is cut short
Read(inst, st, fault) ==
    /\ call.op = "read" /\ progress = "" /\ ~did
    /\ Open(call.b) /\ buf[call.b].inst = inst
    /\ buf[call.b].pending = <<>>                               \* everything has been handed over
    /\ IF st = OK /\ ~fault THEN did' = TRUE /\ UNCHANGED progress ELSE progress' = "failed" /\ UNCHANGED did
    /\ UNCHANGED <<tgt, vals, buf, call>>

Delete(inst, st) ==
    /\ call.op = "close" /\ progress = "" /\ ~did
    /\ Open(call.b) /\ buf[call.b].inst = inst
    /\ IF st = OK THEN did' = TRUE /\ tgt' = [i \in DOMAIN tgt \ {inst} |-> tgt[i]] /\ UNCHANGED progress
                  ELSE progress' = "failed" /\ UNCHANGED <<tgt, did>>
    /\ UNCHANGED <<vals, buf, call>>

(* the calls return *)
Return == call' = None /\ progress' = "" /\ did' = FALSE

\* what the buffer holds: names with their values
Names(b) == InTarget(b)
Val(n) == IF n \in DOMAIN vals THEN vals[n] ELSE "?"
Result(b) == {[name |-> n, val |-> Val(n)] : n \in Names(b)}
\* the same with the elements of arrays that are still complete put together
Whole(b) == {g \in buf[b].groups : \A k \in 1..Len(g.names) : g.names[k] \in Names(b)}
Typed(b) == {[name |-> g.base, val |-> [k \in 1..Len(g.names) |-> Val(g.names[k])]] : g \in Whole(b)}
            \cup {[name |-> n, val |-> <<Val(n)>>] : n \in Names(b) \ UNION {{g.names[k] : k \in 1..Len(g.names)} : g \in Whole(b)}}
Refs(b, refs) == [n \in DOMAIN refs |-> IF n \in Names(b) THEN Val(n) ELSE refs[n]]

EndNew(ok) ==
    /\ call.op = "new"
    /\ ok = did
    /\ Return /\ UNCHANGED <<tgt, vals, buf>>

EndAdd(ok) ==
    /\ call.op = "add"
    /\ ok = (Open(call.b) /\ call.valid)
    /\ IF ok THEN buf' = [buf EXCEPT ![call.b] = [@ EXCEPT !.pending = @ \o call.adds, !.groups = {g \in @ : \A h \in call.groups : h.base # g.base} \cup call.groups,
                              !.refs = [n \in DOMAIN @ \cup DOMAIN call.refs |-> IF n \in DOMAIN call.refs THEN call.refs[n] ELSE @[n]]]]
             ELSE UNCHANGED buf
    /\ Return /\ UNCHANGED <<tgt, vals>>

EndSync(ok) ==
    /\ call.op = "sync"
    /\ IF ok THEN Open(call.b) /\ progress = "" /\ buf[call.b].pending = <<>>
             ELSE progress = "failed" \/ ~Open(call.b)
    /\ Return /\ UNCHANGED <<tgt, vals, buf>>

\* how: "all", "typed" or "raw" (which leaves the variables alone)
EndRead(ok, result, how, refs) ==
    /\ call.op = "read"
    /\ IF ok
       THEN /\ Open(call.b) /\ did /\ progress = ""
            /\ IF how = "typed" THEN result = Typed(call.b) ELSE result = Result(call.b)
            /\ buf' = IF how = "raw" THEN buf ELSE [buf EXCEPT ![call.b].refs = Refs(call.b, @)]
            /\ refs = buf'[call.b].refs
       ELSE /\ \/ progress = "failed" \/ ~Open(call.b)
               \/ Open(call.b) /\ Names(call.b) = {} /\ buf[call.b].pending = <<>>      \* nothing to read
            /\ call.b \in DOMAIN buf => refs = buf[call.b].refs                        \* nothing was stored
            /\ UNCHANGED buf
    /\ Return /\ UNCHANGED <<tgt, vals>>

\* a removed tag is no longer stored anywhere
Drop(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
\* an array that has lost an element (and not just one of two entries for it) is no longer put together
Forget(b, n, left) == IF n \in left THEN buf[b].groups ELSE {g \in buf[b].groups : \A k \in 1..Len(g.names) : g.names[k] # n}

EndRemove(ok) ==
    /\ call.op = "remove"
    /\ LET b == call.b IN
       IF ok
       THEN /\ Open(b)
            /\ IF did THEN buf' = [buf EXCEPT ![b] = [@ EXCEPT !.groups = Forget(b, call.name, Names(b) \cup Pending(b)), !.refs = Drop(@, call.name)]]
               ELSE /\ progress = ""
                    /\ \E k \in 1..Len(buf[b].pending) :                                \* not known to the target yet
                          /\ buf[b].pending[k].name = call.name
                          /\ buf' = [buf EXCEPT ![b] = [@ EXCEPT !.pending = RemoveAt(@, k),
                                   !.groups = Forget(b, call.name, Names(b) \cup {buf[b].pending[j].name : j \in (1..Len(buf[b].pending)) \ {k}}),
                                                                    !.refs = Drop(@, call.name)]]
       ELSE /\ progress = "failed" \/ ~Open(b) \/ call.name \notin Names(b) \cup Pending(b)
            /\ UNCHANGED buf
    /\ Return /\ UNCHANGED <<tgt, vals>>

EndClose(ok) ==
    /\ call.op = "close"
    /\ ok = (progress = "" /\ (did \/ ~Open(call.b)))
    /\ buf' = IF call.b \in DOMAIN buf THEN [buf EXCEPT ![call.b].open = FALSE] ELSE buf
    /\ Return /\ UNCHANGED <<tgt, vals>>
=============================================================================
