-------------------------------- MODULE ObjMsg --------------------------------
(* Messages to objects other than tags (property A01): generic messages, attribute    *)
(* reads and discovery.  A call names a service, a path and data; the device is asked  *)
(* for exactly that, once; what it answers is what the call returns, an item that is   *)
(* then read value by value.  Everything is bytes; numbers wider than that are told    *)
(* as theirs, the lowest first.                                                        *)
EXTENDS Integers, Sequences, Segments, Props

VARIABLES
    at,     \* idle, called, asked, answered
    call,   \* [op, svc, steps, path, data, attrs]: what was called for
    rep,    \* [svc, st, ext, data]: what the device answered
    item,   \* [all, pos]: what was returned last, and how far it was read
    kept    \* what was returned at any time; it is the caller's, and stays as it is

ovars == <<at, call, rep, item, kept>>
NoItem == [all |-> <<>>, pos |-> 1]
NoRep == [svc |-> 0, st |-> 0, ext |-> <<>>, data |-> <<>>]

MaxPathWords == 255
\* the path of a call is given as segments, or as bytes
Segs(c) == IF c.op = "generic" /\ c.steps = <<>> THEN Decode(c.path) ELSE c.steps
IsGood(segs) == \A i \in DOMAIN segs : segs[i].k # "bad"

RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Concat(Tail(s))
L16(n) == <<n % 256, n \div 256>>

ControllerInfo == <<Logical("class", <<172, 0, 0, 0>>), Logical("inst", <<1, 0, 0, 0>>)>>
IOObject == <<Logical("class", <<105, 0, 0, 0>>), Logical("inst", <<0, 0, 0, 0>>)>>
FaultObject == <<Logical("class", <<115, 0, 0, 0>>), Logical("inst", <<1, 0, 0, 0>>)>>
PropAttrs == << <<1, 0>>, <<2, 0>>, <<3, 0>>, <<4, 0>>, <<10, 0>> >>
\* what the device is to be asked for
Want(c) == CASE c.op = "generic" -> [svc |-> c.svc, segs |-> Segs(c), data |-> c.data]
             [] c.op = "attr" -> [svc |-> 14, segs |-> c.steps, data |-> <<>>]
             [] c.op = "list" -> [svc |-> 3, segs |-> c.steps, data |-> L16(Len(c.attrs)) \o Concat(c.attrs)]
             [] c.op = "props" -> [svc |-> 3, segs |-> ControllerInfo, data |-> L16(5) \o Concat(PropAttrs)]
             [] c.op = "forces" -> [svc |-> 3, segs |-> IOObject, data |-> <<1, 0, 9, 0>>]
             [] c.op = "faults" -> [svc |-> 1, segs |-> FaultObject, data |-> <<>>]
             \* identity and services are commands of their own
             [] OTHER -> [svc |-> IF c.op = "identity" THEN 99 ELSE 4, segs |-> <<>>, data |-> <<>>]

\* a path that cannot be sent as it is: half a word too much, or more words than its length field can count
Unsendable(c) == c.op = "generic" /\ (Len(c.path) % 2 = 1 \/ Len(c.path) > 2 * MaxPathWords)

OInit == at = "idle" /\ call = [op |-> ""] /\ rep = NoRep /\ item = NoItem /\ kept = <<>>

Call(c) == /\ at = "idle"
           /\ at' = "called" /\ call' = c
           /\ UNCHANGED <<rep, item, kept>>
Ask(svc, segs, data) ==
    /\ at = "called" /\ ~Unsendable(call)
    /\ IsGood(Segs(call)) => [svc |-> svc, segs |-> segs, data |-> data] = Want(call)
    /\ at' = "asked"
    /\ UNCHANGED <<call, rep, item, kept>>
Answer(r) == /\ at = "asked"
             /\ at' = "answered" /\ rep' = r
             /\ UNCHANGED <<call, item, kept>>

Discovery == {"identity", "services"}
\* bytes before the data of an answer that counts
Skip(c) == IF c.op \in {"list", "props", "forces"} THEN 2 ELSE 0
PropLen == 36   \* five of them: number, status and value of each
ForcesLen == 6  \* number, status and value of one
FaultsLen == 138 \* types and counts of major and minor faults, and three events of 42 bytes
Fixed == [identity |-> 35, services |-> 2]

\* the answer is as it has to be, so that the call succeeds
Fine(c, r) == /\ r.st = 0
              /\ Len(r.data) >= Skip(c)
              /\ c.op = "props" => Len(r.data) >= Skip(c) + PropLen
              \* the one attribute has a status of its own
              /\ c.op = "forces" => Len(r.data) >= Skip(c) + ForcesLen /\ r.data[5] = 0 /\ r.data[6] = 0
              /\ c.op = "faults" => Len(r.data) >= FaultsLen
\* e: [err, st, rest]; st: the status that the error tells of, as its low byte, -1 if it does not
Result(c, r, e) ==
    LET same == c.op \in Discovery \/ r.svc = Want(c).svc + 128 IN
    IF r.st # 0 THEN e.err /\ (c.op = "generic" /\ same => e.st = r.st)
    ELSE IF ~Fine(c, r) \/ (c.op \in {"generic", "faults"} /\ ~same) THEN e.err
    \* nothing is said about what the others make of the answer to another service
    ELSE \/ e.err /\ ~same
         \/ /\ ~e.err
            /\ e.rest = CASE c.op = "props" -> SubSeq(r.data, 3, 2 + PropLen)
                          [] c.op = "forces" -> SubSeq(r.data, 7, 8)
                          [] c.op = "faults" -> SubSeq(r.data, 1, FaultsLen)
                          [] OTHER -> SubSeq(r.data, 1 + Skip(c), Len(r.data))

\* a call that was answered
Return(e) == /\ at = "answered"
             /\ Result(call, rep, e)
             /\ item' = IF e.err \/ call.op \notin {"generic", "attr", "list"} THEN NoItem
                        ELSE [all |-> <<rep.svc, 0, rep.st, Len(rep.ext)>> \o Concat(rep.ext) \o rep.data, pos |-> 5 + 2 * Len(rep.ext) + Skip(call)]
             /\ kept' = IF item' = NoItem THEN kept ELSE Append(kept, item'.all)
             /\ at' = "idle"
             /\ UNCHANGED <<call, rep>>
\* a call that could not be made
Refuse(e) == /\ at = "called" /\ e.err
             /\ Unsendable(call)
             /\ item' = NoItem /\ at' = "idle"
             /\ UNCHANGED <<call, rep, kept>>

\* the next k bytes of the item as one value; got: what they were, <<>> when there are fewer
Take(k, got) == /\ at = "idle"
                /\ LET left == Len(item.all) - item.pos + 1 IN
                   IF k <= left THEN got = SubSeq(item.all, item.pos, item.pos + k - 1) /\ item' = [item EXCEPT !.pos = @ + k]
                   ELSE got = <<>> /\ UNCHANGED item
                /\ UNCHANGED <<at, call, rep, kept>>
Rest(got) == /\ at = "idle" /\ got = SubSeq(item.all, item.pos, Len(item.all))
             /\ UNCHANGED ovars
\* from the start again; the first two bytes are the count of the answer
Reset(got) == /\ at = "idle" /\ got = item.all
              /\ item' = [item EXCEPT !.pos = Len(item.all) + 1]
              /\ UNCHANGED <<at, call, rep, kept>>
\* an earlier item once more
Again(i, got) == /\ at = "idle" /\ got = kept[i]
                 /\ UNCHANGED ovars
===============================================================================
