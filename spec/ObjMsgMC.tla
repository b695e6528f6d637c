------------------------------- MODULE ObjMsgMC -------------------------------
(* A client that composes the bytes of a request from a call, and a device that takes  *)
(* them apart; a client that takes the answer apart and a caller that reads it.  It    *)
(* must do only what ObjMsg allows.  Careless is one way not to; TLC finds each.       *)
EXTENDS ObjMsg, TLC, Json
CONSTANTS MaxCalls, Careless, Gen
VARIABLES n, wire, got, mem, reads, hist, ok
ivars == <<n, wire, got, mem, reads, hist>>
Seven == 7

B4(x) == <<x % 256, (x \div 256) % 256, x \div 65536, 0>>
Classes == {1, 255, 256}
Insts == {0, 255, 256, 65535, 65536}
Attrs == {7, 256}
Seg(k, x) == Logical(k, B4(x))
\* the bytes of a segment
Enc(k, x) == LET base == CASE k = "class" -> 32 [] k = "inst" -> 36 [] k = "elem" -> 40 [] OTHER -> 48
                 edge == IF Careless = "edge" THEN 257 ELSE 256 IN
             IF x < edge \/ Careless = "narrow" THEN <<base, x % 256>>
             ELSE IF x < 65536 \/ Careless = "inst16" THEN <<base + 1, 0, x % 256, (x \div 256) % 256>>
             ELSE <<base + 2, 0>> \o B4(x)
N(s) == s.n[1] + 256 * s.n[2] + 65536 * s.n[3]
RECURSIVE EncAll(_)
EncAll(segs) == IF segs = <<>> THEN <<>> ELSE Enc(segs[1].k, N(segs[1])) \o EncAll(Tail(segs))

Blank == [op |-> "generic", svc |-> 75, steps |-> <<>>, path |-> <<>>, data |-> <<>>, attrs |-> <<>>]
Objs == {<<Seg("class", c), Seg("inst", i)>> : c \in Classes, i \in Insts}
Calls == {[Blank EXCEPT !.path = EncAll(o), !.data = d] : o \in {<<Seg("class", 1), Seg("inst", 1)>>, <<Seg("class", 256), Seg("inst", 256)>>}, d \in {<<>>, <<9>>, <<1, 2, 3>>}}
         \cup {[Blank EXCEPT !.path = <<32, 1, 36>>], [Blank EXCEPT !.path = EncAll(<<Seg("class", 256), Seg("inst", 65536), Seg("attr", 256), Seg("elem", 65536)>>)]}
         \cup {[Blank EXCEPT !.op = "attr", !.steps = o \o <<Seg("attr", a)>>] : o \in Objs, a \in Attrs}
         \cup {[Blank EXCEPT !.op = "list", !.steps = o, !.attrs = a] : o \in Objs, a \in {<<>>, << <<3, 0>> >>, << <<3, 1>>, <<4, 0>> >>}}
         \cup {[Blank EXCEPT !.op = x] : x \in {"props", "forces", "faults", "identity", "services"}}
Some == {c \in Calls : (c.op = "generic" /\ Len(c.data) < 2) \/ (c.op = "attr" /\ c.steps[1].n[1] = 1 /\ c.steps[2].n[1] = 255) \/ (c.op = "list" /\ Len(c.attrs) = 1 /\ c.steps[1].n[1] = 1 /\ c.steps[2].n[2] = 0)}
Datas == {<<>>, <<5>>, <<1, 0, 3, 0>>, [i \in 1..38 |-> i], <<1, 0, 9, 0, 0, 0, 3, 1>>, [i \in 1..FaultsLen |-> i % 7]}

MCInit == OInit /\ n = 0 /\ wire = <<>> /\ got = NoItem /\ mem = <<>> /\ reads = 0 /\ hist = <<>> /\ ok = TRUE

\* what the client does must be what ObjMsg allows
Sees(A) == IF ENABLED A THEN A /\ UNCHANGED ok ELSE UNCHANGED ovars /\ ok' = FALSE

DoCall == /\ at = "idle" /\ n < MaxCalls
          /\ \E c \in (IF MaxCalls = 2 THEN Some ELSE Calls) : Call(c) /\ wire' = <<c>> /\ hist' = IF Gen THEN Append(hist, [call |-> c]) ELSE hist
          /\ n' = n + 1 /\ reads' = 0
          /\ UNCHANGED <<got, mem, ok>>

\* the request: number of words of the path, the path, the data
Path(c) == CASE c.op = "generic" -> c.path
             [] c.op = "props" -> <<32, 172, 36, 1>>
             [] c.op = "forces" -> <<32, 105, 36, 0>>
             [] c.op = "faults" -> <<32, 115, 36, 1>>
             [] c.op = "attr" -> IF Careless = "order" THEN EncAll(<<c.steps[2], c.steps[1], c.steps[3]>>) ELSE EncAll(c.steps)
             [] OTHER -> EncAll(c.steps)
Data(c) == CASE c.op = "generic" -> IF Careless = "pad" /\ Len(c.data) % 2 = 1 THEN c.data \o <<0>> ELSE c.data
             [] c.op = "list" -> IF Careless = "attr8" THEN L16(Len(c.attrs)) \o Concat([i \in DOMAIN c.attrs |-> <<c.attrs[i][1], 0>>])
                                 ELSE L16(Len(c.attrs)) \o Concat(c.attrs)
             [] c.op = "forces" -> <<1, 0, 9, 0>>
             [] c.op = "props" -> L16(5) \o Concat(PropAttrs)
             [] OTHER -> <<>>
Svc(c) == CASE c.op = "attr" -> 14 [] c.op \in {"list", "props", "forces"} -> 3 [] c.op = "faults" -> 1 [] c.op = "identity" -> 99 [] c.op = "services" -> 4 [] OTHER -> c.svc
TooLong(p) == Len(p) % 2 = 1 \/ Len(p) > 2 * MaxPathWords

DoRefuse == /\ at = "called" /\ Len(wire) = 1 /\ TooLong(Path(wire[1])) /\ Careless # "wrap"
            /\ Sees(Refuse([err |-> TRUE, st |-> -1, rest |-> <<>>]))
            /\ wire' = <<>> /\ got' = NoItem
            /\ UNCHANGED <<n, mem, reads, hist>>
\* the device finds the path by the number of words that it is told
DoAsk == /\ at = "called" /\ Len(wire) = 1
         /\ Careless = "wrap" \/ ~TooLong(Path(wire[1]))
         /\ \E c \in {wire[1]} :
            \E b \in {Path(c) \o Data(c)} :
            \E w \in {(Len(Path(c)) \div 2) % (MaxPathWords + 1)} :
               Sees(Ask(Svc(c), Decode(SubSeq(b, 1, 2 * w)), From(b, 2 * w + 1)))
         /\ UNCHANGED ivars
DoAnswer == /\ at = "asked" /\ ok
            /\ \E st \in {0, 6, 8}, e \in {<<>>, << <<1, 2>> >>}, d \in Datas, s \in {0, 1} :
               /\ st = 0 => e = <<>>
               /\ call.op \in Discovery => st = 0 /\ s = 0
               /\ Answer([svc |-> Svc(call) + 128 - s, st |-> st, ext |-> e, data |-> d])
               /\ hist' = IF Gen THEN Append(hist, [st |-> st, ext |-> e, data |-> d, s |-> s]) ELSE hist
            /\ UNCHANGED <<n, wire, got, mem, reads, ok>>
\* what comes in: reply service, zero, status, number of words of extended status, those, data
In(r) == <<r.svc, 0, r.st, Len(r.ext)>> \o Concat(r.ext) \o r.data
DoReturn ==
    /\ at = "answered"
    /\ \E b \in {In(rep)} :
       \E st \in {IF Careless = "partial" /\ b[3] = 6 THEN 0 ELSE b[3]} :
       \E start \in {5 + 2 * b[4] + IF call.op \in {"list", "props", "forces"} /\ Careless # "count" THEN 2 ELSE 0} :
       \E e \in {[err |-> st # 0 \/ (call.op \notin Discovery /\ b[1] # Svc(call) + 128 /\ Careless # "any") \/ start > Len(b) + 1
                         \/ (call.op = "props" /\ Len(b) < 4 + 2 + PropLen)
                         \/ (call.op = "forces" /\ (Len(b) < start + 5 \/ (Careless # "own" /\ (b[start + 2] # 0 \/ b[start + 3] # 0))))
                         \/ (call.op = "faults" /\ Len(b) < start + FaultsLen - 1),
                  st |-> IF st # 0 THEN IF Careless = "ext" THEN st + b[4] ELSE st ELSE -1,
                  rest |-> IF call.op = "forces" /\ Len(b) >= start + 5 THEN SubSeq(b, start + 4, start + 5)
                           ELSE IF call.op = "faults" /\ Len(b) >= start + FaultsLen - 1 THEN SubSeq(b, start, start + FaultsLen - 1)
                           ELSE IF call.op = "props" /\ Len(b) >= start + PropLen - 1 THEN SubSeq(b, start, start + PropLen - 1) ELSE From(b, start)]} :
          /\ Sees(Return(e))
          /\ got' = IF e.err \/ call.op \notin {"generic", "attr", "list"} THEN NoItem ELSE [all |-> b, pos |-> start]
          \* (careless: what comes in goes over what came in before)
          /\ mem' = LET old == IF Careless = "reuse" THEN [i \in DOMAIN mem |-> [j \in DOMAIN mem[i] |-> IF j <= Len(b) THEN b[j] ELSE mem[i][j]]] ELSE mem IN
                    IF got' = NoItem THEN old ELSE Append(old, b)
    /\ wire' = <<>>
    /\ UNCHANGED <<n, reads, hist>>

DoTake == /\ at = "idle" /\ reads < 2 /\ n > 0
          /\ \E k \in {1, 2, 4} :
             /\ LET left == Len(got.all) - got.pos + 1
                    have == IF Careless = "last" THEN k < left ELSE k <= left IN
                /\ Sees(Take(k, IF have THEN SubSeq(got.all, got.pos, got.pos + k - 1) ELSE <<>>))
                /\ got' = IF have THEN [got EXCEPT !.pos = @ + k] ELSE got
             /\ hist' = IF Gen THEN Append(hist, [take |-> k]) ELSE hist
          /\ reads' = reads + 1
          /\ UNCHANGED <<n, wire, mem>>
DoRest == /\ at = "idle" /\ n > 0
          /\ Sees(Rest(From(got.all, got.pos)))
          /\ UNCHANGED ivars
DoReset == /\ at = "idle" /\ n > 0 /\ reads < 3
           /\ Sees(Reset(got.all))
           /\ got' = [got EXCEPT !.pos = Len(got.all) + 1] /\ reads' = 3
           /\ UNCHANGED <<n, wire, mem, hist>>
DoAgain == /\ at = "idle"
           /\ \E i \in DOMAIN mem : Sees(Again(i, mem[i]))
           /\ UNCHANGED ivars

MCNext == ok /\ (DoCall \/ DoRefuse \/ DoAsk \/ DoAnswer \/ DoReturn \/ DoTake \/ DoRest \/ DoReset \/ DoAgain)
Spec == MCInit /\ [][MCNext]_<<ovars, ivars, ok>>
Right == ok
\* by itself: nothing is made up - what is handed out are bytes of the answer
OwnBytes == at = "idle" => \A i \in DOMAIN item.all : i > 4 + 2 * Len(rep.ext) => item.all[i] = rep.data[i - 4 - 2 * Len(rep.ext)]
Emit == (Gen /\ hist # <<>> /\ at = "idle") => PrintT("SCN " \o ToJson(hist))
===============================================================================
