----------------------------- MODULE TemplateMC -----------------------------
EXTENDS Template, Json
CONSTANTS Len1, MaxFail, Gen
VARIABLES hist, nf

Mem(s) == [name |-> "m", info |-> 0, type |-> 0, off |-> 0, sub |-> s]
Def(n, subs) == [name |-> n, members |-> [k \in 1..Len(subs) |-> Mem(subs[k])], len |-> Len1]
Shapes == { (1 :> Def("a", <<0>>)),
            (1 :> Def("a", <<2>>) @@ 2 :> Def("b", <<0, 0>>)),
            (1 :> Def("a", <<2, 3>>) @@ 2 :> Def("b", <<3>>) @@ 3 :> Def("c", <<0>>)),
            (1 :> Def("a", <<9, 2, 2>>) @@ 2 :> Def("b", <<>>)) }

MCInit == /\ \E d \in Shapes : TInit(d)
          /\ hist = <<>> /\ nf = 0
H(e) == hist' = IF Gen THEN Append(hist, e) ELSE hist
Log(a, i, n, s) == H([a |-> a, i |-> i, n |-> n, s |-> s])

\* in generation: one after the other, as the order does not matter to the target
Turn(i) == Gen => /\ \A j \in Ids : j < i /\ j \in Wanted => st[j] \in {"whole", "failed"}
                  /\ i = 9 => \A j \in Wanted \cap Ids : st[j] \in {"whole", "failed"}
                  /\ i \in Ids => st[i] # "failed"
                  /\ i \notin failed

MCNext ==
    \/ res = "idle" /\ Call({1}, TRUE) /\ UNCHANGED <<hist, nf>>
    \/ \E i \in 1..3, s \in {OK, 5}, all \in BOOLEAN :
          /\ s # OK => all
          /\ (s # OK \/ ~all) => nf < MaxFail
          /\ Turn(i) /\ Attrs(i, s, all) /\ Log("attrs", i, IF all THEN 0 ELSE 1, s)
          /\ nf' = IF s = OK /\ all THEN nf ELSE nf + 1
    \/ (nf < MaxFail \/ 9 \notin failed) /\ Turn(9) /\ NoTemplate(9) /\ nf' = nf + 1 /\ UNCHANGED hist
    \/ \E i \in Ids, n \in 0..Len1, s \in {OK, PARTIAL, 5} :
          /\ s = OK => off[i] + n = Len1
          /\ s = 5 => n = 0
          /\ (s = 5 \/ (s = PARTIAL /\ n = 0)) => nf < MaxFail
          /\ Turn(i) /\ Part(i, off[i], n, s) /\ Log("part", i, n, s)
          /\ nf' = IF s = 5 \/ (s = PARTIAL /\ n = 0) THEN nf + 1 ELSE nf
    \/ ~Gen /\ nf < MaxFail /\ Lost /\ nf' = nf + 1 /\ UNCHANGED hist
    \/ ReturnOk(TRUE) /\ UNCHANGED <<hist, nf>>
    \/ ReturnErr /\ UNCHANGED <<hist, nf>>

vars == <<tvs, hist, nf>>
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
Terminates == <>(res \in {"ok", "err"})
Emit == (Gen /\ res \in {"ok", "err"}) => PrintT("SCN " \o ToJson([shape |-> [i \in 1..3 |-> IF i \in Ids THEN [k \in 1..Len(defs[i].members) |-> defs[i].members[k].sub] ELSE <<>>],
                                                                   n |-> Cardinality(Ids), steps |-> hist]))
=============================================================================
