----------------------------- MODULE ListingMC -----------------------------
(* Exhaustive exploration of any client that keeps to Listing against any      *)
(* target, and generation of the target's decisions.                            *)
EXTENDS Listing, Json
CONSTANTS Main, Prog, Froms, Gen     \* the instances in the two lists; the entry of the controller's list that names the program
VARIABLE hist
CONSTANTS ProgEntry, Lists2, Calls

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Entries(s, S) == [k \in 1..Cardinality(S) |->
    LET i == Sorted(S)[k] IN [inst |-> i, key |-> <<s, i>>, id |-> <<s, i>>, hidden |-> FALSE, prog |-> IF s = "" /\ i = ProgEntry THEN "p" ELSE ""]]

Renamed(s, S) == [k \in 1..Cardinality(S) |-> [Entries(s, S)[k] EXCEPT !.key = <<s, @[2] + 1>>, !.id = <<s, @[2], 1>>]]

MCInit == /\ \E a \in SUBSET Main, b \in SUBSET Prog :
                /\ Lists2 => (a = Main /\ b = Prog)
                /\ \E po \in {{}, {"p"}} :
                      /\ (ProgEntry \in a) <=> (po # {})
                      /\ LInit([s \in {"", "p"} |-> IF s = "" THEN Entries("", a) ELSE Entries("p", b)], po)
          /\ hist = <<>>

NextInst(s) == IF page[s].st = "new" THEN From(s)
               ELSE IF page[s].got = 0 THEN 1 ELSE lists[s][page[s].got].inst + 1

DoPage == \E s \in {"", "p"} :
            \E start \in (IF Gen THEN {NextInst(s)} ELSE 1..(NextInst(s) + 1)), st \in {OK, PARTIAL, 5} :
              \E n \in 0..(Len(lists[s]) - Before(s, start)) :
                /\ st = OK => n = Len(lists[s]) - Before(s, start)
                /\ st = 5 => n = 0
                /\ ~bad
                /\ Gen => (s = "" => (progs = "refused" \/ \A x \in Need \ {""} : page[x].st = "whole"))
                /\ Gen => page[s].st # "stuck"
                /\ Page(s, start, n, st)
                /\ hist' = IF Gen THEN Append(hist, [s |-> s, n |-> n, st |-> st]) ELSE hist

DoPrograms == \E st \in {OK, 8, LOST} : Programs(st) /\ hist' = IF Gen THEN Append(hist, [s |-> "progs", n |-> 0, st |-> st]) ELSE hist
DoCall == /\ IF Gen THEN api = "none" ELSE (api = "none" \/ res # "none") /\ Len(hist) < Calls
          /\ \E fresh \in (IF hist = <<>> THEN {TRUE} ELSE {FALSE}) :
                \/ \E f \in Froms : Call("all", "", f, fresh)
                \/ \E f \in Froms : Call("sub", "p", f, fresh)
                \/ ~Gen /\ Call("progs", "", 1, fresh)
          /\ hist' = IF Gen THEN hist ELSE Append(hist, "call")
\* between calls tags go away, and their instances to others
DoChange == /\ ~Gen /\ res # "none" /\ Len(hist) <= Calls
            /\ \E a \in SUBSET Main, b \in SUBSET Prog :
                  Change([s \in {"", "p"} |-> IF s = "" THEN Renamed("", a) ELSE Renamed("p", b)], byObject)
            /\ UNCHANGED hist

MCNext == DoCall \/ DoChange \/ DoPage \/ DoPrograms \/ (ReturnOk /\ UNCHANGED hist) \/ (ReturnErr /\ UNCHANGED hist)
vars == <<lvars, hist>>
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)

Terminates == <>[](res # "none" \/ api = "none")
\* after a full listing nothing of before is left
NoneLeft == (res = "ok" /\ sure /\ Full) => knows = UNION {Pairs(Visible(s)) : s \in Need}
\* what was found is known under its own name only
OneEach == \A p, q \in knows : p.key = q.key => p = q
Emit == (Gen /\ res # "none") => PrintT("SCN " \o ToJson(
    [api |-> api, from |-> from, steps |-> hist,
     main |-> [k \in 1..Len(lists[""]) |-> lists[""][k].inst], prog |-> [k \in 1..Len(lists["p"]) |-> lists["p"][k].inst]]))
=============================================================================
