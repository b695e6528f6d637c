----------------------------- MODULE SeqCountMC -----------------------------
(* The intended way of counting, at a small modulus: each client has one count, *)
(* a caller takes the next value and then waits for the connection.  As long as *)
(* none of them waits for nearly a whole round, no count repeats, whatever the  *)
(* order in which the callers get the connection.      (With a count shared by  *)
(* all clients - Shared = TRUE - the property fails: TLC finds the history.)    *)
EXTENDS SeqCount
CONSTANTS Clients, Callers, Mod, MaxReq, Shared

VARIABLES count, taken, n

Own(c) == IF Shared THEN CHOOSE d \in Clients : TRUE ELSE c

MCInit == /\ last = [c \in Clients |-> -1]
          /\ count = [c \in Clients |-> 0]
          /\ taken = [c \in Clients |-> [k \in Callers |-> -1]]
          /\ n = 0

Take(c, k) == /\ taken[c][k] = -1
              /\ n < MaxReq
              \* nobody waits so long that the count comes round
              /\ \A j \in Callers : taken[c][j] # -1 => count[Own(c)] - taken[c][j] < Mod - Cardinality(Callers)
              /\ taken' = [taken EXCEPT ![c][k] = count[Own(c)]]
              /\ count' = [count EXCEPT ![Own(c)] = @ + 1]
              /\ n' = n + 1
              /\ UNCHANGED last

Send(c, k) == /\ taken[c][k] # -1
              /\ last' = [last EXCEPT ![c] = taken[c][k] % Mod]
              /\ taken' = [taken EXCEPT ![c][k] = -1]
              /\ UNCHANGED <<count, n>>

MCNext == \E c \in Clients, k \in Callers : Take(c, k) \/ Send(c, k)
vars == <<last, count, taken, n>>
Spec == MCInit /\ [][MCNext]_vars

\* what is sent is fresh: the step is one of SeqCount's Sent
NoRepeat == [][\A c \in Clients, k \in Callers : (taken[c][k] # -1 /\ taken'[c][k] = -1) => Sent(c, <<taken[c][k] % Mod>>)]_vars
=============================================================================
