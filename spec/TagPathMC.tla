------------------------------ MODULE TagPathMC ------------------------------
(* A client that remembers encoded paths and, once the target has listed its tags,  *)
(* addresses bare tags by instance.  The target renames, deletes and adds tags; a    *)
(* client that lists again has to forget what it knew (Forget = FALSE: TLC finds the *)
(* history that reads another tag), and may only share an encoding between paths     *)
(* that are equal but for the case of letters (Key = "base": TLC finds that too).    *)
EXTENDS TagPath, Json, TLC
CONSTANTS Names, Insts, Steps, Forget, Key, Gen

VARIABLES known,   \* name -> instance ("" : unknown)
          cache,   \* key -> encoded path
          stale,   \* the target has changed since the last listing
          done, log

vars == <<pvs, known, cache, stale, done, log>>

Entry(x, i) == [scope |-> "", pid |-> "", inst |-> i, name |-> x]
Tables == UNION {{{Entry(x, f[x]) : x \in S} : f \in {g \in [S -> Insts] : \A x, y \in S : x # y => g[x] # g[y]}} : S \in SUBSET Names}
InTab(x) == \E e \in tab : e.name = x

\* the ways to write paths with a name
Paths(x) == {[parts |-> <<[name |-> x, idx |-> <<>>]>>, bit |-> -1],
             [parts |-> <<[name |-> x, idx |-> <<>>]>>, bit |-> 1],
             [parts |-> <<[name |-> x, idx |-> <<"1">>]>>, bit |-> -1],
             [parts |-> <<[name |-> x, idx |-> <<"2">>]>>, bit |-> -1],
             [parts |-> <<[name |-> x, idx |-> <<"1">>], [name |-> "m", idx |-> <<>>]>>, bit |-> -1]}
KeyOf(p) == IF Key = "path" THEN p ELSE p.parts[1].name
Bare(p) == Len(p.parts) = 1 /\ p.parts[1].idx = <<>> /\ p.bit < 0
Encode(p) == IF Bare(p) /\ known[p.parts[1].name] # ""
             THEN <<[k |-> "class", name |-> "", n |-> "107"], [k |-> "inst", name |-> "", n |-> known[p.parts[1].name]]>>
             ELSE IF KeyOf(p) \in DOMAIN cache THEN cache[KeyOf(p)] ELSE Flat(p.parts)

MCInit == /\ PInit /\ known = [x \in Names |-> ""] /\ cache = <<>> /\ stale = TRUE /\ done = 0 /\ log = <<>>

Note(x) == log' = IF Gen THEN Append(log, x) ELSE log

Change == /\ done < Steps /\ done' = done + 1
          /\ ~op.on
          /\ \E T \in Tables : T # tab /\ Publish(T) /\ Note([do |-> "change", tab |-> T])
          /\ stale' = TRUE
          /\ UNCHANGED <<known, cache>>

List == /\ done < Steps /\ done' = done + 1
        /\ ~op.on
        /\ known' = [x \in Names |-> IF InTab(x) THEN (CHOOSE e \in tab : e.name = x).inst ELSE IF Forget THEN "" ELSE known[x]]
        /\ stale' = FALSE
        /\ Note([do |-> "list"])
        /\ UNCHANGED <<pvs, cache>>

DoCall == /\ done < Steps /\ done' = done + 1
          /\ ~stale \/ \A x \in Names : known[x] = ""
          /\ \E x \in Names : \E p \in Paths(x) :
                /\ Call("read", p.parts, p.bit, TRUE, 1, 2)
                /\ Note([do |-> "call", parts |-> p.parts, bit |-> p.bit])
          /\ UNCHANGED <<known, cache, stale>>

Mine == [parts |-> op.parts, bit |-> op.bit]
Sends == op.on /\ op.asked = 0 /\ Request("read", Encode(Mine), 1, "v", <<0, 1>>)
\* the request is sent whether or not it is right
Send == /\ op.on /\ op.asked = 0
        /\ op' = [op EXCEPT !.asked = 1, !.val = "v", !.bits = <<0, 1>>]
        /\ cache' = IF KeyOf(Mine) \in DOMAIN cache \/ (Bare(Mine) /\ known[Mine.parts[1].name] # "") THEN cache
                    ELSE [k \in DOMAIN cache \union {KeyOf(Mine)} |-> IF k \in DOMAIN cache THEN cache[k] ELSE Encode(Mine)]
        /\ UNCHANGED <<tab, known, stale, done, log>>

DoReturn == /\ op.on /\ op.asked = 1
            /\ Return(TRUE, IF op.bit < 0 THEN "v" ELSE "true")
            /\ UNCHANGED <<known, cache, stale, done, log>>

MCNext == Change \/ List \/ DoCall \/ Send \/ DoReturn
Spec == MCInit /\ [][MCNext]_vars
\* whatever is sent means what the caller wrote
Right == (op.on /\ op.asked = 0) => Flat(op.parts) \in Meanings(Encode(Mine)) \/ (~InTab(op.parts[1].name) /\ Encode(Mine) = Flat(op.parts))
Emit == (Gen /\ done = Steps /\ ~op.on) => PrintT("SCN " \o ToJson(log))
=============================================================================
