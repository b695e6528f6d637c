------------------------------ MODULE Template ------------------------------
(* C11: reading structure types.  The target defines templates: a name and a    *)
(* list of members, some of which are structures again (their template is sub). *)
(* The client asks for the attributes of a template and then for its definition, *)
(* which the target sends in as many parts as it likes.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

OK == 0
PARTIAL == 6

VARIABLES
    defs,       \* id -> [name, members: sequence of [name, info, type, off, sub], len: bytes of the definition]
    tops,       \* the templates the call asks for
    st,         \* id -> "no", "attrs" (attributes known), "more", "stuck", "whole", "failed"
    off,        \* id -> bytes of the definition received
    now,        \* templates fetched completely in this call
    known,      \* templates fetched completely at any time
    failed,     \* templates that failed at any time
    res         \* "idle", "none", "ok", "err"

tvs == <<defs, tops, st, off, now, known, failed, res>>

Ids == DOMAIN defs
Subs(i) == {defs[i].members[k].sub : k \in 1..Len(defs[i].members)} \ {0}

TInit(d) == /\ defs = d
            /\ tops = {} /\ st = [i \in DOMAIN d |-> "no"] /\ off = [i \in DOMAIN d |-> 0]
            /\ now = {} /\ known = {} /\ failed = {} /\ res = "idle"

\* fresh: by a new client
Call(T, fresh) ==
           /\ res # "none"
           /\ tops' = T
           /\ st' = [i \in Ids |-> "no"] /\ off' = [i \in Ids |-> 0]
           /\ now' = {} /\ res' = "none"
           /\ IF fresh THEN known' = {} /\ failed' = {} ELSE UNCHANGED <<known, failed>>
           /\ UNCHANGED defs

\* what the call may ask for: what it was asked for, and what whole definitions name
RECURSIVE Reach(_)
Reach(S) == LET N == S \cup UNION {Subs(i) : i \in (S \cap Ids) \cap known} IN IF N = S THEN S ELSE Reach(N)
Wanted == Reach(tops)

Fail(i) == /\ st' = [st EXCEPT ![i] = "failed"]
           /\ failed' = failed \cup {i}

\* a request for the attributes of a template, answered with status s; all: every attribute has a value
Attrs(i, s, all) ==
    /\ res = "none"
    /\ i \in Wanted /\ i \in Ids
    /\ st[i] \in {"no", "failed"}
    /\ IF s = OK /\ all
       THEN st' = [st EXCEPT ![i] = "attrs"] /\ UNCHANGED failed
       ELSE Fail(i)
    /\ off' = [off EXCEPT ![i] = 0]
    /\ UNCHANGED <<defs, tops, now, known, res>>

\* a template the target does not have
NoTemplate(i) ==
    /\ res = "none"
    /\ i \in Wanted \ Ids
    /\ failed' = failed \cup {i}
    /\ UNCHANGED <<defs, tops, st, off, now, known, res>>

\* the connection is lost: what has not been fetched in this call may not be any more
Lost == /\ res = "none"
        /\ failed' = failed \cup Ids \cup UNION {Subs(i) : i \in Ids}
        /\ UNCHANGED <<defs, tops, st, off, now, known, res>>

\* a request for the definition from offset o on, answered with n bytes and status s
Part(i, o, n, s) ==
    /\ res = "none"
    /\ i \in Ids
    /\ st[i] \in {"attrs", "more"}
    /\ o = off[i]                          \* exactly what is missing
    /\ n >= 0 /\ o + n <= defs[i].len
    /\ off' = [off EXCEPT ![i] = o + n]
    /\ IF s = OK /\ o + n = defs[i].len
       THEN /\ st' = [st EXCEPT ![i] = "whole"] /\ now' = now \cup {i} /\ known' = known \cup {i}
            /\ UNCHANGED failed
       ELSE /\ IF s = PARTIAL /\ n > 0 THEN st' = [st EXCEPT ![i] = "more"] /\ UNCHANGED failed ELSE Fail(i)
            /\ UNCHANGED <<now, known>>
    /\ UNCHANGED <<defs, tops, res>>

\* the tree o is that of template i, with everything resolved that could be
RECURSIVE Conforms(_, _)
Conforms(o, i) ==
    /\ i \in known
    /\ o.name = defs[i].name
    /\ Len(o.members) = Len(defs[i].members)
    /\ \A k \in 1..Len(o.members) :
         LET m == o.members[k]  d == defs[i].members[k] IN
         /\ m.name = d.name /\ m.info = d.info /\ m.type = d.type /\ m.off = d.off
         /\ IF d.sub = 0 \/ m.udt = <<>> THEN m.udt = <<>> /\ (d.sub # 0 => d.sub \in failed)
            ELSE Conforms(m.udt[1], d.sub)

Settled(i) == i \in known \cup failed

\* success: everything reachable has been fetched, or asked for in vain
ReturnOk(needTops) ==
    /\ res = "none"
    /\ needTops => tops \subseteq known
    /\ \A i \in Wanted : Settled(i)
    /\ res' = "ok"
    /\ UNCHANGED <<defs, tops, st, off, now, known, failed>>

\* failure: a template that was asked for itself could not be fetched
ReturnErr ==
    /\ res = "none"
    /\ \E i \in tops : i \in failed \/ (i \in Ids /\ st[i] = "failed")
    /\ res' = "err"
    /\ UNCHANGED <<defs, tops, st, off, now, known, failed>>

-----------------------------------------------------------------------------
Complete == \A i \in now : off[i] = defs[i].len
OkMeansKnown == res = "ok" => \A i \in Wanted : Settled(i)
Inv == Complete /\ OkMeansKnown
\* a template is fetched once per call
OnceOnly == [][\A i \in Ids : (res = "none" /\ i \in now) => (st'[i] = "whole" \/ res # res')]_tvs
=============================================================================
