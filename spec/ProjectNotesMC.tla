---------------------------- MODULE ProjectNotesMC ----------------------------
(* A loader of comments that goes through the types level by level, with a list of     *)
(* what is still to be gone into; it must say just what Project means.  Careless is    *)
(* one way not to.                                                                     *)
EXTENDS Project, TLC
CONSTANTS Careless
VARIABLES todo, notes, ok    \* [t, at, text, tag]; what was said
ivars == <<todo, notes>>

M(n, t, d) == [name |-> n, t |-> t, desc |-> d, open |-> FALSE]
Y(n, d, m) == [name |-> n, desc |-> d, members |-> m]
D == {"", "x"}
Inner == {Y("I", d, m) : d \in {"", "i"}, m \in {<<>>} \cup {<<M("p", "DINT", e)>> : e \in {"", "p"}} \cup {<<M("p", "DINT", e), M("q", "J", "q")>> : e \in {"", "p"}}}
Least == {Y("J", d, <<M("z", "BOOL", e)>>) : d \in {"", "j"}, e \in {"", "z"}}
Outer == {Y("O", d, <<M("m", "I", e), M("n", "INT", f)>>) : d \in {"", "o"}, e \in {"", "m"}, f \in {"", "n"}}
Tag(n, t, d) == [name |-> n, desc |-> d, alias |-> FALSE, val |-> [k |-> "struct", t |-> t, m |-> <<>>]]
Docs == {[NoDoc EXCEPT !.types = <<o, i, j>>, !.ctrl = <<Tag("a", "O", d), Tag("b", t, "")>>] : o \in Outer, i \in Inner, j \in Least, d \in {"", "a"}, t \in {"I", "J", "DINT"}}

MCInit == PInit /\ todo = <<>> /\ notes = {} /\ ok = TRUE
DoFile == /\ doc = NoDoc
          /\ \E d \in Docs : /\ File(d)
                             /\ todo' = [i \in DOMAIN d.ctrl |-> [t |-> d.ctrl[i].val.t, at |-> d.ctrl[i].name, text |-> "", tag |-> d.ctrl[i].desc]]
                             /\ notes' = Said({<<t.name, t.desc>> : t \in Range(d.ctrl)})
          /\ UNCHANGED ok
\* the first on the list is gone into: its members are said, and put on the list
DoType == /\ doc # NoDoc /\ todo # <<>>
          /\ LET h == Head(todo)
                 ys == Defined(h.t)
                 y == CHOOSE y \in ys : TRUE
                 base == IF Careless = "inner" THEN y.desc ELSE Join(h.text, y.desc)
                 said(m) == IF Careless = "member" THEN base ELSE Join(base, m.desc)
                 tag == IF Careless = "tag" /\ todo[1].at # "a" THEN doc.ctrl[1].desc ELSE h.tag
                 next(m) == [t |-> m.t, at |-> h.at \o "." \o m.name, text |-> said(m), tag |-> tag]
             IN IF ys = {} THEN todo' = Tail(todo) /\ UNCHANGED notes
                ELSE /\ todo' = Tail(todo) \o [i \in DOMAIN y.members |-> next(y.members[i])]
                     /\ notes' = notes \cup {<<next(m).at, IF said(m) = "" THEN "" ELSE Join(tag, said(m))>> : m \in Range(y.members)}
          /\ UNCHANGED <<pvars, ok>>
DoResult == /\ doc # NoDoc /\ todo = <<>> /\ done = {}
            /\ IF ENABLED Comments(FALSE, notes) THEN Comments(FALSE, notes) /\ UNCHANGED ok ELSE UNCHANGED pvars /\ ok' = FALSE
            /\ UNCHANGED ivars
MCNext == ok /\ (DoFile \/ DoType \/ DoResult)
Spec == MCInit /\ [][MCNext]_<<pvars, ivars, ok>>
Right == ok
===============================================================================
