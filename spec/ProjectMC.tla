------------------------------- MODULE ProjectMC -------------------------------
(* A loader that goes through a file tag by tag and through a value digit by digit; it *)
(* must give just what Project means.  Careless is one way not to.                     *)
EXTENDS Project, TLC
CONSTANTS MaxDigits, Careless
VARIABLES where, acc, out, ok    \* [p, i, j]: program (0: controller), tag, digit
ivars == <<where, acc, out>>

Num(t, neg, base, dig) == [k |-> "num", t |-> t, neg |-> neg, base |-> base, dig |-> dig, num |-> 0, s |-> "", m |-> <<>>, e |-> <<>>]
Pow(b, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN b ELSE IF n = 2 THEN b * b ELSE IF n = 3 THEN b * b * b ELSE b * b * b * b
RECURSIVE Plain(_, _)
Plain(dig, base) == IF dig = <<>> THEN 0 ELSE Plain(SubSeq(dig, 1, Len(dig) - 1), base) * base + dig[Len(dig)]
Dig(base) == IF base = 16 THEN {0, 7, 8, 15} ELSE IF base = 10 THEN {0, 1, 2, 9} ELSE {0, 1, base - 1}
Values == {v \in {Num(t, neg, base, d) : t \in {"SINT", "INT"}, neg \in BOOLEAN, base \in {2, 8, 10, 16}, d \in UNION {[1..n -> {0, 1, 2, 7, 8, 9, 15}] : n \in 1..MaxDigits}} :
             /\ Range(v.dig) \subseteq Dig(v.base)
             /\ v.neg => v.base = 10
             /\ LET x == Plain(v.dig, v.base)  w == Width(v.t) * 8 IN
                IF v.base = 10 THEN x < 2 ^ (w - 1) \/ (v.neg /\ x = 2 ^ (w - 1)) ELSE x < 2 ^ w}
TagOf(name, v) == [name |-> name, desc |-> "", alias |-> FALSE, val |-> v]
Five == Num("INT", FALSE, 10, <<5>>)
Six == Num("SINT", FALSE, 16, <<0, 6>>)
Arr == [Five EXCEPT !.k = "arr", !.e = <<Five, Six>>]
Prog(n, tags) == [name |-> n, tags |-> tags, routines |-> <<>>]
Docs == {[NoDoc EXCEPT !.ctrl = <<TagOf("a", v)>>] : v \in Values}
        \cup {[NoDoc EXCEPT !.ctrl = c, !.progs = <<Prog("p", x), Prog("q", y)>>] :
              c \in {<<>>, <<TagOf("a", Five)>>, <<TagOf("a", Arr), TagOf("b", Six)>>},
              x \in {<<>>, <<TagOf("a", Six)>>, <<TagOf("a", Six), TagOf("b", Arr)>>, <<[TagOf("a", Six) EXCEPT !.alias = TRUE], TagOf("c", Five)>>},
              y \in {<<>>, <<TagOf("a", Five)>>, <<TagOf("c", Arr)>>}}

Start == [p |-> 0, i |-> 1, j |-> 1]
MCInit == PInit /\ where = Start /\ acc = 0 /\ out = [c |-> {}, p |-> <<>>] /\ ok = TRUE
Sees(A) == IF ENABLED A THEN A /\ UNCHANGED ok ELSE UNCHANGED pvars /\ ok' = FALSE

DoFile == /\ doc = NoDoc
          /\ \E d \in Docs : File(d)
          /\ UNCHANGED <<ivars, ok>>
List == IF where.p = 0 THEN doc.ctrl ELSE doc.progs[where.p].tags
\* an integer of so many bytes
RECURSIVE Le(_, _)
Le(x, n) == IF n = 0 THEN <<>> ELSE <<x % 256>> \o Le(x \div 256, n - 1)
Loaded(v, x) ==
    LET w == Width(v.t)
        half == 2 ^ (8 * w - 1)
        y == IF v.neg THEN -x ELSE IF x >= half /\ Careless = "clamp" THEN half - 1 ELSE x
        z == IF y < 0 THEN y + 2 * half ELSE y
    IN [Blank EXCEPT !.k = "num", !.t = GoType(v.t), !.b = Le(z, w)]
Whole(v) == LET n == IF Careless = "decimal" /\ v.base # 10 THEN 0 ELSE Plain(v.dig, v.base) IN Loaded(v, n)
Flip(s) == IF Careless = "order" THEN [i \in DOMAIN s |-> s[Len(s) + 1 - i]] ELSE s
Put(name, val) == IF where.p = 0 THEN [out EXCEPT !.c = @ \cup {<<name, val>>}]
                  ELSE [out EXCEPT !.p = IF where.p \in DOMAIN out.p THEN [out.p EXCEPT ![where.p] = @ \cup {<<name, val>>}]
                                         ELSE Append(out.p, (IF Careless = "scope" /\ where.p > 1 THEN out.p[1] ELSE {}) \cup {<<name, val>>})]
Next1 == [where EXCEPT !.i = @ + 1, !.j = 1]
DoDigit == /\ doc # NoDoc /\ where.p <= Len(doc.progs) /\ where.i <= Len(List)
           /\ LET t == List[where.i] IN
              /\ ~t.alias /\ t.val.k = "num" /\ where.j <= Len(t.val.dig)
              /\ acc' = IF Careless = "decimal" /\ t.val.base # 10 THEN 0 ELSE acc * t.val.base + t.val.dig[where.j]
              /\ where' = [where EXCEPT !.j = @ + 1]
           /\ UNCHANGED <<pvars, out, ok>>
DoTag == /\ doc # NoDoc /\ where.p <= Len(doc.progs) /\ where.i <= Len(List)
         /\ LET t == List[where.i] IN
            /\ t.alias \/ t.val.k # "num" \/ where.j > Len(t.val.dig)
            /\ out' = IF t.alias THEN IF Careless = "alias" THEN Put(t.name, [Blank EXCEPT !.k = "num"]) ELSE out
                      ELSE IF t.val.k = "num" THEN Put(t.name, Loaded(t.val, acc))
                      \* arrays of the controller are left out
                      ELSE IF where.p = 0 THEN out
                      ELSE Put(t.name, [Blank EXCEPT !.k = "arr", !.t = "[]interface {}", !.e = Flip([i \in DOMAIN t.val.e |-> Whole(t.val.e[i])])])
         /\ where' = Next1 /\ acc' = 0
         /\ UNCHANGED <<pvars, ok>>
DoScope == /\ doc # NoDoc /\ where.p <= Len(doc.progs) /\ where.i > Len(List)
           /\ out' = IF where.p # 0 /\ where.p \notin DOMAIN out.p THEN [out EXCEPT !.p = Append(@, {})] ELSE out
           /\ where' = [p |-> where.p + 1, i |-> 1, j |-> 1] /\ acc' = 0
           /\ UNCHANGED <<pvars, ok>>
DoResult == /\ doc # NoDoc /\ where.p = Len(doc.progs) + 1 /\ done = {}
            /\ Sees(Tags(FALSE, out.c \cup {<<"program:" \o doc.progs[i].name, [Blank EXCEPT !.k = "struct", !.t = "map[string]interface {}", !.m = out.p[i]]>> : i \in DOMAIN doc.progs}))
            /\ UNCHANGED ivars
MCNext == ok /\ (DoFile \/ DoDigit \/ DoTag \/ DoScope \/ DoResult)
Spec == MCInit /\ [][MCNext]_<<pvars, ivars, ok>>
Right == ok
===============================================================================
