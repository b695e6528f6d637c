---------------------------- MODULE TemplateTrace ----------------------------
EXTENDS Template, TraceLib

TraceInit == LibInit /\ TInit([i \in {} |-> 0])

Cfg == /\ Is("cfg")
       /\ LET D == Ev.defs IN
          /\ defs' = [i \in {D[k].id : k \in 1..Len(D)} |-> D[CHOOSE k \in 1..Len(D) : D[k].id = i]]
          /\ st' = [i \in DOMAIN defs' |-> "no"]
          /\ off' = [i \in DOMAIN defs' |-> 0]
       /\ UNCHANGED <<tops, now, known, failed, res>>

SetOf(q) == {q[k] : k \in 1..Len(q)}

TCall == Is("call") /\ Call(SetOf(Ev.tops), Ev.fresh)
TAttrs == Is("attrs") /\ Attrs(Ev.id, Ev.st, Ev.all)
TNone == Is("notemplate") /\ NoTemplate(Ev.id)
TLost == Is("lost") /\ Lost
TPart == Is("part") /\ Part(Ev.id, Ev.off, Ev.n, Ev.st)

\* trees: one for each of the templates the result has
TRet == /\ Is("ret")
        /\ IF Ev.ok
           THEN /\ ReturnOk(Ev.api = "members")
                /\ Ev.api = "members" => Len(Ev.trees) = 1
                /\ \A k \in 1..Len(Ev.trees) :
                      LET r == Ev.trees[k] IN IF r.tree = <<>> THEN r.id \in failed ELSE Conforms(r.tree[1], r.id)
           ELSE /\ ReturnErr
                /\ Ev.api = "members"

TraceNext == Cfg \/ TCall \/ TAttrs \/ TNone \/ TLost \/ TPart \/ TRet
Track == Progress(Inv)
=============================================================================
