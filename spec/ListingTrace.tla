---------------------------- MODULE ListingTrace ----------------------------
EXTENDS Listing, TraceLib

TraceInit == LibInit /\ LInit([s \in {""} |-> <<>>], {})

\* the target's lists: scopes is a sequence of [name, entries]
TChange ==
       /\ Is("cfg")
       /\ Change([s \in {Ev.scopes[k].name : k \in 1..Len(Ev.scopes)} |->
                       Ev.scopes[CHOOSE k \in 1..Len(Ev.scopes) : Ev.scopes[k].name = s].entries],
                 {Ev.programs[k] : k \in 1..Len(Ev.programs)})

SetOf(q) == {q[k] : k \in 1..Len(q)}

TCrowd == /\ Is("crowd")
          /\ Ev.ok                                     \* the target serves everything: nothing fails
          /\ Crowd(Ev.ka)
          /\ sure' => SetOf(Ev.known) = {p.id : p \in knows'}

TCall == Is("call") /\ Call(Ev.api, Ev.scope, Ev.from, Ev.fresh)
TProgs == Is("progs") /\ Programs(Ev.st)
TPage == Is("page") /\ Page(Ev.scope, Ev.start, Ev.n, Ev.st)

TRet == /\ Is("ret")
        /\ IF Ev.ok
           THEN /\ ReturnOk
                /\ IF sure' THEN SetOf(Ev.known) = {p.id : p \in knows'} ELSE {p.id : p \in Found} \subseteq SetOf(Ev.known)
                /\ api = "sub" => /\ Len(Ev.list) = Len(Visible(scope))
                                  /\ \A k \in 1..Len(Ev.list) : Ev.list[k] = Visible(scope)[k].id
                /\ api \in {"all", "progs"} /\ from = 1 => SetOf(Ev.programs) = Programs2
           ELSE ReturnErr

TraceNext == TChange \/ TCrowd \/ TCall \/ TProgs \/ TPage \/ TRet
Track == Progress(Inv)
=============================================================================
