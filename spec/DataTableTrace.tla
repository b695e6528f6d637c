--------------------------- MODULE DataTableTrace ---------------------------
EXTENDS DataTable, TraceLib

TraceInit == LibInit /\ DInit([n \in {} |-> ""])

SetOf(q) == {q[k] : k \in 1..Len(q)}
\* a list of [n, v] as a function
Fun(q) == [n \in {q[k].n : k \in 1..Len(q)} |-> q[CHOOSE k \in 1..Len(q) : q[k].n = n].v]

Cfg == /\ Is("cfg") /\ vals' = Fun(Ev.vals)
       /\ UNCHANGED <<tgt, buf, call, progress, did>>
TSet == Is("set") /\ SetValue(Ev.n, Ev.v)
TBegin == /\ Is("begin")
          /\ Begin([op |-> Ev.op, b |-> Ev.b, name |-> Ev.name, adds |-> Ev.adds, groups |-> SetOf(Ev.groups),
                    refs |-> Fun(Ev.refs), valid |-> Ev.valid])
TCreate == Is("create") /\ Create(Ev.inst, Ev.st)
TAdd == /\ Is("add") /\ Add(Ev.inst, Ev.es, Ev.st)
        /\ Ev.len <= Ev.max \/ Len(Ev.es) = 1                   \* what the connection can carry
TRemove == Is("remove") /\ Remove(Ev.inst, Ev.index, Ev.st)
TRead == Is("read") /\ Read(Ev.inst, Ev.st, Ev.fault)
TDelete == Is("delete") /\ Delete(Ev.inst, Ev.st)
TEnd == /\ Is("end") /\ Ev.op = call.op
        /\ CASE Ev.op = "new" -> EndNew(Ev.ok)
             [] Ev.op = "add" -> EndAdd(Ev.ok)
             [] Ev.op = "sync" -> EndSync(Ev.ok)
             [] Ev.op = "read" -> EndRead(Ev.ok, SetOf(Ev.result), Ev.how, Fun(Ev.refs)) /\ (Ev.ok => Cardinality(SetOf(Ev.result)) = Len(Ev.result))
             [] Ev.op = "remove" -> EndRemove(Ev.ok)
             [] Ev.op = "close" -> EndClose(Ev.ok)

TraceNext == Cfg \/ TSet \/ TBegin \/ TCreate \/ TAdd \/ TRemove \/ TRead \/ TDelete \/ TEnd
Track == Progress(TRUE)
=============================================================================
