---------------------------- MODULE ObjMsgTrace ----------------------------
EXTENDS ObjMsg, TraceLib

TraceInit == LibInit /\ OInit
TCall == Is("call") /\ Call([op |-> Ev.op, svc |-> Ev.svc, steps |-> Ev.steps, path |-> Ev.path, data |-> Ev.data, attrs |-> Ev.attrs])
TAsk == Is("ask") /\ Ask(Ev.svc, Decode(Ev.path), Ev.data)
TAnswer == Is("answer") /\ Answer([svc |-> Ev.svc, st |-> Ev.st, ext |-> Ev.ext, data |-> Ev.data])
TRet == Is("ret") /\ (Return(Ev) \/ Refuse(Ev))
TTake == Is("take") /\ Take(Ev.k, Ev.got)
TRest == Is("rest") /\ Rest(Ev.got)
TReset == Is("reset") /\ Reset(Ev.got)
TAgain == Is("again") /\ Again(Ev.i, Ev.got)

TraceNext == TCall \/ TAsk \/ TAnswer \/ TRet \/ TTake \/ TRest \/ TReset \/ TAgain
Track == Progress(TRUE)
=============================================================================
