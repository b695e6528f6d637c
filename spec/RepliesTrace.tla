---------------------------- MODULE RepliesTrace ----------------------------
EXTENDS Replies, TraceLib

TraceInit == LibInit /\ RInit
TBegin == Is("begin") /\ Begin(Ev.op, Ev.was, Ev.want, Ev.open)
TReply == Is("reply") /\ Reply(Ev)
\* a late continuation of an operation that has returned (there is none)
TEnd == Is("end") /\ Return(Ev.ok, Ev.val)
TUse == Is("use") /\ Use(Ev.try, Ev.ok, Ev.val, Ev.want)

TraceNext == TBegin \/ TReply \/ TEnd \/ TUse
Track == Progress(TRUE)
=============================================================================
