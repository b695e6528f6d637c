---------------------------- MODULE TypeNameTrace ----------------------------
EXTENDS TypeName, TraceLib

VARIABLE taken    \* the writes the target took and the client has not reported yet

TraceInit == LibInit /\ taken = 0
TName == Is("named") /\ Ev.ok /\ NamedOk(Ev.type, Ev.text, Ev.crc) /\ UNCHANGED taken
TWrote == Is("wrote") /\ WroteOk(Ev.type, Ev.fields, Ev.head, Ev.data) /\ taken' = taken + 1
TDone == Is("written") /\ Ev.ok /\ Ev.n = taken /\ taken' = 0

TraceNext == TName \/ TWrote \/ TDone
Track == Progress(TRUE)
=============================================================================
