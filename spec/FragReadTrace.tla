---------------------------- MODULE FragReadTrace ----------------------------
EXTENDS FragRead, TraceLib
VARIABLES want, path

TraceInit ==
    /\ LibInit
    /\ FInit(0, 0, FALSE)
    /\ want = "" /\ path = ""

Cfg == /\ Is("cfg")
       /\ phase = "idle"
       /\ total' = Ev.total /\ elems' = Ev.elems /\ isStruct' = Ev.struct
       /\ want' = Ev.want /\ path' = Ev.path
       /\ UNCHANGED <<phase, asked, got, first, res>>

TCall == Is("call") /\ Call /\ UNCHANGED <<want, path>>

Req == [svc |-> Ev.svc, off |-> Ev.off, elems |-> Ev.elems]
TReq == /\ Is("req")
        /\ Ev.path = path
        /\ (SendRead(Req) \/ SendFrag(Req))
        /\ UNCHANGED <<want, path>>

TReply == /\ Is("reply")
          /\ Reply(Ev.n, Ev.st, Ev.fault)
          /\ UNCHANGED <<want, path>>

TRet == /\ Is("ret")
        /\ IF Ev.ok THEN ReturnOk /\ Ev.got = want ELSE ReturnErr
        /\ UNCHANGED <<want, path>>

TraceNext == Cfg \/ TCall \/ TReq \/ TReply \/ TRet
Track == Progress(Inv)
=============================================================================
