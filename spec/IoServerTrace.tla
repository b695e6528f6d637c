--------------------------- MODULE IoServerTrace ---------------------------
EXTENDS IoServer, TraceLib

TraceInit == LibInit /\ IInit

(* on this line: silent, unsynced and stale are never accepted *)
TSetup == Is("setup") /\ Setup(Ev.provs)
TSet == Is("set") /\ SetBegin(Ev.p, Ev.v)
TIsSet == Is("isset") /\ SetEnd(Ev.p, Ev.v)
TMute == Is("mute") /\ Mute(Ev.p, Ev.on)
TOpen == Is("open") /\ Open(Ev.c, Ev.p, Ev.to, Ev.addr, Ev.rpi)
TOpened == Is("opened") /\ Opened(Ev.c, Ev.ok, Ev.ot)
TClose == Is("close") /\ Close(Ev.c, Ev.named)
TClosed == Is("closed") /\ Closed(Ev.c, Ev.ok, Ev.named)
TQuiet == Is("quiet") /\ Quiet
TPacket == Is("pkt") /\ Ev.ok /\ Packet(Ev.to, Ev.addr, Ev.seq, Ev.s16, Ev.p, Ev.v, Ev.min)
TSettled == Is("settled") /\ Settled
TRate == Is("rate") /\ Rate(Ev.c, Ev.n, Ev.us)
TOut == Is("out") /\ Out(Ev.ot, Ev.v, Ev.good, Ev.free)
TGot == Is("got") /\ Got(Ev.p, Ev.v)
TSub == Is("sub") /\ Subscribe(Ev.sub, Ev.p, Ev.waits)
TPark == Is("park") /\ Park(Ev.sub)
TDeliver == Is("deliver") /\ Deliver(Ev.sub, Ev.v)
TImage == Is("image") /\ Image(Ev.p, Ev.v)
TSynced == Is("synced") /\ Synced
TOver == Is("over") /\ Over

TraceNext == TSetup \/ TSet \/ TIsSet \/ TMute \/ TOpen \/ TOpened \/ TClose \/ TClosed \/ TQuiet \/ TPacket \/ TSettled \/ TRate
             \/ TOut \/ TGot \/ TSub \/ TPark \/ TDeliver \/ TImage \/ TSynced \/ TOver
Track == Progress(TRUE)
=============================================================================
