------------------------------- MODULE Refresh -------------------------------
(* C15: a client which polls the controller's properties and keeps its list of   *)
(* the tags up to date.  The target's properties change with its tags.  Seen at  *)
(* the target: polls and the version they were answered with, pages of listings; *)
(* at the client: the tags it knows and what reads bring, once polls have come   *)
(* to rest.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Props

VARIABLES
    cfg,    \* [want, props]: tags are to be polled; the properties to ask for
    now,    \* the version of the target
    tags,   \* version -> the tags it has, name -> value
    con,    \* the connection in use
    seen,   \* the version of the last poll on it, -1: none yet
    list,   \* "none", "owed": tags have to be listed before the next poll, "busy": some pages are here
    dead    \* a listing was refused: keepalive may have given up

rvars == <<cfg, now, tags, con, seen, list, dead>>

RInit(c, t) == cfg = c /\ now = 0 /\ tags = (0 :> t) /\ con = 0 /\ seen = -1 /\ list = "none" /\ dead = FALSE

Change(v, t) ==
    /\ v \notin DOMAIN tags
    /\ now' = v /\ tags' = (v :> t) @@ tags
    /\ UNCHANGED <<cfg, con, seen, list, dead>>

Opened(n) ==
    /\ n > con
    /\ con' = n /\ seen' = -1 /\ list' = "none" /\ dead' = FALSE
    /\ UNCHANGED <<cfg, now, tags>>

(* A poll asks for the properties configured, and only when the tags it made necessary to list have been listed. *)
Poll(n, props) ==
    /\ n = con
    /\ On("C15") => /\ props = cfg.props
                    /\ dead \/ list = "none"
    /\ seen' = now
    /\ list' = IF cfg.want /\ seen # now THEN "owed" ELSE "none"
    /\ UNCHANGED <<cfg, now, tags, con, dead>>

(* Tags are listed, from the first one, once for every answer that differed from the one before, and for the first. *)
Page(n, first, last, refused) ==
    /\ n = con
    /\ On("C15") => dead \/ (IF first THEN list = "owed" ELSE list = "busy")
    /\ list' = IF last \/ refused THEN "none" ELSE "busy"
    /\ dead' = (dead \/ refused)
    /\ UNCHANGED <<cfg, now, tags, con, seen>>

\* what goes with it: programs, and the tags in them
Side(n) ==
    /\ n = con
    /\ On("C15") => cfg.want
    /\ UNCHANGED rvars

(* Some polls after the last change: what the client knows is what there is. *)
Settled(known) ==
    /\ (On("C15") /\ ~dead) => /\ seen = now /\ list = "none"
                               /\ known = (IF cfg.want THEN DOMAIN tags[now] ELSE {})
    /\ UNCHANGED rvars

(* A tag that has its place now and had it before is read as it is; settled: one which has got it now. *)
Read(name, ok, val) ==
    /\ On("C15") => dead \/ (ok /\ name \in DOMAIN tags[now] /\ val = tags[now][name])
    /\ UNCHANGED rvars

(* Property lists read at two versions match if, and only if, nothing has changed. *)
Match(a, b, yes) ==
    /\ {a, b} \subseteq DOMAIN tags
    /\ On("C15") => (yes = (a = b))
    /\ UNCHANGED rvars
==============================================================================
