------------------------------ MODULE RoutePath ------------------------------
(* Route paths (property K02).  A text is a list of items                            *)
(*   [k |-> "num", n |-> 0..255, s |-> <<>>]      a port, or a link address           *)
(*   [k |-> "addr", n |-> 0, s |-> characters]    a network address                   *)
(*   [k |-> "bad", ...]                           anything else                       *)
(* which alternate between ports and the addresses on them.  It denotes one sequence  *)
(* of bytes: a network address is written as its length, its characters and, if their *)
(* number is odd, a zero, and is announced by bit 4 of the port's number.             *)
(* Whoever receives the bytes takes them apart again (Decode).                        *)
EXTENDS Integers, Sequences, Segments, Props

VARIABLES routes   \* the providers a router knows: bytes -> provider

\* reading a text
Begin == [fail |-> FALSE, free |-> FALSE, at |-> "port", last |-> "none", out |-> <<>>]
Item(st, x) ==
    CASE x.k = "bad" -> [st EXCEPT !.fail = TRUE]
      [] x.k = "num" -> [st EXCEPT !.out = Append(@, x.n), !.at = IF @ = "port" THEN "link" ELSE "port", !.last = "num"]
      [] x.k = "addr" ->
           IF st.last # "num" \/ Len(x.s) > 255 THEN [st EXCEPT !.fail = TRUE]
           \* an address where a port is expected, or on a port whose number has no room for the mark: nothing is said about these
           ELSE IF st.at = "port" \/ st.out[Len(st.out)] > 14 THEN [st EXCEPT !.free = TRUE, !.last = "addr", !.at = "port"]
           ELSE [st EXCEPT !.out = [@ EXCEPT ![Len(@)] = @ + 16] \o <<Len(x.s)>> \o x.s \o (IF Len(x.s) % 2 = 1 THEN <<0>> ELSE <<>>),
                           !.at = "port", !.last = "addr"]
RECURSIVE ReadItems(_, _)
ReadItems(st, items) == IF items = <<>> THEN st ELSE ReadItems(Item(st, Head(items)), Tail(items))
Read(items) == ReadItems(Begin, items)

\* ok: the text was accepted.  A text that ends with a port may be refused
ParseOk(items, ok, bytes) ==
    LET r == Read(items) IN
    IF r.fail THEN ~ok
    ELSE IF r.free THEN TRUE
    ELSE /\ r.at = "port" => ok
         /\ ok => bytes = r.out

---------------------------------------------------------------------------
\* what a well-formed text (ports up to 14) means
RECURSIVE Route(_)
Route(items) == IF items = <<>> THEN <<>>
                ELSE <<PortSeg(items[1].n, IF items[2].k = "num" THEN <<items[2].n>> ELSE items[2].s)>> \o Route(From(items, 3))

\* a path built step by step: a segment, two steps for a port, a text, or bytes as they are
RECURSIVE Want(_), Fails(_)
Want(steps) ==
    IF steps = <<>> THEN <<>>
    ELSE LET x == steps[1] IN
         CASE x.k = "port" -> <<PortSeg(x.n[1], <<steps[2].n[1]>>)>> \o Want(From(steps, 3))
           [] x.k = "parse" -> Decode(Read(x.items).out) \o Want(Tail(steps))
           [] x.k = "custom" -> Decode(x.s) \o Want(Tail(steps))
           [] OTHER -> <<[k |-> x.k, n |-> x.n, s |-> x.s]>> \o Want(Tail(steps))
Fails(steps) == \E i \in DOMAIN steps : \/ steps[i].k = "parse" /\ Read(steps[i].items).fail
                                        \/ steps[i].k = "sym" /\ Len(steps[i].s) > 255
BuildOk(steps, ok, bytes) == IF Fails(steps) THEN ~ok ELSE ok /\ Decode(bytes) = Want(steps)

\* one segment on its own: as long as it says, and read again as what it was
SegmentOk(k, n4, len, bytes, back) == /\ len = Len(bytes)
                                      /\ Decode(bytes) = <<Logical(k, n4)>>
                                      /\ back = n4

---------------------------------------------------------------------------
\* a server's router, and a client that is told a path
RInit == routes = [b \in {} |-> 0]
Handle(bytes, id) == routes' = [b \in DOMAIN routes \union {bytes} |-> IF b = bytes THEN id ELSE routes[b]]
MaxWords == 253    \* the object that is asked comes after the route, and the number of words fits a byte
Reach(bytes, ok, id) == /\ bytes \in DOMAIN routes /\ Len(bytes) <= 2 * MaxWords => ok
                        /\ ok => bytes \in DOMAIN routes /\ id = routes[bytes]
                        /\ UNCHANGED routes
===============================================================================
