----------------------------- MODULE RoutePathMC -----------------------------
(* Texts are written item by item and read as they grow.  What a well-formed text    *)
(* denotes is taken apart into just that route, so that no two routes share their     *)
(* bytes; a text with an address nowhere to put it is refused.  Providers are         *)
(* registered and asked for.                                                          *)
EXTENDS RoutePath, Json, TLC, FiniteSets
CONSTANTS MaxItems, Nums, Lens, Padded, Gen

VARIABLES items, st, known
vars == <<routes, items, st, known>>

Chars(n) == [i \in 1..n |-> 46 + (i % 3)]
Num(n) == [k |-> "num", n |-> n, s |-> <<>>]
Addr(l) == [k |-> "addr", n |-> 0, s |-> Chars(l)]
BadItem == [k |-> "bad", n |-> 0, s |-> <<>>]

Init == RInit /\ items = <<>> /\ st = Begin /\ known = {}
\* (Padded = FALSE: without the padding, TLC finds two routes with the same bytes)
Strip(s) == IF Padded \/ s.fail \/ s.free THEN s
            ELSE IF s.last = "addr" /\ s.out[Len(s.out)] = 0 THEN [s EXCEPT !.out = SubSeq(@, 1, Len(@) - 1)] ELSE s
Write == /\ Len(items) < MaxItems
         /\ \E x \in {Num(n) : n \in Nums} \union {Addr(l) : l \in Lens} \union {BadItem} :
               items' = Append(items, x) /\ st' = Strip(Item(st, x))
         /\ UNCHANGED <<routes, known>>
Good == ~st.fail /\ ~st.free /\ st.at = "port" /\ items # <<>>
Register == /\ Good /\ Len(items) = 2 /\ Cardinality(known) < 2
            /\ Handle(st.out, Len(items) * 10 + Cardinality(known))
            /\ known' = known \union {[route |-> Route(items), id |-> Len(items) * 10 + Cardinality(known)]}
            /\ items' = <<>> /\ st' = Begin
Ask == /\ Good
       /\ LET here == {x \in known : x.route = Route(items)} IN
          \E ok \in BOOLEAN : \E id \in {x.id : x \in known} : Reach(st.out, ok, id)
       /\ items' = <<>> /\ st' = Begin /\ UNCHANGED known
Next == Write \/ Register \/ Ask
Spec == Init /\ [][Next]_vars

Same == st.fail = Read(items).fail /\ (Padded => st = Read(items))
Clear == (Good /\ \A i \in DOMAIN items : i % 2 = 1 => items[i].n < 15) => Decode(st.out) = Route(items)
WholeWords == Good => Len(st.out) % 2 = 0
\* the provider under a route is the one registered last with that route
Latest(r) == {x \in known : x.route = r}
Routed == (Good /\ \A i \in DOMAIN items : i % 2 = 1 => items[i].n < 15) =>
             (st.out \in DOMAIN routes <=> Latest(Route(items)) # {})
Writing == items' # <<>>
Emit == (Gen /\ Len(items) > 0) => PrintT("SCN " \o ToJson([i \in DOMAIN items |-> [k |-> items[i].k, n |-> items[i].n, l |-> Len(items[i].s)]]))
===============================================================================
