------------------------------- MODULE UriObj -------------------------------
(***************************************************************************)
(* URI and URIView objects as values.  u, v are URI objects (owning), w is *)
(* a URIView over a text kept alive by the driver.  The state of an object *)
(* is the text it was last given (0: default/moved-from, 1..#texts); every *)
(* component must equal the one of a freshly constructed object of that    *)
(* text, whatever happened to the objects it was copied or moved from.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, EmitAll
U == INSTANCE Uri WITH MaxLen <- 0, Mode <- "none", text <- <<>>, comp <- <<>>

Texts == <<
  <<"a", ".", "x">>,
  <<"a", "%20", "/", "b", "%3F", "name", "name", "name", "name", "name", "name", "name", "name", "#", "x">>,
  <<"scheme", ":", "/", "/", "a", "@", "b", ":", "80", "/", "x", "?", "a", "=", "1", "#", "b">>,
  <<"/", "b", "?", "x">>,
  <<"data", ":", "a", "/", "b", ",", "name", "name", "name", "name", "name", "name", "name", "name", "name", "name">>,
  \* the same text once decoded, or a text of the same length, with other components
  <<"/", "b", "%3F", "x">>,
  <<"a", "#", "/", "x">>,
  <<"a", "%20", "/", "b", "?", "name", "name", "name", "name", "name", "name", "name", "name", "%23", "x">>
>>
Ids == 1..Len(Texts)
ASSUME \A i \in Ids : U!Valid(Texts[i])
Blank == 0
Objs == {"u", "v"}
Other(x) == IF x = "u" THEN "v" ELSE "u"
VARIABLES st, w, hist
vars == <<st, w, hist>>
Init == st = [x \in Objs |-> Blank] /\ w = Blank /\ hist = <<>>
Rec(op, x, i, ns, nw) ==
    /\ Len(hist) < Depth
    /\ st' = ns /\ w' = nw
    /\ hist' = Append(hist, [op |-> op, x |-> x, i |-> i, exp |-> [u |-> ns["u"], v |-> ns["v"], w |-> nw]])
Put(op, x, i) == Rec(op, x, i, [st EXCEPT ![x] = i], w)
Construct == \E x \in Objs, i \in Ids, o \in {"ctorstr", "ctorsv", "ctorview", "assignview"} : Put(o, x, i)
Default   == \E x \in Objs : Put("ctor", x, Blank)
Copy      == \E x \in Objs, o \in {"copyctor", "copyassign"} : Put(o, x, st[Other(x)])
Move      == \E x \in Objs, o \in {"movector", "moveassign"} : Rec(o, x, 0, [st EXCEPT ![x] = st[Other(x)], ![Other(x)] = Blank], w)
Self      == \E x \in Objs : Rec("selfassign", x, 0, st, w)
Swap      == Rec("swap", "u", 0, [u |-> st["v"], v |-> st["u"]], w)
Vector    == \E x \in Objs : Rec("grow", x, 0, st, w)
ViewSet   == \E i \in Ids, o \in {"viewctor", "viewassign", "viewcopyassign", "viewcopyctor"} : Rec(o, "w", i, st, i)
Next == Construct \/ Default \/ Copy \/ Move \/ Self \/ Swap \/ Vector \/ ViewSet
Spec == Init /\ [][Next]_vars
TypeOK == st \in [Objs -> Ids \cup {Blank}] /\ w \in Ids \cup {Blank}
View == <<st, w>>
Emit == ~EmitAll \/ PrintT("@@" \o ToJson([ops |-> hist']))
EmitLeaf == (EmitAll \/ Len(hist) < Depth) \/ PrintT("@@" \o ToJson([ops |-> hist]))
ASSUME PrintT("@@" \o ToJson([texts |-> [i \in Ids |-> [text |-> U!Text(Texts[i]), uri |-> U!Expect(Texts[i]), view |-> U!ExpectView(Texts[i])]]]))
=============================================================================
