------------------------------ MODULE Bounds ------------------------------
(***************************************************************************)
(* Accessor::updateBoundsToInclude and the bounds arrays it maintains.     *)
(* Two accessors; each has an optional max and an optional min array of a  *)
(* type (integer or floating) and a width.  The history of every value     *)
(* that was included is kept as `seen`, so that the meaning of the bounds  *)
(* (the component-wise extremum of everything seen) is checked against the *)
(* incremental rule.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, EmitAll
Vals == {-1, 0, 1, 2}
Types == {"i", "f"}
NOB == [t |-> "-", v |-> <<>>]
VARIABLES acc, seen, hist
vars == <<acc, seen, hist>>
Objs == {"a", "b"}
Other(x) == IF x = "a" THEN "b" ELSE "a"
Vecs(n) == [1..n -> Vals]
\* a few vectors per width, chosen so that different components move in different directions
Some(n) == CASE n = 1 -> {<<-1>>, <<0>>, <<1>>, <<2>>}
             [] n = 2 -> {<<1, 2>>, <<2, 1>>, <<-1, 0>>, <<1, -1>>}
             [] n = 3 -> {<<1, 2, 0>>, <<2, -1, 1>>, <<-1, 1, 2>>}
             [] n = 4 -> {<<1, 2, 0, -1>>, <<2, 1, -1, 0>>}
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Empty == [max |-> NOB, min |-> NOB]
Init == acc = [x \in Objs |-> Empty] /\ seen = [x \in Objs |-> [max |-> {}, min |-> {}]] /\ hist = <<>>
Rec(op, x, t, v, nacc, nseen) ==
    /\ Len(hist) < Depth
    /\ acc' = nacc /\ seen' = nseen
    /\ hist' = Append(hist, [op |-> op, x |-> x, t |-> t, v |-> v, exp |-> nacc])
Fits(b, t, n) == b = NOB \/ (b.t = t /\ Len(b.v) = n)
Upd(b, t, v, F(_, _)) == [t |-> t, v |-> IF b = NOB THEN v ELSE [i \in 1..Len(v) |-> F(b.v[i], v[i])]]
Include == \E x \in Objs, t \in Types, n \in 1..4 : \E v \in Some(n), o \in (IF n = 1 THEN {"scalar"} ELSE {"vec"}) :
    /\ Fits(acc[x].max, t, n) /\ Fits(acc[x].min, t, n)
    /\ Rec(o, x, t, v, [acc EXCEPT ![x] = [max |-> Upd(@.max, t, v, Max2), min |-> Upd(@.min, t, v, Min2)]],
           [seen EXCEPT ![x] = [max |-> @.max \cup {v}, min |-> @.min \cup {v}]])
Preset == \E x \in Objs, w \in {"max", "min"}, t \in Types, n \in 1..3 : \E v \in {CHOOSE z \in Some(n) : TRUE} :
    /\ acc[x][w] = NOB \/ acc[x][w].t # t
    /\ Rec("preset" \o w, x, t, v, [acc EXCEPT ![x][w] = [t |-> t, v |-> v]], [seen EXCEPT ![x][w] = {v}])
Swp(f) == [y \in Objs |-> f[Other(y)]]
Mov(f, x, e) == [y \in Objs |-> IF y = x THEN f[Other(x)] ELSE e]
Nil == [max |-> {}, min |-> {}]
Move == \E x \in Objs : \* x = std::move(other); other = Accessor()
    \/ Rec("moveassign", x, "-", <<>>, Mov(acc, x, Empty), Mov(seen, x, Nil))
    \/ Rec("movector", x, "-", <<>>, Mov(acc, x, Empty), Mov(seen, x, Nil))
    \/ Rec("swap", x, "-", <<>>, Swp(acc), Swp(seen))
MoveBound == \E x \in Objs, w \in {"max", "min"} : \* only the array is moved over the other accessor's array
    /\ acc["a"][w] # NOB /\ acc["b"][w] # NOB
    /\ LET o == Other(x) IN
       Rec("movebound" \o w, x, "-", <<>>, [acc EXCEPT ![x][w] = acc[o][w], ![o][w] = NOB], [seen EXCEPT ![x][w] = seen[o][w], ![o][w] = {}])
Next == Include \/ Preset \/ Move \/ MoveBound
Spec == Init /\ [][Next]_vars
\* the bounds are the component-wise extrema of everything that was included or set before
Exact == \A x \in Objs :
    /\ (acc[x].max = NOB) = (seen[x].max = {})
    /\ acc[x].max # NOB => \A i \in DOMAIN acc[x].max.v :
          (\A v \in seen[x].max : v[i] <= acc[x].max.v[i]) /\ (\E v \in seen[x].max : v[i] = acc[x].max.v[i])
    /\ acc[x].min # NOB => \A i \in DOMAIN acc[x].min.v :
          (\A v \in seen[x].min : v[i] >= acc[x].min.v[i]) /\ (\E v \in seen[x].min : v[i] = acc[x].min.v[i])
View == acc
Emit == ~EmitAll \/ PrintT("@@" \o ToJson([ops |-> hist']))
EmitLeaf == (EmitAll \/ Len(hist) < Depth) \/ PrintT("@@" \o ToJson([ops |-> hist]))
=============================================================================
