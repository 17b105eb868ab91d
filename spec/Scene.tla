------------------------------- MODULE Scene --------------------------------
(***************************************************************************)
(* Traversal of a scene.  A graph of nodes without cycles is built (its    *)
(* nodes, their transforms, their children, the roots of the scene and the *)
(* initial matrix); then a pushdown machine visits it: the stack has, for  *)
(* each open node, the children that are still to be visited and the world *)
(* transform they start from.  The log of visits is what the callback of   *)
(* the implementation has to see.                                          *)
(***************************************************************************)
EXTENDS Linear, FiniteSets, TLC, Json

CONSTANTS Mode,    \* "shapes": every graph of N nodes; "any": sampled graphs of up to N nodes with any transforms
          N

VARIABLES phase, nodes, scenes, which, initial, stack, log
vars == <<phase, nodes, scenes, which, initial, stack, log>>
R(S) == RandomElement(S)

\* ---- transforms ----
Half == {q \in Units : \E i \in 1..4 : q[i] > 0 /\ \A j \in 1..(i - 1) : q[j] = 0}
Shift == (-3)..3
Scales == {-2, -1, 0, 1, 1, 2, 3}
AsTrs(t, q, s) == [k |-> "trs", t |-> t, q |-> q, s |-> s, m |-> <<>>]
AsMatrix(m) == [k |-> "matrix", t |-> <<>>, q |-> <<>>, s |-> <<>>, m |-> m]
Local(x) == IF x.k = "trs" THEN Trs(x.t, x.q, x.s) ELSE x.m
RandomTrs == AsTrs(<<R(Shift), R(Shift), R(Shift)>>, R(Half), <<R(Scales), R(Scales), R(Scales)>>)
RandomMatrix == [j \in 1..4 |-> [i \in 1..4 |-> IF i = 4 THEN (IF j = 4 THEN 1 ELSE R({0, 0, 0, 1})) ELSE R((-2)..2)]]
RandomTransform == IF R(1..3) = 1 THEN AsMatrix(RandomMatrix) ELSE RandomTrs
\* for "shapes": transforms of which no two products are equal by accident
Fixed(i) == IF i % 2 = 0 THEN AsTrs(<<i, 0, 1>>, <<0, 0, 0, 1>>, <<2, 1, i + 1>>) ELSE AsTrs(<<0, i, 0>>, <<1, 0, 0, 1>>, <<1, 1, i>>)

\* ---- graphs ----
\* sequences of distinct elements
RECURSIVE Orders(_)
Orders(S) == {<<>>} \cup UNION {{<<x>> \o o : o \in Orders(S \ {x})} : x \in S}
RECURSIVE Below(_, _)
Below(ch, S) == LET T == S \cup UNION {{ch[i][k] : k \in DOMAIN ch[i]} : i \in S} IN IF T = S THEN S ELSE Below(ch, T)
Acyclic(ch) == \A i \in DOMAIN ch : i \notin Below(ch, {ch[i][k] : k \in DOMAIN ch[i]})
Graphs == {ch \in [1..N -> Orders(1..N)] : (\A i \in 1..N : \A k \in DOMAIN ch[i] : ch[i][k] # i) /\ Acyclic(ch)}
\* number of visits below a node
RECURSIVE Visits(_, _)
Visits(ch, i) == 1 + Sum([k \in DOMAIN ch[i] |-> Visits(ch, ch[i][k])])

Init == /\ nodes = <<>> /\ scenes = <<>> /\ which = 0 /\ initial = Id(4) /\ stack = <<>> /\ log = <<>>
        /\ phase \in IF Mode = "shapes" THEN {[p |-> "roots", n |-> N, ch |-> g] : g \in Graphs} ELSE {[p |-> "graph", n |-> 0, ch |-> <<>>]}
\* a random graph: children come later in a random order of the nodes
RandomChildren(n, perm) == [i \in 1..n |-> R(Orders({j \in 1..n : perm[j] > perm[i] /\ R(1..3) # 1 /\ perm[j] <= perm[i] + 7}))]
Graph == /\ phase.p = "graph"
         /\ \E n \in {R(1..N)} : \E perm \in {[i \in 1..n |-> R(1..12)]} : \E ch \in {RandomChildren(n, perm)} :
            /\ phase' = [p |-> IF Sum([i \in 1..n |-> Visits(ch, i)]) > 40 THEN "graph" ELSE "roots", n |-> n, ch |-> ch]
         /\ UNCHANGED <<nodes, scenes, which, initial, stack, log>>
RootPool == [n \in 1..N |-> {o \in Orders(1..n) : Len(o) <= 3}]
RandomRoots(n) == R(RootPool[n])
Roots == /\ phase.p = "roots"
         /\ \E ts \in {IF Mode = "shapes" THEN [i \in 1..N |-> Fixed(i)] ELSE [i \in 1..phase.n |-> RandomTransform]} :
            nodes' = [i \in 1..phase.n |-> ts[i] @@ [ch |-> phase.ch[i]]]
         /\ \E r \in IF Mode = "shapes" THEN {o \in Orders(1..N) : Len(o) <= 2} ELSE {RandomRoots(phase.n)} :
            \E other \in {IF Mode = "shapes" THEN <<>> ELSE [k \in 1..R(0..2) |-> RandomRoots(phase.n)]} : \E at \in {R(1..(Len(other) + 1))} :
            \E m \in {IF Mode = "shapes" \/ R(1..3) = 1 THEN Id(4) ELSE RandomMatrix} :
            /\ scenes' = SubSeq(other, 1, at - 1) \o <<r>> \o SubSeq(other, at, Len(other))
            /\ which' = at
            /\ initial' = m
            /\ stack' = <<[todo |-> r, m |-> m]>>
         /\ phase' = [phase EXCEPT !.p = "walk"] /\ UNCHANGED log

\* ---- the traversal ----
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Visit == /\ phase.p = "walk" /\ stack # <<>> /\ Top.todo # <<>>
         /\ LET i == Head(Top.todo)
                w == MMul(Top.m, Local(nodes[i])) IN
            /\ log' = Append(log, [node |-> i, m |-> w, depth |-> Len(stack)])
            /\ stack' = Pop \o <<[Top EXCEPT !.todo = Tail(@)], [todo |-> nodes[i].ch, m |-> w]>>
         /\ UNCHANGED <<phase, nodes, scenes, which, initial>>
Leave == /\ phase.p = "walk" /\ stack # <<>> /\ Top.todo = <<>>
         /\ stack' = Pop /\ UNCHANGED <<phase, nodes, scenes, which, initial, log>>
Next == Graph \/ Roots \/ Visit \/ Leave
Spec == Init /\ [][Next]_vars

\* a visit below another is the child of the last visit one level up, with that one's transform applied first
ParentOf(k) == LET c == {j \in 1..(k - 1) : log[j].depth = log[k].depth - 1} IN CHOOSE j \in c : \A l \in c : l <= j
\* (of the latest visit: the others were checked when they were the latest)
Consistent == phase.p # "walk" \/ stack = <<>> \/ Len(stack) # (IF log = <<>> THEN 0 ELSE log[Len(log)].depth) + 1 \/ \A k \in {Len(log)} \cap DOMAIN log :
    IF log[k].depth = 1 THEN log[k].m = MMul(initial, Local(nodes[log[k].node]))
    ELSE LET p == ParentOf(k) IN /\ \E c \in DOMAIN nodes[log[p].node].ch : nodes[log[p].node].ch[c] = log[k].node
                                 /\ log[k].m = MMul(log[p].m, Local(nodes[log[k].node]))
Done == phase.p = "walk" /\ stack = <<>>
Complete == Done => LET r == scenes[which] IN Len(log) = Sum([k \in DOMAIN r |-> Visits(phase.ch, r[k])])
Representable ==  \A k \in DOMAIN log : MBounded(log[k].m, 8000000)
Emit == ~Done \/ ~Representable \/
        PrintT("@@" \o ToJson([nodes |-> nodes, scenes |-> scenes, which |-> which, initial |-> initial,
                               local |-> [i \in DOMAIN nodes |-> Local(nodes[i])], exp |-> [k \in DOMAIN log |-> [node |-> log[k].node, m |-> log[k].m]]]))
=============================================================================
