----------------------------- MODULE Decompose ------------------------------
(***************************************************************************)
(* Loading nodes with and without matrix decomposition.  A document is     *)
(* built node by node; each node is given as a matrix (the product of a    *)
(* translation, a rotation and a scale), as translation, rotation and      *)
(* scale of which each may be missing, or without transform.  Components   *)
(* are eighths of the emitted integers; a rotation is the one of the       *)
(* emitted integer quaternion, so that every matrix is rational.           *)
(*                                                                         *)
(* The outcome of a load: without the option every matrix is kept exactly; *)
(* with it a matrix becomes translation, rotation and scale, whose product *)
(* is that matrix (exp.m over the denominator exp.d).                      *)
(***************************************************************************)
EXTENDS Linear, TLC, Json

CONSTANTS Mode,     \* "axis": every axis rotation with every combination of scales; "any": sampled general rotations
          Depth     \* nodes per document

VARIABLES nodes
vars == <<nodes>>

\* one quaternion of each pair q, -q
Half == {q \in Units : \E i \in 1..4 : q[i] > 0 /\ \A j \in 1..(i - 1) : q[j] = 0}
Scales == {8, -8, 4, 16, -2, 64}       \* in eighths
Shifts == {0, 8, -24, 3, 4000}

\* rotation times scale, times the squared norm of q and 8
Rs(q, s) == [j \in 1..3 |-> VScale(QMatN(q)[j], s[j])]
MatrixNode(t, q, s) ==
    LET n == Norm2(q) IN
    [k |-> "matrix", t |-> t, q |-> q, s |-> s, d |-> 8 * n,
     m |-> [j \in 1..4 |-> [i \in 1..4 |-> IF j <= 3 THEN (IF i <= 3 THEN Rs(q, s)[j][i] ELSE 0) ELSE IF i <= 3 THEN t[i] * n ELSE 8 * n]]]
TrsNode(t, q, s, has) == [k |-> "trs", t |-> t, q |-> q, s |-> s, has |-> has]
EmptyNode == [k |-> "none"]
R(S) == RandomElement(S)
Add(n) == nodes' = Append(nodes, n)

Init == nodes = <<>>
AxisStep == \E a \in Scales : \E b \in {R(Scales)} : \E c \in {R(Scales)} : \E t \in {<<R(Shifts), R(Shifts), R(Shifts)>>} : \E q \in Half : Add(MatrixNode(t, q, <<a, b, c>>))
AnyStep == \E k \in {R(1..6)} : \E t \in {<<R(Shifts), R(Shifts), R(Shifts)>>} : \E s \in {<<R(Scales \cup {24, -40, 5}), R(Scales), R(Scales)>>} :
           \E q0 \in {[i \in 1..4 |-> R((-3)..5)]} : \E q1 \in {R(Half)} : \E has \in {R(SUBSET {"t", "r", "s"})} :
           \E u \in {R({1, 2})} : \E z \in {R(1..4)} :
           \* a third of the general rotations are half-turns or nearly axis-aligned
           LET q == IF u = 1 THEN q0 ELSE [q0 EXCEPT ![4] = 0, ![z] = 0] IN
           Add(IF k = 1 THEN EmptyNode ELSE IF k = 2 THEN TrsNode(t, q1, s, has) ELSE IF k = 3 THEN MatrixNode(t, q1, s)
               ELSE MatrixNode(t, IF Norm2(q) = 0 THEN q1 ELSE q, s))
Next == Len(nodes) < Depth /\ (IF Mode = "axis" THEN AxisStep ELSE AnyStep)
Spec == Init /\ [][Next]_vars

\* the specification's matrices are products of a translation, a rotation and a scale: the columns are orthogonal and as long as the scale says
TypeOK == \A i \in DOMAIN nodes : nodes[i].k = "matrix" =>
             LET N == nodes[i]   n == Norm2(N.q)   u == Rs(N.q, N.s) IN
             /\ \A j \in 1..3 : \A k \in 1..3 : j # k => Dot(u[j], u[k]) = 0
             /\ \A j \in 1..3 : Dot(u[j], u[j]) = n * n * N.s[j] * N.s[j]
Emit == Len(nodes) < Depth \/ PrintT("@@" \o ToJson([nodes |-> nodes]))
=============================================================================
