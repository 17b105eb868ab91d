------------------------------- MODULE Linear -------------------------------
(***************************************************************************)
(* Exact linear algebra over the integers, in the conventions of glTF:     *)
(* vectors are sequences, a matrix is the sequence of its columns, a       *)
(* quaternion is <<x, y, z, w>> and rotates by the matrix of its           *)
(* normalisation.  Used by the specifications of the arithmetic (MathVec,  *)
(* MathMat), of scene traversal and of the matrix decomposition.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Vec(n, f(_)) == [i \in 1..n |-> f(i)]
RECURSIVE SumTo(_, _)
SumTo(v, n) == IF n = 0 THEN 0 ELSE SumTo(v, n - 1) + v[n]
Sum(v) == SumTo(v, Len(v))
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VMul(a, b) == [i \in 1..Len(a) |-> a[i] * b[i]]
VScale(a, s) == [i \in 1..Len(a) |-> a[i] * s]
VFill(n, s) == [i \in 1..n |-> s]
VNeg(a) == VScale(a, -1)
Abs(x) == IF x < 0 THEN -x ELSE x
\* exact quotient of a multiple
Quo(x, d) == LET q == Abs(x) \div Abs(d) IN IF (x < 0) = (d < 0) THEN q ELSE -q
Divides(d, x) == d # 0 /\ Abs(x) % Abs(d) = 0
Dot(a, b) == Sum(VMul(a, b))
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
\* more components are zero, fewer are dropped
VResize(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0]
RECURSIVE SqrtFrom(_, _)
SqrtFrom(r, n) == IF r * r = n THEN r ELSE IF r * r > n THEN -1 ELSE SqrtFrom(r + 1, n)
\* the integer square root of a square, else -1
Sqrt(n) == SqrtFrom(0, n)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

Rows(m) == Len(m[1])
Cols(m) == Len(m)
Mat(r, c, f(_, _)) == [j \in 1..c |-> [i \in 1..r |-> f(i, j)]]
At(m, i, j) == m[j][i]
Row(m, i) == [j \in 1..Cols(m) |-> m[j][i]]
Diag(r, c, s) == [j \in 1..c |-> [i \in 1..r |-> IF i = j THEN s ELSE 0]]
Id(n) == Diag(n, n, 1)
MMul(a, b) == [j \in 1..Cols(b) |-> [i \in 1..Rows(a) |-> Dot(Row(a, i), b[j])]]
MVec(a, v) == [i \in 1..Rows(a) |-> Dot(Row(a, i), v)]
MScale(m, s) == [j \in 1..Cols(m) |-> VScale(m[j], s)]
Transpose(m) == [j \in 1..Rows(m) |-> [i \in 1..Cols(m) |-> m[i][j]]]
Flat(m) == [k \in 1..(Rows(m) * Cols(m)) |-> m[((k - 1) \div Rows(m)) + 1][((k - 1) % Rows(m)) + 1]]
\* the matrix of r rows and c columns that agrees with m where m has an entry and with the identity elsewhere
MResize(m, r, c) == [j \in 1..c |-> [i \in 1..r |-> IF i <= Rows(m) /\ j <= Cols(m) THEN m[j][i] ELSE IF i = j THEN 1 ELSE 0]]

\* m without row i and column j
Minor(m, i, j) == [q \in 1..(Cols(m) - 1) |-> [p \in 1..(Rows(m) - 1) |->
                     m[IF q < j THEN q ELSE q + 1][IF p < i THEN p ELSE p + 1]]]
RECURSIVE Det(_)
Det(m) == IF Cols(m) = 1 THEN m[1][1]
          ELSE IF Cols(m) = 2 THEN m[1][1] * m[2][2] - m[1][2] * m[2][1]
          ELSE Sum([j \in 1..Cols(m) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * m[j][1] * Det(Minor(m, 1, j))])
\* the inverse is the adjugate divided by the determinant
Adj(m) == [j \in 1..Cols(m) |-> [i \in 1..Rows(m) |-> (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(m, j, i))]]

Norm2(q) == Dot(q, q)
QMul(p, q) == <<p[4] * q[1] + p[1] * q[4] + p[2] * q[3] - p[3] * q[2],
                p[4] * q[2] - p[1] * q[3] + p[2] * q[4] + p[3] * q[1],
                p[4] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[4],
                p[4] * q[4] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3]>>
QConj(q) == <<-q[1], -q[2], -q[3], q[4]>>
\* column j of the matrix is the j-th unit vector rotated: q e q* (scaled by the squared norm)
QRotate(q, e) == LET r == QMul(QMul(q, <<e[1], e[2], e[3], 0>>), QConj(q)) IN <<r[1], r[2], r[3]>>
QMatN(q) == [j \in 1..3 |-> QRotate(q, [i \in 1..3 |-> IF i = j THEN 1 ELSE 0])]
\* the 48 integer quaternions of squared norm 1, 2 or 4 whose matrix is a signed permutation or a third-turn
Units == {q \in [1..4 -> {-1, 0, 1}] : Norm2(q) \in {1, 2, 4}}
QMat(q) == LET m == QMatN(q) IN [j \in 1..3 |-> [i \in 1..3 |-> Quo(m[j][i], Norm2(q))]]

Affine(m) == [j \in 1..4 |-> [i \in 1..4 |-> IF i <= 3 /\ j <= 3 THEN m[j][i] ELSE IF i = j THEN 1 ELSE 0]]
Translation(t) == <<<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<t[1], t[2], t[3], 1>>>>
Scaling(s) == <<<<s[1], 0, 0, 0>>, <<0, s[2], 0, 0>>, <<0, 0, s[3], 0>>, <<0, 0, 0, 1>>>>
Rotation(q) == Affine(QMat(q))
Trs(t, q, s) == MMul(MMul(Translation(t), Rotation(q)), Scaling(s))

Bounded(v, b) == \A i \in DOMAIN v : Abs(v[i]) <= b
MBounded(m, b) == \A j \in DOMAIN m : Bounded(m[j], b)
=============================================================================
