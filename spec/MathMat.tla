------------------------------ MODULE MathMat -------------------------------
(***************************************************************************)
(* A matrix register under every operation of math::mat: products, scaling,*)
(* transposition, construction, truncation and enlargement, access, the    *)
(* determinant and the inverses, and the composition of transforms.        *)
(* The state is an exact integer matrix; behaviours stay in the range in   *)
(* which float represents every intermediate result.                       *)
(*   Mode "walk": random histories (simulation)                            *)
(*   Mode "all":  every matrix over Entries of the dimensions R x C, under *)
(*                the observers (exhaustive)                               *)
(*   Mode "laws": no emission: the algebraic laws the specification itself *)
(*                must satisfy, on random pairs                            *)
(***************************************************************************)
EXTENDS Linear, TLC, Json

CONSTANTS Mode, Depth, R, C, Entries, Shift

VARIABLES ty, m, m0, hist
vars == <<ty, m, m0, hist>>

Bound == 1500
RandV(n) == [i \in 1..n |-> RandomElement((-4)..4)]
RandM(r, c) == [j \in 1..c |-> RandV(r)]
AllM(r, c) == {[j \in 1..c |-> [i \in 1..r |-> f[(j - 1) * r + i] - Shift]] : f \in [1..(r * c) -> Entries]}

Init == /\ m \in IF Mode = "all" THEN AllM(R, C) ELSE {Diag(r, c, 2) : r \in 2..4, c \in 2..4}
        /\ ty \in IF Mode = "walk" THEN {"f32", "f64", "s32"} ELSE {"f32"}
        /\ m0 = m /\ hist = <<>>

Ints(w) == [i \in DOMAIN w |-> <<w[i], 1>>]
Bool(c) == <<IF c THEN 1 ELSE 0, 1>>
Rec(op, a, s, ret, nm) ==
    /\ m' = nm
    /\ hist' = Append(hist, [op |-> op, a |-> a, s |-> s, exp |-> [ret |-> ret, r |-> Rows(nm), c |-> Cols(nm), m |-> Flat(nm)]])
    /\ UNCHANGED <<ty, m0>>
Obs(op, a, s, ret) == Rec(op, a, s, ret, m)
Mk(a) == [r |-> Rows(a), c |-> Cols(a), m |-> Flat(a)]     \* matrix argument
Set(a) == Rec("set", <<Mk(a)>>, 0, <<>>, a)
Put(op, a, s, nm, dflt) == IF MBounded(nm, Bound) THEN Rec(op, a, s, <<>>, nm) ELSE Set(dflt)

Square == Rows(m) = Cols(m)
Rats(w, d) == [i \in DOMAIN w |-> <<w[i], d>>]
IsAffine == Rows(m) = 4 /\ Cols(m) = 4 /\ Row(m, 4) = <<0, 0, 0, 1>>
Upper == [j \in 1..3 |-> [i \in 1..3 |-> m[j][i]]]
AffInv == LET A == Adj(Upper)   D == Det(Upper)   t == VNeg(MVec(A, <<m[4][1], m[4][2], m[4][3]>>)) IN
          \* all entries over the common denominator D
          [j \in 1..4 |-> [i \in 1..4 |-> IF j <= 3 THEN (IF i <= 3 THEN A[j][i] ELSE 0) ELSE IF i <= 3 THEN t[i] ELSE D]]

\* x: a matrix with Rows(x) = Cols(m);  y: Cols(y) = Rows(m);  z: the shape of m;  w: vector
\* e: the argument of a determinant or an inverse is divided by 2^e before the call (of the affine inverse: its linear part), and the result is
\* multiplied by the matching power of two afterwards (both are homogeneous, and powers of two are exact)
Exponents == {0, 0, 1, -1, 5, -5, 10, -10, 13, -13}
Step(o, x, y, z, vc, v3, u, s, dr, dc, i, j, e) ==
    CASE o = "mul"    -> Put(o, <<Mk(x)>>, 0, MMul(m, x), z)
      [] o = "rmul"   -> Put(o, <<Mk(y)>>, 0, MMul(y, m), z)
      [] o = "muls"   -> Put(o, <<>>, s, MScale(m, s), z)
      [] o = "divs"   -> IF \A k \in 1..Cols(m) : \A l \in 1..Rows(m) : Divides(s, m[k][l])
                         THEN Rec(o, <<>>, s, <<>>, [k \in 1..Cols(m) |-> [l \in 1..Rows(m) |-> Quo(m[k][l], s)]]) ELSE Put("muls", <<>>, s, MScale(m, s), z)
      [] o = "neg"    -> Rec(o, <<>>, 0, <<>>, MScale(m, -1))
      [] o = "transpose" -> Rec(o, <<>>, 0, <<>>, Transpose(m))
      [] o \in {"set", "setscalars", "setcols", "assign"} -> Rec(o, <<Mk(z)>>, 0, <<>>, z)
      [] o = "reshape" -> Rec("set", <<Mk(x)>>, 0, <<>>, x)
      [] o = "diag"   -> Rec(o, <<>>, s, <<>>, Diag(Rows(m), Cols(m), s))
      [] o = "identity" -> Rec(o, <<>>, 0, <<>>, Diag(Rows(m), Cols(m), 1))
      [] o = "setat"  -> Rec(o, <<i, j>>, s, <<>>, [m EXCEPT ![j][i] = s])
      [] o = "setcol" -> Rec(o, <<j>>, z[j], <<>>, [m EXCEPT ![j] = z[j]])
      [] o = "resize" -> IF (dr < Rows(m) /\ dc < Cols(m)) \/ (dr > Rows(m) /\ dc > Cols(m)) THEN Rec(o, <<dr, dc>>, 0, <<>>, MResize(m, dr, dc)) ELSE Set(z)
      [] o = "translate" -> IF Rows(m) = 4 /\ Cols(m) = 4 THEN Put(o, v3, 0, MMul(m, Translation(v3)), z) ELSE Set(Trs(v3, u, <<1, 2, 1>>))
      [] o = "scale"     -> IF Rows(m) = 4 /\ Cols(m) = 4 THEN Put(o, v3, 0, MMul(m, Scaling(v3)), z) ELSE Set(Trs(v3, u, <<2, 1, 1>>))
      \* the quaternion is divided by its norm before the call
      [] o = "rotate"    -> IF Rows(m) = 4 /\ Cols(m) = 4 /\ ty # "s32" THEN Put(o, u, Norm2(u), MMul(m, Rotation(u)), z) ELSE Set(Trs(v3, u, <<1, 1, -2>>))
      [] o = "mulvec" -> IF MBounded(<<MVec(m, vc)>>, 30000) THEN Obs(o, vc, 0, Ints(MVec(m, vc))) ELSE Set(z)
      [] o = "row"    -> Obs(o, <<i>>, 0, Ints(Row(m, i)))
      [] o = "col"    -> Obs(o, <<j>>, 0, Ints(m[j]))
      [] o = "eq"     -> Obs(o, <<Mk(z)>>, 0, <<Bool(m = z), Bool(m # z)>>)
      [] o = "eqself" -> Obs("eq", <<Mk([m EXCEPT ![j][i] = m[j][i] + 1])>>, 0, <<Bool(FALSE), Bool(TRUE)>>)
      [] o = "eqsame" -> Obs("eq", <<Mk(m)>>, 0, <<Bool(TRUE), Bool(FALSE)>>)
      [] o = "det"    -> IF Square /\ MBounded(m, 12) THEN Obs(o, <<>>, IF ty = "s32" THEN 0 ELSE e, Ints(<<Det(m)>>)) ELSE Set(RandM(dr, dr))
      [] o = "inverse" -> IF Square /\ MBounded(m, 12) /\ ty # "s32" /\ Det(m) # 0 THEN Obs(o, <<>>, e, Rats(Flat(Adj(m)), Det(m))) ELSE Set(RandM(dr, dr))
      [] o = "affineinverse" -> IF IsAffine /\ MBounded(m, 12) /\ ty # "s32" /\ Det(Upper) # 0
                         THEN Obs(o, <<>>, e, Rats(Flat(AffInv), Det(Upper))) ELSE Set(Affine(RandM(4, 4)))
      [] o = "sizes"  -> Obs(o, <<>>, 0, Ints(<<Rows(m), Cols(m), Rows(m) * Cols(m), Rows(m) * Cols(m)>>))
Ops == {"mul", "rmul", "muls", "divs", "neg", "transpose", "set", "setscalars", "setcols", "assign", "reshape", "diag", "identity", "setat", "setcol",
        "resize", "translate", "scale", "rotate", "mulvec", "row", "col", "eq", "eqself", "eqsame", "det", "inverse", "affineinverse", "sizes"}
UnitsSeq == {[i \in 1..4 |-> q[i]] : q \in Units}
Walk == \E o \in {RandomElement(Ops)} : \E dr \in {RandomElement(2..4)} : \E dc \in {RandomElement(2..4)} :
        \E x \in {RandM(Cols(m), dc)} : \E y \in {RandM(dr, Rows(m))} : \E z \in {RandM(Rows(m), Cols(m))} :
        \E vc \in {RandV(Cols(m))} : \E v3 \in {RandV(3)} : \E u \in {RandomElement(UnitsSeq)} : \E s \in {RandomElement({-4, -2, -1, 0, 1, 2, 3, 4})} :
        \E i \in {RandomElement(1..Rows(m))} : \E j \in {RandomElement(1..Cols(m))} : 
        \E e \in {RandomElement(Exponents)} : Step(o, x, y, z, vc, v3, u, s, dr, dc, i, j, e)
\* the observers, each once, on every matrix
Each == LET k == Len(hist) + 1 IN
        CASE k = 1 -> Obs("det", <<>>, 0, Ints(<<Det(m)>>))
          [] k = 2 -> IF Det(m) # 0 THEN Obs("inverse", <<>>, 0, Rats(Flat(Adj(m)), Det(m))) ELSE Obs("row", <<1>>, 0, Ints(Row(m, 1)))
          [] k = 3 -> Rec("mul", <<Mk(m)>>, 0, <<>>, MMul(m, m))
          [] k = 4 -> Rec("transpose", <<>>, 0, <<>>, Transpose(m))
Next == /\ Len(hist) < (IF Mode = "all" THEN 4 ELSE Depth)
        /\ IF Mode = "all" THEN Each ELSE Walk
Spec == Init /\ [][Next]_vars

TypeOK == MBounded(m, Bound)
\* the definitions of Linear obey the laws of matrix algebra
Laws == Mode # "laws" \/ LET n == RandomElement(2..4) IN
        \E a \in {RandM(n, n)} : \E b \in {RandM(n, n)} : \E c \in {RandM(n, 3)} : \E p \in {RandomElement(UnitsSeq)} : \E q \in {RandomElement(UnitsSeq)} :
        /\ Det(MMul(a, b)) = Det(a) * Det(b)
        /\ Transpose(MMul(a, c)) = MMul(Transpose(c), Transpose(a))
        /\ Det(Transpose(a)) = Det(a)
        /\ MMul(a, Adj(a)) = Diag(n, n, Det(a)) /\ MMul(Adj(a), a) = Diag(n, n, Det(a))
        /\ MMul(MMul(a, b), c) = MMul(a, MMul(b, c))
        /\ Det(QMat(p)) = 1 /\ MMul(QMat(p), Transpose(QMat(p))) = Id(3)
        /\ QMatN(QMul(p, q)) = MMul(QMatN(p), QMatN(q))
        /\ QMat(VNeg(p)) = QMat(p)
EmitLeaf == Mode = "laws" \/ Len(hist) < (IF Mode = "all" THEN 4 ELSE Depth) \/ PrintT("@@" \o ToJson([kind |-> "mat", t |-> ty, ops |-> hist, init |-> Mk(m0)]))
=============================================================================
