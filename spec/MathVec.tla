------------------------------ MODULE MathVec -------------------------------
(***************************************************************************)
(* A vector and a quaternion register under every operation of math::vec   *)
(* and math::quat.  The state is exact (integers); behaviours stay within  *)
(* the range in which the element type of the register represents every    *)
(* intermediate result, so each observation must be exact as well; square  *)
(* roots and quotients are emitted as rationals.                           *)
(***************************************************************************)
EXTENDS Linear, TLC, Json

CONSTANTS Kind,      \* "vec" or "quat"
          Depth

\* element types with the range of the components used
Types == {[t |-> "f32", lo |-> -900, hi |-> 900], [t |-> "f64", lo |-> -30000, hi |-> 30000],
          [t |-> "s8", lo |-> -120, hi |-> 120], [t |-> "u8", lo |-> 0, hi |-> 250],
          [t |-> "s16", lo |-> -30000, hi |-> 30000], [t |-> "u16", lo |-> 0, hi |-> 60000],
          [t |-> "s32", lo |-> -30000, hi |-> 30000], [t |-> "u32", lo |-> 0, hi |-> 30000],
          [t |-> "s64", lo |-> -30000, hi |-> 30000], [t |-> "u64", lo |-> 0, hi |-> 30000]}
Floats == {"f32", "f64"}

VARIABLES ty, v, v0, hist
vars == <<ty, v, v0, hist>>

Small(lo) == (IF lo < 0 THEN (-4)..7 ELSE 0..9)
RandVec(n) == [i \in 1..n |-> RandomElement(Small(ty.lo))]
\* vectors whose length is an integer
Pyth(n) == IF n = 2 THEN {<<3, 4>>, <<4, 3>>, <<5, 12>>, <<0, 7>>, <<8, 6>>, <<1, 0>>}
           ELSE IF n = 3 THEN {<<1, 2, 2>>, <<2, 3, 6>>, <<4, 4, 7>>, <<0, 3, 4>>, <<0, 0, 5>>, <<6, 2, 3>>, <<4, 0, 0>>}
           ELSE {<<1, 1, 1, 1>>, <<2, 4, 5, 6>>, <<1, 2, 2, 0>>, <<0, 0, 3, 4>>, <<1, 1, 3, 5>>, <<8, 0, 0, 0>>, <<0, 2, 0, 0>>, <<2, 2, 2, 2>>}
InRange(w) == \A i \in DOMAIN w : w[i] >= ty.lo /\ w[i] <= ty.hi

Init == /\ ty \in IF Kind = "quat" THEN {t \in Types : t.t \in Floats} ELSE Types
        /\ v \in IF Kind = "quat" THEN {<<1, 2, 3, 4>>} ELSE {<<1, 2>>, <<3, 1, 2>>, <<2, 0, 5, 1>>}
        /\ v0 = v
        /\ hist = <<>>

R(p, q) == <<p, q>>      \* a rational
Ints(w) == [i \in DOMAIN w |-> <<w[i], 1>>]
Bool(c) == <<IF c THEN 1 ELSE 0, 1>>

\* one call: operation, vector argument, scalar argument; result and register afterwards
Rec(op, a, s, ret, nv) ==
    /\ v' = nv
    /\ hist' = Append(hist, [op |-> op, a |-> a, s |-> s, exp |-> [ret |-> ret, v |-> nv]])
    /\ UNCHANGED <<ty, v0>>
Set(a) == Rec("set", a, 0, <<>>, a)
\* the operation, unless its result leaves the range: then a fresh value
RandVecC(n, a) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 1]
Put(op, a, s, nv) == IF InRange(nv) THEN Rec(op, a, s, <<>>, nv) ELSE Set(RandVecC(Len(v), a))
Obs(op, a, s, ret) == Rec(op, a, s, ret, v)
DivV(w, a) == [i \in 1..Len(w) |-> Quo(w[i], a[i])]
N == Len(v)

\* e: the vector of a length or normalisation is multiplied by 2^e before the call and the length by 2^-e afterwards (both are homogeneous)
Exponents == {0, 0, -1, 1, -10, 10, -30, 30}
VecStep(o, a, b, s, m, k, e) ==
    CASE o \in {"add", "addeq"}   -> Put(o, a, 0, VAdd(v, a))
      [] o \in {"sub", "subeq"}   -> Put(o, a, 0, VSub(v, a))
      [] o \in {"mul", "muleq"}   -> Put(o, a, 0, VMul(v, a))
      [] o \in {"adds", "addeqs"} -> Put(o, <<>>, s, VAdd(v, VFill(N, s)))
      [] o \in {"subs", "subeqs"} -> Put(o, <<>>, s, VSub(v, VFill(N, s)))
      [] o \in {"muls", "muleqs"} -> Put(o, <<>>, s, VScale(v, s))
      [] o \in {"div", "diveq"}   -> IF \A i \in 1..N : Divides(a[i], v[i]) THEN Put(o, a, 0, DivV(v, a)) ELSE Put("muleq", a, 0, VMul(v, a))
      [] o \in {"divs", "diveqs"} -> IF \A i \in 1..N : Divides(s, v[i]) THEN Put(o, <<>>, s, DivV(v, VFill(N, s))) ELSE Put("muls", <<>>, s, VScale(v, s))
      [] o = "chain"  -> IF InRange(VAdd(v, a)) /\ InRange(VSub(VAdd(v, a), b)) THEN Rec(o, <<a, b>>, 0, <<>>, VSub(VAdd(v, a), b)) ELSE Set(a)
      [] o = "chains" -> IF InRange(VScale(v, s)) /\ InRange(VAdd(VScale(v, s), a)) THEN Rec(o, a, s, <<>>, VAdd(VScale(v, s), a)) ELSE Set(a)
      [] o = "preinc"  -> IF InRange(VAdd(v, VFill(N, 1))) THEN Rec(o, <<>>, 0, Ints(VAdd(v, VFill(N, 1))), VAdd(v, VFill(N, 1))) ELSE Set(a)
      [] o = "predec"  -> IF InRange(VSub(v, VFill(N, 1))) THEN Rec(o, <<>>, 0, Ints(VSub(v, VFill(N, 1))), VSub(v, VFill(N, 1))) ELSE Set(a)
      [] o = "postinc" -> IF InRange(VAdd(v, VFill(N, 1))) THEN Rec(o, <<>>, 0, Ints(v), VAdd(v, VFill(N, 1))) ELSE Set(a)
      [] o = "postdec" -> IF InRange(VSub(v, VFill(N, 1))) THEN Rec(o, <<>>, 0, Ints(v), VSub(v, VFill(N, 1))) ELSE Set(a)
      [] o = "neg"    -> Put(o, <<>>, 0, VNeg(v))
      [] o = "pos"    -> Put(o, <<>>, 0, v)
      [] o \in {"set", "setlist", "assignlist", "fromptr", "copyassign"} -> Rec(o, a, 0, <<>>, a)
      [] o = "fill"   -> IF s >= ty.lo THEN Rec(o, <<>>, s, <<>>, VFill(N, s)) ELSE Set(a)
      [] o = "setat"  -> IF s >= ty.lo THEN Rec(o, <<k>>, s, <<>>, [v EXCEPT ![k] = s]) ELSE Set(a)
      [] o \in {"resize", "resizeassign", "resizeop"} -> Rec(o, <<m>>, 0, <<>>, VResize(v, m))
      [] o \in {"retype", "retypeassign"} -> Rec(o, <<>>, 0, <<>>, v)
      [] o = "pyth"   -> Rec("set", b, 0, <<>>, b)
      [] o = "sum"    -> IF InRange(<<Sum(v)>>) THEN Obs(o, <<>>, 0, Ints(<<Sum(v)>>)) ELSE Set(a)
      [] o = "dot"    -> IF InRange(VMul(v, a)) /\ InRange(<<Dot(v, a)>>) THEN Obs(o, a, 0, Ints(<<Dot(v, a)>>)) ELSE Set(a)
      [] o = "cross"  -> IF N = 3 /\ InRange(Cross(v, a)) /\ Bounded(v, 100) THEN Obs(o, a, 0, Ints(Cross(v, a))) ELSE Set(a)
      [] o = "eq"     -> Obs(o, a, 0, <<Bool(v = a), Bool(v # a)>>)
      [] o = "eqself" -> LET w == [v EXCEPT ![k] = IF v[k] < ty.hi THEN v[k] + 1 ELSE v[k] - 1] IN Obs("eq", w, 0, <<Bool(FALSE), Bool(TRUE)>>)
      [] o = "eqsame" -> Obs("eq", v, 0, <<Bool(TRUE), Bool(FALSE)>>)
      [] o = "clamp"  -> Obs(o, <<a[1], a[1] + m>>, 0, Ints([i \in 1..N |-> IF v[i] < a[1] THEN a[1] ELSE IF v[i] > a[1] + m THEN a[1] + m ELSE v[i]]))
      [] o = "lerp"   -> LET d == VSub(a, v) IN
                         IF ty.t \in Floats /\ Bounded(VAdd(v, VScale(d, s)), 30000) /\ Bounded(VScale(d, s), 30000) THEN Obs(o, a, s, Ints(VAdd(v, VScale(d, s)))) ELSE Set(a)
      [] o = "length" -> IF ty.t \in Floats /\ Bounded(v, 60) /\ Sqrt(Dot(v, v)) >= 0 THEN Obs(o, <<>>, e, Ints(<<Sqrt(Dot(v, v))>>)) ELSE Rec("set", b, 0, <<>>, b)
      [] o = "normalize" -> LET l == IF Bounded(v, 60) THEN Sqrt(Dot(v, v)) ELSE -1 IN
                         IF ty.t \in Floats /\ l > 0 THEN Obs(o, <<>>, e, [i \in 1..N |-> R(v[i], l)]) ELSE Rec("set", b, 0, <<>>, b)
      [] o = "sizes"  -> Obs(o, <<>>, 0, Ints(<<N, N>>))

VecOps == {"add", "addeq", "sub", "subeq", "mul", "muleq", "adds", "addeqs", "subs", "subeqs", "muls", "muleqs", "div", "diveq", "divs", "diveqs",
           "chain", "chains", "preinc", "predec", "postinc", "postdec", "neg", "pos", "set", "setlist", "assignlist", "fromptr", "copyassign", "fill", "setat",
           "resize", "resizeassign", "resizeop", "retype", "retypeassign", "pyth", "sum", "dot", "cross", "eq", "eqself", "eqsame", "clamp", "lerp",
           "length", "normalize", "sizes"}
VecNext == \E o \in {RandomElement(VecOps)} : \E a \in {RandVec(N)} :
           \E b \in {IF o = "chain" THEN RandVec(N) ELSE RandomElement(Pyth(N))} :
           \E s \in {RandomElement(Small(ty.lo))} : \E m \in {RandomElement(2..4)} : \E k \in {RandomElement(1..N)} :
           \E e \in {RandomElement(Exponents)} : VecStep(o, a, b, s, m, k, e)

\* ---- quaternions ----
QBound(w) == Bounded(w, ty.hi)
QPut(op, a, s, nv) == IF QBound(nv) THEN Rec(op, a, s, <<>>, nv) ELSE Set(a)
UnitsSeq == {[i \in 1..4 |-> q[i]] : q \in Units}
\* a rotation by a small angle about an axis
Twist(t, i) == [j \in 1..4 |-> IF j = 4 THEN t ELSE IF j = i THEN 1 ELSE 0]
QuatStep(o, a, u, w, s, k, t) ==
    CASE o \in {"add", "addeq"}   -> QPut(o, a, 0, VAdd(v, a))
      [] o \in {"sub", "subeq"}   -> QPut(o, a, 0, VSub(v, a))
      [] o \in {"muls", "muleqs"} -> IF QBound(VScale(v, s)) THEN Rec(o, <<>>, s, <<>>, VScale(v, s)) ELSE Set(a)
      [] o \in {"divs", "diveqs"} -> IF \A i \in 1..4 : Divides(s, v[i]) THEN Rec(o, <<>>, s, <<>>, DivV(v, VFill(4, s))) ELSE
                                     IF QBound(VScale(v, s)) THEN Rec("muls", <<>>, s, <<>>, VScale(v, s)) ELSE Set(a)
      [] o = "chain"  -> IF QBound(VAdd(v, a)) /\ QBound(VSub(VAdd(v, a), u)) THEN Rec(o, <<a, u>>, 0, <<>>, VSub(VAdd(v, a), u)) ELSE Set(a)
      [] o = "neg"    -> QPut(o, <<>>, 0, VNeg(v))
      [] o = "pos"    -> QPut(o, <<>>, 0, v)
      [] o \in {"set", "fromptr"} -> Rec(o, a, 0, <<>>, a)
      [] o = "default" -> Rec(o, <<>>, 0, <<>>, <<0, 0, 0, 1>>)
      [] o = "setat"  -> Rec(o, <<k>>, s, <<>>, [v EXCEPT ![k] = s])
      [] o = "dot"    -> IF Bounded(v, 100) THEN Obs(o, a, 0, Ints(<<Dot(v, a)>>)) ELSE Set(a)
      [] o = "eq"     -> Obs(o, a, 0, <<Bool(v = a), Bool(v # a)>>)
      [] o = "eqself" -> Obs("eq", [v EXCEPT ![k] = v[k] + 1], 0, <<Bool(FALSE), Bool(TRUE)>>)
      [] o = "eqsame" -> Obs("eq", v, 0, <<Bool(TRUE), Bool(FALSE)>>)
      [] o = "pyth"   -> \E b \in {RandomElement(Pyth(4))} : Rec("set", b, 0, <<>>, b)
      [] o = "normalize" -> LET l == IF Bounded(v, 60) THEN Sqrt(Norm2(v)) ELSE -1 IN
                         IF l > 0 THEN Obs(o, <<>>, 0, [i \in 1..4 |-> R(v[i], l)]) ELSE \E b \in {RandomElement(Pyth(4))} : Rec("set", b, 0, <<>>, b)
      \* the argument is divided by its norm before the call
      [] o = "asmatrix" -> Obs(o, u, Norm2(u), Ints(Flat(QMat(u))))
      \* ends and middle of the arc between two unit quaternions of the same integer norm; the shorter arc is taken
      [] o = "slerp0"   -> Obs(o, <<u, w>>, Norm2(u), Ints(u))
      [] o = "slerp1"   -> Obs(o, <<u, w>>, Norm2(u), Ints(w))
      [] o = "slerpmid" -> Obs(o, <<u, w>>, Norm2(u), Ints(VAdd(VScale(u, IF Dot(u, w) < 0 THEN -1 ELSE 1), w)))
      \* quaternions close to each other (or to each other's negation)
      [] o = "slerpnear" -> LET b == QMul(u, Twist(t, 1 + (k % 3)))   c == VScale(QMul(u, Twist(-t, 1 + (k % 3))), IF s < 2 THEN -1 ELSE 1) IN
                            Obs("slerpmid", <<b, c>>, Norm2(b), Ints(VAdd(VScale(b, IF Dot(b, c) < 0 THEN -1 ELSE 1), c)))
      \* a quarter of the way after another
      [] o = "slerpq"   -> LET p == Twist(3 + (t % 6), 1 + (k % 3))   p2 == QMul(p, p) IN
                            Obs(o, <<u, QMul(u, QMul(p2, p2)), <<k - 1>>>>, 0, Ints(QMul(u, IF k = 1 THEN <<0, 0, 0, 1>> ELSE IF k = 2 THEN p ELSE IF k = 3 THEN p2 ELSE QMul(p, p2))))
      [] o = "asmatrixn" -> IF Norm2(a) > 0 THEN Obs("asmatrix", a, Norm2(a), [i \in 1..9 |-> R(Flat(QMatN(a))[i], Norm2(a))]) ELSE Set(u)
      [] o = "sizes"    -> Obs(o, <<>>, 0, Ints(<<4, 4>>))
QuatOps == {"add", "addeq", "sub", "subeq", "muls", "muleqs", "divs", "diveqs", "chain", "neg", "pos", "set", "fromptr", "default", "setat", "dot",
            "eq", "eqself", "eqsame", "pyth", "normalize", "asmatrix", "slerp0", "slerp1", "slerpmid", "slerpnear", "slerpq", "asmatrixn", "sizes"}
QuatNext == \E o \in {RandomElement(QuatOps)} : \E a \in {RandVec(4)} : \E u \in {RandomElement(UnitsSeq)} : \E w \in {RandomElement({x \in UnitsSeq : Norm2(x) = Norm2(u)})} :
            \E s \in {RandomElement(Small(-1))} : \E k \in {RandomElement(1..4)} :
            \E t \in {RandomElement({3, 7, 20, 45, 50, 60, 63, 64, 71, 80, 120, 200})} : QuatStep(o, a, u, w, s, k, t)

Next == /\ Len(hist) < Depth
        /\ IF Kind = "quat" THEN QuatNext ELSE VecNext
Spec == Init /\ [][Next]_vars

TypeOK == InRange(v) /\ Len(v) \in 2..4
EmitLeaf == Len(hist) < Depth \/ PrintT("@@" \o ToJson([kind |-> Kind, t |-> ty.t, ops |-> hist, init |-> v0]))
=============================================================================
