------------------------------ MODULE Accessor ------------------------------
(***************************************************************************)
(* Construction of an accessor, step by step: its format and the type it   *)
(* is read as, its layout (views, offsets, stride, count, base or none),   *)
(* the content, the sparse entries; then it is read.                       *)
(*   Mode "dense":  no sparse entries                                      *)
(*   Mode "sparse": with them; Mode "subsets": every subset of the indices *)
(*                  of a small accessor                                    *)
(*   Mode "wide":   many elements, listed indices with equal low bytes     *)
(*   Mode "huge":   without base view, listed indices around the limits of *)
(*                  the index types; only some elements are probed       *)
(*   Mode "iter":   a sparse or dense accessor and a history of iterators  *)
(***************************************************************************)
EXTENDS AccessorData, Json

CONSTANTS Mode, Reps, Depth

VARIABLES phase, f, mem, views, elems, sp, its, ops
vars == <<phase, f, mem, views, elems, sp, its, ops>>
R(S) == RandomElement(S)

Shapes(t, dt) == {"agg"} \cup (IF ~IsMat(t) \/ dt = "f32" THEN {"std"} ELSE {}) \cup (IF IsMat(t) /\ dt \in {"f32", "s16"} THEN {"row"} ELSE {})
                 \cup (IF t = "VEC4" /\ dt \in {"f32", "f64"} THEN {"quat"} ELSE {})
                 \cup (IF dt \in {"f32", "u16"} THEN {"obj"} ELSE {})      \* a class of the user that is no plain data
\* normalisation is for small integers; what it means for another integer type is left open
Norms(ct, dt) == IF ct \in {"s8", "u8", "s16", "u16"} /\ (dt \in {"f32", "f64"} \/ dt = ct) THEN BOOLEAN ELSE {FALSE}
Formats == UNION {UNION {{[t |-> t, ct |-> ct, dt |-> dt, shape |-> s, norm |-> n] : s \in Shapes(t, dt), n \in Norms(ct, dt)} : t \in Types} : ct \in CTypes, dt \in CTypes}
Few == {x \in Formats : (Mode # "huge" \/ ~IsMat(x.t)) /\ x.shape \in {"std", "quat"} /\ <<x.t, x.ct, x.dt>> \in {<<"SCALAR", "u16", "u32">>, <<"VEC3", "f32", "f32">>, <<"VEC2", "s8", "f32">>, <<"MAT3", "u8", "f32">>,
                            <<"VEC4", "f32", "f32">>, <<"VEC4", "u16", "u16">>, <<"SCALAR", "f64", "f64">>, <<"MAT2", "f32", "f32">>}}

NoSparse == [on |-> FALSE]
Init == /\ phase = [p |-> "layout"]
        /\ f \in {[fmt |-> x, rep |-> r] : x \in IF Mode \in {"dense", "sparse"} THEN Formats ELSE Few, r \in 1..Reps}
        /\ mem = <<>> /\ views = <<>> /\ elems = <<>> /\ sp = NoSparse /\ its = <<>> /\ ops = <<>>
Fmt == f.fmt
ES == ElemSize(Fmt.t, Fmt.ct)
RandElem == [c \in 1..Comps(Fmt.t) |-> R(Values(Fmt.ct))]
RandElems(n) == [i \in 1..n |-> RandElem]

\* ---- layout: base view, offsets, stride, count ----
Counts == IF Mode = "huge" THEN {129, 256, 257, 32769, 65536, 65537, 70001} ELSE IF Mode = "wide" THEN {300, 520} ELSE IF Mode = "subsets" THEN {4} ELSE IF Mode = "iter" THEN {3, 4, 5} ELSE 1..6
Layout == /\ phase.p = "layout"
          /\ \E n \in {R(Counts)} : \E vo \in {4 * R(0..3)} : \E ao \in {R({0, 0, Size(Fmt.ct), 4 * Size(Fmt.ct)})} :
             \E st \in {R({0, 0, Up4(ES), Up4(ES) + 4, Up4(ES) + 12, 252})} : \E tail \in {R({0, 0, 4, 7})} : \E base \in {IF Mode = "huge" THEN 1 ELSE R(IF Mode = "dense" THEN 1..8 ELSE 1..3)} : \E slack \in {R({0, 0, 5})} :
             LET stride == IF st = 0 \/ st < ES THEN ES ELSE st
                 len == ao + (n - 1) * stride + ES IN
             /\ phase' = [p |-> "fill", n |-> n, ao |-> IF base > 1 THEN ao ELSE 0, base |-> base > 1, stride |-> stride]
             /\ views' = IF base > 1 THEN <<[off |-> vo, len |-> len + slack, stride |-> IF st = 0 \/ st < ES THEN 0 ELSE st]>> ELSE <<>>
             /\ mem' = IF base > 1 THEN Poison(vo + len + slack + tail) ELSE Poison(tail)
          /\ UNCHANGED <<f, elems, sp, its, ops>>
Fill == /\ phase.p = "fill"
        /\ \E e \in {RandElems(IF phase.base THEN phase.n ELSE 0)} :
           /\ elems' = e
           /\ \E b \in {[i \in DOMAIN e |-> Element(Fmt.t, Fmt.ct, e[i])]} : mem' = IF e = <<>> THEN mem ELSE Spread(mem, views[1].off + phase.ao, phase.stride, b)
        /\ phase' = [phase EXCEPT !.p = IF Mode = "dense" \/ (Mode = "iter" /\ f.rep % 3 = 0) THEN "read" ELSE "sparse"]
        /\ UNCHANGED <<f, views, sp, its, ops>>
\* ---- sparse: two more views behind the memory ----
\* j-th smallest
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
Limits == {0, 1, 126, 127, 128, 129, 200, 254, 255, 256, 32766, 32767, 32768, 32769, 50000, 65534, 65535, 65536, 65537, 70000}
Pick(n) == IF Mode = "huge" THEN LET L == {x \in Limits : x < n} IN R({{x \in L : R(1..3) # 1} \cup {n - 1}})
           ELSE IF Mode = "wide" THEN R({S \cup {n - 1} : S \in SUBSET {3, 44, 100, 259, 263}}) ELSE R((SUBSET (0..(n - 1))) \ {{}})
Sparse == /\ phase.p = "sparse"
          /\ \E S \in IF Mode = "subsets" THEN SUBSET (0..(phase.n - 1)) ELSE {Pick(phase.n)} :
             \E ict \in IF Mode \in {"subsets"} THEN {"u8", "u16", "u32"} ELSE {R({"u8", "u16", "u32"})} :
             \E io \in {R({0, 0, 4, 8})} : \E vo \in {R({0, 0, 8})} : \E gap \in {4 * R(0..2)} : \E tail \in {R({0, 0, 3})} : \E sl \in {R({0, 0, 4})} :
             LET list == Sorted({x \in S : (ict # "u8" \/ x < 256) /\ (ict # "u16" \/ x < 65536)})
                 ok == list # <<>> \/ S = {}
                 start == Up4(Len(mem)) + gap
                 ilen == io + Len(list) * Size(ict) + sl
                 vstart == ((start + ilen + 7) \div 8) * 8
                 vlen == vo + Len(list) * ES + sl
                 base == mem \o Poison(vstart + vlen + tail - Len(mem)) IN
             \E e \in {RandElems(Len(list))} :
             /\ sp' = [on |-> TRUE, list |-> list, vals |-> e, ict |-> ict, io |-> io, vo |-> vo]
             /\ views' = views \o <<[off |-> start, len |-> ilen, stride |-> 0], [off |-> vstart, len |-> vlen, stride |-> 0]>>
             /\ mem' = Spread(Spread(base, start + io, Size(ict), [j \in DOMAIN list |-> IntBytes(P(list[j]), Size(ict))]), vstart + vo, ES, [j \in DOMAIN list |-> Element(Fmt.t, Fmt.ct, e[j])])
             /\ phase' = [phase EXCEPT !.p = IF ok THEN "read" ELSE "dead"]
          /\ UNCHANGED <<f, elems, its, ops>>

Acc == [t |-> Fmt.t, ct |-> Fmt.ct, norm |-> Fmt.norm, count |-> phase.n, off |-> phase.ao, base |-> IF phase.base THEN <<1>> ELSE <<>>,
        sparse |-> IF ~sp.on THEN <<>> ELSE <<[n |-> Len(sp.list), ict |-> sp.ict, iv |-> Len(views) - 1, ioff |-> sp.io, vv |-> Len(views), voff |-> sp.vo]>>]
Read0(i) == ElementAt(mem, Acc, views, i, Fmt.dt, Fmt.shape)
All == [i \in 1..phase.n |-> Read0(i - 1)]
Probes == IF Mode # "huge" THEN <<>> ELSE Sorted({i \in UNION {{x - 1, x, x + 1} : x \in Limits} \cup {phase.n - 2, phase.n - 1} : i >= 0 /\ i < phase.n})

\* the bytes that were laid out decode to what was put in
RoundTrip == phase.p # "read" \/ \A i \in 1..(IF Mode \in {"wide", "huge"} THEN 6 ELSE phase.n) :
    LET hit == {j \in DOMAIN IF sp.on THEN sp.list ELSE <<>> : sp.list[j] = i - 1}
        want == IF hit # {} THEN sp.vals[CHOOSE j \in hit : TRUE] ELSE IF phase.base THEN elems[i] ELSE <<>> IN
    want = <<>> \/ \A c \in 1..Comps(Fmt.t) : Read0(i - 1)[c] = Convert(Decode(want[Order(Fmt.t, Fmt.shape, c)], Fmt.ct), Fmt.ct, Fmt.norm, Fmt.dt)
InMemory == phase.p # "read" \/ \A k \in DOMAIN views : views[k].off + views[k].len <= Len(mem)

\* ---- iterator histories: two iterators, positions 0..count ----
Rec(o, x, ret, nits) == /\ its' = nits /\ ops' = Append(ops, [op |-> o, x |-> x, exp |-> [ret |-> ret]])
B(c) == IF c THEN <<<<0, 1, 1>>>> ELSE <<<<0, 0, 1>>>>
IterStep(o, x) ==
    LET y == 3 - x   n == phase.n IN
    CASE o = "begin" -> Rec(o, x, <<>>, [its EXCEPT ![x] = 0])
      [] o = "end"   -> Rec(o, x, <<>>, [its EXCEPT ![x] = n])
      [] o \in {"pre", "preread"} -> IF its[x] >= n THEN Rec("begin", x, <<>>, [its EXCEPT ![x] = 0])
                        ELSE IF o = "preread" /\ its[x] + 1 < n THEN Rec(o, x, Read0(its[x] + 1), [its EXCEPT ![x] = @ + 1])
                        ELSE Rec("pre", x, <<>>, [its EXCEPT ![x] = @ + 1])
      [] o = "post"  -> IF its[x] >= n THEN Rec("begin", x, <<>>, [its EXCEPT ![x] = 0]) ELSE Rec(o, x, Read0(its[x]), [its EXCEPT ![x] = @ + 1])
      [] o \in {"deref", "deref2"} -> IF its[x] >= n THEN Rec("begin", x, <<>>, [its EXCEPT ![x] = 0]) ELSE Rec("deref", x, Read0(its[x]), its)
      [] o = "copy"  -> Rec(o, x, <<>>, [its EXCEPT ![x] = its[y]])
      [] o = "copyctor" -> IF its[x] >= n THEN Rec("copy", x, <<>>, [its EXCEPT ![x] = its[y]]) ELSE Rec(o, x, Read0(its[x]), its)
      [] o = "eq"    -> Rec(o, x, B(its[x] = its[y]) \o B(its[x] # its[y]), its)
      [] o = "dist"  -> Rec(o, x, <<(IF its[x] >= its[y] THEN P(its[x] - its[y]) ELSE P(its[x] - its[y])) \o <<1>>>>, its)
      [] o = "stddist" -> IF its[x] <= its[y] THEN Rec(o, x, <<P(its[y] - its[x]) \o <<1>>>>, its) ELSE Rec("copy", x, <<>>, [its EXCEPT ![x] = its[y]])
IterOps == {"begin", "end", "pre", "preread", "post", "deref", "deref2", "copy", "copyctor", "eq", "dist", "stddist"}
Start == /\ phase.p = "read" /\ Mode = "iter" /\ its = <<>>
         /\ its' = <<0, 0>> /\ UNCHANGED <<phase, f, mem, views, elems, sp, ops>>
Iter == /\ phase.p = "read" /\ Mode = "iter" /\ its # <<>> /\ Len(ops) < Depth
        /\ \E o \in {R(IterOps)} : \E x \in {R(1..2)} : IterStep(o, x)
        /\ UNCHANGED <<phase, f, mem, views, elems, sp>>

Next == Layout \/ Fill \/ Sparse \/ Start \/ Iter
Spec == Init /\ [][Next]_vars
Done == phase.p = "read" /\ (Mode # "iter" \/ Len(ops) = Depth)
Emit == ~Done \/ PrintT("@@" \o ToJson([fmt |-> Fmt, acc |-> Acc, views |-> views, mem |-> mem, ops |-> ops, probe |-> Probes, exp |-> IF Mode = "huge" THEN [k \in DOMAIN Probes |-> Read0(Probes[k])] ELSE All]))
=============================================================================
