---------------------------- MODULE MeshIndices -----------------------------
(***************************************************************************)
(* Index generation.  A document is built accessor by accessor and         *)
(* primitive by primitive; then the primitives are walked through and each *)
(* one without indices is given some.  What indices mean is the list of    *)
(* points, lines or triangles they describe (Assemble); generated ones     *)
(* have to describe what the primitive described without any.              *)
(*                                                                         *)
(* Mode "judge": index lists the implementation generated (as runs of      *)
(* consecutive numbers, in runs.json) are judged.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, MaxPrims

Topologies == {"POINTS", "LINES", "LINE_LOOP", "LINE_STRIP", "TRIANGLES", "TRIANGLE_STRIP", "TRIANGLE_FAN"}
\* number of primitives that n vertices make, and the k-th of them (0-based) as positions in the list of vertices
Number(t, n) == CASE t = "POINTS" -> n
                  [] t = "LINES" -> n \div 2
                  [] t = "LINE_LOOP" -> IF n < 2 THEN 0 ELSE n
                  [] t = "LINE_STRIP" -> IF n < 2 THEN 0 ELSE n - 1
                  [] t = "TRIANGLES" -> n \div 3
                  [] t \in {"TRIANGLE_STRIP", "TRIANGLE_FAN"} -> IF n < 3 THEN 0 ELSE n - 2
Item(t, n, k) == CASE t = "POINTS" -> <<k>>
                   [] t = "LINES" -> <<2 * k, 2 * k + 1>>
                   [] t = "LINE_LOOP" -> <<k, (k + 1) % n>>
                   [] t = "LINE_STRIP" -> <<k, k + 1>>
                   [] t = "TRIANGLES" -> <<3 * k, 3 * k + 1, 3 * k + 2>>
                   [] t = "TRIANGLE_STRIP" -> <<k, k + 1 + (k % 2), k + 2 - (k % 2)>>
                   [] t = "TRIANGLE_FAN" -> <<k + 1, k + 2, 0>>
\* ids: a function of 0-based positions.  A generated list describes the same as the m vertices in order
Same(t, m, n, ids(_)) == /\ Number(t, n) = Number(t, m)
                         /\ \A k \in 0..(Number(t, m) - 1) : \A c \in DOMAIN Item(t, n, k) : ids(Item(t, n, k)[c]) = Item(t, m, k)[c]
Limit(ct) == CASE ct = "u8" -> 255 [] ct = "u16" -> 65535 [] OTHER -> 2147483647

\* ---- judging ----
Items == IF Mode = "judge" THEN JsonDeserialize("runs.json") ELSE <<>>
RECURSIVE Total(_, _)
Total(runs, k) == IF k = 0 THEN 0 ELSE Total(runs, k - 1) + runs[k][2]
\* the element at position i of runs << <<first, length>>, ... >>
RECURSIVE InRun(_, _, _)
InRun(runs, k, i) == IF i < runs[k][2] THEN runs[k][1] + i ELSE InRun(runs, k + 1, i - runs[k][2])
Fine(x) == LET n == Total(x.runs, Len(x.runs)) ids(i) == InRun(x.runs, 1, i) IN
           /\ x.ct \in {"u8", "u16", "u32"}
           /\ \A k \in DOMAIN x.runs : x.runs[k][1] >= 0 /\ x.runs[k][1] + x.runs[k][2] <= x.n /\ x.runs[k][1] + x.runs[k][2] <= Limit(x.ct)
           /\ Same(x.mode, x.n, n, ids)

\* ---- documents ----
VARIABLES phase, accs, prims, todo, made
vars == <<phase, accs, prims, todo, made>>
R(S) == RandomElement(S)
\* around the boundaries of index widths, and around multiples of the vertices of a line or triangle
Counts == {1, 2, 3, 4, 5, 6, 7, 8, 253, 254, 255, 256, 257, 258, 65533, 65534, 65535, 65536, 65537, 70000}
Init == IF Mode = "judge" THEN phase \in {[p |-> "judge", i |-> i] : i \in DOMAIN Items} /\ accs = <<>> /\ prims = <<>> /\ todo = 0 /\ made = <<>>
        ELSE IF Mode = "single" THEN \* every topology with every count, the primitive among others
             /\ phase = [p |-> "build"] /\ todo = 0 /\ made = <<>>
             /\ \E c \in Counts : accs = <<[count |-> c, base |-> c < 1000]>>
             /\ \E t \in Topologies : prims = <<[mesh |-> 1, mode |-> t, pos |-> 1, idx |-> FALSE, before |-> 0, after |-> 0]>>
        ELSE phase = [p |-> "build"] /\ accs = <<>> /\ prims = <<>> /\ todo = 0 /\ made = <<>>
AddPrim == /\ phase.p = "build" /\ Mode = "any" /\ Len(prims) < MaxPrims
           /\ \E new \in {accs = <<>> \/ R(1..3) # 1} : \E c \in {R(IF R(1..8) = 1 THEN Counts ELSE {n \in Counts : n < 1000})} : \E a \in {R(DOMAIN accs \cup {1})} :
              \E t \in {R(Topologies)} : \E m \in {IF prims = <<>> THEN 1 ELSE prims[Len(prims)].mesh + R({0, 0, 1})} : \E i \in {R(1..3) = 1} :
              \E b \in {R({0, 0, 1})} : \E f \in {R({0, 0, 1, 2})} :
              /\ accs' = IF new THEN Append(accs, [count |-> c, base |-> c < 1000 /\ R(1..2) = 1]) ELSE accs
              /\ prims' = Append(prims, [mesh |-> m, mode |-> t, pos |-> IF new THEN Len(accs) + 1 ELSE a, idx |-> i, before |-> b, after |-> f])
           /\ UNCHANGED <<phase, todo, made>>
Load == /\ phase.p = "build" /\ (Mode = "single" \/ Len(prims) = MaxPrims \/ R(1..4) = 1) /\ prims # <<>>
        /\ phase' = [p |-> "generate"] /\ todo' = 1 /\ UNCHANGED <<accs, prims, made>>
Generate == /\ phase.p = "generate" /\ todo <= Len(prims)
            /\ made' = IF prims[todo].idx THEN made ELSE Append(made, [prim |-> todo, n |-> accs[prims[todo].pos].count, mode |-> prims[todo].mode])
            /\ todo' = todo + 1 /\ UNCHANGED <<phase, accs, prims>>
Next == (IF phase.p = "build" /\ Mode = "any" /\ prims # <<>> /\ Len(prims) < MaxPrims THEN \E x \in {R({1, 2, 2})} : IF x = 1 THEN phase' = [p |-> "generate"] /\ todo' = 1 /\ UNCHANGED <<accs, prims, made>> ELSE AddPrim
         ELSE AddPrim \/ Load) \/ Generate
Spec == Init /\ [][Next]_vars

Done == phase.p = "generate" /\ todo > Len(prims)
\* vertices in order describe themselves; so does no other list of the same length for a list of points
Identity == phase.p # "generate" \/ todo > Len(prims) \/ accs[prims[todo].pos].count > 300 \/
            LET n == accs[prims[todo].pos].count  id(i) == i IN Same(prims[todo].mode, n, n, id)
AllMade == Done => {made[k].prim : k \in DOMAIN made} = {k \in DOMAIN prims : ~prims[k].idx}
Verdict == [i |-> phase.i, ok |-> Fine(Items[phase.i])]
Emit == IF phase.p = "judge" THEN PrintT("@@" \o ToJson(Verdict))
        ELSE ~Done \/ PrintT("@@" \o ToJson([accs |-> accs, prims |-> prims, made |-> made]))
=============================================================================
