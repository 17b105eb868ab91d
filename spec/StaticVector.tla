---------------------------- MODULE StaticVector ----------------------------
(* fastgltf::StaticVector<T>: a pair of fixed-size sequences under every operation. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxSize, Depth, EmitAll
Objs == {"a", "b"}
Other(x) == IF x = "a" THEN "b" ELSE "a"
VARIABLES c, hist
vars == <<c, hist>>
Fresh == Len(hist) + 1
Init == c = [x \in Objs |-> <<>>] /\ hist = <<>>
Rec(op, x, n, v, ret, nc) ==
    /\ Len(hist) < Depth
    /\ c' = nc
    /\ hist' = Append(hist, [op |-> op, x |-> x, n |-> n, v |-> v, exp |-> [a |-> nc["a"], b |-> nc["b"], ret |-> ret, err |-> 0]])
Put(op, x, n, v, s) == Rec(op, x, n, v, <<>>, [c EXCEPT ![x] = s])
B(p) == IF p THEN 1 ELSE 0
Construct == \E x \in Objs, n \in 0..MaxSize : \/ Put("ctorn", x, n, 0, [i \in 1..n |-> 0])
                                               \/ Put("ctornv", x, n, Fresh, [i \in 1..n |-> Fresh])
                                               \/ Put("fromvec", x, n, Fresh, [i \in 1..n |-> Fresh + i])
                                               \/ Put("fromvec", x, n, 0, [i \in 1..n |-> i])
Copy      == \E x \in Objs : Put("copyctor", x, 0, 0, c[Other(x)])
Move      == \E x \in Objs, o \in {"movector", "moveassign"} : Rec(o, x, 0, 0, <<>>, [c EXCEPT ![x] = c[Other(x)], ![Other(x)] = <<>>])
SetElem   == \E x \in Objs, i \in 1..MaxSize, v \in {Fresh, 0} : i <= Len(c[x]) /\ Put("set", x, i, v, [c[x] EXCEPT ![i] = v])
Eq        == \E x \in Objs : Rec("eq", x, 0, 0, <<B(c["a"] = c["b"]), B(c["a"] = c["b"])>>, c)
Read      == \E x \in Objs : Rec("read", x, 0, 0, <<B(c[x] = <<>>), Len(c[x]), 1, Len(c[x])>>, c)
Next == Construct \/ Copy \/ Move \/ SetElem \/ Eq \/ Read
Spec == Init /\ [][Next]_vars
Bounded == \A x \in Objs : Len(c[x]) <= MaxSize
\* the state shape: sizes, equality, and where the vectors first differ
View == <<Len(c["a"]), Len(c["b"]), {i \in 1..MaxSize : i <= Len(c["a"]) /\ i <= Len(c["b"]) /\ c["a"][i] # c["b"][i]}>>
Emit == ~EmitAll \/ PrintT("@@" \o ToJson([ops |-> hist']))
EmitLeaf == (EmitAll \/ Len(hist) < Depth) \/ PrintT("@@" \o ToJson([ops |-> hist]))
=============================================================================
