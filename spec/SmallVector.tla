---------------------------- MODULE SmallVector ----------------------------
(***************************************************************************)
(* fastgltf::SmallVector<T, N> as a pair of sequences a and b under every  *)
(* operation of the class.  `rep`/`cap` follow the representation (inline  *)
(* storage or heap, capacity) so that every transition between             *)
(* representations is exercised; the property constrains only contents,    *)
(* element lifetimes and memory (exp: contents of both vectors, number of  *)
(* live elements, number of lifetime errors).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N,          \* inline capacity
          MaxSize,    \* bound on the length of each vector
          Depth, EmitAll

Objs == {"a", "b"}
Other(x) == IF x = "a" THEN "b" ELSE "a"
VARIABLES c,      \* contents: [Objs -> Seq(Int)]
          cap,    \* capacity of each vector
          heap,   \* representation of each vector
          hist
vars == <<c, cap, heap, hist>>

Fresh == Len(hist) + 1
RECURSIVE Pow2(_, _)
Pow2(p, n) == IF p > n THEN p ELSE Pow2(2 * p, n)
\* reserve: stays inline while it fits, else grows to the next power of two above n
RCap(x, n) == IF n <= cap[x] THEN cap[x] ELSE IF n <= N /\ ~heap[x] THEN n ELSE Pow2(1, n)
RHeap(x, n) == heap[x] \/ n > N
Fill(n, v) == [i \in 1..n |-> v]
Grow(s, n, v) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Fill(n - Len(s), v)

Init == /\ c = [x \in Objs |-> <<>>] /\ cap = [x \in Objs |-> N] /\ heap = [x \in Objs |-> FALSE]
        /\ hist = <<>>

\* nc, ncap, nheap: the new state; ret: what the call returns
Rec(op, x, n, v, ret, nc, ncap, nheap) ==
    /\ Len(hist) < Depth
    /\ \A y \in Objs : Len(nc[y]) <= MaxSize
    /\ c' = nc /\ cap' = ncap /\ heap' = nheap
    /\ hist' = Append(hist, [op |-> op, x |-> x, n |-> n, v |-> v,
                 exp |-> [a |-> nc["a"], b |-> nc["b"], ret |-> ret, live |-> Len(nc["a"]) + Len(nc["b"]), err |-> 0]])

Same(op, x, n, ret) == Rec(op, x, n, 0, ret, c, cap, heap)
\* content of x becomes s; storage grows as reserve(Len(s)) does
Put(op, x, n, v, s) == Rec(op, x, n, v, <<>>, [c EXCEPT ![x] = s],
                           [cap EXCEPT ![x] = RCap(x, Len(s))], [heap EXCEPT ![x] = RHeap(x, Len(s))])
\* x is destroyed and constructed anew with content s
Renew(op, x, n, v, s) == Rec(op, x, n, v, <<>>, [c EXCEPT ![x] = s],
                             [cap EXCEPT ![x] = IF Len(s) <= N THEN N ELSE Pow2(1, Len(s))], [heap EXCEPT ![x] = Len(s) > N])

Push       == \E x \in Objs : Put("push", x, 0, Fresh, Append(c[x], Fresh))
PushSelf   == \E x \in Objs, f \in {"front", "back"} : c[x] # <<>> /\
                 Put("push" \o f, x, 0, 0, Append(c[x], IF f = "front" THEN c[x][1] ELSE c[x][Len(c[x])]))
Resize     == \E x \in Objs, n \in 0..MaxSize : Put("resize", x, n, 0, Grow(c[x], n, 0))
ResizeVal  == \E x \in Objs, n \in 0..MaxSize : Put("resizev", x, n, Fresh, Grow(c[x], n, Fresh))
ResizeSelf == \E x \in Objs, n \in 0..MaxSize : c[x] # <<>> /\ Put("resizeself", x, n, 0, Grow(c[x], n, c[x][1]))
Reserve    == \E x \in Objs, n \in 0..(MaxSize + 2) :
                 Rec("reserve", x, n, 0, <<>>, c, [cap EXCEPT ![x] = RCap(x, n)], [heap EXCEPT ![x] = RHeap(x, n)])
Shrink     == \E x \in Objs :
                 Rec("shrink", x, 0, 0, <<>>, c,
                     [cap EXCEPT ![x] = IF c[x] = <<>> THEN @ ELSE IF Len(c[x]) <= N THEN N ELSE Len(c[x])],
                     [heap EXCEPT ![x] = @ /\ (c[x] = <<>> \/ Len(c[x]) > N)])
Clear      == \E x \in Objs :
                 Rec("clear", x, 0, 0, <<>>, [c EXCEPT ![x] = <<>>],
                     [cap EXCEPT ![x] = IF c[x] = <<>> \/ ~heap[x] THEN @ ELSE N], [heap EXCEPT ![x] = @ /\ c[x] = <<>>])
AssignN    == \E x \in Objs, n \in 0..MaxSize : Put("assign", x, n, Fresh, Fill(n, Fresh))
AssignList == \E x \in Objs, n \in 0..4 : Put("assignl", x, n, Fresh, [i \in 1..n |-> Fresh + i])
CopyAssign == \E x \in Objs : Put("copyassign", x, 0, 0, c[Other(x)])
MoveAssign == \E x \in Objs :
                 LET y == Other(x) IN
                 Rec("moveassign", x, 0, 0, <<>>, [c EXCEPT ![x] = c[y], ![y] = <<>>],
                     IF heap[y] THEN [cap EXCEPT ![x] = cap[y], ![y] = N] ELSE cap,
                     IF heap[y] THEN [heap EXCEPT ![x] = TRUE, ![y] = FALSE] ELSE heap)
CopyCtor   == \E x \in Objs : Renew("copyctor", x, 0, 0, c[Other(x)])
MoveCtor   == \E x \in Objs :
                 LET y == Other(x) IN
                 Rec("movector", x, 0, 0, <<>>, [c EXCEPT ![x] = c[y], ![y] = <<>>],
                     IF heap[y] THEN [cap EXCEPT ![x] = cap[y], ![y] = N] ELSE [cap EXCEPT ![x] = N],
                     IF heap[y] THEN [heap EXCEPT ![x] = TRUE, ![y] = FALSE] ELSE [heap EXCEPT ![x] = FALSE])
Swap       == Rec("swap", "a", 0, 0, <<>>, [a |-> c["b"], b |-> c["a"]], [a |-> cap["b"], b |-> cap["a"]], [a |-> heap["b"], b |-> heap["a"]])
Construct  == \E x \in Objs : \/ Renew("ctor", x, 0, 0, <<>>)
                              \/ \E n \in 0..MaxSize : Renew("ctorn", x, n, 0, Fill(n, 0)) \/ Renew("ctornv", x, n, Fresh, Fill(n, Fresh))
                              \/ \E n \in 0..4 : Renew("ctorl", x, n, Fresh, [i \in 1..n |-> Fresh + i])
SelfAssign == \E x \in Objs : Same("selfassign", x, 0, <<>>)
SetElem    == \E x \in Objs, i \in 1..MaxSize, o \in {"set", "setat"} : i <= Len(c[x]) /\ Rec(o, x, i, Fresh, <<>>, [c EXCEPT ![x][i] = Fresh], cap, heap)
Throwing   == \E x \in Objs, i \in {1, 2, 1000} : Same("at", x, Len(c[x]) + i, <<-1>>)
Read       == \E x \in Objs : Same("read", x, 0, IF c[x] = <<>> THEN <<1, 0>> ELSE <<0, Len(c[x]), c[x][1], c[x][Len(c[x])]>>)
Reverse    == \E x \in Objs : Same("reverse", x, 0, [i \in DOMAIN c[x] |-> c[x][Len(c[x]) + 1 - i]])

Next == \/ Push \/ PushSelf \/ Resize \/ ResizeVal \/ ResizeSelf \/ Reserve \/ Shrink \/ Clear \/ AssignN \/ AssignList
        \/ CopyAssign \/ MoveAssign \/ CopyCtor \/ MoveCtor \/ Swap \/ Construct \/ SelfAssign \/ SetElem \/ Throwing \/ Read \/ Reverse
Spec == Init /\ [][Next]_vars

\* the capacity always covers the content, and inline vectors never exceed N
CapOK == \A x \in Objs : Len(c[x]) <= cap[x] /\ (~heap[x] => cap[x] <= N)
\* an operation on one vector leaves the other alone unless it moves or swaps
Frame == [][LET o == hist'[Len(hist')] IN o.op \notin {"moveassign", "movector", "swap"} => c'[Other(o.x)] = c[Other(o.x)]]_vars
\* shape of the state: what distinguishes code paths
View == <<[x \in Objs |-> Len(c[x])], cap, heap>>
Bound == \A x \in Objs : cap[x] <= 2 * MaxSize + 2
Emit == ~EmitAll \/ PrintT("@@" \o ToJson([ops |-> hist']))
EmitLeaf == (EmitAll \/ Len(hist) < Depth) \/ PrintT("@@" \o ToJson([ops |-> hist]))
=============================================================================
