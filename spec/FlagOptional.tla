---------------------------- MODULE FlagOptional ----------------------------
(***************************************************************************)
(* The compact optional (fastgltf::OptionalWithFlagValue) specified as the *)
(* standard optional: two objects a and b, each empty or holding one of an *)
(* ordered set of values (the reserved flag is not among them).  Every     *)
(* public operation is an action; `hist` records the calls together with   *)
(* the result and the state the operation must leave behind.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxVal,      \* values are 0..MaxVal
          Depth,       \* maximal length of a behaviour
          EmitAll      \* TRUE: emit one behaviour per transition, FALSE: only complete ones

NONE == -1
Vals == 0..MaxVal
VARIABLES st, hist
vars == <<st, hist>>
Objs == {"a", "b"}
Other(x) == IF x = "a" THEN "b" ELSE "a"

TypeOK == st \in [Objs -> Vals \cup {NONE}]

Init == st = [x \in Objs |-> NONE] /\ hist = <<>>

\* one call: operation, object, argument; ret is the result as a sequence of numbers
Rec(op, x, v, ret, new) ==
    /\ Len(hist) < Depth
    /\ st' = new
    /\ hist' = Append(hist, [op |-> op, x |-> x, v |-> v,
                             exp |-> [ret |-> ret, a |-> new["a"], b |-> new["b"]]])
Put(x, v) == [st EXCEPT ![x] = v]
B(c) == IF c THEN <<1>> ELSE <<0>>
Has(x) == st[x] # NONE
\* the functions passed to the monadic operations
FAnd(v) == IF v = 0 THEN NONE ELSE v - 1
FTr(v) == MaxVal - v

Assign    == \E x \in Objs, v \in Vals, o \in {"set", "setlv", "emplace", "inplace", "ctor"} : Rec(o, x, v, <<v>>, Put(x, v))
Clear     == \E x \in Objs, o \in {"reset", "null", "ctornull", "ctordef"} : Rec(o, x, 0, <<>>, Put(x, NONE))
CopyTo    == \E x \in Objs, o \in {"copyassign", "copyassignc", "moveassign", "copyctor", "movector"} :
                 Rec(o, x, 0, <<>>, Put(x, st[Other(x)]))
Self      == \E x \in Objs, o \in {"selfassign", "selfswap"} : Rec(o, x, 0, <<>>, st)
Swap      == \E x \in Objs : Rec("swap", x, 0, <<>>, [a |-> st["b"], b |-> st["a"]])
Query     == \E x \in Objs, o \in {"bool", "has", "tostd", "tostdmove"} :
                 Rec(o, x, 0, IF o \in {"bool", "has"} THEN B(Has(x)) ELSE <<st[x]>>, st)
Value     == \E x \in Objs, o \in {"value", "valuec", "valuem"} : Rec(o, x, 0, IF Has(x) THEN <<st[x]>> ELSE <<-2>>, st)
Deref     == \E x \in Objs, o \in {"deref", "derefc", "derefm"} : Has(x) /\ Rec(o, x, 0, <<st[x]>>, st)
Modify    == \E x \in Objs, v \in Vals : Has(x) /\ Rec("modify", x, v, <<v>>, Put(x, v))
ValueOr   == \E x \in Objs, v \in Vals, o \in {"valueor", "valueorm"} :
                 Rec(o, x, v, <<IF Has(x) THEN st[x] ELSE v>>, st)
AndThen   == \E x \in Objs, o \in {"andthen", "andthenc", "andthenm", "andthencm"} :
                 Rec(o, x, 0, <<IF Has(x) THEN FAnd(st[x]) ELSE NONE>>, st)
Transform == \E x \in Objs, o \in {"transform", "transformc", "transformm", "transformcm"} :
                 Rec(o, x, 0, <<IF Has(x) THEN FTr(st[x]) ELSE NONE>>, st)
OrElse    == \E x \in Objs, v \in Vals \cup {NONE}, o \in {"orelse", "orelsem"} :
                 Rec(o, x, v, <<IF Has(x) THEN st[x] ELSE v>>, st)
CmpOpt    == \E x \in Objs : Rec("cmpopt", x, 0, B(st[x] = st[Other(x)]) \o B(st[x] # st[Other(x)]), st)
\* an empty optional is less than every value
CmpVal    == \E x \in Objs, v \in Vals :
                 Rec("cmpval", x, v, B(st[x] = v) \o B(st[x] # v) \o B(st[x] < v) \o B(st[x] <= v) \o B(st[x] > v) \o B(st[x] >= v), st)

Next == \/ Assign \/ Clear \/ CopyTo \/ Self \/ Swap \/ Query \/ Value \/ Deref \/ Modify
        \/ ValueOr \/ AndThen \/ Transform \/ OrElse \/ CmpOpt \/ CmpVal
Spec == Init /\ [][Next]_vars

\* Two optionals never influence each other except through copy, move and swap.
Independent == [][\A x \in Objs : st'[x] # st[x] =>
                     LET c == hist'[Len(hist')] IN c.x = x \/ c.op = "swap"]_vars
\* what an operation reports agrees with the state it leaves
HistOK == \A i \in DOMAIN hist : hist[i].op \in {"set", "emplace"} => hist[i].exp[hist[i].x] = hist[i].v

View == st
Emit == ~EmitAll \/ PrintT("@@" \o ToJson([ops |-> hist']))
EmitLeaf == (EmitAll \/ Len(hist) < Depth) \/ PrintT("@@" \o ToJson([ops |-> hist]))
=============================================================================
