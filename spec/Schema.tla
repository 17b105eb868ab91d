------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* Building glTF documents and loading them.                               *)
(* State: the document under construction (its element arrays, in order),  *)
(* the default scene, and the extras attached to elements.  A Load of a    *)
(* document is a function of the document, the enabled extensions X and    *)
(* the selected categories; its outcome is given by Gltf!Interp / Valid    *)
(* and the closure of the category selection below.                        *)
(***************************************************************************)
EXTENDS Document, Json
CONSTANTS Mode,      \* "single": one element, every variant;  "bad": one ill-typed element;  "multi": random documents;  "pairs": see AddPairs;  "root": see RootDocs
          Vary,      \* vary the enabled extensions
          Cats,      \* vary the selected categories
          Depth
VARIABLES doc, done
vars == <<doc, done>>

Pool == [t \in TopSet |-> Variants(Elem[t])]
BadPool == [t \in TopSet |-> Bads(Elem[t])]
XSets(d) == IF Vary THEN {Extensions, {}} \cup {{x} : x \in Used(d)} \cup {Extensions \ {x} : x \in Used(d)} ELSE {Extensions}
SomeCats == IF ~Cats THEN {Categories} ELSE IF Mode = "multi" THEN CatSets \cup {RandomElement(SUBSET Categories) : i \in 1..4} \cup {RandomElement(CatPairs) : i \in 1..10}
            ELSE CatSets
Outcomes(d) == SetToSeq({Outcome(d, X, S0, Closure(S0)) : X \in XSets(d), S0 \in SomeCats})
Report(d) == PrintT("@@" \o ToJson([doc |-> SelectSeq([i \in DOMAIN Tops |-> <<Tops[i], d[Tops[i]]>>], LAMBDA p : p[2] # <<>>), loads |-> Outcomes(d)]))

Init == doc = (IF Mode = "multi" THEN Doc0 ELSE NoVar) /\ done = ""
\* extras: any object; what an extras object contains has no meaning to the library, whatever its members are called
ExtrasPool(k) == CASE k % 5 = 0 -> O(<<>>)
                   [] k % 5 = 1 -> O(<<<<"extras", O(<<<<"id", N("7")>>>>)>>, <<"extensions", O(<<>>)>>, <<"name", A(<<S("@U"), NUL, B(FALSE), N("-1.5e-10")>>)>>>>)
                   [] k % 5 = 2 -> O(<<<<"@U", S("@U")>>, <<"bufferView", N("1")>>, <<"index", S("")>>>>)
                   [] OTHER -> O(<<<<"id", N(ToString(k))>>, <<"q", S("@U")>>>>)
WithExtras(v, k) == Put(v, "extras", ExtrasPool(k))
Total == FoldLeft(LAMBDA n, t : n + Len(doc[t]), 0, Tops)
\* documents with one element
Only(t, v) == [(IF t = "meshes" THEN Doc0 ELSE NoVar) EXCEPT ![t] = IF t = "variants" THEN <<v>> ELSE Append(@, v)]
\* documents with four elements, each with two optional properties or with one and extras
WithOne(t) == IF t \notin Categories THEN {} ELSE {WithExtras(v, 4) : v \in {x \in {SetF(Least(Elem[t]), f, PairVal(f, 1)) : f \in {g \in Range(FT[Elem[t]]) : Optional(g)}} : Valid(Elem[t], x, Extensions)}}
PairSeq == [t \in TopSet |-> IF t = "variants" THEN <<O(<<<<"name", S("@U")>>>>), O(<<<<"name", S("x")>>>>), O(<<<<"name", S("@U")>>>>)>> ELSE SetToSeq(Pairs(Elem[t]) \cup WithOne(t))]
Chunk(q, n) == SubSeq(q, n, IF n + 3 < Len(q) THEN n + 3 ELSE Len(q))
AddPairs == Mode = "pairs" /\ done \in TopSet /\ \E n \in {n \in 1..Len(PairSeq[done]) : n % 4 = 1} :
             doc' = [(IF done = "meshes" THEN Doc0 ELSE NoVar) EXCEPT ![done] = Chunk(PairSeq[done], n)] /\ done' = "end" /\ Report(doc')
\* documents whose root, asset or lists are ill-formed, next to an otherwise valid rest
Rests == {<<>>, <<<<"nodes", <<Least("node")>>>>, <<"scenes", <<Least("scene")>>>>, <<"lights", <<Least("light")>>>>, <<"shapes", <<Least("shape")>>>>>>}
RootDoc(rest, root, asset, ok) == [doc |-> rest, root |-> root, asset |-> asset, ok |-> ok]
Asset0 == O(<<<<"version", S("2.0")>>>>)
V(v, more) == O(<<<<"version", v>>>> \o more)
Scalars == {N("1"), N("0"), S("x"), S("nodes"), B(TRUE), B(FALSE), NUL}
BadAssets == {<<"absent">>, O(<<>>), A(<<>>), A(<<Asset0>>)} \cup Scalars \cup {V(v, <<>>) : v \in {N("2"), N("2.0"), NUL, B(TRUE), A(<<S("2.0")>>), O(<<>>), S(""), S("1.0"), S("3.0"), S("20.0"), S("12.0"), S("x2.0"), S(".2")}}
             \cup {V(S("2.0"), <<<<k, v>>>>) : k \in {"copyright", "generator"}, v \in {N("1"), NUL, A(<<S("x")>>), O(<<>>), B(FALSE)}}
             \cup {V(S("2.0"), <<<<"copyright", S("x")>>, <<"generator", v>>>>) : v \in {N("1"), NUL}} \cup {O(<<<<"generator", S("2.0")>>, <<"minVersion", S("2.0")>>>>)}
GoodAssets == {V(S(v), <<>>) : v \in {"2.0", "2.1", "2.15"}} \cup {V(S("2.0"), <<<<"copyright", S("@U")>>, <<"generator", S("")>>, <<"minVersion", S("2.0")>>, <<"extras", N("1")>>>>)}
RootDocs ==
  {RootDoc(r \o <<<<t, <<>>, v>>>>, <<>>, Asset0, FALSE) : r \in Rests, t \in TopSet \ {"nodes", "scenes", "lights", "shapes"}, v \in Scalars \cup {O(<<>>), O(<<<<"0", O(<<>>)>>>>)}}
  \cup {RootDoc(<<<<t, <<>>, v>>>>, <<>>, Asset0, FALSE) : t \in {"nodes", "scenes", "lights", "shapes"}, v \in Scalars \cup {O(<<>>)}}
  \cup {RootDoc(r, <<<<"scene", v>>>>, Asset0, FALSE) : r \in Rests, v \in Wrong("uint")}
  \cup {RootDoc(<<>>, <<<<"extensions", v>>>>, Asset0, FALSE) : v \in Scalars \cup {A(<<>>), A(<<O(<<>>)>>)}}
  \cup {RootDoc(<<>>, <<<<"extensions", O(<<<<x, O(<<>>)>>>>)>>>>, Asset0, FALSE) : x \in {"KHR_materials_variants", "KHR_implicit_shapes"}}
  \cup {RootDoc(r, <<<<k, v>>>>, Asset0, FALSE) : r \in Rests, k \in {"extensionsUsed", "extensionsRequired"}, v \in (Scalars \ {}) \cup {O(<<>>), A(<<N("1")>>), A(<<S("KHR_materials_unlit"), NUL>>), A(<<NUL, S("KHR_materials_unlit")>>), A(<<A(<<>>)>>)}}
  \cup {RootDoc(r, <<>>, a, FALSE) : r \in Rests, a \in BadAssets}
  \cup {RootDoc(r, <<>>, a, TRUE) : r \in Rests, a \in GoodAssets}
  \cup {RootDoc(r, <<<<k, v>>>>, Asset0, TRUE) : r \in Rests, k \in {"@U", "Nodes", "node", "extra", "asset2"}, v \in Scalars \cup {O(<<>>), A(<<>>), A(<<N("1")>>)}}
  \cup {RootDoc(r, <<<<"extras", v>>>>, Asset0, TRUE) : r \in Rests, v \in Scalars \cup {O(<<<<"nodes", N("1")>>>>), A(<<>>)}}
  \* a primitive mapped to a variant that does not exist
  \cup {RootDoc(<<<<"meshes", <<O(<<<<"primitives", A(<<PutExt(Least("prim"), "KHR_materials_variants", O(<<<<"mappings", A(m)>>>>))>>)>>>>)>>>>>> \o v, <<>>, Asset0, FALSE) :
          m \in {<<O(<<<<"material", N("0")>>, <<"variants", A(<<i>>)>>>>)>> : i \in NS({"2", "3", "255", "4294967296"})} \cup {<<O(<<<<"material", N("0")>>, <<"variants", NA(<<"0", "1">>)>>>>), O(<<<<"material", N("0")>>, <<"variants", NA(<<"1", "2">>)>>>>)>>},
          v \in {<<>>, <<<<"variants", <<Least("variant"), Least("variant")>>>>>>}}
RootStep == Mode = "root" /\ done = "" /\ \E d \in RootDocs : done' = "end" /\ doc' = doc /\ PrintT("@@" \o ToJson([doc |-> d.doc, root |-> d.root, asset |-> d.asset,
              loads |-> <<[x |-> <<"*">>, cats |-> SetToSeq(Categories), ok |-> d.ok, exp |-> <<>>, extras |-> <<>>, avail |-> <<>>]>>]))
PickTop == Mode \notin {"multi", "root"} /\ done = "" /\ \E t \in TopSet : done' = t /\ doc' = doc
AddOne == Mode \in {"single", "bad"} /\ done \in TopSet /\ \E v \in (IF Mode = "bad" THEN BadPool[done] ELSE Pool[done]) :
             doc' = Only(done, v) /\ done' = "end" /\ Report(doc')
\* random documents
AddRandom == /\ Mode = "multi" /\ Total < Depth
             /\ \E t \in TopSet \ {"variants"}, e \in {RandomElement({TRUE, FALSE, FALSE})} :
                 /\ Len(doc[t]) < 4
                 /\ LET v == RandomElement(Pool[t]) IN
                    doc' = [doc EXCEPT ![t] = Append(@, IF e /\ t \in Categories THEN WithExtras(v, Total) ELSE v)]
             /\ done' = done
Finish == Mode = "multi" /\ done = "" /\ Total = Depth /\ done' = "end" /\ doc' = doc /\ Report(doc)
Next == RootStep \/ PickTop \/ AddOne \/ AddPairs \/ AddRandom \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == \A t \in TopSet : Len(doc[t]) <= 4
\* every document built without ill-typed elements is accepted with every extension enabled
ValidDocs == Mode = "bad" \/ Accepts(doc, Extensions, Categories)
\* a category selection loads a restriction of what a full load gives
Restriction == Mode # "multi" \/ done # "end" \/ \A S0 \in CatSets : \A t \in TopSet :
     Loaded(doc, Extensions, Closure(S0))[t] \in {<<>>, Loaded(doc, Extensions, Categories)[t]}
=============================================================================
