------------------------------ MODULE Document ------------------------------
(***************************************************************************)
(* Whole documents: the root arrays, which extension and category each     *)
(* belongs to, what a category depends on, and what loading a document     *)
(* with enabled extensions X and selected categories C yields.             *)
(***************************************************************************)
EXTENDS Gltf
Tops == <<"accessors", "animations", "buffers", "bufferViews", "cameras", "images", "materials", "meshes", "nodes", "samplers", "scenes",
          "skins", "textures", "lights", "variants", "shapes", "physicsMaterials", "collisionFilters", "physicsJoints">>
TopSet == Range(Tops)
Elem == [t \in TopSet |-> CASE t = "accessors" -> "accessor" [] t = "animations" -> "animation" [] t = "buffers" -> "buffer" [] t = "bufferViews" -> "bufferView"
   [] t = "cameras" -> "camera" [] t = "images" -> "image" [] t = "materials" -> "material" [] t = "meshes" -> "mesh" [] t = "nodes" -> "node"
   [] t = "samplers" -> "sampler" [] t = "scenes" -> "scene" [] t = "skins" -> "skin" [] t = "textures" -> "texture" [] t = "lights" -> "light"
   [] t = "variants" -> "variant" [] t = "shapes" -> "shape" [] t = "physicsMaterials" -> "physicsMaterial" [] t = "collisionFilters" -> "collisionFilter"
   [] t = "physicsJoints" -> "physicsJoint"]
\* the extension a root array lives in
RootExt(t) == CASE t = "lights" -> "KHR_lights_punctual" [] t = "variants" -> "KHR_materials_variants" [] t = "shapes" -> "KHR_implicit_shapes"
   [] t \in {"physicsMaterials", "collisionFilters", "physicsJoints"} -> "KHR_physics_rigid_bodies" [] OTHER -> ""

-----------------------------------------------------------------------------
(* Categories and what each depends on *)
Categories == TopSet \ {"lights", "variants"}
\* the categories the elements of a category refer to by index
Refs == [t \in Categories |->
  CASE t = "accessors" -> {"bufferViews"} [] t = "animations" -> {"accessors", "nodes"} [] t = "bufferViews" -> {"buffers"}
    [] t = "images" -> {"bufferViews"} [] t = "materials" -> {"textures"} [] t = "meshes" -> {"accessors", "materials", "bufferViews"}
    [] t = "nodes" -> {"meshes", "skins", "cameras", "nodes", "accessors", "shapes", "physicsMaterials", "collisionFilters", "physicsJoints"}
    [] t = "scenes" -> {"nodes"} [] t = "skins" -> {"accessors", "nodes"} [] t = "textures" -> {"images", "samplers"} [] OTHER -> {}]
\* dependencies; animations are loaded without the nodes they move
Deps == [t \in Categories |-> IF t = "animations" THEN {"accessors"} ELSE Refs[t]]
RECURSIVE Closure(_)
Closure(C) == LET D == C \cup UNION {Deps[t] : t \in C} IN IF D = C THEN C ELSE Closure(D)
OnlyRenderable == Categories \ {"animations", "skins", "shapes", "physicsMaterials", "collisionFilters", "physicsJoints"}
CatSets == {{t} : t \in Categories} \cup {{}, Categories, OnlyRenderable, {"animations", "accessors", "bufferViews", "buffers"}, {"cameras", "samplers"}, {"meshes", "cameras"}, {"images", "shapes"}}
CatPairs == {{s, t} : s, t \in Categories}
\* a selected element never refers to an element of a category that was left out (animation targets aside)
ClosureSound == \A C \in CatSets \cup CatPairs : \A t \in Closure(C) : (Refs[t] \ (IF t = "animations" THEN {"nodes"} ELSE {})) \subseteq Closure(C)
ASSUME ClosureSound

RECURSIVE Mentions(_)
Mentions(v) ==
  IF v[1] = "o" THEN UNION {Mentions(v[2][i][2]) : i \in DOMAIN v[2]}
                     \cup (IF Has(v, "extensions") /\ IsO(Get(v, "extensions")) THEN {Get(v, "extensions")[2][i][1] : i \in DOMAIN Get(v, "extensions")[2]} ELSE {})
  ELSE IF v[1] = "a" THEN UNION {Mentions(v[2][i]) : i \in DOMAIN v[2]}
  ELSE {}
Used(d) == (UNION {UNION {Mentions(d[t][i]) : i \in DOMAIN d[t]} \cup (IF d[t] # <<>> THEN {RootExt(t)} \ {""} ELSE {}) : t \in TopSet}
            \cup (IF \E i \in DOMAIN d["accessors"] : Has(d["accessors"][i], "componentType") /\ Get(d["accessors"][i], "componentType") = N("5130") THEN {"KHR_accessor_float64"} ELSE {}))
           \cap Extensions
Present(t, X) == RootExt(t) = "" \/ RootExt(t) \in X
\* variants a primitive refers to have to exist, so there are always three when meshes are present
Doc0 == [t \in TopSet |-> IF t = "variants" THEN <<O(<<<<"name", S("v0")>>>>), O(<<<<"name", S("v1")>>>>), O(<<<<"name", S("v2")>>>>)>> ELSE <<>>]
NoVar == [t \in TopSet |-> <<>>]
nv(d) == Len(d["variants"])

\* every variant a loaded primitive is mapped to exists
ArrOf(v) == IF v[1] = "a" THEN v[2] ELSE <<>>
Field(v, k) == IF IsO(v) /\ Has(v, k) THEN Get(v, k) ELSE <<"z">>
VariantsExist(d, X, C) == ("KHR_materials_variants" \in X /\ "meshes" \in C) =>
  \A i \in DOMAIN d["meshes"] : \A j \in DOMAIN ArrOf(Field(d["meshes"][i], "primitives")) :
    LET m == ArrOf(Field(Field(Field(ArrOf(Field(d["meshes"][i], "primitives"))[j], "extensions"), "KHR_materials_variants"), "mappings"))
    IN \A k \in DOMAIN m : \A v \in DOMAIN ArrOf(Field(m[k], "variants")) : ArrOf(Field(m[k], "variants"))[v] \in {N(ToString(n)) : n \in 0..(nv(d) - 1)}
Accepts(d, X, C) == VariantsExist(d, X, C) /\ \A t \in TopSet : (Present(t, X) /\ (t \in C \/ t \notin Categories)) => \A i \in DOMAIN d[t] : Valid(Elem[t], d[t][i], X)
Loaded(d, X, C) == [t \in TopSet |-> IF Present(t, X) /\ (t \in C \/ t \notin Categories)
                                     THEN [i \in DOMAIN d[t] |-> Interp(Elem[t], d[t][i], X, nv(d))] ELSE <<>>]
Extras(d, X, C) == {<<t, i - 1, Get(d[t][i], "extras")>> : <<t, i>> \in {<<t, i>> \in (C \X (1..9)) : Present(t, X) /\ i \in DOMAIN d[t] /\ IsO(d[t][i]) /\ Has(d[t][i], "extras")}}
XName(X) == IF X = Extensions THEN <<"*">> ELSE IF Cardinality(X) <= 1 THEN SetToSeq(X) ELSE <<"-">> \o SetToSeq(Extensions \ X)
Outcome(d, X, S0, C) ==
  IF Accepts(d, X, C)
  THEN [x |-> XName(X), cats |-> SetToSeq(S0), ok |-> TRUE, exp |-> SelectSeq([i \in DOMAIN Tops |-> <<Tops[i], Loaded(d, X, C)[Tops[i]]>>], LAMBDA p : p[2] # <<>>),
        extras |-> SetToSeq(Extras(d, X, C)), avail |-> SetToSeq({t \in C : d[t] # <<>> /\ Present(t, X)})]
  ELSE [x |-> XName(X), cats |-> SetToSeq(S0), ok |-> FALSE, exp |-> <<>>, extras |-> <<>>, avail |-> <<>>]
=============================================================================
