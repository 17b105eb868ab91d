-------------------------------- MODULE Gltf --------------------------------
(***************************************************************************)
(* The glTF 2.0 document as fastgltf models it: the types, properties,     *)
(* defaults, requirements and extension gates of the core schema and of    *)
(* every extension the library supports, together with                     *)
(*    Interp   - the asset a valid document denotes,                       *)
(*    Valid    - which documents must be accepted,                         *)
(*    Variants - representative documents of each type, one property at a  *)
(*               time, and Bads - representative ill-typed documents.      *)
(* JSON values are tagged: <<"n", text>>, <<"s", text>>, <<"b", BOOLEAN>>, *)
(* <<"z">> (null), <<"a", Seq>>, <<"o", Seq(<<key, value>>)>>.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NUL == <<"z">>
REQ == <<"REQ">>
EMPTY == <<"EMPTY">>
N(x) == <<"n", x>>
S(x) == <<"s", x>>
B(x) == <<"b", x>>
A(x) == <<"a", x>>
O(x) == <<"o", x>>
NA(x) == A([i \in DOMAIN x |-> N(x[i])])
SA(x) == A([i \in DOMAIN x |-> S(x[i])])
IsN(v) == v[1] = "n"   IsS(v) == v[1] = "s"   IsB(v) == v[1] = "b"
IsA(v) == v[1] = "a"   IsO(v) == v[1] = "o"
Has(v, k) == \E i \in DOMAIN v[2] : v[2][i][1] = k
Get(v, k) == v[2][CHOOSE i \in DOMAIN v[2] : v[2][i][1] = k][2]
Drop(v, k) == O(SelectSeq(v[2], LAMBDA m : m[1] # k))
Put(v, k, x) == IF Has(v, k) THEN O([i \in DOMAIN v[2] |-> IF v[2][i][1] = k THEN <<k, x>> ELSE v[2][i]])
                             ELSE O(Append(v[2], <<k, x>>))
PutExt(v, x, e) == Put(v, "extensions", Put(IF Has(v, "extensions") THEN Get(v, "extensions") ELSE O(<<>>), x, e))

Extensions == {"KHR_texture_transform", "KHR_texture_basisu", "MSFT_texture_dds", "KHR_mesh_quantization", "EXT_meshopt_compression",
  "KHR_lights_punctual", "EXT_texture_webp", "KHR_materials_specular", "KHR_materials_ior", "KHR_materials_iridescence",
  "KHR_materials_volume", "KHR_materials_transmission", "KHR_materials_clearcoat", "KHR_materials_emissive_strength",
  "KHR_materials_sheen", "KHR_materials_unlit", "KHR_materials_anisotropy", "EXT_mesh_gpu_instancing",
  "KHR_materials_pbrSpecularGlossiness", "MSFT_packing_normalRoughnessMetallic", "MSFT_packing_occlusionRoughnessMetallic",
  "KHR_materials_dispersion", "KHR_materials_variants", "KHR_accessor_float64", "KHR_draco_mesh_compression",
  "KHR_implicit_shapes", "KHR_physics_rigid_bodies", "GODOT_single_root", "KHR_materials_diffuse_transmission",
  "KHR_node_visibility", "KHR_node_selectability", "KHR_node_hoverability"}

-----------------------------------------------------------------------------
(* Properties of each type: key, type, default (REQ: required; NUL: absent; EMPTY: an empty object's defaults),
   extension the property lives in, and the value of "type" for which it applies *)
F(k, t, d) == [k |-> k, t |-> t, d |-> d, x |-> "", w |-> ""]
FX(x, t, d) == [k |-> x, t |-> t, d |-> d, x |-> x, w |-> ""]
FW(k, t, d, w) == [k |-> k, t |-> t, d |-> d, x |-> "", w |-> w]
name == F("name", "str", S(""))
One3 == NA(<<"1", "1", "1">>)   Zero3 == NA(<<"0", "0", "0">>)   One4 == NA(<<"1", "1", "1", "1">>)
Tex(k) == F(k, "tex", NUL)
ObjTypes == {"accessor", "sparse", "sparseIndices", "sparseValues", "animation", "channel", "target", "asampler", "buffer", "bufferView",
  "meshopt", "camera", "perspective", "orthographic", "image", "light", "spot", "material", "tex", "ntex", "otex", "ttrans", "pbr",
  "anisotropy", "clearcoat", "dispersion", "emissiveStrength", "ior", "iridescence", "diffuseTransmission", "sheen", "specular",
  "transmission", "unlit", "volume", "packedNRM", "packedORM", "specGloss", "mesh", "prim", "draco", "node", "nodeLight", "instancing",
  "visible", "selectable", "hoverable", "sampler", "scene", "skin", "texture", "src", "shape", "sphere", "box", "capsule", "cylinder",
  "physicsMaterial", "collisionFilter", "physicsJoint", "limit", "drive", "rigidBody", "motion", "collider", "geometry", "trigger",
  "joint", "variant", "mapping"}
FT == [T \in ObjTypes |->
  CASE T = "accessor" -> <<F("bufferView", "uint", NUL), F("byteOffset", "uint", N("0")), F("componentType", "E:componentType", REQ),
         F("normalized", "bool", B(FALSE)), F("count", "uint", REQ), F("type", "E:accessorType", REQ), F("max", "bounds", NUL),
         F("min", "bounds", NUL), F("sparse", "sparse", NUL), name>>
    [] T = "sparse" -> <<F("count", "uint", REQ), F("indices", "sparseIndices", REQ), F("values", "sparseValues", REQ)>>
    [] T = "sparseIndices" -> <<F("bufferView", "uint", REQ), F("byteOffset", "uint", N("0")), F("componentType", "E:indexType", REQ)>>
    [] T = "sparseValues" -> <<F("bufferView", "uint", REQ), F("byteOffset", "uint", N("0"))>>
    [] T = "animation" -> <<F("channels", "[channel", REQ), F("samplers", "[asampler", REQ), name>>
    [] T = "channel" -> <<F("sampler", "uint", REQ), F("target", "target", REQ)>>
    [] T = "target" -> <<F("node", "uint", NUL), F("path", "E:path", REQ)>>
    [] T = "asampler" -> <<F("input", "uint", REQ), F("output", "uint", REQ), F("interpolation", "E:interpolation", S("LINEAR"))>>
    [] T = "buffer" -> <<F("byteLength", "uint", REQ), F("uri", "bufferuri", REQ), name>>
    [] T = "bufferView" -> <<F("buffer", "uint", REQ), F("byteOffset", "uint", N("0")), F("byteLength", "uint", REQ),
         F("byteStride", "uint", NUL), F("target", "E:target", NUL), name, FX("EXT_meshopt_compression", "meshopt", NUL)>>
    [] T = "meshopt" -> <<F("buffer", "uint", REQ), F("byteOffset", "uint", N("0")), F("byteLength", "uint", REQ),
         F("byteStride", "uint", REQ), F("count", "uint", REQ), F("mode", "E:meshoptMode", REQ), F("filter", "E:meshoptFilter", S("NONE"))>>
    [] T = "camera" -> <<F("type", "E:cameraType", REQ), FW("perspective", "perspective", REQ, "perspective"),
         FW("orthographic", "orthographic", REQ, "orthographic"), name>>
    [] T = "perspective" -> <<F("aspectRatio", "num", NUL), F("yfov", "num", REQ), F("zfar", "num", NUL), F("znear", "num", REQ)>>
    [] T = "orthographic" -> <<F("xmag", "num", REQ), F("ymag", "num", REQ), F("zfar", "num", REQ), F("znear", "num", REQ)>>
    [] T = "image" -> <<F("uri", "imageuri", NUL), F("mimeType", "E:mime", NUL), F("bufferView", "uint", NUL), name>>
    [] T = "light" -> <<F("type", "E:lightType", REQ), F("color", "num3", One3), F("intensity", "num", N("1")), F("range", "num", NUL),
         FW("spot", "spot", REQ, "spot"), name>>
    [] T = "spot" -> <<F("innerConeAngle", "num", N("0")), F("outerConeAngle", "num", N("0.785398185"))>>
    [] T = "material" -> <<F("pbrMetallicRoughness", "pbr", EMPTY), F("normalTexture", "ntex", NUL), F("occlusionTexture", "otex", NUL),
         Tex("emissiveTexture"), F("emissiveFactor", "num3", Zero3), F("alphaMode", "E:alphaMode", S("OPAQUE")),
         F("alphaCutoff", "num", N("0.5")), F("doubleSided", "bool", B(FALSE)), name,
         FX("KHR_materials_anisotropy", "anisotropy", NUL), FX("KHR_materials_clearcoat", "clearcoat", NUL),
         FX("KHR_materials_dispersion", "dispersion", EMPTY), FX("KHR_materials_emissive_strength", "emissiveStrength", EMPTY),
         FX("KHR_materials_ior", "ior", EMPTY), FX("KHR_materials_iridescence", "iridescence", NUL),
         FX("KHR_materials_diffuse_transmission", "diffuseTransmission", NUL), FX("KHR_materials_sheen", "sheen", NUL),
         FX("KHR_materials_specular", "specular", NUL), FX("KHR_materials_transmission", "transmission", NUL),
         FX("KHR_materials_unlit", "unlit", NUL), FX("KHR_materials_volume", "volume", NUL),
         FX("MSFT_packing_normalRoughnessMetallic", "packedNRM", EMPTY), FX("MSFT_packing_occlusionRoughnessMetallic", "packedORM", NUL),
         FX("KHR_materials_pbrSpecularGlossiness", "specGloss", NUL)>>
    [] T = "tex" -> <<F("index", "uint", REQ), F("texCoord", "uint", N("0")), FX("KHR_texture_transform", "ttrans", NUL)>>
    [] T = "ntex" -> <<F("index", "uint", REQ), F("texCoord", "uint", N("0")), F("scale", "num", N("1")), FX("KHR_texture_transform", "ttrans", NUL)>>
    [] T = "otex" -> <<F("index", "uint", REQ), F("texCoord", "uint", N("0")), F("strength", "num", N("1")), FX("KHR_texture_transform", "ttrans", NUL)>>
    [] T = "ttrans" -> <<F("offset", "num2", NA(<<"0", "0">>)), F("rotation", "num", N("0")), F("scale", "num2", NA(<<"1", "1">>)), F("texCoord", "uint", NUL)>>
    [] T = "pbr" -> <<F("baseColorFactor", "num4", One4), Tex("baseColorTexture"), F("metallicFactor", "num", N("1")),
         F("roughnessFactor", "num", N("1")), Tex("metallicRoughnessTexture")>>
    [] T = "anisotropy" -> <<F("anisotropyStrength", "num", N("0")), F("anisotropyRotation", "num", N("0")), Tex("anisotropyTexture")>>
    [] T = "clearcoat" -> <<F("clearcoatFactor", "num", N("0")), Tex("clearcoatTexture"), F("clearcoatRoughnessFactor", "num", N("0")),
         Tex("clearcoatRoughnessTexture"), F("clearcoatNormalTexture", "ntex", NUL)>>
    [] T = "dispersion" -> <<F("dispersion", "num", N("0"))>>
    [] T = "emissiveStrength" -> <<F("emissiveStrength", "num", N("1"))>>
    [] T = "ior" -> <<F("ior", "num", N("1.5"))>>
    [] T = "iridescence" -> <<F("iridescenceFactor", "num", N("0")), Tex("iridescenceTexture"), F("iridescenceIor", "num", N("1.29999995")),
         F("iridescenceThicknessMinimum", "num", N("100")), F("iridescenceThicknessMaximum", "num", N("400")), Tex("iridescenceThicknessTexture")>>
    [] T = "diffuseTransmission" -> <<F("diffuseTransmissionFactor", "num", N("0")), Tex("diffuseTransmissionTexture"),
         F("diffuseTransmissionColorFactor", "num3", One3), Tex("diffuseTransmissionColorTexture")>>
    [] T = "sheen" -> <<F("sheenColorFactor", "num3", Zero3), Tex("sheenColorTexture"), F("sheenRoughnessFactor", "num", N("0")), Tex("sheenRoughnessTexture")>>
    [] T = "specular" -> <<F("specularFactor", "num", N("1")), Tex("specularTexture"), F("specularColorFactor", "num3", One3), Tex("specularColorTexture")>>
    [] T = "transmission" -> <<F("transmissionFactor", "num", N("0")), Tex("transmissionTexture")>>
    [] T = "unlit" -> <<>>
    [] T = "volume" -> <<F("thicknessFactor", "num", N("0")), Tex("thicknessTexture"), F("attenuationDistance", "num", N("inf")), F("attenuationColor", "num3", One3)>>
    [] T = "packedNRM" -> <<Tex("normalRoughnessMetallicTexture")>>
    [] T = "packedORM" -> <<Tex("occlusionRoughnessMetallicTexture"), Tex("roughnessMetallicOcclusionTexture"), Tex("normalTexture")>>
    [] T = "specGloss" -> <<F("diffuseFactor", "num4", One4), Tex("diffuseTexture"), F("specularFactor", "num3", One3),
         F("glossinessFactor", "num", N("1")), Tex("specularGlossinessTexture")>>
    [] T = "mesh" -> <<F("primitives", "[prim", REQ), F("weights", "nums", A(<<>>)), name>>
    [] T = "prim" -> <<F("attributes", "attrs", REQ), F("targets", "[attrs", A(<<>>)), F("mode", "E:mode", N("4")), F("indices", "uint", NUL),
         F("material", "uint", NUL), FX("KHR_draco_mesh_compression", "draco", NUL), FX("KHR_materials_variants", "mappings", A(<<>>))>>
    [] T = "draco" -> <<F("bufferView", "uint", REQ), F("attributes", "attrs", REQ)>>
    [] T = "mapping" -> <<F("material", "uint", REQ), F("variants", "uints", REQ)>>
    [] T = "node" -> <<F("mesh", "uint", NUL), F("skin", "uint", NUL), F("camera", "uint", NUL), F("children", "uints", A(<<>>)),
         F("weights", "nums", A(<<>>)), F("matrix", "num16", NUL), F("translation", "num3", Zero3), F("rotation", "num4", NA(<<"0", "0", "0", "1">>)),
         F("scale", "num3", One3), name, FX("KHR_lights_punctual", "nodeLight", NUL), FX("EXT_mesh_gpu_instancing", "instancing", O(<<<<"attributes", O(<<>>)>>>>)),
         FX("KHR_physics_rigid_bodies", "rigidBody", NUL), FX("KHR_node_visibility", "visible", O(<<<<"visible", B(TRUE)>>>>)),
         FX("KHR_node_selectability", "selectable", O(<<<<"selectable", B(TRUE)>>>>)), FX("KHR_node_hoverability", "hoverable", O(<<<<"hoverable", B(TRUE)>>>>))>>
    [] T = "nodeLight" -> <<F("light", "uint", REQ)>>
    [] T = "instancing" -> <<F("attributes", "attrs", REQ)>>
    [] T = "visible" -> <<F("visible", "bool", REQ)>>
    [] T = "selectable" -> <<F("selectable", "bool", REQ)>>
    [] T = "hoverable" -> <<F("hoverable", "bool", REQ)>>
    [] T = "sampler" -> <<F("magFilter", "E:magFilter", NUL), F("minFilter", "E:minFilter", NUL), F("wrapS", "E:wrap", N("10497")), F("wrapT", "E:wrap", N("10497")), name>>
    [] T = "scene" -> <<F("nodes", "uints", A(<<>>)), name>>
    [] T = "skin" -> <<F("inverseBindMatrices", "uint", NUL), F("skeleton", "uint", NUL), F("joints", "uints", REQ), name>>
    [] T = "texture" -> <<F("sampler", "uint", NUL), F("source", "uint", NUL), name, FX("KHR_texture_basisu", "src", NUL), FX("MSFT_texture_dds", "src", NUL), FX("EXT_texture_webp", "src", NUL)>>
    [] T = "src" -> <<F("source", "uint", REQ)>>
    [] T = "shape" -> <<F("type", "E:shapeType", REQ), FW("sphere", "sphere", EMPTY, "sphere"), FW("box", "box", EMPTY, "box"), FW("capsule", "capsule", EMPTY, "capsule"), FW("cylinder", "cylinder", EMPTY, "cylinder")>>
    [] T = "sphere" -> <<F("radius", "num", N("0.5"))>>
    [] T = "box" -> <<F("size", "num3", One3)>>
    [] T \in {"capsule", "cylinder"} -> <<F("height", "num", N("0.5")), F("radiusBottom", "num", N("0.25")), F("radiusTop", "num", N("0.25"))>>
    [] T = "physicsMaterial" -> <<F("staticFriction", "num", N("0.600000024")), F("dynamicFriction", "num", N("0.600000024")), F("restitution", "num", N("0")),
         F("frictionCombine", "E:combine", S("average")), F("restitutionCombine", "E:combine", S("average"))>>
    [] T = "collisionFilter" -> <<F("collisionSystems", "strs", A(<<>>)), F("collideWithSystems", "strs", A(<<>>)), F("notCollideWithSystems", "strs", A(<<>>))>>
    [] T = "physicsJoint" -> <<F("limits", "[limit", A(<<>>)), F("drives", "[drive", A(<<>>))>>
    [] T = "limit" -> <<F("min", "num", NUL), F("max", "num", NUL), F("stiffness", "num", NUL), F("damping", "num", N("0")), F("linearAxes", "axes", A(<<>>)), F("angularAxes", "axes", A(<<>>))>>
    [] T = "drive" -> <<F("type", "E:driveType", REQ), F("mode", "E:driveMode", REQ), F("axis", "E:axis", REQ), F("maxForce", "num", NUL),
         F("positionTarget", "num", N("0")), F("velocityTarget", "num", N("0")), F("stiffness", "num", N("0")), F("damping", "num", N("0"))>>
    [] T = "rigidBody" -> <<F("motion", "motion", NUL), F("collider", "collider", NUL), F("trigger", "trigger", NUL), F("joint", "joint", NUL)>>
    [] T = "motion" -> <<F("isKinematic", "bool", B(FALSE)), F("mass", "num", NUL), F("centerOfMass", "num3", Zero3), F("inertiaDiagonal", "num3", NUL), F("inertiaOrientation", "num4", NUL),
         F("linearVelocity", "num3", Zero3), F("angularVelocity", "num3", Zero3), F("gravityFactor", "num", N("1"))>>
    [] T = "collider" -> <<F("geometry", "geometry", REQ), F("physicsMaterial", "uint", NUL), F("collisionFilter", "uint", NUL)>>
    [] T = "geometry" -> <<F("shape", "uint", NUL), F("node", "uint", NUL), F("convexHull", "bool", B(FALSE))>>
    [] T = "trigger" -> <<F("geometry", "geometry", NUL), F("nodes", "uints", NUL), F("collisionFilter", "uint", NUL)>>
    [] T = "joint" -> <<F("connectedNode", "uint", REQ), F("joint", "uint", REQ), F("enableCollision", "bool", B(FALSE))>>
    [] T = "variant" -> <<F("name", "str", REQ)>>]

Enums == {"E:componentType", "E:accessorType", "E:indexType", "E:path", "E:interpolation", "E:target", "E:meshoptMode", "E:meshoptFilter",
  "E:cameraType", "E:mime", "E:lightType", "E:alphaMode", "E:mode", "E:magFilter", "E:minFilter", "E:wrap", "E:shapeType", "E:combine",
  "E:driveType", "E:driveMode", "E:axis"}
NS(s) == {N(x) : x \in s}
SS(s) == {S(x) : x \in s}
EV == [T \in Enums |->
  CASE T = "E:componentType" -> NS({"5120", "5121", "5122", "5123", "5125", "5126", "5130"})
    [] T = "E:indexType" -> NS({"5121", "5123", "5125"})
    [] T = "E:accessorType" -> SS({"SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4"})
    [] T = "E:path" -> SS({"translation", "rotation", "scale", "weights"})
    [] T = "E:interpolation" -> SS({"LINEAR", "STEP", "CUBICSPLINE"})
    [] T = "E:target" -> NS({"34962", "34963"})
    [] T = "E:meshoptMode" -> SS({"ATTRIBUTES", "TRIANGLES", "INDICES"})
    [] T = "E:meshoptFilter" -> SS({"NONE", "OCTAHEDRAL", "QUATERNION", "EXPONENTIAL"})
    [] T = "E:cameraType" -> SS({"perspective", "orthographic"})
    [] T = "E:mime" -> SS({"image/jpeg", "image/png", "image/ktx2", "image/vnd-ms.dds", "image/webp"})
    [] T = "E:lightType" -> SS({"directional", "point", "spot"})
    [] T = "E:alphaMode" -> SS({"OPAQUE", "MASK", "BLEND"})
    [] T = "E:mode" -> NS({"0", "1", "2", "3", "4", "5", "6"})
    [] T = "E:magFilter" -> NS({"9728", "9729"})
    [] T = "E:minFilter" -> NS({"9728", "9729", "9984", "9985", "9986", "9987"})
    [] T = "E:wrap" -> NS({"33071", "33648", "10497"})
    [] T = "E:shapeType" -> SS({"sphere", "box", "capsule", "cylinder"})
    [] T = "E:combine" -> SS({"average", "minimum", "maximum", "multiply"})
    [] T = "E:driveType" -> SS({"linear", "angular"})
    [] T = "E:driveMode" -> SS({"force", "acceleration"})
    [] T = "E:axis" -> NS({"0", "1", "2"})]
\* values outside the schema
EB == [T \in Enums |->
  CASE T = "E:componentType" -> NS({"5119", "5131", "0", "65536", "70656"})   \* 70656 = 65536 + 5120
    [] T = "E:indexType" -> NS({"5120", "5126", "7", "5130"})
    [] T = "E:accessorType" -> SS({"VEC5", "VEC6", "VEC1", "MAT5", "MAT", "V", "", "Scalar", "SCALARS", "VEC2x", "S"})
    [] T = "E:interpolation" -> SS({"linear", "", "STEPS"})
    [] T = "E:target" -> NS({"1", "34964", "0", "100498"})
    [] T = "E:meshoptMode" -> SS({"attributes", ""})
    [] T = "E:meshoptFilter" -> SS({"X", ""})
    [] T = "E:cameraType" -> SS({"Perspective", "", "fisheye"})
    [] T = "E:lightType" -> SS({"ambient", "", "spotlight"})
    [] T = "E:alphaMode" -> SS({"opaque", "", "MASKED"})
    [] T = "E:mode" -> NS({"7", "255", "260"})
    [] T = "E:magFilter" -> NS({"1", "9984", "75264"})
    [] T = "E:minFilter" -> NS({"1", "9988", "75264"})
    [] T = "E:wrap" -> NS({"1", "33072", "76033"})
    [] T = "E:shapeType" -> SS({"Sphere", "", "torus"})
    [] T = "E:combine" -> SS({"", "a", "add", "max", "none", "m"})
    [] T = "E:driveType" -> SS({"", "lin", "a", "Linear"})
    [] T = "E:driveMode" -> SS({"", "f", "acc"})
    [] T = "E:axis" -> NS({"3", "256"})
    [] OTHER -> {}]

NumVecs == {"num2", "num3", "num4", "num16"}
VecLen(T) == CASE T = "num2" -> 2 [] T = "num3" -> 3 [] T = "num4" -> 4 [] T = "num16" -> 16
\* arrays of objects are written "[type"
ArrTypes == {"[channel", "[asampler", "[prim", "[limit", "[drive", "[attrs", "[mapping"}
ElemOf(T) == CASE T = "[channel" -> "channel" [] T = "[asampler" -> "asampler" [] T = "[prim" -> "prim" [] T = "[limit" -> "limit"
               [] T = "[drive" -> "drive" [] T = "[attrs" -> "attrs" [] T = "[mapping" -> "mapping"
Components(ty) == CASE ty = S("SCALAR") -> 1 [] ty = S("VEC2") -> 2 [] ty = S("VEC3") -> 3 [] ty = S("VEC4") -> 4
                    [] ty = S("MAT2") -> 4 [] ty = S("MAT3") -> 9 [] ty = S("MAT4") -> 16 [] OTHER -> 0

-----------------------------------------------------------------------------
(* The sample URIs and what they denote *)
NoData == O(<<<<"src", S("none")>>>>)
UriParts(t, p, rest) == O(<<<<"src", S("uri")>>, <<"uri", S(t)>>, <<"path", S(p)>>, <<"rest", SA(rest)>>, <<"mime", S("")>>>>)
UriRef(p) == UriParts(p, p, <<"", "", "", "", "", "">>)
Bytes(hex, m) == O(<<<<"src", S("bytes")>>, <<"bytes", S(hex)>>, <<"mime", S(m)>>>>)
\* text, what it denotes; the payloads are at least as long as the byteLength the samples give (4)
BufferUris == << <<"a.bin", UriRef("a.bin")>>, <<"dir/b%20c.bin", UriRef("dir/b c.bin")>>, <<"http://h.example:80/x.bin?q=1#f", UriParts("http://h.example:80/x.bin?q=1#f", "/x.bin", <<"http", "", "h.example", "80", "q=1", "f">>)>>,
                 <<"a%23b%3fc%2541%22%5C.bin", UriRef("a#b?c%41\"\\.bin")>>,
                 <<"https://us%65r%40x:p%3Aw@h%2Fost.example:8%30/a%3Ab%2Fc?q%20%23=%26?x#f%3F%23g", UriParts("https://user@x:p:w@h/ost.example:80/a:b/c?q #=&?x#f?#g", "/a:b/c", <<"https", "user@x:p:w", "h/ost.example", "80", "q #=&?x", "f?#g">>)>>,
                 <<"urn:a//b:%2F%22", UriParts("urn:a//b:/\"", "a//b:/\"", <<"urn", "", "", "", "", "">>)>>,
                 <<"%2F%2Fh/x%20%7B.bin", UriRef("//h/x {.bin")>>, <<"x/%2e/y%2f..%2f%5E.bin", UriRef("x/./y/../^.bin")>>,
                 <<"http://[2001:db8::7]:8/x.bin?y/z@", UriParts("http://[2001:db8::7]:8/x.bin?y/z@", "/x.bin", <<"http", "", "2001:db8::7", "8", "y/z@", "">>)>>,
                 <<"data:application/octet-stream;base64,AAECAw==", Bytes("00010203", "application/octet-stream")>>,
                 <<"data:application/gltf-buffer;base64,AAECA/8=", Bytes("00010203ff", "application/gltf-buffer")>> >>
ImageUris == << <<"i.png", UriRef("i.png")>>, <<"d/i%25.jpg", UriRef("d/i%.jpg")>>, <<"c%3Ad.png", UriRef("c:d.png")>>, <<"data:image/png;base64,iVBO", Bytes("89504e", "image/png")>>,
                <<"data:image/jpeg;base64,/9j/", Bytes("ffd8ff", "image/jpeg")>>, <<"data:image/ktx2;base64,q0s=", Bytes("ab4b", "image/ktx2")>>,
                <<"data:image/webp;base64,UklGRg==", Bytes("52494646", "image/webp")>>, <<"data:image/vnd-ms.dds;base64,RERT", Bytes("444453", "image/vnd-ms.dds")>> >>
UriVal(tab, v) == tab[CHOOSE i \in DOMAIN tab : tab[i][1] = v[2]][2]

-----------------------------------------------------------------------------
(* Interp(T, v, X, nv): the value a valid v of type T denotes when the extensions X are enabled; nv = number of material variants *)
Dflt0(f) == IF f.d = REQ THEN NUL ELSE f.d
RECURSIVE Interp(_, _, _, _), InterpF(_, _, _, _)
\* the mapping from variants to materials of a primitive, as a table over all variants
Mappings(v, nv) ==
  LET ms == Get(v, "mappings")[2]
      hit(i) == {j \in DOMAIN ms : N(ToString(i - 1)) \in Range(Get(ms[j], "variants")[2])}
  IN IF \A i \in 1..nv : hit(i) = {} THEN A(<<>>) ELSE A([i \in 1..nv |-> IF hit(i) = {} THEN NUL ELSE Get(ms[CHOOSE j \in hit(i) : \A k \in hit(i) : k <= j], "material")])
InterpImage(v) ==
  LET m == IF Has(v, "mimeType") THEN Get(v, "mimeType") ELSE S("")
      d == IF Has(v, "uri") THEN UriVal(ImageUris, Get(v, "uri"))
           ELSE O(<<<<"src", S("view")>>, <<"view", Get(v, "bufferView")>>, <<"mime", m>>>>)
  IN O(<<<<"name", IF Has(v, "name") THEN Get(v, "name") ELSE S("")>>,
         <<"data", IF Has(v, "mimeType") THEN Put(d, "mime", m) ELSE d>>>>)
InterpF(f, v, X, nv) ==
  LET D == IF f.d = EMPTY THEN Interp(f.t, O(<<>>), X, nv) ELSE Dflt0(f) IN
  IF f.x # "" THEN
     IF f.x \in X /\ Has(v, "extensions") /\ Has(Get(v, "extensions"), f.x) THEN Interp(f.t, Get(Get(v, "extensions"), f.x), X, nv) ELSE D
  ELSE IF f.w # "" /\ Get(v, "type") # S(f.w) THEN NUL
  ELSE IF f.k \in {"translation", "rotation", "scale"} /\ Has(v, "matrix") THEN NUL
  ELSE IF Has(v, f.k) THEN Interp(f.t, Get(v, f.k), X, nv) ELSE D
Interp(T, v, X, nv) ==
  IF T = "image" THEN InterpImage(v)
  ELSE IF T = "buffer" THEN O(<<<<"byteLength", Get(v, "byteLength")>>, <<"data", UriVal(BufferUris, Get(v, "uri"))>>,
                               <<"name", IF Has(v, "name") THEN Get(v, "name") ELSE S("")>>>>)
  ELSE IF T = "mappings" THEN Mappings(v, nv)
  ELSE IF T \in ObjTypes THEN O([i \in DOMAIN FT[T] |-> <<FT[T][i].k, InterpF(FT[T][i], v, X, nv)>>])
  ELSE IF T \in ArrTypes THEN A([i \in DOMAIN v[2] |-> Interp(ElemOf(T), v[2][i], X, nv)])
  ELSE v

-----------------------------------------------------------------------------
(* Valid(T, v, X): v is a well-typed T as far as the library models it *)
UInts == NS({"0", "1", "2", "3", "4", "5", "6", "7", "8", "12", "16", "300"}) \cup UNION {EV[T] : T \in Enums} \cup UNION {EB[T] : T \in Enums}
IsUint(v) == IsN(v) /\ v \notin NS({"1.5", "-1", "0.5", "-2", "0.25", "3.5", "-1.5", "2.25"})
IsMember(f, v) == f.x = "" /\ Has(v, f.k)
RECURSIVE Valid(_, _, _), ValidF(_, _, _)
Rule(T, v, X) ==
  CASE T = "accessor" ->
        /\ ~(Has(v, "normalized") /\ Get(v, "normalized") = B(TRUE) /\ Get(v, "componentType") \in NS({"5125", "5126"}))
        /\ Get(v, "componentType") # N("5130") \/ "KHR_accessor_float64" \in X
        /\ \A k \in {"min", "max"} : Has(v, k) => Len(Get(v, k)[2]) = Components(Get(v, "type"))
    [] T = "image" -> (Has(v, "uri") # Has(v, "bufferView")) /\ (Has(v, "bufferView") => Has(v, "mimeType"))
    [] T = "collisionFilter" -> ~(Has(v, "collideWithSystems") /\ Has(v, "notCollideWithSystems"))
    [] T = "limit" -> Has(v, "linearAxes") # Has(v, "angularAxes")
    [] T = "trigger" -> Has(v, "geometry") # Has(v, "nodes")
    [] T = "drive" -> Has(v, "positionTarget") = Has(v, "stiffness") /\ Has(v, "velocityTarget") = Has(v, "damping")
    [] OTHER -> TRUE
ValidF(f, v, X) ==
  IF f.x # "" THEN (f.x \in X /\ Has(v, "extensions") /\ Has(Get(v, "extensions"), f.x)) => Valid(f.t, Get(Get(v, "extensions"), f.x), X)
  ELSE IF f.w # "" /\ (~Has(v, "type") \/ Get(v, "type") # S(f.w)) THEN TRUE
  ELSE IF Has(v, f.k) THEN Valid(f.t, Get(v, f.k), X)
  ELSE f.d # REQ
Valid(T, v, X) ==
  CASE T = "uint" -> IsUint(v)
    [] T = "num" -> IsN(v)
    [] T = "str" -> IsS(v)
    [] T = "bool" -> IsB(v)
    [] T \in Enums -> v \in EV[T]
    [] T \in NumVecs -> IsA(v) /\ Len(v[2]) = VecLen(T) /\ \A i \in DOMAIN v[2] : IsN(v[2][i])
    [] T \in {"nums", "bounds"} -> IsA(v) /\ \A i \in DOMAIN v[2] : IsN(v[2][i])
    [] T = "uints" -> IsA(v) /\ \A i \in DOMAIN v[2] : IsUint(v[2][i])
    [] T = "axes" -> IsA(v) /\ \A i \in DOMAIN v[2] : v[2][i] \in NS({"0", "1", "2"})
    [] T = "strs" -> IsA(v) /\ \A i \in DOMAIN v[2] : IsS(v[2][i])
    [] T = "attrs" -> IsO(v) /\ \A i \in DOMAIN v[2] : IsUint(v[2][i][2])
    [] T \in {"bufferuri", "imageuri"} -> IsS(v)
    [] T = "mappings" -> IsO(v) /\ Has(v, "mappings") /\ Valid("[mapping", Get(v, "mappings"), X)
    [] T \in ArrTypes -> IsA(v) /\ \A i \in DOMAIN v[2] : Valid(ElemOf(T), v[2][i], X)
    [] OTHER -> /\ IsO(v)
                /\ (Has(v, "extensions") /\ \E i \in DOMAIN FT[T] : FT[T][i].x # "") => IsO(Get(v, "extensions"))
                /\ \A i \in DOMAIN FT[T] : ValidF(FT[T][i], v, X)
                /\ Rule(T, v, X)

-----------------------------------------------------------------------------
(* Samples: Least(T) has the required properties only; Variants(T) varies one property at a time; Full(T) has them all *)
Toggle(f) == f.d # REQ \/ f.x # ""
RECURSIVE Smp(_), Least(_), Variants(_), Full(_, _), FullF(_, _)
SetF(v, f, s) == IF f.x # "" THEN PutExt(v, f.x, s) ELSE Put(v, f.k, s)
MinF(T) == LET req == SelectSeq(FT[T], LAMBDA f : f.d = REQ /\ f.w = "") IN O([i \in DOMAIN req |-> <<req[i].k, Least(req[i].t)>>])
\* one representative value of a type
Least(T) ==
  CASE T = "uint" -> N("4")  [] T = "num" -> N("0.5")  [] T = "str" -> S("x")  [] T = "bool" -> B(TRUE)
    [] T = "E:cameraType" -> S("perspective")  [] T = "E:lightType" -> S("point")  [] T = "E:accessorType" -> S("VEC2")
    [] T = "E:componentType" -> N("5126")  [] T = "E:shapeType" -> S("sphere") [] T = "E:path" -> S("rotation")
    [] T \in Enums -> CHOOSE e \in EV[T] : TRUE
    [] T = "attrs" -> O(<<<<"POSITION", N("3")>>>>)
    [] T = "bufferuri" -> S("a.bin")
    [] T \in {"uints", "axes"} -> NA(<<"1">>)
    [] T \in ArrTypes -> A(<<Least(ElemOf(T))>>)
    [] T = "camera" -> Put(MinF(T), "perspective", Least("perspective"))
    [] T = "image" -> O(<<<<"uri", S("i.png")>>>>)
    [] T = "limit" -> O(<<<<"linearAxes", NA(<<"0">>)>>>>)
    [] T = "drive" -> Put(MinF(T), "maxForce", N("2.25"))
    [] T = "trigger" -> O(<<<<"geometry", O(<<<<"shape", N("1")>>>>)>>>>)
    [] OTHER -> MinF(T)
\* vectors of zeros or ones with one component that differs
OffBy(n) == {NA([k \in 1..n |-> IF k = i THEN d ELSE b]) : i \in 1..n, b \in {"0", "1"}, d \in {"0.25"}}
\* representative values of a property
Smp(T) ==
  CASE T = "uint" -> NS({"0", "1", "2", "3", "4", "7", "8", "12", "16", "255", "256", "300", "65535", "65536"})
    [] T = "num" -> {N("0.5"), N("-2"), N("0"), N("1"), N("-1"), N("-1.5e-10"), N("0.333333343"), N("16777216")}
    [] T = "str" -> {S("x"), S("@U"), S("")}
    [] T = "bool" -> {B(TRUE), B(FALSE)}
    [] T \in Enums -> EV[T]
    [] T = "num2" -> OffBy(2) \cup {NA(<<"0.333333343", "-2">>), NA(<<"3", "-1.5e-10">>)}
    [] T = "num3" -> OffBy(3) \cup {NA(<<"0.5", "-2", "3">>), NA(<<"1", "0.1", "3.40282347e38">>)}
    [] T = "num4" -> OffBy(4) \cup {NA(<<"0.333333343", "-2", "3", "-1.5e-10">>), NA(<<"0", "1", "0", "0">>)}
    [] T = "num16" -> {NA(<<"1", "2", "3", "4", "5", "6", "7", "8", "0.5", "-2", "3.5", "12", "16", "0.25", "-1.5", "1">>)}
    [] T = "nums" -> {NA(<<"0.333333343">>), NA(<<"0.25", "0", "-2", "-1.5e-10", "1", "0.5">>)}
    [] T = "uints" -> {NA(<<"3">>), NA(<<"5", "0", "7", "2", "4", "300">>)}
    [] T = "axes" -> {NA(<<"0">>), NA(<<"2", "0">>), NA(<<"0", "1", "2">>)}
    [] T = "strs" -> {SA(<<"x">>), SA(<<"b", "@U", "a">>)}
    [] T = "[attrs" -> {A(<<v>>) : v \in Smp("attrs")} \cup {A(<<O(<<>>), Least("attrs")>>), A(<<Least("attrs"), O(<<>>), O(<<<<"NORMAL", N("0")>>, <<"@U", N("1")>>>>)>>), A(<<O(<<>>), O(<<>>)>>), A(<<Least("attrs"), Least("attrs"), Least("attrs")>>)}
    [] T = "attrs" -> {O(<<>>), O(<<<<"POSITION", N("3")>>, <<"NORMAL", N("0")>>>>),
                       O(<<<<"TEXCOORD_0", N("1")>>, <<"_CUSTOM", N("7")>>, <<"POSITION", N("2")>>, <<"JOINTS_0", N("4")>>, <<"@U", N("5")>>, <<"COLOR_1", N("6")>>>>)}
    [] T = "bufferuri" -> {S(BufferUris[i][1]) : i \in DOMAIN BufferUris}
    [] T = "bounds" -> {NA(<<"0.5", "-2">>), NA(<<"3", "7">>)}
    [] T = "mappings" -> {O(<<<<"mappings", m>>>>) : m \in {A(<<O(<<<<"material", N("2")>>, <<"variants", NA(<<"0">>)>>>>)>>),
                              A(<<O(<<<<"material", N("2")>>, <<"variants", NA(<<"1">>)>>>>), O(<<<<"material", N("0")>>, <<"variants", NA(<<"2", "0">>)>>>>)>>)}}
    [] T \in ArrTypes -> {A(<<v>>) : v \in Smp(ElemOf(T))} \cup {A(<<Least(ElemOf(T)), Least(ElemOf(T)), Least(ElemOf(T))>>)}
    [] OTHER -> Variants(T)
FullF(f, i) == LET s == SetToSeq(Smp(f.t)) IN IF f.t \in ObjTypes THEN Full(f.t, i) ELSE s[((i - 1) % Len(s)) + 1]
\* objects with every property present
Full(T, i) ==
  LET base == Least(T)
      fs == SelectSeq(FT[T], LAMBDA f : (f.w = "" /\ f.t \notin {"bounds", "imageuri", "bufferuri", "E:accessorType", "E:componentType", "E:lightType", "E:cameraType", "E:shapeType"})
                                     /\ ~(T = "node" /\ (IF i % 2 = 0 THEN f.k \in {"translation", "rotation", "scale"} ELSE f.k = "matrix"))
                                     /\ ~(T = "image" /\ f.k = "bufferView") /\ ~(T = "limit" /\ f.k = "angularAxes") /\ ~(T = "collisionFilter" /\ f.k = "collideWithSystems")
                                     /\ ~(T = "trigger" /\ f.k = "nodes") /\ ~(T = "accessor" /\ f.k = "normalized"))
  IN FoldLeft(LAMBDA acc, f : SetF(acc, f, FullF(f, i)), base, fs)
Extra(T) ==
  CASE T = "camera" -> {O(<<<<"type", S("orthographic")>>, <<"orthographic", v>>>>) : v \in Variants("orthographic")} \cup {O(<<<<"perspective", v>>, <<"type", S("perspective")>>>>) : v \in Variants("perspective")}
    [] T = "light" -> {O(<<<<"type", S("spot")>>, <<"spot", v>>>>) : v \in Variants("spot")}
    [] T = "shape" -> UNION {{O(<<<<"type", S(t)>>, <<t, v>>>>) : v \in Variants(t)} : t \in {"sphere", "box", "capsule", "cylinder"}}
    [] T = "image" -> {O(<<<<"bufferView", N("3")>>, <<"mimeType", m>>>>) : m \in EV["E:mime"]} \cup {O(<<<<"uri", S(ImageUris[i][1])>>>>) : i \in DOMAIN ImageUris}
    [] T = "accessor" -> UNION {{O(<<<<"componentType", c>>, <<"count", N("2")>>, <<"type", S("VEC3")>>, <<"min", NA(<<"0", "-2", "7">>)>>, <<"max", NA(<<"300", "4", "8">>)>>>>),
                                 O(<<<<"count", N("2")>>, <<"max", NA(<<"300">>)>>, <<"normalized", B(TRUE)>>, <<"type", S("SCALAR")>>, <<"componentType", c>>>>)} : c \in EV["E:componentType"]}
                 \cup {O(<<<<"componentType", N("5126")>>, <<"count", N("1")>>, <<"type", t>>, <<"min", A([i \in 1..Components(t) |-> N(ToString(i))])>>>>) : t \in EV["E:accessorType"]}
    [] T = "limit" -> {O(<<<<"angularAxes", x>>>>) : x \in Smp("axes")}
    [] T = "drive" -> {Put(Put(Least("drive"), "positionTarget", N("3")), "stiffness", N("0.5")), Put(Put(Least("drive"), "damping", N("3")), "velocityTarget", N("0.5"))}
    [] T = "trigger" -> {O(<<<<"nodes", x>>>>) : x \in Smp("uints")} \cup {O(<<<<"geometry", x>>>>) : x \in Variants("geometry")}
    [] T = "collisionFilter" -> {O(<<<<"collideWithSystems", SA(<<"p">>)>>, <<"collisionSystems", SA(<<"p", "q">>)>>>>)}
    [] T = "physicsJoint" -> {O(<<<<"limits", A(<<a, b>>)>>, <<"drives", A(<<Least("drive")>>)>>>>) : a \in {Least("limit")}, b \in {O(<<<<"angularAxes", NA(<<"1">>)>>, <<"min", N("-2")>>>>)}}
    [] T = "material" -> {O(<<<<"pbrMetallicRoughness", O(<<<<"baseColorTexture", O(<<<<"index", N("1")>>, <<"texCoord", N("2")>>>>)>>, <<"metallicRoughnessTexture", O(<<<<"index", N("3")>>>>)>>>>)>>>>)}
    [] T = "packedORM" -> {O(<<<<"occlusionRoughnessMetallicTexture", O(<<<<"index", N("1")>>, <<"texCoord", N("2")>>>>)>>, <<"roughnessMetallicOcclusionTexture", O(<<<<"index", N("3")>>>>)>>, <<"normalTexture", O(<<<<"index", N("5")>>>>)>>>>)}
    [] OTHER -> {}
One(T) == UNION {{SetF(Least(T), f, s) : s \in Smp(f.t)} : f \in {FT[T][i] : i \in {j \in DOMAIN FT[T] : FT[T][j].w = "" /\ FT[T][j].t # "imageuri"}}}
\* keep only what is valid with every extension on
Variants(T) == {v \in {Least(T)} \cup One(T) \cup Extra(T) \cup {Full(T, 1), Full(T, 2)} : Valid(T, v, Extensions)}

-----------------------------------------------------------------------------
(* Pairs(T): objects with exactly two of their optional properties, at every level; what one property leaves behind matters to the next *)
PairVal(f, i) == LET s == SetToSeq({x \in (IF f.t \in ObjTypes THEN {Least(f.t), Full(f.t, 1)} ELSE Smp(f.t)) : x # f.d}) IN s[(i % Len(s)) + 1]
Optional(f) == Toggle(f) /\ f.w = "" /\ f.t \notin {"imageuri", "bufferuri"}
\* arrays of different elements, every kind of element before and after several others
Chains(t) == LET s == SetToSeq(Smp(ElemOf(t)))  n == Len(s)  at(i) == s[(i % n) + 1] IN
  {A(<<at(i), at(i + 1), at(i + 2)>>) : i \in 1..n} \cup {A(<<at(n - i), at(2 * n - i - 1)>>) : i \in 1..n} \cup {A(<<at(7 * i), at(i), at(5 * i + 2), at(3 * i)>>) : i \in 1..n}
RECURSIVE Pairs(_), PairsOf(_)
PairsOf(t) == IF t \in ObjTypes THEN Pairs(t) ELSE IF t \in ArrTypes THEN Chains(t) \cup (IF t \in {"[attrs", "[mapping"} THEN {} ELSE {A(<<Least(ElemOf(t)), v>>) : v \in Pairs(ElemOf(t))}) ELSE {}
TypedPairs(T) ==
  CASE T = "camera" -> UNION {{O(<<<<"type", S(t)>>, <<t, v>>>>) : v \in Pairs(t)} : t \in {"perspective", "orthographic"}}
    [] T = "light" -> {O(<<<<"type", S("spot")>>, <<"spot", v>>>>) : v \in Pairs("spot")}
    [] T = "shape" -> UNION {{O(<<<<"type", S(t)>>, <<t, v>>>>) : v \in Pairs(t)} : t \in {"sphere", "box", "capsule", "cylinder"}}
    [] OTHER -> {}
Pairs(T) == LET D == {i \in DOMAIN FT[T] : Optional(FT[T][i])} IN
  {v \in {SetF(SetF(Least(T), FT[T][i], PairVal(FT[T][i], i + j)), FT[T][j], PairVal(FT[T][j], i)) : <<i, j>> \in {<<i, j>> \in D \X D : i < j}}
         \cup UNION {{SetF(Least(T), FT[T][i], v) : v \in PairsOf(FT[T][i].t)} : i \in {i \in DOMAIN FT[T] : FT[T][i].w = "" /\ ~(FT[T][i].t = "tex" /\ FT[T][i].k # "emissiveTexture")}}
         \cup TypedPairs(T) : Valid(T, v, Extensions)}

-----------------------------------------------------------------------------
(* ill-typed values of a type *)
RECURSIVE BadSmp(_), Bads(_)
Wrong(T) ==
  CASE T = "uint" -> {S("7"), N("1.5"), N("-1"), B(TRUE), NUL, A(<<>>), O(<<>>)}
    [] T = "num" -> {S("0.5"), B(TRUE), NUL, A(<<>>), O(<<>>)}
    [] T \in {"str", "bufferuri", "imageuri"} -> {N("7"), B(FALSE), NUL, A(<<>>), O(<<>>)}
    [] T = "bool" -> {N("1"), S("true"), NUL, A(<<>>), O(<<>>)}
    [] T \in Enums \ {"E:mime"} -> {IF e[1] = "s" THEN N("1") ELSE S("1") : e \in {CHOOSE z \in EV[T] : TRUE}} \cup {NUL, A(<<>>), O(<<>>)} \cup EB[T]
    [] T = "E:mime" -> {N("1"), NUL, O(<<>>)}
    [] T \in NumVecs -> {N("1"), S("x"), O(<<>>), NUL, A(<<>>), A([i \in 1..(VecLen(T) - 1) |-> N("1")]), A([i \in 1..(VecLen(T) + 1) |-> N("1")]),
                         A([i \in 1..VecLen(T) |-> IF i = VecLen(T) THEN S("1") ELSE N("1")]), A([i \in 1..VecLen(T) |-> IF i = 1 THEN NUL ELSE N("1")]),
                         A([i \in 1..VecLen(T) |-> IF i = 2 THEN B(TRUE) ELSE N("1")])}
    [] T \in {"nums", "bounds"} -> {N("1"), S("x"), O(<<>>), NUL, A(<<N("1"), S("1")>>), A(<<NUL, N("1")>>)}
    [] T = "uints" -> {N("1"), S("x"), O(<<>>), NUL, A(<<N("1"), S("1")>>), A(<<N("1.5")>>), A(<<N("-1")>>), A(<<NUL>>)}
    [] T = "axes" -> {N("1"), O(<<>>), A(<<N("3")>>), A(<<N("1"), S("1")>>), A(<<N("256")>>), A(<<N("0"), N("3")>>), A(<<N("0"), N("1"), N("2"), N("4294967296")>>)}
    [] T = "strs" -> {N("1"), S("x"), O(<<>>), A(<<S("x"), N("1")>>), A(<<NUL>>)}
    [] T = "attrs" -> {N("1"), A(<<>>), NUL, O(<<<<"POSITION", S("1")>>>>), O(<<<<"POSITION", N("1")>>, <<"NORMAL", N("-1")>>>>), O(<<<<"A", NUL>>>>)}
    [] T \in ArrTypes -> {N("1"), S("x"), O(<<>>), NUL}
    [] OTHER -> {N("1"), S("x"), A(<<>>), B(TRUE), NUL}
BadSmp(T) == Wrong(T) \cup
  (IF T \in ArrTypes THEN {A(<<b>>) : b \in BadSmp(ElemOf(T))} \cup {A(<<Least(ElemOf(T)), N("1")>>)}
                          \cup UNION {{A(<<Least(ElemOf(T)), b>>), A(<<b, Least(ElemOf(T))>>)} : b \in BadSmp(ElemOf(T))}
   ELSE IF T = "mappings" THEN {O(<<>>)} \cup {O(<<<<"mappings", b>>>>) : b \in BadSmp("[mapping")}
   ELSE IF T \in ObjTypes THEN Bads(T) ELSE {})
BadExtra(T) ==
  CASE T = "camera" -> {O(<<<<"type", S(t)>>, <<t, b>>>>) : t \in {"perspective"}, b \in BadSmp("perspective")} \cup {O(<<<<"type", S(t)>>, <<t, b>>>>) : t \in {"orthographic"}, b \in BadSmp("orthographic")}
                      \cup {O(<<<<"type", S("orthographic")>>, <<"perspective", Least("perspective")>>>>), O(<<<<"type", S("perspective")>>>>)}
    [] T = "light" -> {O(<<<<"type", S("spot")>>>>)} \cup {O(<<<<"type", S("spot")>>, <<"spot", b>>>>) : b \in BadSmp("spot")}
    [] T = "shape" -> UNION {{O(<<<<"type", S(t)>>, <<t, b>>>>) : b \in BadSmp(t)} : t \in {"sphere", "box", "capsule", "cylinder"}}
    [] T = "image" -> {O(<<>>), O(<<<<"uri", S("i.png")>>, <<"bufferView", N("1")>>, <<"mimeType", S("image/png")>>>>), O(<<<<"bufferView", N("1")>>>>), O(<<<<"uri", N("5")>>>>)}
    [] T = "accessor" -> {O(<<<<"componentType", c>>, <<"count", N("2")>>, <<"type", S("SCALAR")>>, <<"normalized", B(TRUE)>>>>) : c \in NS({"5125", "5126"})}
                 \cup {O(<<<<"componentType", N("5126")>>, <<"count", N("2")>>, <<"type", S("VEC3")>>, <<k, NA(<<"1", "2">>)>>>>) : k \in {"min", "max"}}
                 \cup {O(<<<<"componentType", N("5121")>>, <<"count", N("2")>>, <<"type", S("SCALAR")>>, <<k, NA(<<"1", "2">>)>>>>) : k \in {"min", "max"}}
    [] T = "limit" -> {O(<<>>), O(<<<<"linearAxes", NA(<<"1">>)>>, <<"angularAxes", NA(<<"1">>)>>>>)}
    [] T = "collisionFilter" -> {O(<<<<"collideWithSystems", SA(<<"p">>)>>, <<"notCollideWithSystems", SA(<<"p">>)>>>>)}
    [] OTHER -> {}
\* objects with all of their properties, of which one is ill-typed or missing
BadFull(T) == UNION {UNION {{IF Toggle(f) THEN SetF(b, f, w) ELSE Put(b, f.k, w) : w \in IF f.x = "" /\ T = "node" /\ f.k \in {"matrix", "translation", "rotation", "scale"} /\ ~Has(b, f.k) THEN {} ELSE Wrong(f.t)} \cup (IF f.d = REQ THEN {Drop(b, f.k)} ELSE {})
                            : f \in {FT[T][i] : i \in {j \in DOMAIN FT[T] : FT[T][j].w = ""}}} : b \in {b \in {Full(T, 1), Full(T, 2)} : Valid(T, b, Extensions)}}
Bads(T) == {v \in BadFull(T) \cup UNION {{IF Toggle(f) THEN SetF(Least(T), f, b) ELSE Put(Least(T), f.k, b) : b \in BadSmp(f.t)} \cup (IF f.d = REQ THEN {Drop(Least(T), f.k)} ELSE {})
                           : f \in {FT[T][i] : i \in {j \in DOMAIN FT[T] : FT[T][j].w = ""}}} \cup BadExtra(T) \cup {Put(Least(T), "extensions", N("1"))} :
              ~Valid(T, v, Extensions)}
=============================================================================
