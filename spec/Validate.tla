------------------------------ MODULE Validate ------------------------------
(***************************************************************************)
(* Validation.  The state is an asset (what of it the checked rules of     *)
(* glTF speak about); Conforms says which assets satisfy them.  From       *)
(* conforming assets every change of one member of one object is explored, *)
(* and sampled histories of several changes.  Each asset that is reached   *)
(* is built in the real library and validated.                             *)
(* Indices are 0-based, -1 stands for an absent member.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,     \* "single": one change; "any": sampled histories of Depth changes
          Depth

VARIABLES a, did
vars == <<a, did>>
R(S) == RandomElement(S)
None == -1
Far == 100000          \* an index out of any range
Range(s) == {s[i] : i \in DOMAIN s}
In(i, list) == i >= 0 /\ i < Len(list)
OptIn(i, list) == i = None \/ In(i, list)

\* ---- what a conforming asset is ----
Size(ct) == CASE ct \in {"s8", "u8"} -> 1 [] ct \in {"s16", "u16"} -> 2 [] ct \in {"u32", "f32"} -> 4 [] ct = "f64" -> 8 [] OTHER -> 1
Comps(t) == CASE t = "SCALAR" -> 1 [] t = "VEC2" -> 2 [] t = "VEC3" -> 3 [] t \in {"VEC4", "MAT2"} -> 4 [] t = "MAT3" -> 9 [] t = "MAT4" -> 16 [] OTHER -> 0
Used(x, e) == e \in x.used
BoundOK(x, b) == b.n = None \/ ((x.ct \in {"f32", "f64"} => b.dbl) /\ b.n = Comps(x.t))
SparseView(s, v) == In(v, s.views) /\ s.views[v + 1].stride = None /\ s.views[v + 1].target = None
AccessorOK(s, x) ==
    /\ x.t # "INVALID" /\ x.ct # "INVALID" /\ x.n >= 1
    /\ OptIn(x.view, s.views)
    /\ x.off % Size(x.ct) = 0
    /\ x.view # None => LET v == s.views[x.view + 1] IN (x.off + v.off) % Size(x.ct) = 0 /\ (v.stride = None \/ v.stride % Size(x.ct) = 0)
    /\ BoundOK(x, x.max) /\ BoundOK(x, x.min)
    /\ x.iv = None \/ (SparseView(s, x.iv) /\ SparseView(s, x.vv))
InputOK(x) == x.t = "SCALAR" /\ x.ct \in {"f32", "f64"}
SamplerOK(s, m, path) == LET i == s.accessors[m.in + 1]  o == s.accessors[m.out + 1] IN
    InputOK(i) /\ (path = "weights" \/ IF m.interp = "CUBICSPLINE" THEN i.n >= 2 /\ o.n = 3 * i.n ELSE o.n = i.n)
AnimationOK(s, x) ==
    /\ x.channels # <<>> /\ x.samplers # <<>>
    /\ \A k, l \in DOMAIN x.channels : k # l /\ x.channels[k].node # None => <<x.channels[k].node, x.channels[k].path>> # <<x.channels[l].node, x.channels[l].path>>
    /\ \A k \in DOMAIN x.samplers : In(x.samplers[k].in, s.accessors) /\ In(x.samplers[k].out, s.accessors)
    /\ \A k \in DOMAIN x.channels : In(x.channels[k].sampler, x.samplers) /\ SamplerOK(s, x.samplers[x.channels[k].sampler + 1], x.channels[k].path)
MeshoptOK(s, m) == /\ In(m.buf, s.buffers)
                   /\ CASE m.mode = "ATTRIBUTES" -> m.stride % 4 = 0 /\ m.stride <= 256
                        [] m.mode = "TRIANGLES" -> m.count % 3 = 0 /\ m.stride \in {2, 4}
                        [] OTHER -> m.stride \in {2, 4}
ViewOK(s, v) == /\ v.len >= 1 /\ In(v.buf, s.buffers)
                /\ v.stride = None \/ (v.stride >= 4 /\ v.stride <= 252 /\ v.stride % 4 = 0)
                /\ v.mo = <<>> \/ (Used(s, "EXT_meshopt_compression") /\ MeshoptOK(s, v.mo[1]))
CameraOK(c) == \A k \in DOMAIN c : c[k] # 0
HalfPi == 1570     \* angles in thousandths
LightOK(l) == /\ l.range = None \/ (l.type # "directional" /\ l.range > 0)
              /\ IF l.type = "spot" THEN l.inner >= 0 /\ l.inner <= l.outer /\ l.outer <= HalfPi ELSE l.inner = None /\ l.outer = None
\* the texture slots of a material and the extension each comes from
Slots == [normalTexture |-> "", emissiveTexture |-> "", occlusionTexture |-> "", baseColorTexture |-> "", metallicRoughnessTexture |-> "",
          anisotropyTexture |-> "KHR_materials_anisotropy",
          clearcoatTexture |-> "KHR_materials_clearcoat", clearcoatRoughnessTexture |-> "KHR_materials_clearcoat", clearcoatNormalTexture |-> "KHR_materials_clearcoat",
          diffuseTransmissionTexture |-> "KHR_materials_diffuse_transmission", diffuseTransmissionColorTexture |-> "KHR_materials_diffuse_transmission",
          iridescenceTexture |-> "KHR_materials_iridescence", iridescenceThicknessTexture |-> "KHR_materials_iridescence",
          sheenColorTexture |-> "KHR_materials_sheen", sheenRoughnessTexture |-> "KHR_materials_sheen",
          specularTexture |-> "KHR_materials_specular", specularColorTexture |-> "KHR_materials_specular",
          diffuseTexture |-> "KHR_materials_pbrSpecularGlossiness", specularGlossinessTexture |-> "KHR_materials_pbrSpecularGlossiness",
          transmissionTexture |-> "KHR_materials_transmission", thicknessTexture |-> "KHR_materials_volume",
          ormTexture |-> "MSFT_packing_occlusionRoughnessMetallic", rmoTexture |-> "MSFT_packing_occlusionRoughnessMetallic", ormNormalTexture |-> "MSFT_packing_occlusionRoughnessMetallic",
          nrmTexture |-> "MSFT_packing_normalRoughnessMetallic"]
Features == {Slots[k] : k \in DOMAIN Slots} \ {""}
MaterialOK(s, m) == /\ \A k \in DOMAIN m.tex : In(m.tex[k], s.textures)
                    /\ \A e \in Range(m.has) : Used(s, e)
                    /\ (m.strong => Used(s, "KHR_materials_emissive_strength")) /\ (m.ior => Used(s, "KHR_materials_ior"))
Known(name) == CASE name \in {"POSITION", "NORMAL", "TANGENT"} -> name
                 [] name \in {"TEXCOORD_0", "TEXCOORD_1"} -> "TEXCOORD" [] name \in {"COLOR_0", "COLOR_1"} -> "COLOR"
                 [] name \in {"JOINTS_0", "JOINTS_1"} -> "JOINTS" [] name \in {"WEIGHTS_0", "WEIGHTS_1"} -> "WEIGHTS"
                 [] name \in {"_T", "_TEMP_2"} -> "custom" [] OTHER -> "unknown"
AttributeOK(s, name, i) ==
    In(i, s.accessors) /\ LET x == s.accessors[i + 1]  q == Used(s, "KHR_mesh_quantization")  k == Known(name) IN
    CASE k = "POSITION" -> x.t = "VEC3" /\ x.max.n # None /\ x.min.n # None /\ x.ct \in (IF q THEN {"s8", "u8", "s16", "u16", "f32"} ELSE {"f32"})
      [] k = "NORMAL"   -> x.t = "VEC3" /\ x.ct \in (IF q THEN {"s8", "s16", "f32"} ELSE {"f32"})
      [] k = "TANGENT"  -> x.t = "VEC4" /\ x.ct \in (IF q THEN {"s8", "s16", "f32"} ELSE {"f32"})
      [] k = "TEXCOORD" -> x.t = "VEC2" /\ x.ct \in (IF q THEN {"s8", "u8", "s16", "u16", "f32"} ELSE {"u8", "u16", "f32"})
      [] k = "COLOR"    -> x.t \in {"VEC3", "VEC4"} /\ x.ct \in {"u8", "u16", "f32"}
      [] k = "JOINTS"   -> x.t = "VEC4" /\ x.ct \in {"u8", "u16"}
      [] k = "WEIGHTS"  -> x.t = "VEC4" /\ x.ct \in {"u8", "u16", "f32"}
      [] k = "custom"   -> x.ct # "u32"
      [] OTHER -> FALSE
PrimitiveOK(s, p) ==
    /\ OptIn(p.mat, s.materials)
    /\ p.maps = <<>> \/ (Used(s, "KHR_materials_variants") /\ Len(p.maps) = s.variants /\ \A k \in DOMAIN p.maps : OptIn(p.maps[k], s.materials))
    /\ p.idx = None \/ (In(p.idx, s.accessors) /\ LET v == s.accessors[p.idx + 1].view IN v = None \/ (In(v, s.views) /\ s.views[v + 1].stride = None))
    /\ OptIn(p.draco, s.views)
    /\ \A k \in DOMAIN p.targets : \A l \in DOMAIN p.targets[k] : In(p.targets[k][l][2], s.accessors)
    /\ \A k \in DOMAIN p.attrs : AttributeOK(s, p.attrs[k][1], p.attrs[k][2])
Has(p, name) == \E k \in DOMAIN p.attrs : p.attrs[k][1] = name
Unit(r) == \A k \in 1..4 : r[k] >= -8 /\ r[k] <= 8
NodeOK(s, n) ==
    /\ OptIn(n.cam, s.cameras) /\ OptIn(n.skin, s.skins) /\ OptIn(n.mesh, s.meshes) /\ OptIn(n.light, s.lights)
    /\ \A k \in DOMAIN n.children : In(n.children[k], s.nodes)
    /\ \A k \in DOMAIN n.inst : In(n.inst[k], s.accessors)
    /\ n.k = "trs" => Unit(n.rot)
    /\ (n.skin # None \/ n.weights > 0) => n.mesh # None
    /\ n.skin # None => \A k \in DOMAIN s.meshes[n.mesh + 1] : Has(s.meshes[n.mesh + 1][k], "JOINTS_0") /\ Has(s.meshes[n.mesh + 1][k], "WEIGHTS_0")
    /\ (n.visible \/ Used(s, "KHR_node_visibility")) /\ (n.selectable \/ Used(s, "KHR_node_selectability")) /\ (n.hoverable \/ Used(s, "KHR_node_hoverability"))
SkinOK(s, k) == k.joints # <<>> /\ (\A j \in DOMAIN k.joints : In(k.joints[j], s.nodes)) /\ OptIn(k.skel, s.nodes) /\ OptIn(k.ibm, s.accessors)
TextureOK(s, t) ==
    /\ OptIn(t.sampler, s.samplers) /\ OptIn(t.image, s.images) /\ OptIn(t.basisu, s.images) /\ OptIn(t.dds, s.images) /\ OptIn(t.webp, s.images)
    /\ t.image # None \/ ({"KHR_texture_basisu", "MSFT_texture_dds", "EXT_texture_webp"} \cap s.used # {} /\ (t.basisu # None \/ t.dds # None \/ t.webp # None))
SingleRootOK(s) == /\ Len(s.scenes) = 1 /\ s.scene = 0 /\ s.scenes[1] = <<0>> /\ s.nodes # <<>>
                   /\ LET n == s.nodes[1] IN n.rot = <<0, 0, 0, 8>> /\ n.t = <<0, 0, 0>> /\ n.s = <<1, 1, 1>>
All(s, list, ok(_, _)) == \A k \in DOMAIN list : ok(s, list[k])
Conforms(s) ==
    /\ s.required \subseteq s.used
    /\ All(s, s.accessors, AccessorOK)
    /\ (\A k \in DOMAIN s.accessors : OptIn(s.accessors[k].view, s.views)) /\ All(s, s.animations, AnimationOK)
    /\ \A k \in DOMAIN s.buffers : s.buffers[k].len >= 1
    /\ All(s, s.views, ViewOK)
    /\ \A k \in DOMAIN s.cameras : CameraOK(s.cameras[k])
    /\ \A k \in DOMAIN s.images : OptIn(s.images[k].view, s.views)
    /\ \A k \in DOMAIN s.lights : LightOK(s.lights[k])
    /\ All(s, s.materials, MaterialOK)
    /\ \A k \in DOMAIN s.meshes : All(s, s.meshes[k], PrimitiveOK)
    /\ All(s, s.nodes, NodeOK)
    /\ \A k \in DOMAIN s.samplers : s.samplers[k].mag \in {"", "NEAREST", "LINEAR"}
    /\ \A k \in DOMAIN s.scenes : \A l \in DOMAIN s.scenes[k] : In(s.scenes[k][l], s.nodes)
    /\ All(s, s.skins, SkinOK)
    /\ All(s, s.textures, TextureOK)
    /\ Used(s, "GODOT_single_root") => SingleRootOK(s)
\* Rules of glTF that validation does not check: an asset that breaks one of them and no checked one is left open.
Open(s) ==
    \/ \E m \in DOMAIN s.meshes : \E p \in DOMAIN s.meshes[m] : LET x == s.meshes[m][p] IN
          \/ (Has(x, "JOINTS_0") # Has(x, "WEIGHTS_0")) \/ (Has(x, "JOINTS_1") # Has(x, "WEIGHTS_1"))
          \/ \E k, l \in DOMAIN x.attrs : k # l /\ x.attrs[k][1] = x.attrs[l][1]
          \/ \E k \in DOMAIN x.attrs : LET c == s.accessors[x.attrs[k][2] + 1] IN c.off % 4 # 0 \/ c.n # s.accessors[x.attrs[1][2] + 1].n
                                         \/ (c.view # None /\ (s.views[c.view + 1].stride = None \/ s.views[c.view + 1].stride < Comps(c.t) * Size(c.ct)))
                                         \/ (Known(x.attrs[k][1]) = "custom" /\ c.ct = "f64")
          \/ x.idx # None /\ (s.accessors[x.idx + 1].t # "SCALAR" \/ s.accessors[x.idx + 1].ct \notin {"u8", "u16", "u32"})
          \/ x.draco # None /\ ~Used(s, "KHR_draco_mesh_compression")
    \/ \E k \in DOMAIN s.animations : {s.animations[k].channels[c].sampler + 1 : c \in DOMAIN s.animations[k].channels} # DOMAIN s.animations[k].samplers
    \/ \E k \in DOMAIN s.lights : s.lights[k].inner = s.lights[k].outer /\ s.lights[k].type = "spot"
    \/ \E k \in DOMAIN s.nodes : s.nodes[k].weights # IF s.nodes[k].mesh = None THEN 0 ELSE IF s.nodes[k].weights = 0 THEN 0 ELSE Len(s.meshes[s.nodes[k].mesh + 1][1].targets)
    \/ \E k \in DOMAIN s.views : s.views[k].mo # <<>> /\ s.views[k].mo[1].count * s.views[k].mo[1].stride # s.views[k].len
    \/ s.lights # <<>> /\ ~Used(s, "KHR_lights_punctual")
    \/ \E k \in DOMAIN s.nodes : s.nodes[k].inst # <<>> /\ ~Used(s, "EXT_mesh_gpu_instancing")
    \/ \E k \in DOMAIN s.textures : (s.textures[k].basisu # None /\ ~Used(s, "KHR_texture_basisu")) \/ (s.textures[k].dds # None /\ ~Used(s, "MSFT_texture_dds")) \/ (s.textures[k].webp # None /\ ~Used(s, "EXT_texture_webp"))

\* ---- conforming assets to start from ----
NoBound == [n |-> None, dbl |-> TRUE]
B(n) == [n |-> n, dbl |-> TRUE]
Acc(t, ct, n, view, off, bound) == [t |-> t, ct |-> ct, n |-> n, view |-> view, off |-> off, max |-> bound, min |-> bound, iv |-> None, vv |-> None]
Attrs == <<Acc("VEC3", "f32", 6, 0, 0, B(3)), Acc("VEC3", "f32", 6, 0, 12, NoBound), Acc("VEC4", "f32", 6, 0, 24, NoBound), Acc("VEC2", "f32", 6, 0, 40, NoBound),
           Acc("VEC4", "u8", 6, 0, 48, NoBound), Acc("VEC4", "u16", 6, 0, 52, NoBound), Acc("VEC4", "f32", 6, 0, 60, B(4)), Acc("SCALAR", "u16", 6, 0, 76, NoBound)>>
Names == <<"POSITION", "NORMAL", "TANGENT", "TEXCOORD_0", "COLOR_0", "JOINTS_0", "WEIGHTS_0", "_T">>
AccList == Attrs \o <<Acc("SCALAR", "u16", 12, 1, 0, [n |-> 1, dbl |-> FALSE]), Acc("SCALAR", "f32", 2, 2, 0, B(1)), Acc("VEC3", "f32", 2, 2, 16, NoBound), Acc("VEC3", "f32", 6, 2, 40, NoBound),
             Acc("SCALAR", "f32", 4, 2, 112, NoBound), Acc("MAT4", "f32", 2, 2, 128, NoBound), [Acc("VEC3", "f32", 6, None, 0, NoBound) EXCEPT !.iv = 3, !.vv = 4],
             [Acc("VEC3", "f32", 6, 0, 0, B(3)) EXCEPT !.iv = 3, !.vv = 4]>>
View(len, stride, target) == [buf |-> 0, off |-> 0, len |-> len, stride |-> stride, target |-> target, mo |-> <<>>]
Views == <<View(600, 80, 34962), View(24, None, 34963), View(400, None, None), [View(8, None, None) EXCEPT !.off = 4, !.buf = 1], [View(48, None, None) EXCEPT !.buf = 2], View(64, None, None)>>
FullAttrs == [k \in 1..8 |-> <<Names[k], k - 1>>]
Prim(at, idx, mat, tg) == [attrs |-> at, idx |-> idx, mat |-> mat, targets |-> tg, draco |-> None, maps |-> <<>>]
Node(x) == x @@ [cam |-> None, skin |-> None, mesh |-> None, light |-> None, children |-> <<>>, inst |-> <<>>, k |-> "trs", rot |-> <<0, 0, 0, 8>>, t |-> <<0, 0, 0>>, s |-> <<1, 1, 1>>,
                 weights |-> 0, visible |-> TRUE, selectable |-> TRUE, hoverable |-> TRUE]
Channel(n, p, s) == [node |-> n, path |-> p, sampler |-> s]
Samp(i, o, x) == [in |-> i, out |-> o, interp |-> x]
Persp(x, y, f, n) == [aspect |-> x, yfov |-> y, zfar |-> f, znear |-> n]
Light(t, r, i, o) == [type |-> t, range |-> r, inner |-> i, outer |-> o]
Tex(s, i) == [sampler |-> s, image |-> i, basisu |-> None, dds |-> None, webp |-> None]
Mat(slots, i) == [tex |-> [k \in slots |-> i], has |-> <<>>, strong |-> FALSE, ior |-> FALSE]
Plain == [used |-> {"KHR_lights_punctual"}, required |-> {}, accessors |-> AccList, views |-> Views, buffers |-> <<[len |-> 700], [len |-> 64], [len |-> 64]>>,
  animations |-> <<[channels |-> <<Channel(0, "translation", 0), Channel(0, "scale", 0), Channel(1, "weights", 1), Channel(None, "translation", 2), Channel(None, "translation", 2)>>,
                    samplers |-> <<Samp(9, 10, "LINEAR"), Samp(9, 12, "STEP"), Samp(9, 11, "CUBICSPLINE")>>],
                   [channels |-> <<Channel(2, "scale", 0)>>, samplers |-> <<Samp(9, 10, "STEP")>>],
                   [channels |-> <<Channel(2, "translation", 0), Channel(2, "scale", 1)>>, samplers |-> <<Samp(9, 11, "CUBICSPLINE"), Samp(9, 10, "LINEAR")>>]>>,
  cameras |-> <<Persp(1, 1, 1, 1), Persp(None, 1, None, 1), [xmag |-> 1, ymag |-> 1, zfar |-> 1, znear |-> 1]>>,
  images |-> <<[view |-> 5], [view |-> None], [view |-> 5]>>,
  lights |-> <<Light("point", None, None, None), Light("spot", 5, 200, 785), Light("directional", None, None, None), Light("spot", None, 0, 1570)>>,
  materials |-> <<Mat({}, 0), Mat({k \in DOMAIN Slots : Slots[k] = ""}, 1), Mat({"baseColorTexture"}, 2)>>,
  meshes |-> <<<<Prim(FullAttrs, 8, 0, <<>>), Prim(FullAttrs, None, 1, <<>>)>>,
               <<Prim(<<<<"POSITION", 0>>>>, None, None, <<<<<<"POSITION", 14>>>>, <<<<"POSITION", 14>>, <<"NORMAL", 1>>>>>>)>>,
               <<Prim(<<<<"_T", 7>>, <<"TEXCOORD_0", 3>>, <<"POSITION", 0>>>>, 8, 2, <<>>), Prim(<<<<"COLOR_0", 4>>, <<"_TEMP_2", 7>>>>, 8, None, <<>>), Prim(<<<<"POSITION", 15>>>>, 8, 0, <<>>)>>>>,
  nodes |-> <<Node([mesh |-> 0, skin |-> 0, children |-> <<1, 2>>]), Node([mesh |-> 1, weights |-> 2, light |-> 1, rot |-> <<8, 0, 0, 0>>]), Node([cam |-> 1, k |-> "matrix"]), Node([mesh |-> 2, light |-> 3, cam |-> 2, rot |-> <<0, -8, 0, 0>>])>>,
  samplers |-> <<[mag |-> "NEAREST"], [mag |-> ""], [mag |-> "LINEAR"]>>, scenes |-> <<<<0, 3>>, <<3>>, <<0>>>>, scene |-> 0, variants |-> 0,
  skins |-> <<[joints |-> <<1, 2>>, skel |-> None, ibm |-> 13], [joints |-> <<2>>, skel |-> 0, ibm |-> None]>>,
  textures |-> <<Tex(None, 0), Tex(0, 1), Tex(2, 2)>>]
\* everything that comes from extensions
ExtMat(e) == [tex |-> [k \in {x \in DOMAIN Slots : Slots[x] = e} |-> 1], has |-> <<e>>, strong |-> FALSE, ior |-> FALSE]
Rich == [Plain EXCEPT
  !.used = Features \cup {"KHR_lights_punctual", "KHR_mesh_quantization", "EXT_meshopt_compression", "KHR_materials_variants", "KHR_draco_mesh_compression", "EXT_mesh_gpu_instancing", "KHR_materials_ior",
                          "KHR_materials_emissive_strength", "KHR_texture_basisu", "MSFT_texture_dds", "EXT_texture_webp", "KHR_node_visibility", "KHR_node_selectability", "KHR_node_hoverability"},
  !.required = {"KHR_mesh_quantization", "KHR_draco_mesh_compression", "EXT_meshopt_compression"},
  !.accessors = [k \in DOMAIN AccList |-> CASE k = 1 -> [AccList[1] EXCEPT !.ct = "u16"] [] k = 2 -> [AccList[2] EXCEPT !.ct = "s8"] [] k = 3 -> [AccList[3] EXCEPT !.ct = "s16"]
                                            [] k = 4 -> [AccList[4] EXCEPT !.ct = "s8"] [] OTHER -> AccList[k]],
  !.views = Views \o <<[View(64, None, None) EXCEPT !.mo = <<[buf |-> 1, mode |-> "ATTRIBUTES", stride |-> 4, count |-> 16]>>],
                       [View(12, None, None) EXCEPT !.mo = <<[buf |-> 2, mode |-> "TRIANGLES", stride |-> 2, count |-> 6]>>],
                       [View(16, None, None) EXCEPT !.mo = <<[buf |-> 0, mode |-> "INDICES", stride |-> 4, count |-> 4]>>]>>,
  !.materials = @ \o <<ExtMat("KHR_materials_anisotropy"), ExtMat("KHR_materials_clearcoat"), ExtMat("KHR_materials_diffuse_transmission"), ExtMat("KHR_materials_iridescence"), ExtMat("KHR_materials_sheen"),
                       ExtMat("KHR_materials_specular"), ExtMat("KHR_materials_pbrSpecularGlossiness"), ExtMat("KHR_materials_transmission"), ExtMat("KHR_materials_volume"),
                       ExtMat("MSFT_packing_occlusionRoughnessMetallic"), ExtMat("MSFT_packing_normalRoughnessMetallic"), [Mat({}, 0) EXCEPT !.strong = TRUE], [Mat({}, 0) EXCEPT !.ior = TRUE]>>,
  !.meshes = [@ EXCEPT ![1][1].maps = <<0, None, 2>>, ![3][3].maps = <<1, 1, 1>>, ![2][1].draco = 5, ![3][2].draco = 5],
  !.variants = 3,
  !.nodes = [@ EXCEPT ![2].inst = <<10, 10, 11>>, ![3].visible = FALSE, ![4].selectable = FALSE, ![1].hoverable = FALSE, ![4].inst = <<11>>],
  !.textures = @ \o <<[Tex(None, None) EXCEPT !.basisu = 0], [Tex(0, None) EXCEPT !.dds = 2], [Tex(1, 1) EXCEPT !.webp = 1]>>]
Empty == [Plain EXCEPT !.used = {}, !.accessors = <<>>, !.views = <<>>, !.buffers = <<>>, !.animations = <<>>, !.cameras = <<>>, !.images = <<>>, !.lights = <<>>, !.materials = <<>>, !.meshes = <<>>,
                       !.nodes = <<>>, !.samplers = <<>>, !.scenes = <<>>, !.scene = None, !.skins = <<>>, !.textures = <<>>]
Single == [Empty EXCEPT !.used = {"GODOT_single_root"}, !.scenes = <<<<0>>>>, !.scene = 0, !.nodes = <<Node([children |-> <<1, 2>>]), Node([t |-> <<1, 2, 3>>]), Node([s |-> <<2, 1, 1>>])>>]
SingleMatrix == [Single EXCEPT !.nodes[1].k = "matrix"]
Bases == <<Plain, Rich, Empty, Single, SingleMatrix>>

\* ---- changes ----
\* {<<value, asset>>} of putting each value at a place
Ids(list) == {Len(list), Far}
OptIds(list) == {None, Len(list), Far}
\* the changes come in groups: of one member of the objects of one kind
Groups == 1..55
Group(g, s) ==
    CASE g = 1 -> {[s EXCEPT !.accessors[k].t = v] : k \in {k \in DOMAIN s.accessors : k <= 8}, v \in {"SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "INVALID"}}
      [] g = 2 -> {[s EXCEPT !.accessors[k].t = "INVALID"] : k \in DOMAIN s.accessors}
      [] g = 3 -> {[s EXCEPT !.accessors[k].ct = v] : k \in {k \in DOMAIN s.accessors : k <= 8}, v \in {"s8", "u8", "s16", "u16", "u32", "f32", "f64"}}
      [] g = 4 -> {[s EXCEPT !.accessors[k].ct = "INVALID"] : k \in DOMAIN s.accessors}
      [] g = 5 -> {[s EXCEPT !.accessors[k].n = v] : k \in DOMAIN s.accessors, v \in {0}}
      [] g = 6 -> {[s EXCEPT !.accessors[k].n = v] : k \in {k \in DOMAIN s.accessors : k \in 10..12}, v \in {1, 2, 3, 5, 6, 9}}
      [] g = 7 -> {[s EXCEPT !.accessors[k].view = v] : k \in DOMAIN s.accessors, v \in Ids(s.views)}
      [] g = 8 -> {[s EXCEPT !.accessors[k].view = v, !.accessors[k].off = 0] : k \in {k \in DOMAIN s.accessors : k <= 9}, v \in {None}}
      [] g = 9 -> {[s EXCEPT !.accessors[k].off = @ + v] : k \in DOMAIN s.accessors, v \in {1, 2}}
      [] g = 10 -> {[s EXCEPT !.accessors[k].max = v] : k \in {k \in DOMAIN s.accessors : k # 10}, v \in {NoBound} \cup [n : {1, 2, 3, 4, 16}, dbl : BOOLEAN]}
      [] g = 11 -> {[s EXCEPT !.accessors[k].min = v] : k \in {k \in DOMAIN s.accessors : k # 10}, v \in {NoBound} \cup [n : {1, 2, 3, 4, 16}, dbl : BOOLEAN]}
      [] g = 12 -> {[s EXCEPT !.accessors[k].iv = v] : k \in {k \in DOMAIN s.accessors : s.accessors[k].iv # None}, v \in 0..6 \cup {Far}}
      [] g = 13 -> {[s EXCEPT !.accessors[k].vv = v] : k \in {k \in DOMAIN s.accessors : s.accessors[k].iv # None}, v \in 0..6 \cup {Far}}
      [] g = 14 -> {[s EXCEPT !.accessors[k].iv = v[1], !.accessors[k].vv = v[2]] : k \in {k \in DOMAIN s.accessors : k \in {1, 7, 14}}, v \in {<<3, 4>>, <<0, 4>>, <<3, 1>>, <<Far, 4>>, <<3, Far>>}}
      [] g = 15 -> {[s EXCEPT !.views[k].len = 0] : k \in DOMAIN s.views}
      [] g = 16 -> {[s EXCEPT !.views[k].buf = v] : k \in DOMAIN s.views, v \in Ids(s.buffers)}
      [] g = 17 -> {[s EXCEPT !.views[k].off = v] : k \in {k \in DOMAIN s.views : k <= 3}, v \in {1, 2, 4}}
      [] g = 18 -> {[s EXCEPT !.views[k].stride = v] : k \in {k \in DOMAIN s.views : k <= 5}, v \in {0, 1, 2, 3, 6, 82, 253, 254, 256, 260}}
      [] g = 19 -> {[s EXCEPT !.views[k].stride = v] : k \in {k \in DOMAIN s.views : k \in {1, 2, 4, 5}}, v \in {4, 80, 252}}
      [] g = 20 -> {[s EXCEPT !.views[k].target = 34962] : k \in {k \in DOMAIN s.views : k \in {4, 5}}}
      [] g = 21 -> UNION {{[s EXCEPT !.views[k].mo[1].buf = v] : v \in Ids(s.buffers)} \cup {[s EXCEPT !.views[k].mo[1].stride = v] : v \in {1, 3, 6, 8, 256, 258, 260}}
           \cup {[s EXCEPT !.views[k].mo[1].count = v] : v \in {4, 5, 7}}
           \cup {[s EXCEPT !.views[k].mo[1].stride = v[1], !.views[k].mo[1].count = v[2], !.views[k].len = v[1] * v[2]] : v \in {<<2, 3>>, <<4, 9>>, <<256, 2>>, <<8, 3>>, <<4, 4>>, <<260, 1>>}} :
           k \in {k \in DOMAIN s.views : s.views[k].mo # <<>>}}
      [] g = 22 -> {[s EXCEPT !.buffers[k].len = 0] : k \in DOMAIN s.buffers}
      [] g = 23 -> UNION {{[s EXCEPT !.animations[k].channels = <<>>], [s EXCEPT !.animations[k].samplers = <<>>]}
           \cup {[s EXCEPT !.animations[k].samplers[m].in = v] : m \in DOMAIN s.animations[k].samplers, v \in Ids(s.accessors) \cup {0, 8, 10}}
           \cup {[s EXCEPT !.animations[k].samplers[m].out = v] : m \in DOMAIN s.animations[k].samplers, v \in Ids(s.accessors) \cup {10, 11}}
           \cup {[s EXCEPT !.animations[k].samplers[m].interp = v] : m \in DOMAIN s.animations[k].samplers, v \in {"LINEAR", "STEP", "CUBICSPLINE"}}
           \cup UNION {{[s EXCEPT !.animations[k].channels[m].sampler = v] : v \in Ids(s.animations[k].samplers)}
                       \cup {[s EXCEPT !.animations[k].channels[m].node = v] : v \in 0..2 \cup {None}}
                       \cup {[s EXCEPT !.animations[k].channels[m].path = v] : v \in IF s.animations[k].channels[m].path = "weights" THEN {} ELSE {"translation", "scale"}} : m \in DOMAIN s.animations[k].channels} :
           k \in DOMAIN s.animations}
      [] g = 24 -> {[s EXCEPT !.cameras[k][f] = 0] : k \in {k \in DOMAIN s.cameras : "xmag" \notin DOMAIN s.cameras[k]}, f \in {"aspect", "yfov", "zfar", "znear"}}
      [] g = 25 -> {[s EXCEPT !.cameras[k].zfar = 0] : k \in {k \in DOMAIN s.cameras : "xmag" \in DOMAIN s.cameras[k]}}
      [] g = 26 -> {[s EXCEPT !.images[k].view = v] : k \in DOMAIN s.images, v \in Ids(s.views)}
      [] g = 27 -> {[s EXCEPT !.lights[k].range = v] : k \in DOMAIN s.lights, v \in {None, 0, 1, -2}}
      [] g = 28 -> {[s EXCEPT !.lights[k].inner = v] : k \in DOMAIN s.lights, v \in {-100, 0, 300, 1000, 2000}}
      [] g = 29 -> {[s EXCEPT !.lights[k].outer = v] : k \in DOMAIN s.lights, v \in {0, 100, 785, 1570, 1572, 3000}}
      [] g = 30 -> UNION {{[s EXCEPT !.materials[k].tex[f] = v] : f \in DOMAIN s.materials[k].tex, v \in Ids(s.textures) \cup {0}} : k \in DOMAIN s.materials}
      [] g = 31 -> {[s EXCEPT !.materials[k].strong = ~@] : k \in DOMAIN s.materials}
      [] g = 32 -> {[s EXCEPT !.materials[k].ior = ~@] : k \in DOMAIN s.materials}
      [] g = 33 -> {[s EXCEPT !.materials[k].has = <<e>>] : k \in {k \in DOMAIN s.materials : k <= 3}, e \in Features}
      [] g = 34 -> {[s EXCEPT !.used = @ \ {e}] : e \in s.used}
      [] g = 35 -> {[s EXCEPT !.required = @ \cup {e}] : e \in {"KHR_lights_punctual", "KHR_materials_sheen", "EXT_not_known"}}
      [] g = 36 -> {[s EXCEPT !.used = @ \cup {"GODOT_single_root"}], [s EXCEPT !.used = @ \cup {"KHR_mesh_quantization"}], [s EXCEPT !.required = s.used, !.used = {}]}
      [] g = 37 -> UNION {UNION {
        {[s EXCEPT !.meshes[m][p].mat = v] : v \in OptIds(s.materials)}
        \cup {[s EXCEPT !.meshes[m][p].idx = v] : v \in OptIds(s.accessors)}
        \cup {[s EXCEPT !.meshes[m][p].draco = v] : v \in OptIds(s.views)}
        \cup {[s EXCEPT !.meshes[m][p].maps = v] : v \in {<<0>>, <<0, 1, 2>>, <<0, 1, 2, 0>>, <<None, None, None>>, <<0, 1, Len(s.materials)>>, <<Far, None, None>>}}
        \cup {[s EXCEPT !.meshes[m][p].attrs[x][2] = v] : x \in DOMAIN s.meshes[m][p].attrs, v \in Ids(s.accessors)}
        \cup {[s EXCEPT !.meshes[m][p].attrs[x][1] = v] : x \in DOMAIN s.meshes[m][p].attrs,
                v \in {"FOO", "position", "COLOR", "TEXCOORD", "POSITIONS", "_TEMP_2", "POSITION", "NORMAL", "TANGENT", "TEXCOORD_1", "COLOR_1", "JOINTS_1", "WEIGHTS_1"}}
        \cup UNION {{[s EXCEPT !.meshes[m][p].targets[x][y][2] = v] : y \in DOMAIN s.meshes[m][p].targets[x], v \in Ids(s.accessors)} : x \in DOMAIN s.meshes[m][p].targets} :
        p \in DOMAIN s.meshes[m]} : m \in DOMAIN s.meshes}
      [] g = 38 -> UNION {{[s EXCEPT !.nodes[k].cam = v] : v \in OptIds(s.cameras)} \cup {[s EXCEPT !.nodes[k].skin = v] : v \in OptIds(s.skins) \cup {0}}
           \cup {[s EXCEPT !.nodes[k].mesh = v] : v \in OptIds(s.meshes) \cup (IF s.meshes = <<>> THEN {} ELSE {0, 2})} \cup {[s EXCEPT !.nodes[k].light = v] : v \in OptIds(s.lights)}
           \cup {[s EXCEPT !.nodes[k].children = Append(@, v)] : v \in Ids(s.nodes)} \cup {[s EXCEPT !.nodes[k].inst = Append(@, v)] : v \in Ids(s.accessors)}
           \cup {[s EXCEPT !.nodes[k].children = <<v>> \o @] : v \in Ids(s.nodes)} \cup {[s EXCEPT !.nodes[k].inst = <<v>> \o @] : v \in Ids(s.accessors)}
           \cup {[s EXCEPT !.nodes[k].weights = v] : v \in {0, 2}}
           \cup (IF s.nodes[k].k = "trs" THEN {[s EXCEPT !.nodes[k].rot[c] = v] : c \in 1..4, v \in {9, -9}} \cup {[s EXCEPT !.nodes[k].rot = v] : v \in {<<0, 0, 8, 0>>, <<0, 0, 0, 8>>, <<0, 8, 0, 0>>}} ELSE {})
           \cup {[s EXCEPT !.nodes[k].t[c] = 1] : c \in 1..3} \cup {[s EXCEPT !.nodes[k].s[c] = 2] : c \in 1..3}
           \cup {[s EXCEPT !.nodes[k].visible = ~@], [s EXCEPT !.nodes[k].selectable = ~@], [s EXCEPT !.nodes[k].hoverable = ~@]} : k \in DOMAIN s.nodes}
      [] g = 39 -> {[s EXCEPT !.samplers[k].mag = v] : k \in DOMAIN s.samplers, v \in {"", "NEAREST", "LINEAR", "NEAREST_MIPMAP_NEAREST", "LINEAR_MIPMAP_NEAREST", "NEAREST_MIPMAP_LINEAR", "LINEAR_MIPMAP_LINEAR"}}
      [] g = 40 -> {[s EXCEPT !.scenes[k] = Append(@, v)] : k \in DOMAIN s.scenes, v \in Ids(s.nodes)}
      [] g = 41 -> {[s EXCEPT !.scenes[k] = <<v>> \o @] : k \in DOMAIN s.scenes, v \in Ids(s.nodes)}
      [] g = 42 -> {[s EXCEPT !.scenes = Append(@, <<1>>)], [s EXCEPT !.scenes = <<>>, !.scene = None], [s EXCEPT !.scene = None], [s EXCEPT !.scenes = <<<<1>>>>, !.scene = 0], [s EXCEPT !.scenes = <<<<0, 1>>>>, !.scene = 0]}
      [] g = 43 -> IF Len(s.scenes) > 1 THEN {[s EXCEPT !.scene = 1]} ELSE {}
      [] g = 44 -> {[s EXCEPT !.nodes = <<>>, !.scenes = <<>>, !.scene = None, !.skins = <<>>]}
      [] g = 45 -> UNION {{[s EXCEPT !.skins[k].joints = v] : v \in {<<>>, Append(s.skins[k].joints, Len(s.nodes)), <<Far>> \o s.skins[k].joints}}
           \cup {[s EXCEPT !.skins[k].skel = v] : v \in OptIds(s.nodes)} \cup {[s EXCEPT !.skins[k].ibm = v] : v \in OptIds(s.accessors)} : k \in DOMAIN s.skins}
      [] g = 46 -> UNION {{[s EXCEPT !.textures[k].sampler = v] : v \in OptIds(s.samplers)} \cup {[s EXCEPT !.textures[k][f] = v] : f \in {"image", "basisu", "dds", "webp"}, v \in OptIds(s.images) \cup {0}} : k \in DOMAIN s.textures}
      \* what is barely enough: one element, one byte, a rotation to the ends of the range
      [] g = 47 -> {[s EXCEPT !.accessors[k].t = v, !.accessors[k].max = B(Comps(v)), !.accessors[k].min = B(Comps(v))] : k \in {k \in DOMAIN s.accessors : k <= 8}, v \in {"SCALAR", "VEC2", "VEC3", "VEC4", "MAT2"}}
      [] g = 48 -> {[s EXCEPT !.accessors = Append(@, x)] : x \in {Acc(t, ct, n, None, off, b) : t \in {"SCALAR", "MAT4"}, ct \in {"u16", "f32", "f64"}, n \in {1, 2}, off \in {0, 2, 4, 8}, b \in {NoBound, B(16)}}}
      [] g = 49 -> {[s EXCEPT !.buffers = Append(@, [len |-> v])] : v \in {0, 1}} \cup {[s EXCEPT !.buffers = Append(@, [len |-> 8]), !.views = Append(@, [View(v, None, None) EXCEPT !.buf = Len(s.buffers)])] : v \in {0, 1, 2}}
      [] g = 50 -> {[s EXCEPT !.buffers = Append(@, [len |-> 800]), !.views = Append(@, [View(700, st, None) EXCEPT !.buf = Len(s.buffers), !.off = vo]), !.accessors = Append(@, Acc("SCALAR", ct, 1, Len(s.views), ao, NoBound))] :
                     st \in {None, 4, 8, 12, 252}, ct \in {"s16", "f32", "f64"}, vo \in {0, 1, 2, 4, 6, 8}, ao \in {0, 1, 2, 4, 6, 8}}
      [] g = 51 -> UNION {{[s EXCEPT !.nodes[k].rot = [x \in 1..4 |-> IF x = c THEN v ELSE 0]] : c \in 1..4, v \in {8, -8, 9, -9}} : k \in {k \in DOMAIN s.nodes : s.nodes[k].k = "trs"}}
      \* animations of which every combination of counts and interpolations is tried, with and without buffer views
      [] g = 52 -> {[s EXCEPT !.used = IF ct = "f64" THEN @ \cup {"KHR_accessor_float64"} ELSE @, !.nodes = IF @ = <<>> THEN <<Node([t |-> <<0, 0, 0>>])>> ELSE @,
                        !.accessors = @ \o <<Acc("SCALAR", ct, ni, None, 0, B(1)), Acc("VEC3", "f32", no, None, 0, NoBound)>>,
                        !.animations = @ \o <<[channels |-> <<Channel(0, p, 0)>>, samplers |-> <<Samp(Len(s.accessors), Len(s.accessors) + 1, x)>>]>>] :
                     ct \in {"f32", "f64", "u16"}, ni \in {1, 2, 3}, no \in {1, 2, 3, 6, 9}, x \in {"LINEAR", "STEP", "CUBICSPLINE"}, p \in {"translation", "scale"}}
      \* textures of which only an extension names the image, with that extension, another or none
      [] g = 53 -> {[s EXCEPT !.used = (@ \ {"KHR_texture_basisu", "MSFT_texture_dds", "EXT_texture_webp"}) \cup u, !.images = Append(@, [view |-> None]),
                        !.textures = [k \in DOMAIN s.textures |-> [s.textures[k] EXCEPT !.image = IF s.images = <<>> THEN 0 ELSE IF @ = None THEN 0 ELSE @, !.basisu = None, !.dds = None, !.webp = None]] \o <<[Tex(None, i) EXCEPT ![f] = 0]>>] :
                     u \in SUBSET {"KHR_texture_basisu", "MSFT_texture_dds", "EXT_texture_webp"}, i \in {None, 0}, f \in {"basisu", "dds", "webp"}}
      [] g = 54 -> {[s EXCEPT !.textures = Append(@, Tex(None, None)), !.used = @ \cup u] : u \in {{}, {"KHR_texture_basisu"}, {"MSFT_texture_dds", "EXT_texture_webp"}}}
      \* required and used extensions
      [] g = 55 -> {[s EXCEPT !.used = @ \cup u, !.required = r] : u \in {{}, {"KHR_materials_unlit"}, {"KHR_materials_unlit", "KHR_texture_transform"}}, r \in SUBSET {"KHR_materials_unlit", "KHR_texture_transform", "KHR_accessor_float64"}}
EditsOf(s) == UNION {Group(g, s) : g \in Groups}

Init == did = 0 /\ a \in Range(Bases)
Change == did < Depth /\ did' = did + 1 /\ IF Mode = "single" THEN a' \in EditsOf(a) ELSE \E g \in {R(Groups)} : \E es \in {Group(g, a)} : IF es = {} THEN a' = a ELSE \E b \in {R(es)} : a' = b
Next == Change
Spec == Init /\ [][Next]_vars

\* the assets to start from conform, to the rules that are checked and the others
BasesConform == did > 0 \/ (Conforms(a) /\ ~Open(a))
Emit == (did = 0 /\ Mode = "any") \/ (Conforms(a) /\ Open(a)) \/ PrintT("@@" \o ToJson([asset |-> a, exp |-> [ok |-> Conforms(a)]]))
=============================================================================
