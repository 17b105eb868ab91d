"""Rendering of the specification's tagged documents as JSON text, and comparison of dumped assets with what they denote."""
import json, random, struct

EXTENSIONS = ["KHR_texture_transform", "KHR_texture_basisu", "MSFT_texture_dds", "KHR_mesh_quantization", "EXT_meshopt_compression",
  "KHR_lights_punctual", "EXT_texture_webp", "KHR_materials_specular", "KHR_materials_ior", "KHR_materials_iridescence",
  "KHR_materials_volume", "KHR_materials_transmission", "KHR_materials_clearcoat", "KHR_materials_emissive_strength",
  "KHR_materials_sheen", "KHR_materials_unlit", "KHR_materials_anisotropy", "EXT_mesh_gpu_instancing",
  "KHR_materials_pbrSpecularGlossiness", "MSFT_packing_normalRoughnessMetallic", "MSFT_packing_occlusionRoughnessMetallic",
  "KHR_materials_dispersion", "KHR_materials_variants", "KHR_accessor_float64", "KHR_draco_mesh_compression",
  "KHR_implicit_shapes", "KHR_physics_rigid_bodies", "GODOT_single_root", "KHR_materials_diffuse_transmission",
  "KHR_node_visibility", "KHR_node_selectability", "KHR_node_hoverability"]
EXOTIC = ["\u00e9\U0001f600 \"q\\ /\b\t\n\x01", "a\\", "\\\"", "\"", "\u2028\x7f\x1f{}[],:", "tab\there\\\\", "null\x00byte", "\u4f60\u597d", " lead and trail ", "\\u0041"]
ROOT = {"lights": ("KHR_lights_punctual", "lights"), "variants": ("KHR_materials_variants", "variants"), "shapes": ("KHR_implicit_shapes", "shapes"),
        "physicsMaterials": ("KHR_physics_rigid_bodies", "physicsMaterials"), "collisionFilters": ("KHR_physics_rigid_bodies", "collisionFilters"),
        "physicsJoints": ("KHR_physics_rigid_bodies", "physicsJoints")}
TOPS = ["accessors", "animations", "buffers", "bufferViews", "cameras", "images", "materials", "meshes", "nodes", "samplers", "scenes", "skins",
        "textures", "lights", "variants", "shapes", "physicsMaterials", "collisionFilters", "physicsJoints"]


def exts(x):
    """the list of enabled extensions an emitted set stands for"""
    if x and x[0] == "-":
        return [e for e in EXTENSIONS if e not in x[1:]]
    return x


class Style:
    """how a document is written: key order, whitespace, escapes, unknown members"""
    def __init__(self, seed=None, exotic=0):
        self.r = random.Random(seed) if seed is not None else None
        self.u = EXOTIC[exotic % len(EXOTIC)]

    def string(self, s):
        s = s.replace("@U", self.u)
        if self.r and self.r.random() < 0.3:
            return '"' + "".join("\\u%04x" % c if c < 0xd800 or c > 0xdfff else "\\u%04x" % c for c in struct.unpack("<%dH" % (len(s.encode("utf-16-le")) // 2), s.encode("utf-16-le"))) + '"'
        return json.dumps(s, ensure_ascii=bool(self.r and self.r.random() < 0.5))

    def ws(self):
        return self.r.choice(["", "", " ", "\n", "\t ", "\r\n"]) if self.r else ""

    def number(self, t):
        if self.r and "." not in t and "e" not in t and "inf" not in t:
            return t
        if self.r and "." in t and "e" not in t and self.r.random() < 0.3:
            return repr(float(t) * 10) + "e-1" if float(repr(float(t) * 10) + "e-1") == float(t) else t
        return t

    def render(self, v, top=False, nested=True, keep=False):
        k = v[0]
        if k == "n":
            return self.number(v[1])
        if k == "s":
            return self.string(v[1])
        if k == "b":
            return "true" if v[1] else "false"
        if k == "z":
            return "null"
        w = self.ws
        if k == "a":
            return "[" + w() + ("," + w()).join(self.render(x, keep=keep) + w() for x in v[1]) + "]"
        members = [(m[0], self.render(m[1], nested=m[0] not in ("extensions", "extras"), keep=keep or m[0] in ("extras", "attributes", "targets"))) for m in v[1]]
        if self.r:
            self.r.shuffle(members)
            names = {m[0] for m in members}
            if nested and not keep and names and self.r.random() < 0.5:
                members.insert(self.r.randrange(len(members) + 1), self.r.choice([("unknownMember", "[1,{\"a\":null}]"), ("x-vendor", "\"y\""), ("zz", "{\"extras\":{}}")]))
            if nested and not keep and not top and "extras" not in names and self.r.random() < 0.3:
                members.append(("extras", '{"nested":true}'))
            if nested and not keep and "extensions" not in names and self.r.random() < 0.2:
                members.append(("extensions", '{"VENDOR_unknown":{"index":7,"extras":{"a":1}}}'))
        return "{" + w() + ("," + w()).join(self.string(a) + w() + ":" + w() + b + w() for a, b in members) + "}"

    def document(self, doc, asset='{"version":"2.0"}', root=()):
        """doc: [[top, [elements]]]; root: additional (name, text) members"""
        members = [("asset", asset)] if asset is not None else []
        ext = {}
        for top, els, *other in doc:
            text = self.render(other[0]) if other else "[" + ",".join(self.ws() + self.render(e, top=True) for e in els) + self.ws() + "]"
            if top in ROOT:
                ext.setdefault(ROOT[top][0], []).append((ROOT[top][1], text))
            else:
                members.append((top, text))
        members += list(root)
        if self.r:
            self.r.shuffle(members)
        if ext:
            items = [(k, "{" + ",".join(json.dumps(a) + ":" + b for a, b in v) + "}") for k, v in ext.items()]
            if self.r:
                items.append(("VENDOR_root", "{\"lights\":[1]}"))
                self.r.shuffle(items)
            t = "{" + ",".join(json.dumps(a) + ":" + b for a, b in items) + "}"
            members.insert(self.r.randrange(len(members) + 1) if self.r else len(members), ("extensions", t))
        if self.r and self.r.random() < 0.5:
            members.insert(self.r.randrange(len(members) + 1), self.r.choice([("extras", '{"root":1}'), ("unknownRoot", "5"), ("unknownArray", "[1,2]"), ("x", "{}")]))
        w = self.ws
        return w() + "{" + ("," + w()).join(json.dumps(a) + w() + ":" + w() + b + w() for a, b in members) + "}" + w()


def f32(t):
    if t == "inf":
        return "inf"
    v = struct.unpack("<f", struct.pack("<f", float(t)))[0]
    s = "%.9g" % v
    return "0" if s == "-0" else s


def plain(v, u):
    """the tagged value as plain Python data with exact numbers as ('n', text)"""
    k = v[0]
    if k == "n":
        return ("n", v[1])
    if k == "s":
        return v[1].replace("@U", u)
    if k == "b":
        return v[1]
    if k == "z":
        return None
    if k == "a":
        return [plain(x, u) for x in v[1]]
    return {m[0].replace("@U", u): plain(m[1], u) for m in v[1]}


def diff(exp, got, path=""):
    """None if the dumped value equals the expected one, else a description"""
    if isinstance(exp, tuple):
        if isinstance(got, bool) or got is None:
            return "%s is %r, the document gives %s" % (path, got, exp[1])
        if isinstance(got, int):
            ok = "." not in exp[1] and exp[1] != "inf" and int(exp[1]) == got
        else:
            ok = isinstance(got, str) and got[:1] == "#" and got[1:] == f32(exp[1])
        return None if ok else "%s is %r, the document gives %s" % (path, got, exp[1])
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return "%s is %r, the document gives an object" % (path, got)
        if set(exp) != set(got):
            return "%s has members %s, expected %s" % (path, sorted(got), sorted(exp))
        for k in exp:
            d = diff(exp[k], got[k], path + "." + k)
            if d:
                return d
        return None
    if isinstance(exp, list):
        if not isinstance(got, list) or len(exp) != len(got):
            return "%s has %s elements, expected %d" % (path, len(got) if isinstance(got, list) else got, len(exp))
        for i, (a, b) in enumerate(zip(exp, got)):
            d = diff(a, b, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if type(exp) is not type(got) or exp != got:
        return "%s is %r, the document gives %r" % (path, got, exp)
    return None


def asset_diff(load, got, u):
    """load: an emitted outcome with ok = TRUE; got: the dumped asset"""
    exp = dict((t, v) for t, v in load["exp"])
    for t in TOPS:
        d = diff([plain(x, u) for x in exp.get(t, [])], got[t], t)
        if d:
            return d
    return None
