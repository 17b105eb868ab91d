import json, vlib

MODES = {"POINTS": 0, "LINES": 1, "LINE_LOOP": 2, "LINE_STRIP": 3, "TRIANGLES": 4, "TRIANGLE_STRIP": 5, "TRIANGLE_FAN": 6}
CATS = [["All"], ["meshes"], ["OnlyRenderable"], ["nodes", "scenes"], ["materials"], ["scenes", "skins"]]
URI = "data:application/octet-stream;base64," + "AAECAwQF" * 8


def document(e, glb):
    accs, views, meshes = [], [{"buffer": 0, "byteLength": 4}, {"buffer": 0, "byteLength": 8}], []
    buffers = [{"byteLength": 8} if glb else {"byteLength": 48, "uri": URI}, {"byteLength": 48, "uri": URI}, {"byteLength": 12 * 300, "uri": "data:application/octet-stream;base64," + "AAAA" * 1200}]
    views.append({"buffer": 2, "byteLength": 3600, "target": 34962})
    for a in e["accs"]:
        d = {"count": a["count"], "type": "VEC3", "componentType": 5126, "min": [0, 0, 0], "max": [1, 1, 1]}
        if a["base"]:
            d["bufferView"] = 2
        accs.append(d)
    n = len(accs)
    # accessors of other lengths than the positions have
    accs += [{"count": 2, "type": "SCALAR", "componentType": 5121, "bufferView": 0}, {"count": 3, "type": "VEC2", "componentType": 5126}, {"count": 9, "type": "VEC3", "componentType": 5126}]
    for p in e["prims"]:
        while len(meshes) < p["mesh"]:
            meshes.append({"primitives": [], "name": "m%d" % len(meshes)})
        at = {}
        if p["before"]:
            at["_BEFORE"] = n + 1
        at["POSITION"] = p["pos"] - 1
        if p["after"]:
            at["NORMAL"] = n + 2
        if p["after"] > 1:
            at["TEXCOORD_0"] = n + 1
        d = {"attributes": at}
        if p["mode"] != "TRIANGLES" or p["after"]:
            d["mode"] = MODES[p["mode"]]
        if p["idx"]:
            d["indices"] = n
        if p["before"]:
            d["targets"] = [{"POSITION": n + 2}]
        meshes[-1]["primitives"].append(d)
    return {"asset": {"version": "2.0"}, "buffers": buffers, "bufferViews": views, "accessors": accs, "meshes": [m for m in meshes if m["primitives"]],
            "materials": [{}], "nodes": [{"mesh": 0}], "scenes": [{"nodes": [0]}], "scene": 0}


def scenario(e, i):
    glb = i % 5 == 3
    return {"text": json.dumps(document(e, glb)), "glb": glb, "x": [[], ["KHR_mesh_quantization"]][i // 3 % 2], "opts": [[], ["LoadExternalBuffers"], ["DecomposeNodeMatrices"]][i // 7 % 3],
            "cats": CATS[i // 2 % 6] if i % 2 else ["All"], "write": [False, "glb", "gltf"][i % 3], "made": e["made"], "prims": e["prims"], "accs": e["accs"]}


def loaded(s):
    return s["cats"][0] != "materials"


def items(s, r):
    """what the implementation generated, with what it stands for"""
    out = []
    for how in ("prims", "again"):
        got = r.get(how)
        if isinstance(got, list) and len(got) == len(s["prims"]):
            for m in s["made"]:
                g = got[m["prim"] - 1]
                if "runs" in g:
                    out.append({"mode": m["mode"], "n": m["n"], "ct": g["ct"], "runs": g["runs"]})
    return out


class Judge:
    def __init__(self, c):
        self.c, self.known = c, {}

    def learn(self, xs):
        new = sorted({json.dumps(x) for x in xs} - set(self.known))
        if new:
            t = self.c.tlc("MeshIndices", "MeshIndices.cfg", {"Mode": '"judge"'}, files={"runs.json": "[%s]" % ",".join(new)})
            for v in t.emitted:
                self.known[new[v["i"] - 1]] = v["ok"]

    def __call__(self, s, r):
        if r["base"] != "None" or r["gen"] != "None":
            return "load: without the option %s, with it %s" % (r["base"], r["gen"])
        if r.get("rest"):
            return "rest: " + r["rest"]
        if s["cats"] == ["All"] and r["validate"] != ["None", "None"]:
            return "validation: without the option %s, with it %s" % tuple(r["validate"])
        if not loaded(s):
            return "primitives without meshes" if r["prims"] or r["added"] != [0, 0, 0] else None
        self.learn(items(s, r))
        made = {m["prim"]: m for m in s["made"]}
        for how in ("prims", "again"):
            got = r.get(how)
            if got is None:
                continue
            if isinstance(got, str):
                return "again: " + got
            if len(got) != len(s["prims"]):
                return "%s: %d primitives, specification %d" % (how, len(got), len(s["prims"]))
            for i, g in enumerate(got, 1):
                m = made.get(i)
                if m is None:
                    if g.get("kept") is False:
                        return "prims: primitive %d had indices and has others" % i
                elif "bad" in g:
                    return "%s: primitive %d: %s" % (how, i, g["bad"])
                elif not self.known[json.dumps({"mode": m["mode"], "n": m["n"], "ct": g["ct"], "runs": g["runs"]})]:
                    return "%s: primitive %d, %d vertices as %s: the %s indices %r" % (how, i, m["n"], m["mode"], g["ct"], g["runs"][:6])
        if not s["made"] and r["added"] != [0, 0, 0]:
            return "added: entries although every primitive has indices"
        return None


def key(s, r, why):
    return why.split(":")[0] + (":" + why.split(" as ")[1].split(":")[0] if " as " in why else "")


def run(c):
    exe = vlib.build("h_indices")
    judge = Judge(c)
    ems = c.tlc("MeshIndices", "MeshIndices.cfg").emitted + c.tlc("MeshIndices", "MeshIndices.cfg", {"Mode": '"any"', "MaxPrims": 6}, simulate=vlib.tier(1500, 30000), depth=16).emitted
    sc = [scenario(e, i) for i, e in enumerate(ems)]
    judge.learn([x for s, r in zip(sc, c.replay(exe, sc)) if "crash" not in r and not r.get("skipped") for x in items(s, r)])
    c.conform(exe, sc, judge, key=key)
    c.extra.update(documents=len(sc), index_lists=len(judge.known))
    c.assumptions += ["every primitive has positions; index lists are judged by the points, lines and triangles they describe"]
