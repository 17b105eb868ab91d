import json, math, struct, vlib, gltfdoc


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def node(n, i):
    o = {"name": "n%d" % i}
    if n["k"] == "matrix":
        o["matrix"] = [x / n["d"] for c in n["m"] for x in c]
    elif n["k"] == "trs":
        if "t" in n["has"]:
            o["translation"] = [x / 8 for x in n["t"]]
        if "r" in n["has"]:
            l = math.sqrt(sum(x * x for x in n["q"]))
            o["rotation"] = [x / l for x in n["q"]]
        if "s" in n["has"]:
            o["scale"] = [x / 8 for x in n["s"]]
    return o


def scenario(e):
    doc = {"asset": {"version": "2.0"}, "scene": 0, "scenes": [{"nodes": list(range(len(e["nodes"])))}], "nodes": [node(n, i) for i, n in enumerate(e["nodes"])],
           "meshes": [], "cameras": [{"type": "perspective", "perspective": {"yfov": 1, "znear": 1}}]}
    del doc["meshes"]
    return {"texts": [json.dumps(doc)], "loads": [{"x": [], "opts": o} for o in ([], ["DecomposeNodeMatrices"], ["DecomposeNodeMatrices", "LoadExternalBuffers"])], "nodes": e["nodes"], "doc": doc}


def nums(a):
    return [float(x[1:]) for x in a]


def recompose(t, q, s):
    x, y, z, w = q
    r = [[1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y)],
         [2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x)],
         [2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)]]
    return [[v * s[j] for v in r[j]] + [0.0] for j in range(3)] + [list(t) + [1.0]]


def judge(s, r):
    for l, got in zip(s["loads"], r["loads"]):
        dec = "DecomposeNodeMatrices" in l["opts"]
        if got["error"] != "None":
            return "load fails: %s" % got["error"]
        ns = got["asset"]["nodes"]
        if len(ns) != len(s["nodes"]):
            return "%d nodes, specification %d" % (len(ns), len(s["nodes"]))
        for i, (n, g) in enumerate(zip(s["nodes"], ns)):
            want = s["doc"]["nodes"][i]
            at = "node %d %s%s" % (i, n["k"], " decomposed" if dec else "")
            if n["k"] == "matrix" and not dec:
                if g["matrix"] is None or nums(g["matrix"]) != [float("%.9g" % f32(x)) for x in want["matrix"]]:
                    return at + ": matrix %r, document %r" % (g["matrix"], want["matrix"])
                continue
            if g["matrix"] is not None:
                return at + ": still has a matrix"
            t, q, sc = nums(g["translation"]), nums(g["rotation"]), nums(g["scale"])
            if n["k"] == "matrix":
                if abs(sum(x * x for x in q) - 1) > 1e-5:
                    return at + ": rotation %r is no unit quaternion" % q
                m = recompose(t, q, sc)
                for j in range(4):
                    w = [x / n["d"] for x in n["m"][j]]
                    tol = 2e-5 * max(map(abs, w)) + 1e-9
                    for a, b in zip(m[j], w):
                        if not abs(a - b) <= tol:
                            return at + ": translation, rotation and scale multiply to %r in column %d, matrix %r" % (m[j], j, w)
            else:
                for k, v, d in (("translation", t, [0, 0, 0]), ("rotation", q, [0, 0, 0, 1]), ("scale", sc, [1, 1, 1])):
                    w = [float("%.9g" % f32(x)) for x in want.get(k, d)]
                    if v != w:
                        return at + ": %s %r, document %r" % (k, v, w)
        a, b = (json.loads(json.dumps(x["asset"])) for x in (r["loads"][0], got))
        for x in (a, b):
            for n in x["nodes"]:
                for k in ("matrix", "translation", "rotation", "scale"):
                    n.pop(k)
        if a != b:
            return "the option changes something other than transforms"
    return None


def key(s, r, why):
    return why.split(":")[0].split(" ", 2)[-1] if why.startswith("node") else why.split("\n")[0][:80]


def run(c):
    exe = vlib.build("h_load")
    runs = [c.tlc("Decompose", "Decompose.cfg"),
            c.tlc("Decompose", "Decompose.cfg", {"Mode": '"any"', "Depth": 8}, simulate=vlib.tier(800, 40000), depth=9)]
    ax = runs[0].emitted
    docs = [{"nodes": [n for e in ax[i:i + 8] for n in e["nodes"]]} for i in range(0, len(ax), 8)] + runs[1].emitted
    c.conform(exe, [scenario(e) for e in docs], judge, key=key)
    c.extra.update(documents=len(docs), nodes=sum(len(d["nodes"]) for d in docs))
    c.assumptions += ["recomposed matrices are compared column by column with a tolerance of 2e-5 of the column's largest component; scales with a zero component are excluded"]
