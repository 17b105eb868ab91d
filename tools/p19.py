import json, math, vlib


def document(e):
    nodes = []
    for n in e["nodes"]:
        o = {}
        if n["ch"]:
            o["children"] = [c - 1 for c in n["ch"]]
        if n["k"] == "matrix":
            o["matrix"] = [x for c in n["m"] for x in c]
        else:
            l = math.sqrt(sum(x * x for x in n["q"]))
            for k, v, d in (("translation", n["t"], [0, 0, 0]), ("rotation", [x / l for x in n["q"]], [0, 0, 0, 1]), ("scale", n["s"], [1, 1, 1])):
                if v != d:
                    o[k] = v
        nodes.append(o)
    # scenes without nodes are written without the member
    return json.dumps({"asset": {"version": "2.0"}, "nodes": nodes, "scenes": [{"nodes": [i - 1 for i in s]} if s else {"name": "empty"} for s in e["scenes"]]})


def scenario(e):
    return {**e, "text": document(e)}


def differ(m, want):
    for j, col in enumerate(want):
        for i, w in enumerate(col):
            if not abs(float(m[4 * j + i]) - w) <= 4e-6 * max(1, *map(abs, [x for c in want for x in c])):
                return "row %d, column %d is %s, specification %s" % (i, j, m[4 * j + i], w)
    return None


def mul(a, b):
    return [[sum(a[k][i] * b[j][k] for k in range(4)) for i in range(4)] for j in range(4)]


def judge(s, r):
    if "error" in r:
        return "load fails: " + r["error"]
    for how in ("built", "loaded"):
        g = r[how]
        for w in ("walk", "const"):
            seen, want = [v["node"] for v in g[w]], [v["node"] for v in s["exp"]]
            if seen != want:
                return "%s %s: nodes visited %r, specification %r" % (how, w, seen, want)
            for i, (a, b) in enumerate(zip(g[w], s["exp"])):
                d = differ(a["m"], b["m"])
                if d:
                    return "%s %s: visit %d of node %d: %s" % (how, w, i, b["node"], d)
        for i, l in enumerate(s["local"]):
            for w, want in (("local", l), ("unbased", l), ("based", mul(s["initial"], l))):
                d = differ(g[w][i], want)
                if d:
                    return "%s %s: node %d: %s" % (how, w, i + 1, d)
    return None


def key(s, r, why):
    return ":".join(why.split(":")[:1]) + (" nodes" if "nodes visited" in why else " transform")


def run(c):
    exe = vlib.build("h_scene")
    runs = [c.tlc("Scene", "Scene.cfg", {"N": vlib.tier(3, 4)}),
            c.tlc("Scene", "Scene.cfg", {"Mode": '"any"', "N": 6}, simulate=vlib.tier(4000, 60000), depth=100)]
    for t in runs:
        c.conform(exe, [scenario(e) for e in t.emitted], judge, key=key)
    c.extra.update(graphs=len(runs[0].emitted), sampled=len(runs[1].emitted))
    c.assumptions += ["transforms are compared with a tolerance of 4e-6 of their largest entry; graphs may share nodes but have no cycles"]
