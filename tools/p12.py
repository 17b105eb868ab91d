import json, random
import vlib, schema, gltfdoc

def norm(t):
    return json.dumps(json.loads(t, object_pairs_hook=strict), sort_keys=True)


def value(v, u):
    """a tagged value of the specification as text"""
    v = gltfdoc.plain(v, u)
    f = lambda x: float(x[1]) if isinstance(x, tuple) and ("." in x[1] or "e" in x[1]) else int(x[1]) if isinstance(x, tuple) else {k: f(y) for k, y in x.items()} if isinstance(x, dict) else [f(y) for y in x] if isinstance(x, list) else x
    return json.dumps(f(v))


RETURNS = ['{"id":%d,"n":[1,{"extras":null}]}', '{}', '{"a":"\\u00e9\\"\\\\","extras":{"extras":%d}}', '[%d]', '"%d"', '%d', 'null', '{"x":{"y":{"z":%d}}, "w" : 1.5e-10}']


MESHOPT = "EXT_meshopt_compression"


def scenario(e, i):
    r = random.Random(i)
    style = gltfdoc.Style(i if i % 2 else None, i)
    doc, root, loads = e["doc"], [], e["loads"]
    bufs = dict(doc).get("buffers", [])
    if bufs and i % 3 == 1 and any(l["x"] == ["*"] for l in loads):        # fallback buffers
        def bare(k, b):
            return ["o", [m for m in b[1] if m[0] != "uri"]] if k in gone else b
        gone = [k for k in range(len(bufs)) if r.random() < 0.6]
        doc = [[t, [bare(k, b) for k, b in enumerate(els)] if t == "buffers" else els] for t, els in doc]
        root = [("extensionsRequired", '["%s"]' % MESHOPT), ("extensionsUsed", '["%s"]' % MESHOPT)]
        loads = [l for l in loads if l["x"] == ["*"] or MESHOPT in gltfdoc.exts(l["x"])]
    text = style.document(doc, root=root)
    ls = loads if len(loads) < 8 else r.sample(loads, 8)
    full = [l for l in loads if l["x"] == ["*"] and len(l["cats"]) == 17]
    ls = full[:1] + [l for l in ls if l is not full[0]]
    ops = [{"op": "source", "s": 1, "kind": "bytes", "blob": 0}]
    for l in ls:
        ops += [{"op": "parser", "p": 1, "x": gltfdoc.exts(l["x"]), "extras": True}, {"op": "load", "p": 1, "s": 1, "a": 1, "quiet": False, "cats": sorted(l["cats"]) if len(l["cats"]) < 17 else ["All"]}]
        if l is ls[0]:
            ops[-1]["a"] = 9
    # what the callbacks of the full load reported is written and read again
    x9 = {"op": "parser", "p": 1, "x": ["*"], "extras": True}
    cells = {"%s/%d" % (t, k): gltfdoc.Style(None, i).render(v["extras"], keep=True, nested=False) for t, els in e["doc"] for k, v in ((k, dict(v[1])) for k, v in enumerate(els)) if "extras" in v and t not in ("lights", "variants")}
    some = {"%s/%d" % (t, k): (lambda f: f % r.randrange(1000) if "%d" in f else f)(r.choice(RETURNS)) for t in gltfdoc.TOPS for k in range(5) if r.random() < 0.5}
    n = len(ops)
    for m in (cells, some):
        for form in ("json", "glb"):
            o = {"opts": ["PrettyPrintJson"]} if i % 3 == 0 else {}
            ops += [{"op": "exporter", "e": 2, "extras": m}, {"op": "export", "e": 2, "a": 9, "form": form, "asked": 1, "blob": 1, "same": True, **o},
                    {"op": "source", "s": 2, "kind": "bytes", "blob": 1}, x9 if m is cells else {"op": "parser", "p": 1, "x": ["*"]}, {"op": "load", "p": 1, "s": 2, "a": 3, "quiet": True}]
    ops += [{"op": "exporter", "e": 3}, {"op": "export", "e": 3, "a": 9, "form": "json"}]
    return {"blobs": [text.encode().hex()], "ops": ops, "text": text, "ls": ls, "n": n, "u": style.u, "maps": [cells, some], "exp": 0}


def called(want, got):
    """the recorded calls against [[category, index, text]]"""
    g = sorted([c, i, norm(t)] for c, i, t in got)
    w = sorted([c, i, norm(t)] for c, i, t in want)
    if g == w:
        return None
    for k in w:
        if k not in g:
            o = [x for x in g if x[:2] == k[:2]]
            return "the callback was not called for %s[%d]%s" % (k[0], k[1], " with its extras, but with " + o[0][2] if o else "")
    for k in g:
        if k not in w:
            return "the callback was called for %s[%d]" % (k[0], k[1])
        if g.count(k) != w.count(k):
            return "the callback was called twice for %s[%d]" % (k[0], k[1])


def strict(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError("member %r appears twice" % k)
        d[k] = v
    return d


def document(hexed):
    b = bytes.fromhex(hexed)
    if b[:4] == b"glTF":
        b = b[20:20 + int.from_bytes(b[12:16], "little")]
    return json.loads(b, object_pairs_hook=strict)


def array(d, t):
    if t in gltfdoc.ROOT:
        x, k = gltfdoc.ROOT[t]
        return d.get("extensions", {}).get(x, {}).get(k, [])
    return d.get(t, [])


def written(m, hexed, bare, asset):
    try:
        d = document(hexed)
    except ValueError as e:
        return "the export is not JSON: %s" % e
    for t in gltfdoc.TOPS:
        for k, v in enumerate(array(d, t)):
            c = "%s/%d" % (t, k)
            if t not in ("lights", "variants") and c in m:
                if "extras" not in v:
                    return "%s[%d] is written without its extras" % (t, k)
                if v["extras"] != json.loads(m[c]):
                    return "the extras of %s[%d] are %s" % (t, k, v["extras"])
                del v["extras"]
            elif isinstance(v, dict) and "extras" in v:
                return "%s[%d] is written with extras" % (t, k)
    def drop(x):
        return {k: v for k, v in x.items()}
    b = document(bare)
    for x in (d, b):        # the first buffer is written differently into a GLB
        if x.get("buffers"):
            x["buffers"][0].pop("uri", None)
    return None if d == b else "the document differs besides the extras"


def judge(s, r):
    rs = r["r"]
    if rs[2]["error"] != "None":
        return "rejected: " + rs[2]["error"]
    for j, l in enumerate(s["ls"]):
        x = rs[2 + 2 * j]
        if x["error"] != "None" or not l["ok"]:
            if l["ok"]:
                return "rejected: " + x["error"]
            continue
        w = called([[t, k, value(v, s["u"])] for t, k, v in l["extras"] if t != "lights"], x["extras"])
        if w:
            return "%s  (categories %s, extensions %s)" % (w, ",".join(l["cats"][:4]), ",".join(l["x"][:3]))
    if rs[2]["error"] != "None":
        return None
    asset = rs[2]["asset"]
    if any(len(asset[t]) != len(dict(s["ls"][0]["exp"]).get(t, [])) for t in gltfdoc.TOPS):
        return None
    objects = sorted("%s/%d" % (t, k) for t in gltfdoc.TOPS if t not in ("lights", "variants") for k in range(len(asset[t])))
    bare = rs[-1]["out"]
    for j in range(4):
        m = s["maps"][j // 2]
        x, _, _, again = rs[s["n"] + 5 * j + 1: s["n"] + 5 * j + 5]
        if x["error"] != "None":
            return "export failed: " + x["error"]
        if x["changed"]:
            return "the export changed the asset"
        asked = sorted(a for a in x["asked"] if not a.startswith(("lights/", "variants/", "?")))
        if asked != objects:
            return "the extras of %s were %s" % ((sorted(set(objects) - set(asked)) + ["?"])[0], "not asked for") if set(objects) - set(asked) else "asked for the extras of %s, %s" % next((a, "which does not exist" if a not in objects else "twice") for a in asked if a not in objects or asked.count(a) > 1)
        w = written(m, x["out"], bare, asset)
        if w:
            return w
        if again["error"] != "None":
            return "the export is rejected: " + again["error"]
        if j < 2:
            w = called(rs[2]["extras"], again["extras"])
            if w:
                return "after writing and reading again: " + w
    return None


def run(c):
    exe = vlib.build("h_session")
    many = schema.gen(c, Mode="multi", Depth=14, Vary=True, Cats=True, sim=vlib.tier(120, 2500)) + schema.gen(c, Mode="pairs")
    small = schema.gen(c, Mode="multi", Depth=3, Vary=True, sim=vlib.tier(250, 4000))
    sc = [scenario(e, i) for i, e in enumerate(many + small)]
    c.conform(exe, sc, judge, key=schema.key)
    c.extra["documents"] = len(sc)
