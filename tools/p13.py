import json, random
import vlib, schema, gltfdoc

VERSIONS = ['{"version":"2.0"}', '{"version":"2.1","generator":%s}', '{"copyright":%s,"version":"2.0"}', '{"version":"2.0","copyright":%s,"generator":"g"}']


def roots(i, doc, u):
    """root members besides the arrays"""
    r = random.Random(i)
    q = json.dumps(u)
    m = []
    if r.random() < 0.5:
        m.append(("extensionsUsed", json.dumps(r.sample([u, "VENDOR_a", "KHR_node_visibility", "", "VENDOR_b"], r.randint(1, 4)))))
    if r.random() < 0.5:
        m.append(("extensionsRequired", json.dumps(r.sample(["KHR_texture_basisu", "KHR_node_visibility", "KHR_materials_unlit", "MSFT_texture_dds"], r.randint(1, 3)))))
    n = [len(v) for t, v in doc if t == "scenes"]
    if n and r.random() < 0.8:
        m.append(("scene", str(r.randrange(n[0]))))
    a = VERSIONS[r.randrange(4)]
    return m, (a % q if "%" in a else a)


def scenario(e, i):
    u = gltfdoc.EXOTIC[i % len(gltfdoc.EXOTIC)]
    m, a = roots(i, e["doc"], u)
    text = gltfdoc.Style(None, i).document(e["doc"], a, m)
    L = lambda s, n, **k: {"op": "load", "p": 1, "s": s, "a": n, **k}
    ops = [{"op": "parser", "p": 1, "x": ["*"]}, {"op": "exporter", "e": 1}, {"op": "source", "s": 1, "kind": "bytes", "blob": 0}, L(1, 1)]
    b = 1
    for form in ("json", "pretty", "glb"):
        o = {"opts": ["PrettyPrintJson"]} if form == "pretty" else {}
        f = "glb" if form == "glb" else "json"
        ops += [{"op": "export", "e": 1, "a": 1, "form": f, "blob": b, "same": True, **o}, {"op": "source", "s": 2, "kind": "bytes", "blob": b}, L(2, 2),
                {"op": "export", "e": 1, "a": 2, "form": f, "blob": b, **o}]
        b += 1
    return {"blobs": [text.encode().hex()], "ops": ops, "text": text, "e": e, "u": u, "m": [a] + m}


def unwritten(a, x, bin_chunk):
    """the asset with the payloads the exporter does not put into the document replaced by references to where it wants them written"""
    a = json.loads(json.dumps(a))
    for key, paths in (("buffers", x["bufferPaths"]), ("images", x["imagePaths"])):
        if len(paths) != len(a[key]):
            return None, "%d %s for %d" % (len(paths), key[:-1] + "Paths", len(a[key]))
        for i, (v, p) in enumerate(zip(a[key], paths)):
            d = v["data"]
            held = d["src"] == "bytes" and not (bin_chunk and key == "buffers" and i == 0)
            if held != (p is not None):
                return None, "%s[%d] %s" % (key, i, "has no path although its bytes are held" if held else "has the path %s although there is nothing to write" % p)
            if held:
                v["data"] = {"src": "uri", "path": p}
            elif d["src"] == "bytes":
                d.pop("mime")
            elif key == "buffers":
                d.pop("mime", None)
    return a, None


def same(x, y, path=""):
    if isinstance(x, dict):
        if not isinstance(y, dict):
            return "%s is %r, was %r" % (path, y, x)
        for k in x:
            if k not in y:
                return "%s.%s is missing" % (path, k)
            w = same(x[k], y[k], path + "." + k)
            if w:
                return w
        return None
    if isinstance(x, list):
        if not isinstance(y, list) or len(x) != len(y):
            return "%s has %s elements, had %d" % (path, len(y) if isinstance(y, list) else y, len(x))
        for i, (a, b) in enumerate(zip(x, y)):
            w = same(a, b, "%s[%d]" % (path, i))
            if w:
                return w
        return None
    return None if type(x) is type(y) and x == y else "%s is %r, was %r" % (path, y, x)


def judge(s, r):
    first = r["r"][3]
    if first["error"] != "None":
        return None if not s["e"]["loads"][0]["ok"] else "rejected: %s" % first["error"]
    w = gltfdoc.asset_diff(s["e"]["loads"][0], first["asset"], s["u"])
    if w:
        return None     # what was loaded is not what the document says: another property
    for n, form in enumerate(("json", "pretty", "glb")):
        x, _, again, y = r["r"][4 + 4 * n:8 + 4 * n]
        if x["error"] != "None":
            return "export as %s failed: %s" % (form, x["error"])
        if x["changed"]:
            return "the export as %s changed the asset" % form
        if again["error"] != "None":
            return "the asset exported as %s is rejected: %s" % (form, again["error"])
        want, w = unwritten(first["asset"], x, form == "glb")
        if w:
            return w + " (%s)" % form
        got = json.loads(json.dumps(again["asset"]))
        if form == "glb" and want["buffers"] and want["buffers"][0]["data"]["src"] == "bytes":
            # in the chunk there may be padding, and bytes beyond the byteLength are not part of the buffer
            for b in (want["buffers"][0], got["buffers"][0] if got["buffers"] else {"data": {}}):
                if "bytes" in b["data"]:
                    b["data"]["bytes"] = b["data"]["bytes"][:2 * b["byteLength"]]
        w = same(want, got)
        if w:
            return w + " (%s)" % form
        if y["error"] != "None":
            return "the second export as %s failed: %s" % (form, y["error"])
        if y["out"] != x["out"]:
            return "the second export as %s differs" % form
    return None


def run(c):
    exe = vlib.build("h_session")
    one = schema.gen(c, Mode="single")
    many = schema.gen(c, Mode="multi", Depth=14, sim=vlib.tier(60, 2000)) + schema.gen(c, Mode="pairs")
    sc = [scenario(e, i) for i, e in enumerate(one + many)]
    c.conform(exe, sc, judge, key=schema.key)
    c.extra["documents"] = len(sc)
