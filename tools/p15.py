import json
import vlib, session, export

EXTRAS = {"Buffers/0": '{"k":[1]}', "Images/0": '"image"', "Buffers/1": '{"second":true}'}


def step(h, confs, k):
    if h["op"] == "export":
        o = {"op": "export", "e": h["e"], "a": h["a"], "form": h["form"], "opts": h["opts"], "same": True, "asked": True}
        if h["form"].startswith("file"):
            o["target"] = "s%d/x.gltf" % k
        return o
    f = confs[h["conf"] - 1]
    if h["op"] == "absolute":
        return {"op": "change", "e": h["e"], "buffers": "/dev/null/b", "images": "/dev/null/i"} | ({} if h["extras"] is None else {"extras": h["extras"]})
    ex = EXTRAS if f["extras"] else None
    if h["op"] == "exporter":
        return export.exporter(h["e"], f["buffers"], f["images"], ex)
    return {"op": "change", "e": h["e"], "buffers": "" if f["buffers"] == "-" else f["buffers"], "images": "" if f["images"] == "-" else f["images"], "extras": ex}


def scenario(hist, em):
    used = sorted({h["a"] for h in hist if h["op"] == "export"})
    ops, blobs, n = [], [], 0
    for a in range(len(em["pool"])):
        blobs.append(export.document(em["pool"][a]).hex())
        if a in used:
            ops += export.make(em["pool"][a], a, a)
    n = len(ops)
    confs, now = em["confs"], {}
    for k, h in enumerate(hist):
        if h["op"] == "absolute":
            h = {**h, "extras": EXTRAS if confs[now[h["e"]] - 1]["extras"] else None}
        elif h["op"] != "export":
            now[h["e"]] = h["conf"]
        ops.append(step(h, confs, k))
    return {"blobs": blobs, "ops": ops, "n": n, "hist": hist}


def outcome(s, r, k):
    """what the k-th step of the history gave, without the name of its directory"""
    x = dict(r["r"][s["n"] + k])
    if "tree" in x:
        d = "s%d/" % k
        x["tree"] = {p[len(d):]: t for p, t in x["tree"].items() if p.startswith(d)}
    return x


def tag(h):
    return json.dumps([h["a"], h["conf"], h["form"], sorted(h["opts"])])


def plain(h, x):
    """None if x is possible for the export h at all"""
    if x["changed"]:
        return "the export changed the asset"
    if (x["error"] == "None") != h["out"]["ok"]:
        return "%s export with %s gave %s, it has to %s" % (h["form"], "+".join(h["opts"]) or "no options", x["error"], "succeed" if h["out"]["ok"] else "fail")
    if "has" in x and x["has"] != h["out"]["ok"]:
        return "error and value disagree"
    return None


def run(c):
    exe = vlib.build("h_session")
    em = session.names(c.tlc("Export", "Export.cfg", {"Mode": '"history"', "Depth": vlib.tier("16", "30")}, simulate=vlib.tier(1000, 8000), depth=vlib.tier(18, 32)).emitted)
    top = [e for e in em if "pool" in e][0]
    refs = [scenario([{"op": "exporter", "e": 1, "conf": r["conf"]}, {"op": "export", "e": 1, **r}], top) for r in top["ref"]]
    ref = {}

    def first(s, r):
        x = outcome(s, r, 1)
        if r["r"][2]["error"] != "None":
            return "the base document was rejected"
        ref[tag(s["hist"][1])] = x
        return plain(s["hist"][1], x)

    def judge(s, r):
        seen = {}
        for k, h in enumerate(s["hist"]):
            if h["op"] != "export":
                continue
            x = outcome(s, r, k)
            w = plain(h, x)
            if w:
                return w + "  (step %d)" % k
            want = ref.get(tag(h))
            if want is not None and x != want:
                return "%s of an export depends on what the exporter did before  (step %d)" % (", ".join(f for f in x if x[f] != want.get(f)), k)
            if "tree" in r["r"][s["n"] + k]:
                now = r["r"][s["n"] + k]["tree"]
                if any(now.get(p) != t for p, t in seen.items()):
                    return "the export changed the files of an earlier one  (step %d)" % k
                seen = now
        return None

    c.conform(exe, refs, first, key=session.key)
    hs = [scenario(e["h"], top) for e in em if "h" in e]
    c.conform(exe, hs, judge, key=session.key)
    c.extra.update(reference_exports=len(refs), histories=len(hs), exports=sum(h["op"] == "export" for s in hs for h in s["hist"]))
