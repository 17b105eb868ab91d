import json, posixpath, urllib.parse
import vlib, session, export

BASE, TRIAL = "w/1/2/3", "v/1/2/3"


def split_target(t):
    rel = t.startswith("rel:")
    return rel, t[4:] if rel else t


def scenario(e):
    c, a, form = e["c"], e["c"]["a"], e["form"]
    rel, target = split_target(c["target"])
    home = posixpath.normpath(posixpath.join(BASE, posixpath.dirname(target)))
    ops = export.make(a, 1, 0) + [export.exporter(1, *c["folders"])]
    before = {}
    for key, els in (("buffers", a["bufs"]), ("images", a["imgs"])):
        for i, b in enumerate(els):
            if b["src"] == "uri":
                p = posixpath.normpath(posixpath.join(home, urllib.parse.unquote(b["uri"])))
                # its directories have to exist for the operating system to understand "sub/.."
                ops.append({"op": "mkdir", "name": posixpath.join(home, posixpath.dirname(urllib.parse.unquote(b["uri"])).split("..")[0])})
                before[p] = session.payload(["old", key, i], max(1, b.get("len", 4))).hex()
                ops.append({"op": "file", "name": p, "bytes": before[p]})
    ops.append({"op": "mkdir", "name": BASE})
    if c["hurt"]:
        mode, what = c["hurt"]
        n = len(ops)
        ops.append({"op": "export", "e": 1, "a": 1, "form": form[5:]})
        o = {"op": "hurt", "mode": mode, "base": home + "/" + posixpath.basename(target)}
        if what != "doc":
            o.update(base=home, of=n, key=what[:-2] + "Paths", i=int(what[-1]))
        ops.append(o)
    ops.append({"op": "tree"})
    n = len(ops)
    ops.append({"op": "export", "e": 1, "a": 1, "form": form, "target": target if rel else BASE + "/" + target, "relative": rel, "cwd": BASE, "same": True})
    ops += [{"op": "source", "s": 7, "kind": "file", "path": posixpath.normpath(posixpath.join(BASE, target))},
            {"op": "parser", "p": 8, "x": ["*"]},
            {"op": "load", "p": 8, "s": 7, "a": 2, "at": home, "opts": ["LoadExternalBuffers", "LoadExternalImages"]}]
    return {"blobs": [export.document(a).hex()], "ops": ops, "n": n, "home": home, "doc": posixpath.normpath(posixpath.join(BASE, target)), "e": e}


def judge(s, res):
    r, e, home = res["r"], s["e"], s["home"]
    c, a, form = e["c"], e["c"]["a"], e["form"]
    if r[2]["error"] != "None":
        return "the base document was rejected: " + r[2]["error"]
    old, x, back = r[s["n"] - 1], r[s["n"]], r[s["n"] + 3]
    if x["changed"]:
        return "the export changed the asset"
    tree = x["tree"]
    for p, t in old.items():
        if tree.get(p) != t and p != s["doc"]:
            return "a file that existed before was %s" % ("removed" if p not in tree else "overwritten")
    if x["error"] != "None":
        return None if c["hurt"] else "the export failed: %s" % x["error"]
    if s["doc"] not in tree:
        return "success, but there is no document"
    text, binary = bytes.fromhex(tree[s["doc"]]), None
    if form == "file-glb":
        w, text, binary = export.split(text)
        if w:
            return w
    emb = e["emb"]
    if (binary is not None) != emb:
        return "there is %s BIN chunk" % ("no" if binary is None else "a")
    w, refs = export.references(a, text, emb)
    if w:
        return w
    taken = {s["doc"]: "the document"}
    for key, els in (("buffers", a["bufs"]), ("images", a["imgs"])):
        for i, b in enumerate(els):
            if b["src"] == "uri":
                taken.setdefault(posixpath.normpath(posixpath.join(home, urllib.parse.unquote(b["uri"]))), "%s[%d]" % (key, i))
    where = {"buffers": c["folders"][0], "images": c["folders"][1]}
    els = {"buffers": a["bufs"], "images": a["imgs"]}
    for (key, i), p in sorted(refs.items()):
        w = "%s[%d]" % (key, i)
        p = posixpath.normpath(posixpath.join(home, p))
        if p in taken:
            return "%s is in the same file as %s" % (w, taken[p])
        taken[p] = w
        folder = posixpath.normpath(posixpath.join(home, "" if where[key] == "-" else where[key]))
        if posixpath.dirname(p) != folder:
            return "%s is at %s, outside its folder %s" % (w, p, folder)
        if p not in tree:
            return "%s is not at the place its URI names" % w
        if tree[p] != export.payload(key, i, els[key][i]["n"]).hex():
            return "the file of %s has other bytes" % w
    for p in tree:
        if p not in taken and p not in old:
            return "another file was created: %s" % p
    if emb:
        b = a["bufs"][0]
        if not binary.startswith(export.payload("buffers", 0, b["n"])):
            return "the BIN chunk does not hold the first buffer"
    if back["error"] != "None":
        return "reading it back fails: " + back["error"]
    for key in ("buffers", "images"):
        for i, b in enumerate(els[key]):
            g = back["asset"][key][i]["data"]
            if b["src"] in ("vector", "array", "view"):
                if g["src"] != "bytes" or g["bytes"][:2 * b["n"]] != export.payload(key, i, b["n"]).hex():
                    return "%s[%d] is %s after reading it back" % (key, i, str(g)[:200])
    return None


def run(c):
    exe = vlib.build("h_session")
    em = session.names(c.tlc("Export", "Export.cfg", {"Mode": '"files"', "Big": vlib.tier("FALSE", "TRUE")}).emitted)
    sc = [scenario(e) for e in sorted(em, key=lambda e: json.dumps(e, sort_keys=True))]
    res = c.conform(exe, sc, judge, key=session.key)
    hurt = [r["r"][s["n"]]["error"] for s, r in zip(sc, res) if "r" in r and s["e"]["c"]["hurt"]]
    c.extra.update(exports=len(sc), obstructed=len(hurt), obstructed_failed=sum(x != "None" for x in hurt))
