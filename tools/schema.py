"""Shared by the checks that load documents the specification generates (P01, P02, P03, P05)."""
import random, zlib
import vlib, gltfdoc


def gen(c, **consts):
    sim = consts.pop("sim", None)
    k = {a: ('"%s"' % b if isinstance(b, str) else str(b).upper() if isinstance(b, bool) else b) for a, b in consts.items()}
    return c.tlc("Schema", "Schema.cfg", k, **(dict(simulate=sim, depth=consts.get("Depth", 12) + 6, workers=1) if sim else dict(coverage=False))).emitted


def scenario(doc, loads, seed, styles=1, extra=None, root=(), asset='{"version":"2.0"}'):
    """one document in `styles` random ways of writing it besides the canonical one, loaded once per outcome"""
    exotic = seed
    ren = [gltfdoc.Style(None, exotic)] + [gltfdoc.Style(seed * 31 + i, exotic) for i in range(styles)]
    texts = [s.document(doc, asset, root) for s in ren]
    ls, exp = [], []
    for t in range(len(texts)):
        for l in loads:
            e = {"text": t, "x": gltfdoc.exts(l["x"]), "cats": sorted(l["cats"]) if len(l["cats"]) < 17 else ["All"]}
            e.update(extra or {})
            ls.append(e)
            exp.append(l)
    return {"texts": texts, "loads": ls, "exp": exp, "u": ren[0].u}


def describe(e):
    x = e["x"]
    return "extensions %s, categories %s, style %d" % ("all" if len(x) > 20 and x == ["*"] else ",".join(x[:3]) + ("..." if len(x) > 3 else "") or "none", ",".join(e["cats"]), e["text"])


def judge(s, r, avail=True, reject=True, content=True):
    for e, l, g in zip(s["loads"], s["exp"], r["loads"]):
        why = None
        if g["has"] != (g["error"] == "None"):
            why = "result holds an asset: %s with error %s" % (g["has"], g["error"])
        elif l["ok"] and g["error"] != "None":
            why = "valid document rejected with %s" % g["error"]
        elif not l["ok"] and g["error"] == "None" and reject:
            why = "invalid document accepted"
        elif content and l["ok"] and g["error"] == "None":
            why = gltfdoc.asset_diff(l, g["asset"], s["u"])
            if not why and avail and set(l["avail"]) != set(g["asset"]["available"]):
                why = "availableCategories is %s, expected %s" % (sorted(g["asset"]["available"]), sorted(l["avail"]))
        if why:
            return "%s  (%s)" % (why, describe(e))
    return None


def key(s, r, why):
    import re
    w = why.split("  (")[0]
    return re.sub(r"\[\d+\]", "[]", w).split(", the document")[0].split(" is ")[0]
