import os, vlib, judge


def first_diff(exp, got):
    for k, v in exp.items():
        if got.get(k) != v:
            return "%s is %r, RFC 3986 gives %r" % (k, got.get(k), v)
    if exp.get("local") and got.get("fspath") != exp["path"]:
        return "fspath is %r, path %r" % (got.get("fspath"), exp["path"])
    return None


def judge_text(s, r):
    if not s["exp"]:
        return None
    w = first_diff(s["exp"][0], r["uri"])
    if w:
        return "URI(%s): %s" % (s["text"], w)
    w = first_diff(s["exp"][1], r["view"])
    if w:
        return "URIView(%s): %s" % (s["text"], w)
    if not r["same"]:
        return "URI(%s): constructors disagree" % s["text"]
    if not r["cstr"]:
        return "URI(%s): c_str" % s["text"]
    return None


def key_text(s, r, why):
    return why.split(": ", 1)[-1].split(" is ")[0] if not why.startswith("crash") else why


def run(c):
    exe = vlib.build("h_uri")
    texts = c.tlc("Uri", "Uri.cfg", {"MaxLen": vlib.tier(4, 5)}).emitted
    comp = c.tlc("Uri", "Uri.cfg", {"Mode": '"compose"'}).emitted
    c.conform(exe, texts + comp, judge_text, key=key_text)
    c.extra["uris_with_expected_components"] = sum(1 for t in texts + comp if t["exp"])

    cfg = open(os.path.join(vlib.SPEC, "UriObj.cfg")).read()
    every = c.tlc("UriObj", cfg, coverage=True).emitted
    deep = c.tlc("UriObj", cfg.replace("VIEW View\n", ""), {"EmitAll": "FALSE", "Depth": 10}, simulate=vlib.tier(1000, 30000), depth=11, workers=1).emitted
    table = [e for e in every if "texts" in e][0]["texts"]
    T = [t["text"] for t in table]

    def judge_obj(s, r):
        for i, (op, o) in enumerate(zip(s["ops"], r["obs"])):
            if o.get("outside"):
                return "step %d %s: a component view points outside the object's string" % (i, op["op"])
            for k in ("u", "v", "w"):
                n = op["exp"][k]
                if n == 0:
                    if k != "w" and (o[k]["string"] or o[k]["path"] or o[k]["scheme"] or o[k]["query"]):
                        return "step %d %s: %s should be empty: %r" % (i, op["op"], k, o[k])
                    continue
                w = first_diff(table[n - 1]["view" if k == "w" else "uri"], o[k])
                if w:
                    return "step %d %s: object %s (%s): %s" % (i, op["op"], k, T[n - 1], w)
        return None

    c.conform(exe, [{"texts": T, "ops": e["ops"]} for e in every + deep if "ops" in e], judge_obj, key=judge.opkey)
    c.assumptions += ["texts that are not valid RFC 3986 references are only checked for memory safety; data: URIs expose everything after the scheme as path"]
