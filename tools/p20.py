import json, vlib


def scenario(e, i):
    s = {"asset": e["asset"], "exp": e["exp"]}
    if i % 3 == 0:
        s["write"] = True
    return s


def judge(s, r):
    want = "None" if s["exp"]["ok"] else "InvalidGltf"
    if r["validate"] != want or r["again"] != want:
        return "validate: %s, then %s, specification %s" % (r["validate"], r["again"], want)
    if not r["same"]:
        return "asset: validation changed it"
    for how in ("json", "glb"):
        if how in r and r[how] != want:
            return "%s: writing with validation %s, specification %s" % (how, r[how], want)
    if "reload" in r and (r["reload"], r.get("revalidate")) != ("None", "None"):
        return "written: loading it %s, validating it %s" % (r["reload"], r.get("revalidate"))
    return None


def run(c):
    exe = vlib.build("h_validate")
    single = c.tlc("Validate", "Validate.cfg").emitted
    multi = c.tlc("Validate", "Validate.cfg", {"Mode": '"any"', "Depth": 4}, simulate=vlib.tier(1200, 40000), depth=6).emitted
    sc = [scenario(e, i) for i, e in enumerate(single + multi)]
    c.conform(exe, sc, judge)
    ok = sum(s["exp"]["ok"] for s in sc)
    c.extra.update(assets=len(sc), conforming=ok, single_changes=len(single))
    c.assumptions += ["rules of glTF that validate() does not check are left open"]
