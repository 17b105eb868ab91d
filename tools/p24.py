import os, vlib, judge

COPY = {"pushfront", "pushback", "resizev", "resizeself", "assign", "assignl", "copyassign", "copyctor", "selfassign", "ctornv", "ctorl"}


def judge_end(s, r):
    w = judge.steps(s, r)
    if w:
        return w
    if "end" in r and r["end"] != {"live": 0, "err": 0, "mem": 0}:
        return "at the end: " + repr(r["end"])
    return None


def judge_content(s, r):
    for i, (op, o) in enumerate(zip(s["ops"], r["obs"])):
        if o["a"] != op["exp"]["a"] or o["b"] != op["exp"]["b"]:
            return "step %d %s: content %r / %r, specification requires %r / %r" % (i, op["op"], o["a"], o["b"], op["exp"]["a"], op["exp"]["b"])
    return None


def run(c):
    exe = vlib.build("h_smallvector", lib=False)
    cfg = open(os.path.join(vlib.SPEC, "SmallVector.cfg")).read()
    full = cfg.replace("VIEW View\n", "")
    every = c.tlc("SmallVector", cfg, {"MaxSize": vlib.tier(4, 6), "Depth": vlib.tier(7, 10)}, coverage=True).emitted
    deep = c.tlc("SmallVector", full, {"EmitAll": "FALSE", "Depth": 14, "MaxSize": 6}, simulate=vlib.tier(1500, 40000), depth=15, workers=1).emitted
    st = c.tlc("StaticVector", "StaticVector.cfg", {"MaxSize": vlib.tier(4, 5)}).emitted
    allb = every + deep
    scen = []
    for t in ("tracked", "plain", "copyonly", "moveonly", "tracked2"):
        for i, e in enumerate(allb):
            if t == "moveonly" and any(o["op"] in COPY for o in e["ops"]):
                continue
            if t in ("plain", "tracked2", "copyonly") and vlib.TIER == "quick" and i % 3 != {"plain": 0, "tracked2": 1, "copyonly": 2}[t] and i < len(every):
                continue
            scen.append({"t": t, "ops": e["ops"]})
    for t in ("static", "staticobj"):
        scen += [{"t": t, "ops": e["ops"]} for e in st]
    c.conform(exe, scen, judge_end, key=judge.opkey)
    c.conform(exe, [{"t": "std", "ops": e["ops"]} for e in deep], judge_content, key=judge.opkey)
    c.assumptions += ["inline capacity 2, lengths up to 4 exhaustively (one behaviour per transition between representation shapes), up to 6 at random"]
