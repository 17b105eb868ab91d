import math, vlib, judge

# irrational or rounded intermediate results: relative tolerance; everything else must be exact
TOL = {"length", "normalize", "asmatrix", "slerp0", "slerp1", "slerpmid", "slerpq", "inverse", "affineinverse"}
STATE_TOL = {"rotate"}


def close(a, b, scale, t):
    return a is not None and abs(a - b) <= t * max(1.0, scale)


def differs(got, want, tol):
    if len(got) != len(want):
        return "has %d components, specification %d" % (len(got), len(want))
    scale = max([abs(x) for x in want] + [0])
    for i, (g, w) in enumerate(zip(got, want)):
        if not close(g, w, scale, tol) if tol else g != w:
            return "component %d is %r, specification requires %r" % (i, g, w)
    return None


def judge_math(s, r):
    obs = r.get("obs", [])
    if len(obs) != len(s["ops"]):
        return "trace has %d steps, specification %d" % (len(obs), len(s["ops"]))
    loose = False       # the state went through a rounded operation
    f32 = s["t"] == "f32"
    for i, (op, o) in enumerate(zip(s["ops"], obs)):
        n, e = op["op"], op["exp"]
        want = [p / q for p, q in e["ret"]]
        if n.startswith("slerp"):
            l = math.sqrt(sum(x * x for x in want))
            want = [x / l for x in want]
            got = o["ret"]
            # a rotation: the quaternion or its negation
            if n == "slerp0" and len(got) == 4 and None not in got and sum(x * y for x, y in zip(got, want)) < 0:
                want = [-x for x in want]
        else:
            got = o["ret"]
        tol = 2e-5 if f32 else 1e-9
        if n == "slerpq":
            tol = 1e-3      # interpolation of close quaternions may be linear
        if n == "affineinverse":      # the general inverse has to agree
            want = want * 2
        if n == "eq" and loose:
            continue
        d = differs(got, want, tol if n in TOL or loose else 0)
        if d:
            return "step %d %s: result %s" % (i, n, d)
        if n in STATE_TOL:
            loose = True
        elif n.startswith("set") and n not in ("setat", "setcol") or n in ("diag", "identity", "assign"):
            loose = False
        if s["kind"] == "mat":
            if (o["r"], o["c"]) != (e["r"], e["c"]):
                return "step %d %s: shape %dx%d" % (i, n, o["r"], o["c"])
            d = differs(o["m"], e["m"], tol if loose else 0)
        else:
            d = differs(o["v"], e["v"], 0)
        if d:
            return "step %d %s: operand afterwards: %s" % (i, n, d)
    return None


def key(s, r, why):
    if why.startswith("step"):
        sh = "" if s["kind"] != "mat" else "%dx%d" % (lambda e: (e["r"], e["c"]))(s["ops"][int(why.split()[1])]["exp"])
        return "%s %s %s" % (s["kind"], sh, why.split(":")[0].split()[2])
    return why.split("\n")[0]


def run(c):
    exe = vlib.build("h_math", lib=False)
    w = vlib.tier(8, 8)
    c.tlc("MathMat", "MathMat.cfg", {"Mode": '"laws"', "Depth": 12}, simulate=vlib.tier(400, 20000), depth=13)
    runs = [c.tlc("MathVec", "MathVec.cfg", {"Depth": 14}, simulate=vlib.tier(6000, 100000), depth=15, workers=w),
            c.tlc("MathVec", "MathVec.cfg", {"Kind": '"quat"', "Depth": 14}, simulate=vlib.tier(2000, 40000), depth=15, workers=w),
            c.tlc("MathMat", "MathMat.cfg", {"Depth": 14}, simulate=vlib.tier(6000, 100000), depth=15, workers=w),
            c.tlc("MathMat", "MathMat.cfg", {"Mode": '"all"', "R": 2, "C": 2, "Shift": 3, "Entries": vlib.tier("{1, 3, 4, 6}", "{0, 1, 2, 3, 4, 5, 6}")}),
            c.tlc("MathMat", "MathMat.cfg", {"Mode": '"all"', "R": 3, "C": 3, "Shift": 1, "Entries": vlib.tier("{1, 3}", "{0, 1, 3}")})]
    if vlib.TIER == "thorough":
        runs.append(c.tlc("MathMat", "MathMat.cfg", {"Mode": '"all"', "R": 4, "C": 4, "Entries": "{0, 1}"}, xmx="8g"))
    scen = [e for t in runs for e in t.emitted]
    c.conform(exe, scen, judge_math, key=key)
    c.assumptions += ["operands are small integers (and unit quaternions of the 24 axis rotations and third-turns), for which every intermediate result is representable;"
                      " inverses, normalisation, lengths and rotation matrices are compared with a relative tolerance of 2e-5 (float) and 1e-9 (double)"]
