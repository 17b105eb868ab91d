"""Accessor.tla's behaviours against the accessor tools (P17, P18)."""
import struct, vlib

KINDS = ["array", "vector", "view", "custom"]
DRIVER = ["h_accessor"] + ["h_acc_" + t for t in ("s8", "u8", "s16", "u16", "s32", "u32", "f32", "f64")]


def scenario(e, i):
    return {**{k: e[k] for k in ("fmt", "acc", "views", "mem", "ops", "exp", "probe")}, "kind": KINDS[i % 4]}


def near(want, got, dt):
    """a component as the specification gives it, [] where it is undefined, against the text the driver wrote"""
    if not want:
        return True
    hi, lo, den = want
    n = hi * 65536 + lo
    g = float(got) if dt in ("f32", "f64") else int(got)
    if dt == "f64":
        return abs(g - n / den) <= (1e-12 if den > 2 else 0)
    if dt == "f32":
        if den > 2:
            return abs(g - n / den) <= 1.5e-7
        return g == struct.unpack("f", struct.pack("f", n / den))[0]
    return g == n // den


def show(w):
    return "?" if not w else str((w[0] * 65536 + w[1]) / w[2]) if w[2] > 1 else str(w[0] * 65536 + w[1])


def differ(want, got, dt):
    if isinstance(got, str):
        return got
    if len(want) != len(got):
        return "%d components, specification %d" % (len(got), len(want))
    for k, (w, g) in enumerate(zip(want, got)):
        if not near(w, g, dt):
            return "component %d is %s, specification %s" % (k, g, show(w))
    return None


def judge(s, r):
    dt = s["fmt"]["dt"]
    at = "%s %s as %s %s%s: " % (s["acc"]["t"], s["acc"]["ct"], s["fmt"]["shape"], dt, " normalized" if s["acc"]["norm"] else "")
    if s["ops"]:
        for i, (o, g) in enumerate(zip(s["ops"], r["obs"])):
            d = differ(o["exp"]["ret"], g["ret"], "f64" if o["op"] in ("eq", "dist", "stddist") else dt)
            if d:
                return at + "iterator step %d %s: %s" % (i, o["op"], d)
        return None
    for how, got in r.items():
        if isinstance(got, str):
            return at + "%s: %s" % (how, got)
        if len(got) != len(s["exp"]):
            return at + "%s: %d elements, specification %d" % (how, len(got), len(s["exp"]))
        for i, (w, g) in enumerate(zip(s["exp"], got)):
            d = differ(w, g, dt)
            if d:
                return at + "%s: element %d: %s" % (how, s["probe"][i] if s["probe"] else i, d)
    return None


def key(s, r, why):
    if "crash" in r:
        return why.split("\n")[0]
    p = why.split(": ")
    a = s["acc"]
    m = "mat" if a["t"].startswith("MAT") else s["fmt"]["shape"] if s["fmt"]["shape"] == "quat" else "vec"
    return " ".join([p[1].split(" step")[0] + (" " + p[1].split()[-1] if "step" in p[1] else ""), m, "same type" if a["ct"] == s["fmt"]["dt"] else "conversion", "norm" if a["norm"] else "",
                     "sparse" if a["sparse"] else "dense", "" if a["base"] else "without view"])


ASSUME = ["normalised values are compared with a tolerance of one unit in the last place, all others exactly",
          "conversions of values outside the destination's range or with a fraction to an integer are left open"]
