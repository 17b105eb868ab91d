import vlib


def judge(s, r):
    want = "".join("%02x" % b for b in s["exp"]["bytes"])
    if r["pad"] != s["pad"]:
        return "getPadding is %d, specification %d (length %d)" % (r["pad"], s["pad"], len(s["text"]))
    if r["size"] != s["exp"]["size"]:
        return "getOutputSize is %d, specification %d" % (r["size"], s["exp"]["size"])
    for k, v in r["outs"].items():
        if v != want:
            return "%s: got %s, specification %s" % (k, v, want)
    return None


def run(c):
    exe = vlib.build("h_base64")
    runs = [c.tlc("Base64", "Base64.cfg", {"MaxGroups": vlib.tier(40, 130), "Steps": "{1, 7, 27, 63}", "Offsets": vlib.tier(2, 8)}),   # lengths
            c.tlc("Base64", "Base64.cfg", {"MaxGroups": vlib.tier(20, 30), "Steps": "{0, 1}", "Offsets": 64})]             # every symbol everywhere
    scen = [e for t in runs for e in t.emitted]
    c.conform(exe, scen, judge, key=lambda s, r, w: w.split(":")[0] if not w.startswith("crash") else w)
    c.extra["implementations"] = "fallback, SSE4.1, AVX2 and the dispatching functions, each allocating and in-place (NEON cannot run here)"
