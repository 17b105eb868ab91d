import os, vlib, judge

TYPES = ("size", "float", "double", "filter", "target")


def run(c):
    exe = vlib.build("h_optional", lib=False)
    cfg = open(os.path.join(vlib.SPEC, "FlagOptional.cfg")).read()
    full = cfg.replace("VIEW View\n", "")
    every = c.tlc("FlagOptional", cfg, coverage=True)                                                  # one behaviour per transition
    pairs = c.tlc("FlagOptional", full, {"EmitAll": "FALSE", "Depth": 2})         # all pairs of operations
    deep = c.tlc("FlagOptional", full, {"EmitAll": "FALSE", "Depth": vlib.tier(12, 20)},
                 simulate=vlib.tier(300, 20000), depth=vlib.tier(13, 21), workers=1)
    scen = [{"t": t, "ops": e["ops"]} for t in TYPES for e in every.emitted + deep.emitted + (pairs.emitted if t in vlib.tier(("size", "float"), TYPES) else [])]
    c.conform(exe, scen, judge.steps, key=judge.opkey)
    c.assumptions += ["values are three ordered representatives per type; the reserved flag value itself is excluded by the property"]
