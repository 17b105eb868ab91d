import os, vlib, judge


def run(c):
    exe = vlib.build("h_bounds", lib=False)
    cfg = open(os.path.join(vlib.SPEC, "Bounds.cfg")).read()
    full = cfg.replace("VIEW View\n", "")
    every = c.tlc("Bounds", cfg, {"Depth": vlib.tier(3, 4)}, coverage=True).emitted
    deep = c.tlc("Bounds", full, {"EmitAll": "FALSE", "Depth": 12}, simulate=vlib.tier(1000, 20000), depth=13, workers=1).emitted
    scen = [{"t": i % 3, "ops": e["ops"]} for i, e in enumerate(every)]
    scen += [{"t": t, "ops": e["ops"]} for t in range(3) for e in deep]
    c.conform(exe, scen, judge.steps, key=judge.opkey)
    c.assumptions += ["values are ordered representatives (small, extreme, all positive and all negative); NaN is not included"]
