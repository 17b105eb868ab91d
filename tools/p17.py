import accessor, vlib


def run(c):
    exe = vlib.build(accessor.DRIVER, lib=True)
    t = c.tlc("Accessor", "Accessor.cfg", {"Mode": '"dense"', "Reps": vlib.tier(8, 150)})
    c.conform(exe, [accessor.scenario(e, i) for i, e in enumerate(t.emitted)], accessor.judge, key=accessor.key)
    c.extra["formats"] = len({tuple(sorted(e["fmt"].items())) for e in t.emitted})
    c.assumptions += accessor.ASSUME
