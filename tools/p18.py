import accessor, vlib


def run(c):
    exe = vlib.build(accessor.DRIVER, lib=True)
    for mode, reps in (("sparse", vlib.tier(3, 60)), ("subsets", vlib.tier(2, 30)), ("wide", vlib.tier(2, 20)), ("huge", vlib.tier(4, 40)), ("iter", vlib.tier(150, 6000))):
        t = c.tlc("Accessor", "Accessor.cfg", {"Mode": '"%s"' % mode, "Reps": reps, "Depth": vlib.tier(14, 20)})
        c.conform(exe, [accessor.scenario(e, i) for i, e in enumerate(t.emitted)], accessor.judge, key=accessor.key)
        c.extra[mode] = len(t.emitted)
    c.assumptions += accessor.ASSUME
