import vlib, schema


def run(c):
    exe = vlib.build("h_load")
    docs = schema.gen(c, Mode="single", Vary=True) + schema.gen(c, Mode="multi", Vary=True, Depth=10, sim=vlib.tier(40, 1500))
    # ill-typed extension data of a disabled extension changes nothing
    bad = [dict(e, loads=[l for l in e["loads"] if l["ok"]]) for e in schema.gen(c, Mode="bad", Vary=True)]
    sc = [schema.scenario(e["doc"], e["loads"], i, styles=vlib.tier(0, 2)) for i, e in enumerate(docs + [e for e in bad if e["loads"]])]
    c.conform(exe, sc, schema.judge, key=schema.key)
    c.extra.update(documents=len(sc), loads=sum(len(s["loads"]) for s in sc))
