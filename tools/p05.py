import vlib, schema


def run(c):
    exe = vlib.build("h_load")
    one = schema.gen(c, Mode="single", Cats=True)[:: vlib.tier(5, 1)]
    many = schema.gen(c, Mode="multi", Cats=True, Depth=16, sim=vlib.tier(40, 1500))
    sc = [schema.scenario(e["doc"], e["loads"], i, styles=1 if i >= len(one) else 0) for i, e in enumerate(one + many)]
    c.conform(exe, sc, schema.judge, key=schema.key)
    c.extra.update(documents=len(sc), loads=sum(len(s["loads"]) for s in sc))
