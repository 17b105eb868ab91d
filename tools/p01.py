import vlib, schema


def run(c):
    exe = vlib.build("h_load")
    one = schema.gen(c, Mode="single")
    many = schema.gen(c, Mode="multi", Depth=14, sim=vlib.tier(60, 2000)) + schema.gen(c, Mode="pairs")
    sc = [schema.scenario(e["doc"], e["loads"], i, styles=vlib.tier(2, 6)) for i, e in enumerate(one + many)]
    c.conform(exe, sc, schema.judge, key=schema.key)
    c.extra["documents"] = len(sc)
