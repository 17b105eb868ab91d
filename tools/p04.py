import vlib, session


def run(c):
    exe = vlib.build("h_session")
    t, docs = session.single(c, "req")
    sc = [session.scenario(t, e, e["loads"], i if i % 2 else None) for i, e in enumerate(docs)]
    c.conform(exe, sc, session.judge(t, [session.check_outcome, lambda t, d, l, x: session.protocol(t, d, l["cfg"], l["out"], x) if not l["out"]["ok"] else None]), key=session.key)
    c.extra.update(documents=len(docs), loads=sum(len(e["loads"]) for e in docs))
