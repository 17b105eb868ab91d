import vlib, session


def run(c):
    exe = vlib.build("h_session")
    t, docs = session.single(c, "payload")
    sc = []
    for i, e in enumerate(docs):
        ls = [l for l in e["loads"] if l["cfg"]["map"] != "alternate" and l["cfg"]["unmap"]]
        sc.append(session.scenario(t, e, ls, i if i % 3 else None))
    c.conform(exe, sc, session.judge(t, [session.check_outcome]), key=session.key)
    c.extra.update(documents=len(docs), loads=sum(len(s["exp"]) for s in sc))
