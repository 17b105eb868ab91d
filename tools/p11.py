import vlib, session


def run(c):
    exe = vlib.build("h_session")
    t, docs = session.single(c, "payload")
    sc = [session.scenario(t, e, e["loads"], i if i % 3 else None, kind=("bytes", "file", "mmap", "stream")[i % 4]) for i, e in enumerate(docs)]
    c.conform(exe, sc, session.judge(t, [session.check_protocol]), key=session.key)
    c.extra.update(documents=len(docs), loads=sum(len(s["exp"]) for s in sc))
