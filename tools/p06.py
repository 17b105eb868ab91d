import json
import vlib, session


def histories(c, n, depth):
    em = session.names(c.tlc("Session", "Session.cfg", {"Mode": '"hist"', "Depth": depth}, simulate=n, depth=depth + 3, workers=vlib.NCPU).emitted)
    return session.Tables([e for e in em if "files" in e][0]), [h for _, h in sorted((json.dumps(e["hist"]), e["hist"]) for e in em if "hist" in e)]


def scenario(t, hist):
    """the history, with every asset looked at again after every step that could have disturbed it"""
    ops, exp, alive = [], [], {}
    for e in hist:
        o = e["op"]
        x = None
        if o in ("parser", "configure"):
            ops.append(session.parser_op(o, e["p"], e["cfg"]))
        elif o == "source":
            ops.append({"op": "source", "s": e["s"], "kind": e["kind"], "blob": e["doc"] - 1})
        elif o == "load":
            ops.append(session.load_op(e["p"], e["s"], e["a"], e["args"]))
            x = e
            if e["out"]["ok"]:
                alive[e["a"]] = len(ops) - 1
        elif o == "detect":
            ops.append({"op": o, "s": e["s"]})
            x = e
        else:
            ops.append({k: v for k, v in e.items()})
            if o == "movea":
                alive[e["b"]] = alive.pop(e["a"])
        exp.append(x)
        if o in ("load", "delp", "movep", "movea", "source"):
            for a, k in sorted(alive.items()):
                if k == len(ops) - 1:
                    continue
                ops.append({"op": "dump", "a": a})
                exp.append({"op": "again", "of": k})
        elif o == "dump":
            exp[-1] = {"op": "again", "of": alive[e["a"]]}
    return {"blobs": [t.data(d, i).hex() for i, d in enumerate(t.docs)], "files": t.disk(), "ops": ops, "exp": exp}


def judge(t):
    def j(s, r):
        src = {}
        for i, (o, e, x) in enumerate(zip(s["ops"], s["exp"], r["r"])):
            w = None
            if o["op"] == "source":
                src[o["s"]] = o["blob"]
                if x["error"] != "None":
                    w = "the source could not be opened: %s" % x["error"]
            elif o["op"] == "load":
                d = t.docs[src[o["s"]]]
                w = session.outcome(t, d, e["out"], x) or session.protocol(t, d, e["cfg"], e["out"], x)
            elif o["op"] == "detect" and x != e["type"]:
                w = "detected as %s" % x
            elif o["op"] == "dump" and x != r["r"][e["of"]]["asset"]:
                w = "the asset returned by step %d has changed" % e["of"]
            if w:
                return "%s  (step %d: %s)" % (w, i, o["op"])
        return None
    return j


def run(c):
    exe = vlib.build("h_session")
    t, hs = histories(c, vlib.tier(1200, 12000), vlib.tier(36, 60))
    c.conform(exe, [scenario(t, h) for h in hs], judge(t), key=session.key)
    c.extra.update(histories=len(hs), loads=sum(e["op"] == "load" for h in hs for e in h), successful=sum(e["op"] == "load" and e["out"]["ok"] for h in hs for e in h))
