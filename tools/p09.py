import json, random
import vlib, session

BYTE = {"n": b"\n", "t": b"\t", "r": b"\r", "z": b"\0"}
OTHER = ["long", "short", "used"]
KINDS = ["bytes", "file", "mmap", "stream"]


def data(c):
    head = b"".join(BYTE.get(x, x.encode()) for x in c["head"])
    if c["body"] == "json":
        t = head + b'"asset":{"version":"2.0"},"cameras":[{"type":"perspective","perspective":{"yfov":0.5,"znear":1}}],"x":"'
        d = t + b"y" * (c["size"] - len(t) - 2) + b'"}'
    elif c["body"] == "glb":
        j = b'{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d}]}'
        n = c["size"] - 28 - 64
        d = session.glb((j % n).ljust(64), session.payload(["bin"], n))
    else:
        d = head + bytes(random.Random(json.dumps(c)).choice(b"abcdefghxyz[]\":,01 \n") for _ in range(c["size"] - len(head)))
    assert len(d) == c["size"], (c, len(d))
    return d[:c["size"] - c["cut"]]


def scenario(e):
    ops = [{"op": "parser", "p": 1, "x": [], "map": "none"}]
    for k, kind in enumerate(KINDS):
        ops.append({"op": "source", "s": k, "kind": kind, "blob": 0})
    at = []
    for o, _ in e["hist"]:
        if o in OTHER:
            for k in range(4):
                ops.append({"op": "source", "s": 4 + k, "kind": KINDS[k], "blob": 1 + OTHER.index(o) % 2})
                if o == "used":
                    ops.append({"op": "load", "p": 1, "s": 4 + k, "a": 2, "entry": "json"})
                ops.append({"op": "moves", "s": k, "t": 4 + k})
            at.append(None)
            continue
        at.append(len(ops))
        for k in range(4):
            ops.append({"op": "moves", "s": k} if o == "move" else {"op": "detect", "s": k} if o == "detect" else {"op": "load", "p": 1, "s": k, "a": 1, "entry": o})
    return {"blobs": [data(e["c"]).hex()] + [data({"head": ["{"], "body": "json", "size": n, "cut": 0}).hex() for n in (9000, 140)], "ops": ops, "e": e, "at": at}


def judge(s, r):
    rs, n = r["r"], len(s["blobs"][0]) // 2
    src = rs[1:5]
    dead = [x["error"] != "None" for x in src]
    for k in range(4):
        if dead[k] and n > 0:
            return "%s source could not be opened: %s" % (KINDS[k], src[k]["error"])
        if not dead[k] and src[k]["size"] != n:
            return "%s source has %s bytes instead of %d" % (KINDS[k], src[k]["size"], n)
    for i, (o, exp) in enumerate(s["e"]["hist"]):
        if o == "move" or o in OTHER:
            continue
        g = rs[s["at"][i]:s["at"][i] + 4]
        live = [(KINDS[k], x) for k, x in enumerate(g) if not dead[k]]
        for k, x in live:
            if o == "detect":
                if x != exp and exp != "any":
                    return "%s source detected as %s instead of %s  (step %d)" % (k, x, exp, i)
            elif exp != "any" and (x["error"] == "None") != (exp == "ok"):
                return "loading %s from a %s source gave %s, it has to be %s  (step %d)" % (o, k, x["error"], exp, i)
            if x != live[0][1]:
                return "%s from a %s source differs from a %s source  (step %d)" % (o, k, live[0][0], i)
            if o == "glb" and exp == "ok" and len(x["asset"]["buffers"][0]["data"]["bytes"]) // 2 != x["asset"]["buffers"][0]["byteLength"]:
                return "the buffer is incomplete"
        for j in range(i):
            if s["e"]["hist"][j][0] == o and rs[s["at"][j]:s["at"][j] + 4] != g:
                return "%s gave something else the second time  (step %d)" % (o, i)
        if o == "auto" and exp == "ok":
            kind = "glb" if s["e"]["c"]["body"] == "glb" else "json"
            for j in range(len(s["e"]["hist"])):
                if s["e"]["hist"][j][0] == kind and rs[s["at"][j]:s["at"][j] + 4] != g:
                    return "the automatic entry gave something else than the %s entry" % kind
    return None


def run(c):
    exe = vlib.build("h_session")
    sc = []
    for mode in ("tour", "seq"):
        em = c.tlc("Sources", "Sources.cfg", {"Mode": '"%s"' % mode, "Big": vlib.tier("FALSE", "TRUE")}).emitted
        sc += [scenario(e) for e in sorted(em, key=lambda e: json.dumps(e, sort_keys=True))]
    c.conform(exe, sc, judge, key=session.key)
    c.extra.update(contents=len({s["blobs"][0] for s in sc}), scenarios=len(sc))
