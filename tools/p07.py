import json, struct
import vlib, session

MAGIC = {"glTF": b"glTF", "GLTF": b"GLTF", "FTlg": b"FTlg", "zero": b"\0\0\0\0", "glTG": b"glTG", "{lTF": b"{lTF"}
TYPE = {"JSON": b"JSON", "BIN": b"BIN\0", "zero": b"\0\0\0\0", "json": b"json", "NOSJ": b"NOSJ", "BIN_": b"BIN ", "NIB": b"\0NIB", "bin": b"bin\0"}


def u32(n):
    return struct.pack("<I", n % (1 << 32))


def text(f):
    bufs = ",".join('{"byteLength":%d%s}' % (n, ',"uri":"u.bin"' if uri else "") for uri, n in f["bufs"])
    t = '{"asset":{"version":"2.0"}%s,"extras":"' % (',"buffers":[%s]' % bufs if bufs else "")
    return (t + "x" * (f["t"] - len(t) - 2) + '"}').encode()


def data(f):
    t = text(f)
    assert len(t) == f["t"]
    b = MAGIC[f["magic"]] + u32(f["version"]) + u32(f["length"]) + u32(f["l1"]) + TYPE[f["t1"]] + t + b" " * (f["j"] - f["t"])
    if f["second"]:
        b += u32(f["l2"]) + TYPE[f["t2"]] + session.payload(["bin"], f["b"])
    if f["strayk"] == "chunk":
        b += u32(f["stray"] - 8) + b"XTRA" + b"\7" * (f["stray"] - 8)
    else:
        b += b"\x5a" * f["stray"]
    return b[:len(b) - f["cut"]]


KINDS = ["bytes", "file", "mmap", "stream"]


def scenario(e, kinds, callbacks):
    ops = [{"op": "parser", "p": 1, "x": [], "map": "none"}, {"op": "parser", "p": 2, "x": [], "map": "alloc", "unmap": True}]
    for k in kinds:
        ops += [{"op": "source", "s": 1, "kind": k, "blob": 0}, {"op": "detect", "s": 1}]
        for entry in ("auto", "glb") if not callbacks else ("glb",):
            ops.append({"op": "load", "p": 2 if callbacks else 1, "s": 1, "a": 1, "entry": entry})
        ops.append({"op": "load", "p": 1, "s": 1, "a": 1, "entry": "json"})
    return {"blobs": [data(e["f"]).hex()], "ops": ops, "e": e}


def judge(s, r):
    e = s["e"]
    want, size, alive = e["res"], len(s["blobs"][0]) // 2, False
    for o, x in zip(s["ops"], r["r"]):
        w = None
        if o["op"] == "source":
            alive = x["error"] == "None"
            if not alive and size > 0:
                w = "the source could not be opened: " + x["error"]
            if alive and x["size"] != size:
                w = "the source has %d bytes" % x["size"]
        elif o["op"] == "detect":
            if alive and x != e["kind"] and not (e["kind"] == "invalid" and x == "gltf" and s["blobs"][0].startswith("7b")):
                w = "detected as " + x
        elif o["op"] == "load":
            if x["has"] != (x["error"] == "None"):
                w = "result holds an asset with error " + x["error"]
            elif o["entry"] == "json" or want["st"] == "fail":
                if x["error"] == "None":
                    w = "accepted" + (" as JSON" if o["entry"] == "json" else "")
            elif want["st"] == "ok":
                w = "rejected: " + x["error"] if x["error"] != "None" else asset(e["f"], want, x)
            else:
                if x["error"] == "None":
                    w = loose(e["f"], x)
        if w:
            return "%s  (%s, %s)" % (w, o, {k: v for k, v in e["f"].items()})
    return None


def content(d, x):
    if d["src"] == "bytes":
        return d["bytes"]
    if d["src"] == "custom" and str(d["id"]) in x["maps"]:
        return x["maps"][str(d["id"])]["content"]
    return None


def asset(f, want, x):
    bs = x["asset"]["buffers"]
    if len(bs) != len(f["bufs"]):
        return "%d buffers" % len(bs)
    for i, (b, (uri, n)) in enumerate(zip(bs, f["bufs"])):
        if b["byteLength"] != n:
            return "byteLength is %d" % b["byteLength"]
        if uri:
            if b["data"]["src"] != "uri":
                return "buffer %d with a URI has data" % i
        elif content(b["data"], x) != data(f)[28 + f["l1"]:28 + f["l1"] + want["bin"]].hex():
            return "the buffer does not hold the bytes of the BIN chunk"
    return None


def loose(f, x):
    """a file whose acceptance is left open must not be bound to anything that is not there either"""
    for b, (uri, n) in zip(x["asset"]["buffers"], f["bufs"]):
        if not uri and b["data"]["src"] in ("bytes", "custom") and len(content(b["data"], x) or "") // 2 < n:
            return "a buffer has fewer bytes than its byteLength"
    return None


def run(c):
    exe = vlib.build("h_session")
    em = c.tlc("Glb", "Glb.cfg", {"Big": vlib.tier("FALSE", "TRUE")}).emitted
    seen, sc = set(), []
    for i, e in enumerate(sorted(em, key=lambda e: json.dumps(e, sort_keys=True))):
        k = json.dumps(e["f"], sort_keys=True)
        if k in seen:
            continue
        seen.add(k)
        whole = e["res"]["st"] == "ok"
        sc.append(scenario(e, KINDS if whole else [KINDS[i % 4], "bytes"], i % 3 == 0))
        if whole:
            sc.append(scenario(e, KINDS, i % 3 != 0))
    c.conform(exe, sc, judge, key=session.key)
    c.extra.update(files=len(seen), well_formed=sum(e["res"]["st"] == "ok" for e in em), open=sum(e["res"]["st"] == "open" for e in em))
