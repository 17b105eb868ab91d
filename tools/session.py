"""Bytes for the documents of Session.tla, scenarios for the session driver and the comparison with the outcomes the specification gives."""
import base64, json, random, struct, zlib
import vlib, gltfdoc

ASSET = {"2.0": '{"version":"2.0"}', "2.1": '{"version":"2.1"}', "2.10": '{"version":"2.10"}', "full": '{"generator":"gen \\u00e9","version":"2.0","copyright":"(c)"}',
         "extra": '{"version":"2.0","minVersion":"2.0","extras":{"version":"1.0"},"extensions":{}}', "missing": None, "empty": "{}", "1.0": '{"version":"1.0"}',
         "3.0": '{"version":"3.0"}', "20.0": '{"version":"20.0"}', "02.0": '{"version":"02.0"}', "1.2": '{"version":"1.2"}', "blank": '{"version":""}', "number": '{"version":2.0}', "null": "null",
         "array": '["2.0"]', "string": '"2.0"', "nullversion": '{"version":null}', "badgenerator": '{"version":"2.0","generator":5}', "badcopyright": '{"copyright":[],"version":"2.0"}'}
INFO = {"2.0": ["2.0", "", ""], "2.1": ["2.1", "", ""], "2.10": ["2.10", "", ""], "full": ["2.0", "(c)", "gen \u00e9"], "extra": ["2.0", "", ""]}


def payload(tok, n):
    """the bytes of a payload: never zero at the start or the end, different for every name"""
    r = random.Random(json.dumps(tok))
    b = bytearray(r.randrange(256) for _ in range(n))
    if n:
        b[0] |= 1
        b[-1] |= 1
    return bytes(b)


class Tables:
    def __init__(self, t):
        self.files, self.remote, self.docs = t["files"], t["remote"], t["docs"]

    def disk(self):
        return {f["path"]: payload(["file", f["path"]], f["n"]).hex() for f in self.files if f["n"] >= 0 and ".." not in f["path"]}

    def bytes_of(self, tok, n):
        if tok[0] == "file" and ".." in tok[1]:
            tok = ["file", "plain.bin"]
        return payload(tok, n)

    def uri(self, r, tok):
        k = r["k"]
        if k == "file":
            return self.files[r["i"] - 1]["uri"]
        if k == "remote":
            return self.remote[r["i"] - 1]["uri"]
        if k == "emptyuri":
            return ""
        if k == "colon":
            return ":x.bin"
        b = base64.b64encode(payload(tok, r["n"])).decode()
        pre = "data:%s;base64," % r["m"]
        return {"data": pre + b, "nob64": "data:%s;hex,%s" % (r["m"], b), "nocomma": pre[:-1] + b, "badpad": pre + b[:-2] + "=", "badchar": pre + b[:1] + "*" + b[2:], "badlen": pre + b[:-3].rstrip("="),
                "space": pre + b[:4] + "    " + b[4:], "nosemi": "data:%s,%s" % (r["m"], b), "midpad": pre + "AA==" + b, "newline": pre + b[:4] + "\n\n\n\n" + b[4:]}[k]

    def buffer(self, r, i):
        o = {"byteLength": r["len"]}
        if r["k"] != "none":
            o["uri"] = self.uri(r, ["buffer", i])
        return o

    def image(self, r, i):
        o = {}
        if r["k"] == "view":
            o["bufferView"] = r["i"]
        elif r["k"] == "both":
            o.update(bufferView=0, uri="x.png")
        elif r["k"] != "none":
            o["uri"] = self.uri(r, ["image", i])
        if r["mm"]:
            o["mimeType"] = r["mm"]
        return o

    def text(self, d, seed=None, exotic=0, extras=False):
        root = []
        if d["used"]:
            root.append(("extensionsUsed", json.dumps(d["used"])))
        if d["req"]:
            root.append(("extensionsRequired", json.dumps(d["req"])))
        for k, f in (("buffers", self.buffer), ("images", self.image)):
            if d[k]:
                root.append((k, json.dumps([f(r, i + 1) for i, r in enumerate(d[k])])))
        return gltfdoc.Style(seed, exotic).document(d["body"], ASSET[d["asset"]], root)

    def data(self, d, seed=None):
        t = self.text(d, seed).encode()
        if d["kind"] == "json":
            return t
        return glb(t, None if d["bin"] < 0 else payload(["bin"], d["bin"]))

    def encoded(self, d, tok):
        r = (d["buffers"] if tok[0] == "buffer" else d["images"])[tok[1] - 1]
        return base64.b64encode(payload(tok, r["n"])).decode()


def glb(text, binary):
    text += b" " * (-len(text) % 4)
    out = struct.pack("<II", len(text), 0x4E4F534A) + text
    if binary is not None:
        binary += b"\0" * (-len(binary) % 4)
        out += struct.pack("<II", len(binary), 0x004E4942) + binary
    return struct.pack("<III", 0x46546C67, 2, 12 + len(out)) + out


def parser_op(op, p, cfg):
    return {"op": op, "p": p, "x": gltfdoc.exts(cfg["x"]), "map": cfg["map"], "unmap": cfg["unmap"], "dec": cfg["dec"], "extras": cfg["extras"]}


def load_op(p, s, a, args):
    return {"op": "load", "p": p, "s": s, "a": a, "opts": args["opts"], "cats": args["cats"], "dir": "bad" if args["dir"] == "bad" else "ok", "entry": args["entry"] if args["entry"] in ("json", "glb") else "auto"}


def held(t, d, exp, got, r, where):
    """a payload the specification says is held; r: the load that delivered it"""
    want = t.bytes_of(exp["tok"], exp["n"])
    if exp["src"] == "custom" and got["src"] != "custom" and exp["n"] > 0:
        return "%s was not put into the memory the callback gave" % where
    if exp["src"] == "bytes" and got["src"] != "bytes":
        return "%s is %s" % (where, got["src"])
    if got["src"] == "custom":
        m = r["maps"].get(str(got["id"]))
        if m is None:
            return "%s has the identifier %s, which no callback returned" % (where, got["id"])
        data = bytes.fromhex(m["content"])
    elif got["src"] == "bytes":
        data = bytes.fromhex(got["bytes"])
    else:
        return "%s is %s instead of data" % (where, got["src"])
    if exp["tok"][0] == "bin":
        want += b"\0" * (-len(want) % 4)
    if data != want:
        return "%s holds %d bytes %s.., expected %d bytes %s.." % (where, len(data), data[:8].hex(), len(want), want[:8].hex())
    if exp["mime"] != "*" and got["mime"] != exp["mime"]:
        return "%s has media type %r, expected %r" % (where, got["mime"], exp["mime"])
    return None


def ref(t, d, exp, got, r, where):
    if exp["src"] in ("bytes", "custom", "either"):
        return held(t, d, exp, got, r, where)
    for k in ("src", "uri", "path", "mime", "view"):
        if k in exp and got.get(k) != exp[k]:
            return "%s has %s %r, expected %r" % (where, k, got.get(k), exp[k])
    return None


def outcome(t, d, out, r):
    """the outcome r of a load of document d against what the specification gives"""
    if r["has"] != (r["error"] == "None"):
        return "result holds an asset: %s with error %s" % (r["has"], r["error"])
    if not out["ok"]:
        if r["error"] == "None":
            return "a load that has to fail succeeded"
        if out["err"] and r["error"] not in out["err"]:
            return "error %s, expected %s" % (r["error"], " or ".join(out["err"]))
        return None
    if r["error"] != "None":
        return "a load that has to succeed failed with %s" % r["error"]
    return content(t, d, out, r["asset"], r)


def content(t, d, out, a, r):
    for k in ("buffers", "images"):
        if len(a[k]) != len(out[k]):
            return "%d %s, expected %d" % (len(a[k]), k, len(out[k]))
        for i, (e, g) in enumerate(zip(out[k], a[k])):
            g = g["data"]
            w = ref(t, d, e, g, r, "%s[%d]" % (k, i))
            if w:
                return w
    for i, b in enumerate(out["buffers"]):
        if a["buffers"][i]["byteLength"] != d["buffers"][i]["len"]:
            return "byteLength is %s" % a["buffers"][i]["byteLength"]
    if a["extensionsUsed"] != out["used"]:
        return "extensionsUsed is %s, expected %s" % (a["extensionsUsed"], out["used"])
    if a["extensionsRequired"] != out["req"]:
        return "extensionsRequired is %s, expected %s" % (a["extensionsRequired"], out["req"])
    if out["asset"] != "*":
        i = a["asset"]
        if i is None or [i["version"], i["copyright"], i["generator"]] != INFO[out["asset"]]:
            return "asset information is %s" % i
    exp = dict((k, v) for k, v in out["exp"])
    for k in gltfdoc.TOPS:
        if k not in ("buffers", "images"):
            w = gltfdoc.diff([gltfdoc.plain(x, gltfdoc.EXOTIC[0]) for x in exp.get(k, [])], a[k], k)
            if w:
                return w
    if set(a["available"]) != set(out["avail"]):
        return "availableCategories is %s, expected %s" % (sorted(a["available"]), sorted(out["avail"]))
    return None


def protocol(t, d, cfg, out, r):
    """the callbacks of one load"""
    log = r["log"]
    open_, done = {}, set()
    groups = []
    for e in log:
        if e[0] == "map":
            groups.append({"size": e[1], "id": e[2], "decode": None, "unmap": False})
            if e[2] is not None:
                open_[e[2]] = groups[-1]
        elif e[0] == "unmap":
            if len(e) > 2:
                return "unmapped: " + ", ".join(map(str, e[2:]))
            if e[1] not in open_:
                return "unmapped identifier %s, which is not mapped" % e[1]
            open_.pop(e[1])["unmap"] = True
        elif e[0] == "decode":
            # into mapped memory, into memory of the library after a refused request, or without any request
            if e[4] is not None:
                if e[4] not in open_:
                    return "decoded into memory that is not mapped"
                g = open_[e[4]]
            elif cfg["map"] == "none":
                g = {"size": e[3], "id": None, "decode": None, "unmap": False, "nomap": True}
                groups.append(g)
            else:
                g = groups[-1] if groups else None
                if g is None or g["id"] is not None:
                    return "decoded into memory of the library without asking the callback"
            if g["decode"] is not None:
                return "the decoder was called twice for one payload"
            g["decode"] = e
    if cfg["unmap"] and open_:
        return "memory %s was not unmapped" % sorted(open_)
    if not cfg["unmap"] and any(e[0] == "unmap" for e in log):
        return "unmapped without a callback"
    if cfg["map"] == "none" and any(e[0] != "decode" for e in log) or not cfg["dec"] and any(e[0] == "decode" for e in log):
        return "a callback that was not set was called"
    for m in r["maps"].values():
        if m.get("late"):
            return "memory was written after it was unmapped"
    if cfg["map"] == "alloc" and any(g["id"] is None for g in groups):
        return "memory was requested but the identifier is missing"
    want = []
    if not out["ok"]:
        if out["err"] and any(g["decode"] or g["size"] != d["bin"] + -d["bin"] % 4 or d["kind"] != "glb" for g in groups):
            return "data was loaded although a required extension is missing"
        return None
    for k in ("buffers", "images"):
        for e in out[k]:
            if e["src"] in ("bytes", "custom", "either"):
                want.append(e)
    left = list(groups)
    for e in want:
        n = e["n"] + (-e["n"] % 4 if e["how"] == "bin" else 0)
        asks = cfg["map"] != "none"
        decodes = e["how"] == "data" and cfg["dec"]
        if not asks and not decodes:
            continue
        text = t.encoded(d, e["tok"]) if e["how"] == "data" else None
        for g in left:
            if g["size"] != n or bool(g["decode"]) != decodes:
                continue
            if decodes and (g["decode"][1] != text or g["decode"][2] != len(text) - len(text.rstrip("=")) or g["decode"][3] != n):
                continue
            left.remove(g)
            break
        else:
            if n == 0:      # nothing to store
                continue
            return "payload %s of %d bytes was not requested as it should be" % ("/".join(map(str, e["tok"])), n)
    if d["kind"] == "glb" and d["bin"] > 0:
        used = any(e["how"] == "bin" for e in want)
        for g in left:
            if not used and g["size"] == d["bin"] + -d["bin"] % 4 and not g["decode"]:
                left.remove(g)
                break
    if left:
        return "memory of %s bytes was requested or decoded into for no payload" % left[0]["size"]
    # every payload in the memory the callback gave is referred to by exactly one element
    ids = [g["data"]["id"] for k in ("buffers", "images") for g in r["asset"][k] if g["data"]["src"] == "custom"]
    if len(set(ids)) != len(ids):
        return "two payloads have the same identifier"
    return None


def names(em):
    return json.loads(json.dumps(em).replace("@V", "\\u00fc\\u4f60"))


def single(c, mode, **consts):
    em = c.tlc("Session", "Session.cfg", {"Mode": '"%s"' % mode, "Big": vlib.tier("FALSE", "TRUE"), **consts}, xmx="6g").emitted
    em = names(em)
    t = Tables([e for e in em if "files" in e][0])
    return t, [e for e in em if "doc" in e]


def scenario(t, e, loads, seed, kind="bytes"):
    """all given loads of one document, each with a fresh parser"""
    ops = [{"op": "source", "s": 1, "kind": kind, "blob": 0}]
    exp = []
    for l in loads:
        ops += [parser_op("parser", 1, l["cfg"]), load_op(1, 1, 1, l["args"])]
        exp.append(l)
    return {"blobs": [t.data(e["doc"], seed).hex()], "files": t.disk() if any("Load" in o for l in loads for o in l["args"]["opts"]) else {}, "ops": ops, "doc": e["doc"], "exp": exp}


def judge(t, checks):
    def j(s, r):
        rs = [x for o, x in zip(s["ops"], r["r"]) if o["op"] == "load"]
        for l, x in zip(s["exp"], rs):
            for f in checks:
                w = f(t, s["doc"], l, x)
                if w:
                    return "%s  (extensions %s, memory %s, decoder %s, options %s, categories %s)" % (w, ",".join(l["cfg"]["x"][:3]), l["cfg"]["map"], l["cfg"]["dec"], "+".join(l["args"]["opts"]), ",".join(l["args"]["cats"]))
        return None
    return j


def check_outcome(t, d, l, x):
    return outcome(t, d, l["out"], x)


def check_protocol(t, d, l, x):
    # an outcome that is wrong as a whole is another property's matter
    if l["out"]["ok"] != (x["error"] == "None"):
        return None
    return protocol(t, d, l["cfg"], l["out"], x) or (content(t, d, l["out"], x["asset"], x) if l["out"]["ok"] else None)


def key(s, r, w):
    import re
    return re.sub(r"\d+", "#", w.split("  (")[0].split("..")[0])[:120]
