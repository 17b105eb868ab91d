"""Assets of Export.tla in the session driver, and what an export of them gives."""
import json, posixpath, re, urllib.parse
import vlib, session

LONG = "n" * 90
def name(n):
    return n.replace("@V", "\u00fc\u4f60").replace("@L", LONG).replace("@Q", "q\"\\\n\x01")


def payload(kind, i, n):
    return session.payload([kind, i], n)


def document(a):
    bufs, imgs, views = [], [], []
    used = []
    for i, b in enumerate(a["bufs"]):
        o = {"byteLength": b["len"]}
        if b["src"] == "fallback":
            o["extensions"] = {"EXT_meshopt_compression": {"fallback": True}}
        else:
            o["uri"] = b["uri"] if b["src"] == "uri" else "placeholder%d.bin" % i
        if b["name"]:
            o["name"] = name(b["name"])
        bufs.append(o)
    for i, m in enumerate(a["imgs"]):
        o = {}
        if m["src"] == "bview":
            o["bufferView"] = 0
        else:
            o["uri"] = m["uri"] if m["src"] == "uri" else "placeholder%d.png" % i
        if m["mime"]:
            o["mimeType"] = m["mime"]
        if m["name"]:
            o["name"] = name(m["name"])
        imgs.append(o)
    d = {"asset": {"version": "2.0", "generator": "g" * (1 + a["pad"])}}
    if any(b["src"] == "fallback" for b in a["bufs"]):
        d["extensionsUsed"] = d["extensionsRequired"] = ["EXT_meshopt_compression"]
    if bufs:
        d["buffers"] = bufs
        plain = [i for i, b in enumerate(a["bufs"]) if b["src"] != "fallback"]
        if plain:
            d["bufferViews"] = [{"buffer": plain[0], "byteLength": 1}]
    if imgs:
        d["images"] = imgs
        d["textures"] = [{"source": 0}]
    if a["bad"]:
        d["accessors"] = [{"bufferView": 77, "componentType": 5126, "count": 1, "type": "SCALAR"}]
    return json.dumps(d).encode()


def make(a, k, blob):
    """operations that put asset a into slot k; blob: the index of its document"""
    ops = [{"op": "parser", "p": 9, "x": ["*"]}, {"op": "source", "s": 9, "kind": "bytes", "blob": blob}, {"op": "load", "p": 9, "s": 9, "a": k, "quiet": True}]
    for kind, key, els in (("buffer", "buffers", a["bufs"]), ("image", "images", a["imgs"])):
        for i, b in enumerate(els):
            if b["src"] in ("vector", "array", "view", "none", "custom"):
                ops.append({"op": "setdata", "a": k, kind: i, "as": b["src"], "bytes": payload(key, i, b["n"]).hex(), "mime": b.get("mime") or ""})
    return ops


def exporter(e, conf_buffers, conf_images, extras=None):
    o = {"op": "exporter", "e": e}
    if conf_buffers != "-":
        o["buffers"] = conf_buffers
    if conf_images != "-":
        o["images"] = conf_images
    if extras is not None:
        o["extras"] = extras
    return o


def split(b):
    """(problem, JSON text, BIN content or None) of an exported GLB"""
    u = lambda i: int.from_bytes(b[i:i + 4], "little")
    if len(b) < 20 or b[:4] != b"glTF" or u(4) != 2:
        return "it has no GLB header", None, None
    if u(8) != len(b):
        return "the header says %d bytes, there are %d" % (u(8), len(b)), None, None
    if b[16:20] != b"JSON" or u(12) % 4:
        return "the JSON chunk has the length %d and the type %r" % (u(12), b[16:20]), None, None
    end = 20 + u(12)
    if end > len(b):
        return "the JSON chunk ends outside the file", None, None
    text = b[20:end]
    if end == len(b):
        return None, text, None
    if end + 8 > len(b) or b[end + 4:end + 8] != b"BIN\0" or u(end) % 4 or end + 8 + u(end) != len(b):
        return "the BIN chunk does not fill the rest of the file", None, None
    return None, text, b[end + 8:]


def decoded(uri):
    u = urllib.parse.urlsplit(uri)
    return [urllib.parse.unquote(x) for x in (u.scheme, u.netloc, u.path, u.query, u.fragment)]


def references(a, text, embedded):
    """(problem, {(kind, index): decoded path of its URI}) of an exported document for asset a"""
    try:
        d = json.loads(text)
    except ValueError as e:
        return "the document is not JSON: %s" % e, None
    r = {}
    for key, els in (("buffers", a["bufs"]), ("images", a["imgs"])):
        got = d.get(key, [])
        if len(got) != len(els):
            return "%d %s instead of %d" % (len(got), key, len(els)), None
        for i, (e, g) in enumerate(zip(els, got)):
            w = "%s[%d]" % (key, i)
            if g.get("name", "") != name(e["name"]):
                return "%s has the name %r" % (w, g.get("name")), None
            if key == "buffers" and g.get("byteLength") != e["len"]:
                return "%s has byteLength %r" % (w, g.get("byteLength")), None
            if key == "images" and g.get("mimeType", "") != e["mime"]:
                return "%s has mimeType %r" % (w, g.get("mimeType")), None
            if "uri" in g and re.search(r"[^!-~\x80-\U0010ffff]|[\"<>\\^`{|}]|%(?![0-9A-Fa-f]{2})", g["uri"]):
                return "%s has %r as its URI" % (w, g["uri"]), None
            if e["src"] == "uri" and decoded(g.get("uri", "")) != decoded(e["uri"]):
                return "the URI of %s became %r" % (w, g.get("uri")), None
            if e["src"] in ("fallback", "bview") and "uri" in g:
                return "%s got a URI" % w, None
            if e["src"] in ("vector", "array", "view"):
                if embedded and key == "buffers" and i == 0:
                    if "uri" in g:
                        return "%s has a URI and is in the BIN chunk" % w, None
                elif not isinstance(g.get("uri"), str):
                    return "%s has no URI" % w, None
                else:
                    if re.search(r"[#?]", g["uri"]) or re.match(r"[^/]*:", g["uri"]) or g["uri"].startswith("/"):
                        return "%s has %r as its relative URI" % (w, g["uri"]), None
                    r[(key, i)] = urllib.parse.unquote(g["uri"])
    return None, r
