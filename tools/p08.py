import json
import vlib, session, export


def scenario(e, i):
    a = e["a"]
    L = lambda n: {"op": "load", "p": 9, "s": 8, "a": n}
    ops = export.make(a, 1, 0) + [export.exporter(1, "-", "-")]
    if i % 3 == 0:      # something else was exported before
        ops += [{"op": "export", "e": 1, "a": 1, "form": "json"}]
    n = len(ops)
    o = {"opts": ["PrettyPrintJson"]} if i % 2 else {}
    ops += [{"op": "export", "e": 1, "a": 1, "form": "glb", "blob": 1, "same": True, **o}, {"op": "source", "s": 8, "kind": "bytes", "blob": 1}, L(2),
            {"op": "export", "e": 1, "a": 1, "form": "file-glb", "target": "out/x.glb", "same": True, **o}]
    return {"blobs": [export.document(a).hex()], "ops": ops, "a": a, "out": e["glb"], "n": n, "exp": 0}


def judge(s, r):
    a, out, r = s["a"], s["out"], r["r"][s["n"]:]
    if s["n"] and r[0]["error"] == "no asset":
        return "the base document was rejected"
    for x in (r[0], r[3]):
        if x["changed"]:
            return "the export changed the asset"
    if not out["ok"]:
        if r[0]["error"] == "None" or r[0]["has"]:
            return "an asset whose bytes are missing was exported"
        if r[3]["error"] == "None":
            return "an asset whose bytes are missing was written to a file"
        return None
    if r[0]["error"] != "None" or r[3]["error"] != "None":
        return "the export failed: %s, to a file: %s" % (r[0]["error"], r[3]["error"])
    if r[3]["tree"].get("out/x.glb") != r[0]["out"]:
        return "the file differs from the exported bytes"
    w, text, binary = export.split(bytes.fromhex(r[0]["out"]))
    if w:
        return w
    if (binary is not None) != out["embedded"]:
        return "there is %s BIN chunk" % ("no" if binary is None else "a")
    if text.rstrip(b" ")[-1:] != b"}":
        return "the JSON chunk is padded with something else than spaces"
    w, refs = export.references(a, text, out["embedded"])
    if w:
        return w
    if binary is not None:
        b = a["bufs"][0]
        want = export.payload("buffers", 0, b["n"])
        if len(binary) < b["len"] or binary[:b["len"]] != want[:b["len"]]:
            return "the BIN chunk does not hold the first buffer"
        rest = binary[b["len"]:]
        if rest.strip(b"\0") and (binary[:b["n"]] != want or binary[b["n"]:].strip(b"\0")):
            return "the BIN chunk is not padded with zeros"
        if len(binary) > max(out["bin"], b["n"] + 3):
            return "the BIN chunk is longer than its content"
    if r[2]["error"] != "None":
        return "reading it back fails: " + r[2]["error"]
    if out["embedded"]:
        g = r[2]["asset"]["buffers"][0]
        if g["byteLength"] != a["bufs"][0]["len"] or g["data"]["src"] != "bytes" or not g["data"]["bytes"].startswith(want[:b["len"]].hex()):
            return "the first buffer is %s after reading it back" % g["data"]
    return None


def run(c):
    exe = vlib.build("h_session")
    em = c.tlc("Export", "Export.cfg", {"Big": vlib.tier("FALSE", "TRUE")}).emitted
    em = session.names(em)
    sc = [scenario(e, i) for i, e in enumerate(sorted(em, key=lambda e: json.dumps(e, sort_keys=True)))]
    c.conform(exe, sc, judge, key=session.key)
    c.extra.update(assets=len(sc), embedded=sum(bool(s["out"].get("embedded")) for s in sc))
