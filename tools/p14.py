import json, random
import vlib, schema, gltfdoc, p12, p13


def bodies_in(tokens, bodies, k, lex=("1", "-0.5e+3", "true", "null", "0", "12.25")):
    out = []
    for t in tokens:
        if t == "s":
            out.append(b'"' + bodies[k % len(bodies)] + b'"')
            k += 1
        else:
            out.append(lex[(k * 7 + len(out)) % 2].encode() if t == "n" else lex[2 + k % 2].encode() if t == "l" else t.encode())
    return b"".join(out), k


def tla_judge(c, pairs):
    """the specification decides about recorded pairs; returns {index: why}"""
    bad = {}
    for at in range(0, len(pairs), 6000):
        part = [{"k": k, "i": list(i), "o": list(o)} for k, i, o in pairs[at:at + 6000]]
        if not part:
            continue
        t = c.tlc("Text", "Text.cfg", {"Mode": '"judge"'}, files={"pairs.json": json.dumps(part)}, xmx="6g")
        if t.distinct != 2 * len(part):
            raise vlib.CheckError("judged %d states for %d pairs" % (t.distinct, len(part)))
        for e in t.emitted:
            bad[at + e["n"] - 1] = e["why"]
    return bad


def strings(c, exe):
    """escapeString and prettyPrintJson on everything the specification enumerates"""
    em = c.tlc("Text", "Text.cfg", {"MaxLen": vlib.tier(3, 4)}).emitted
    esc = [bytes(b) for k, b in em if k == "esc"]
    bodies = [bytes(b) for k, b in em if k == "body"]
    seqs = [e["t"] for e in c.tlc("JsonText", "JsonText.cfg", {"MaxLen": vlib.tier(6, 8)}).emitted if e["ok"]]
    rnd = random.Random(vlib.SEED)
    rnd.shuffle(bodies)
    texts, k = [], 0
    for s in seqs:
        if s in (["n"], ["l"], ["s"]):
            continue
        for _ in range(max(1, min(40, vlib.tier(4000, 40000) // len(seqs)))):
            t, k = bodies_in(s, bodies, k)
            texts.append(t)
    while k < len(bodies):
        t, k = bodies_in(["[", "s", ",", "{", "s", ":", "s", "}", "]"], bodies, k)
        texts.append(t)
    ops = [("esc", b) for b in esc] + [("pretty", b) for b in texts]
    sc = [{"ops": [{"op": "escape" if k == "esc" else "pretty", "text": b.hex()} for k, b in ops[i:i + 50]]} for i in range(0, len(ops), 50)]
    res = c.replay(exe, sc)
    pairs, crashed = [], []
    for s, r, i in zip(sc, res, range(0, len(ops), 50)):
        if "r" not in r:
            crashed += ops[i:i + 50]
        else:
            pairs += [(k, b, bytes.fromhex(o)) for (k, b), o in zip(ops[i:i + 50], r["r"])]
    c.traces += len(pairs)
    if crashed:
        c.conform(exe, [{"ops": [{"op": "escape" if k == "esc" else "pretty", "text": b.hex()}]} for k, b in crashed], lambda s, r: None, key=schema.key)
    for i, why in sorted(tla_judge(c, pairs).items(), key=lambda x: len(pairs[x[0]][1])):
        k, b, o = pairs[i]
        c.violation(why, {"scenario": {"op": k, "text": b.hex()}, "observed": o.hex(), "why": "%s: %r became %r" % (why, b, o)})
        if len(c.violations) > 5:
            break


def scenario(e, i, exotic):
    s = p13.scenario(e, exotic)
    m = {"%s/%d" % (t, k): '{"a":%s, "b" : ["{",2 ]}' % json.dumps(s["u"]) for t in gltfdoc.TOPS for k in range(4) if (i + k) % 3 == 0}
    s["ops"] = s["ops"][:1] + [{"op": "exporter", "e": 1, "extras": m}] + s["ops"][2:]
    return s


def judge(texts):
    def j(s, r):
        if r["r"][3]["error"] != "None":
            return None
        a = r["r"][3]["asset"]
        out = []
        for n in range(3):
            x, _, again, _ = r["r"][4 + 4 * n:8 + 4 * n]
            if x["error"] != "None":
                return None
            b = bytes.fromhex(x["out"])
            if b[:4] == b"glTF":
                b = b[20:20 + int.from_bytes(b[12:16], "little")]
            out.append(b)
            try:
                p12.document(x["out"])
            except ValueError as err:
                return "the exported document is not JSON: %s" % err
            if again["error"] != "None":
                return "the exported document is rejected: %s" % again["error"]
            w = strings_of(a, again["asset"])
            if w:
                return w
        if texts is not None:
            texts[0].append(("json", b"", out[2].rstrip(b" ")))
            texts[0].append(("pretty", out[0], out[1]))
            texts[1].append(s["text"])
        return None
    return j


def strings_of(x, y, path=""):
    """every string of the asset in the asset read back"""
    if isinstance(x, dict) and isinstance(y, dict):
        if x.get("src") == "bytes":
            return None
        if sorted(x) != sorted(y) and path.endswith("attributes"):
            return "%s are %s, were %s" % (path, sorted(y), sorted(x))
        return next((w for k in x if k in y for w in [strings_of(x[k], y[k], path + "." + k)] if w), None)
    if isinstance(x, list) and isinstance(y, list):
        if path in (".extensionsUsed", ".extensionsRequired") and x != y:
            return "%s is %s, was %s" % (path, y, x)
        return next((w for i, (a, b) in enumerate(zip(x, y)) for w in [strings_of(a, b, path + "[]")] if w), None)
    if isinstance(x, str) and not x.startswith("#") and x != y:
        return "%s is %r, was %r" % (path, y, x)
    return None


def run(c):
    exe = vlib.build("h_session")
    strings(c, exe)
    one = schema.gen(c, Mode="single")
    many = schema.gen(c, Mode="multi", Depth=10, sim=vlib.tier(60, 2000))
    pairs = schema.gen(c, Mode="pairs")
    sc = [scenario(e, i, (i + k) % len(gltfdoc.EXOTIC)) for i, e in enumerate(pairs) for k in (range(10) if e["doc"][0][0] == "variants" else range(2) if "@U" in json.dumps(e["doc"]) else [0])]
    for i, e in enumerate(one + many):
        ex = range(len(gltfdoc.EXOTIC)) if "@U" in json.dumps(e["doc"]) else [i]
        sc += [scenario(e, i, k) for k in ex]
    texts = ([], [])
    c.conform(exe, sc, judge(texts), key=schema.key)
    seen, pairs, src = set(), [], []
    for p, t in zip(texts[0], [t for t in texts[1] for _ in (0, 1)]):
        if p not in seen:
            seen.add(p)
            pairs.append(p)
            src.append(t)
    for i, why in sorted(tla_judge(c, pairs).items(), key=lambda x: len(pairs[x[0]][2]))[:5]:
        c.violation(why, {"scenario": {"document": src[i]}, "observed": pairs[i][2].decode(errors="replace"), "why": why})
    c.extra.update(documents=len(sc), exported_texts=len(pairs))
