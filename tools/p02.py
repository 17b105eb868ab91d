import random, re
import vlib, schema, gltfdoc

LEX = {"s": ['"a"', '"\\u00e9\\n"', '""', '"{[,"', '"\u4f60"', '"\\\\"'], "n": ["1", "-0.5e+3", "0", "1E400"[:3], "123456789012345678901"[:18]], "l": ["true", "false", "null"],
       "x": ["tru", "'a'", "01", "+1", ".5", "1.", "1e", "-", "NaN", "\"a", "\"\\x\"", "\"\n\"", "\"\\u12g4\"", "nul", "True", "/**/1", "\x01", "#"]}
EXTREME = ["18446744073709551615", "9223372036854775808", "4294967296", "4294967295", "2147483647", "1000000007", "65536"]


def texts(c):
    """documents with one member whose value is a token sequence: loaded iff that is a JSON value"""
    r = random.Random(vlib.SEED)
    out = []
    for e in c.tlc("JsonText", "JsonText.cfg", {"MaxLen": vlib.tier(5, 7)}).emitted:
        v = r.choice(["", " ", "\n\t"]).join(r.choice(LEX[t]) if t in LEX else t for t in e["t"])
        # a lone digit run next to another is one number, so keep tokens apart
        v = " ".join(r.choice(LEX[t]) if t in LEX else t for t in e["t"]) if re.search(r"[\w.+-][\w.+-]", "".join(e["t"])) else v
        for pat in ('{"asset":{"version":"2.0"},"x":%s}', '{"x":%s,"asset":{"version":"2.0"},"meshes":[]}')[: 1 + (not e["ok"])]:
            if e["t"][:1] == ["}"] or not e["ok"] and completes(e["t"]):
                continue
            out.append({"texts": [pat % v], "loads": [{"text": 0, "x": [], "cats": ["All"]}], "exp": e["ok"]})
    return out


def completes(t):
    """the sequence that is no value could be completed by the closing brace or the members that follow it"""
    return "}" in t or "," in t


def judge_text(s, r):
    g = r["loads"][0]
    if g["has"] != (g["error"] == "None"):
        return "result holds an asset: %s with error %s" % (g["has"], g["error"])
    if s["exp"] and g["error"] != "None":
        return "a JSON document was rejected with %s" % g["error"]
    if not s["exp"] and g["error"] == "None":
        return "a text that is not JSON was accepted"
    return None


def judge_any(s, r):
    for g in r["loads"]:
        if g["has"] != (g["error"] == "None"):
            return "result holds an asset: %s with error %s" % (g["has"], g["error"])
        if s.get("exp") == "error" and g["error"] == "None":
            return "a truncated document was accepted"
    return None


def root(e, i, t):
    """a document whose root is given member by member"""
    st = gltfdoc.Style(i * 7 + t if t else None, i)
    a = None if e["asset"] == ["absent"] else st.render(e["asset"])
    text = st.document(e["doc"], a, [(k.replace("@U", st.u), st.render(v)) for k, v in e["root"]])
    return {"texts": [text], "loads": [{"text": 0, "x": ["*"], "cats": ["All"], "post": True, "quiet": True}], "exp": e["loads"], "u": st.u}


def run(c):
    exe = vlib.build("h_load")
    bad = schema.gen(c, Mode="bad")
    c.conform(exe, [schema.scenario(e["doc"], e["loads"], i, styles=vlib.tier(1, 4), extra={"post": True, "quiet": True}) for i, e in enumerate(bad)],
              lambda s, r: schema.judge(s, r, content=False), key=schema.key)
    c.conform(exe, [root(e, i, t) for i, e in enumerate(schema.gen(c, Mode="root")) for t in range(vlib.tier(2, 6))],
              lambda s, r: schema.judge(s, r, content=False), key=schema.key)
    c.conform(exe, texts(c), judge_text, key=lambda s, r, w: w)
    # truncated documents are not JSON; whatever else is done to a document, nothing crashes
    one = schema.gen(c, Mode="single")
    many = schema.gen(c, Mode="multi", Depth=14, sim=vlib.tier(25, 400))
    rnd = random.Random(vlib.SEED)
    sc = []
    opts = [[], ["GenerateMeshIndices"], ["DecomposeNodeMatrices", "DontRequireValidAssetMember"]]

    def load(i, n, **kw):
        # generating indices for a huge accessor is legitimate and needs as much memory
        o = opts[i % 3] if not kw.pop("huge", False) else opts[0]
        return {"text": n, "x": ["*"], "cats": ["All"], "opts": o, "quiet": True, "post": True, **kw}
    for i, e in enumerate(one + many):
        t = gltfdoc.Style(i if i % 2 else None, i).document(e["doc"])
        cuts = sorted(rnd.sample(range(len(t.rstrip())), min(len(t.rstrip()), vlib.tier(6 if i < len(one) else 60, 200))))
        sc.append({"texts": [t[:k] for k in cuts], "loads": [load(i, n) for n in range(len(cuts))], "exp": "error"})
        t = gltfdoc.Style(None, i).document(e["doc"])
        nums = [m.span() for m in re.finditer(r"(?<=[:\[,])\d+(?=[,\]}])", t)]
        muts = []
        for a, b in rnd.sample(nums, min(len(nums), vlib.tier(3, 12))):
            muts.append(t[:a] + rnd.choice(EXTREME) + t[b:])
        for _ in range(vlib.tier(2 if i < len(one) else 20, 40)):
            k = rnd.randrange(len(t))
            n = rnd.randrange(1, 8)
            muts.append(rnd.choice([t[:k] + rnd.choice('{}[]",:0123456789aeE.-\\ \x00') + t[k + 1:], t[:k] + t[k + n:], t[:k] + t[k:k + n] + t[k:], t[:k] + rnd.choice(["null", "[]", "{}", "-1", "\"\"", "1e999"]) + t[k + n:]]))
        sc.append({"texts": muts, "loads": [load(i + n, n, huge=bool(re.search(r"\d{7}", m)) or "e9" in m) for n, m in enumerate(muts)]})
    c.conform(exe, sc, judge_any, key=lambda s, r, w: w, per_timeout=30)
    c.extra.update(mutated=len(sc))
