------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Parsers, data sources and assets over time.                             *)
(*                                                                         *)
(* A document here is a container (JSON or GLB), asset information,        *)
(* extension lists, buffers and images with where their bytes come from,   *)
(* and a body of other elements (module Document).  Loading is a function  *)
(* of the document, the parser's configuration and the arguments of that   *)
(* load (Outcome); the machine below runs arbitrary histories over several *)
(* parsers, sources and assets in which every load has exactly that        *)
(* outcome and every asset keeps its value until it is overwritten.        *)
(***************************************************************************)
EXTENDS Document, Json
CONSTANTS Mode, Depth, Big

-----------------------------------------------------------------------------
(* Asset information: whether it is valid glTF 2 asset information, and whether it has to be accepted when the caller tolerates invalid
   information ("t"), need not be ("") *)
AssetForms == <<
  [f |-> "2.0", ok |-> TRUE, t |-> TRUE], [f |-> "2.1", ok |-> TRUE, t |-> TRUE], [f |-> "full", ok |-> TRUE, t |-> TRUE], [f |-> "extra", ok |-> TRUE, t |-> TRUE],
  [f |-> "2.10", ok |-> TRUE, t |-> TRUE],
  [f |-> "missing", ok |-> FALSE, t |-> TRUE], [f |-> "empty", ok |-> FALSE, t |-> TRUE],
  [f |-> "1.0", ok |-> FALSE, t |-> FALSE], [f |-> "3.0", ok |-> FALSE, t |-> FALSE], [f |-> "20.0", ok |-> FALSE, t |-> FALSE], [f |-> "02.0", ok |-> FALSE, t |-> FALSE], [f |-> "1.2", ok |-> FALSE, t |-> FALSE],
  [f |-> "blank", ok |-> FALSE, t |-> FALSE], [f |-> "number", ok |-> FALSE, t |-> FALSE], [f |-> "null", ok |-> FALSE, t |-> FALSE], [f |-> "array", ok |-> FALSE, t |-> FALSE],
  [f |-> "string", ok |-> FALSE, t |-> FALSE], [f |-> "nullversion", ok |-> FALSE, t |-> FALSE], [f |-> "badgenerator", ok |-> FALSE, t |-> FALSE], [f |-> "badcopyright", ok |-> FALSE, t |-> FALSE] >>
AF(f) == AssetForms[CHOOSE i \in DOMAIN AssetForms : AssetForms[i].f = f]

(* Files next to the document: how the document refers to them, their decoded path and size (-1: there is no such file) *)
Files == << [uri |-> "plain.bin", path |-> "plain.bin", n |-> 8], [uri |-> "dir/nested.bin", path |-> "dir/nested.bin", n |-> 21],
            [uri |-> "sp%20ace%2B%25.bin", path |-> "sp ace+%.bin", n |-> 5], [uri |-> "%C3%BC%E4%BD%A0.bin", path |-> "@V.bin", n |-> 64],
            [uri |-> "dir/../plain.bin", path |-> "dir/../plain.bin", n |-> 8], [uri |-> "big.bin", path |-> "big.bin", n |-> 5000],
            [uri |-> "missing.bin", path |-> "missing.bin", n |-> -1], [uri |-> "dir/missing/x.bin", path |-> "dir/missing/x.bin", n |-> -1],
            [uri |-> "a%2Fb.bin", path |-> "a/b.bin", n |-> 7],
            [uri |-> "empty.bin", path |-> "empty.bin", n |-> 0], [uri |-> "huge.bin", path |-> "huge.bin", n |-> 70001],
            [uri |-> "./dir/./page.bin", path |-> "./dir/./page.bin", n |-> 4096], [uri |-> "dir/no%2Eext", path |-> "dir/no.ext", n |-> 16383] >>
Remote == << [uri |-> "http://h.example/plain.bin", path |-> "/plain.bin"], [uri |-> "https://u@h.example:81/d/plain.bin?x=1#f", path |-> "/d/plain.bin"],
             [uri |-> "ftp:plain.bin", path |-> "plain.bin"], [uri |-> "file://host/plain.bin", path |-> "/plain.bin"] >>
\* a reference: k = kind; n = payload size; i = which file; m = media type in the data URI; mm = mimeType member
Ref(k, n, i, m, mm, len) == [k |-> k, n |-> n, i |-> i, m |-> m, mm |-> mm, len |-> len]
KnownMimes == {"image/jpeg", "image/png", "image/ktx2", "image/vnd-ms.dds", "image/webp", "application/octet-stream", "application/gltf-buffer"}
Type(m) == IF m \in KnownMimes THEN m ELSE ""
Malformed == {"nob64", "nocomma", "badpad", "badchar", "badlen", "space", "nosemi", "midpad", "newline"}

Doc(kind, asset, used, req, bin, buffers, images, body) ==
  [kind |-> kind, asset |-> asset, used |-> used, req |-> req, bin |-> bin, buffers |-> buffers, images |-> images, body |-> body]
NoBody == <<>>
BodyOf(d) == [t \in TopSet |-> IF \E i \in DOMAIN d.body : d.body[i][1] = t THEN d.body[CHOOSE i \in DOMAIN d.body : d.body[i][1] = t][2] ELSE <<>>]
\* a parser's configuration: enabled extensions, memory callback, decode callback, unmap callback, extras callback
Cfg(x, map, dec, unmap) == [x |-> x, map |-> map, dec |-> dec, unmap |-> unmap, extras |-> FALSE]
Plain(x) == Cfg(x, "none", FALSE, TRUE)
Args(opts, cats, dir, entry) == [opts |-> opts, cats |-> cats, dir |-> dir, entry |-> entry]

-----------------------------------------------------------------------------
(* What one reference denotes: [ok, src, ...] ; deliv is how bytes are handed over *)
Deliv(map) == CASE map = "alloc" -> "custom" [] map = "alternate" -> "either" [] OTHER -> "bytes"
Bad == [ok |-> FALSE]
Held(tok, n, mime, how, cfg) == [ok |-> TRUE, src |-> Deliv(cfg.map), tok |-> tok, n |-> n, mime |-> mime, how |-> how]
Uri(u, p, mime) == [ok |-> TRUE, src |-> "uri", uri |-> u, path |-> p, mime |-> mime]
FileRef(r, load, mime, cfg, dir) ==
  LET f == Files[r.i] IN IF ~load THEN Uri(f.path, f.path, mime)
                         ELSE IF f.n < 0 \/ dir = "bad" THEN Bad ELSE Held(<<"file", f.path>>, f.n, mime, "file", cfg)
Buffer(d, i, cfg, opts, dir) ==
  LET r == d.buffers[i] IN
  CASE r.k = "data" -> IF r.n < r.len THEN Bad ELSE Held(<<"buffer", i>>, r.n, Type(r.m), "data", cfg)
    [] r.k \in Malformed \cup {"emptyuri", "colon"} -> Bad
    [] r.k = "file" -> FileRef(r, "LoadExternalBuffers" \in opts, "", cfg, dir)
    [] r.k = "remote" -> Uri(Remote[r.i].uri, Remote[r.i].path, "")
    [] r.k = "none" -> IF i = 1 /\ d.kind = "glb" /\ d.bin > 0 THEN (IF d.bin >= r.len THEN Held(<<"bin">>, d.bin, "*", "bin", cfg) ELSE Bad)
                       ELSE IF "EXT_meshopt_compression" \in Range(d.req) THEN [ok |-> TRUE, src |-> "fallback"] ELSE Bad
Image(d, i, cfg, opts, dir) ==
  LET r == d.images[i]  member == IF r.mm = "" THEN "" ELSE Type(r.mm) IN
  CASE r.k = "data" -> Held(<<"image", i>>, r.n, IF r.mm = "" THEN Type(r.m) ELSE member, "data", cfg)
    [] r.k \in Malformed \cup {"emptyuri", "colon"} -> Bad
    [] r.k = "file" -> FileRef(r, "LoadExternalImages" \in opts, member, cfg, dir)
    [] r.k = "remote" -> Uri(Remote[r.i].uri, Remote[r.i].path, member)
    [] r.k = "none" -> Bad
    [] r.k = "view" -> IF r.mm = "" THEN Bad ELSE [ok |-> TRUE, src |-> "view", view |-> r.i, mime |-> member]
    [] r.k = "both" -> Bad

-----------------------------------------------------------------------------
(* The outcome of one load *)
ReqErrors(req, X) == {IF req[i] \in Extensions THEN "MissingExtensions" ELSE "UnknownRequiredExtension" : i \in {j \in DOMAIN req : req[j] \notin Extensions \/ req[j] \notin X}}
Fail(codes) == [ok |-> FALSE, err |-> SetToSeq(codes)]
\* whether the load has to be decided one way: tolerated but unspecified asset information leaves it open
Open(d, a) == "DontRequireValidAssetMember" \in a.opts /\ ~AF(d.asset).t
Outcome1(d, cfg, a) ==
  LET C == Closure(a.cats)
      pathBad == "LoadExternalBuffers" \in a.opts /\ a.dir = "bad"
      entryBad == a.entry \in {"json", "glb"} \ {d.kind}
      assetBad == ~AF(d.asset).ok /\ "DontRequireValidAssetMember" \notin a.opts
      re == ReqErrors(d.req, cfg.x)
      bs == IF "buffers" \in C THEN [i \in DOMAIN d.buffers |-> Buffer(d, i, cfg, a.opts, a.dir)] ELSE <<>>
      is == IF "images" \in C THEN [i \in DOMAIN d.images |-> Image(d, i, cfg, a.opts, a.dir)] ELSE <<>>
      body == BodyOf(d)
  IN IF pathBad \/ entryBad \/ assetBad THEN Fail({})
     ELSE IF re # {} THEN Fail(re)
     ELSE IF (\E i \in DOMAIN bs : ~bs[i].ok) \/ (\E i \in DOMAIN is : ~is[i].ok) \/ ~Accepts(body, cfg.x, C) THEN Fail({})
     ELSE [ok |-> TRUE, buffers |-> bs, images |-> is, used |-> d.used, req |-> d.req, asset |-> IF "DontRequireValidAssetMember" \in a.opts THEN "*" ELSE d.asset,
           exp |-> SelectSeq([i \in DOMAIN Tops |-> <<Tops[i], Loaded(body, cfg.x, C)[Tops[i]]>>], LAMBDA p : p[2] # <<>>),
           avail |-> SetToSeq({t \in C : \/ t = "buffers" /\ d.buffers # <<>>
                                         \/ t = "images" /\ d.images # <<>>
                                         \/ body[t] # <<>> /\ Present(t, cfg.x)})]
CfgName(c) == [c EXCEPT !.x = XName(c.x)]
ArgName(a) == [a EXCEPT !.opts = SetToSeq(a.opts), !.cats = IF a.cats = Categories THEN <<"All">> ELSE SetToSeq(a.cats)]
LoadOf(d, cfg, a) == [cfg |-> CfgName(cfg), args |-> ArgName(a), out |-> Outcome1(d, cfg, a)]

-----------------------------------------------------------------------------
(* Pools *)
AllX == Extensions
Req(used, req) == Doc("json", "2.0", used, req, -1, <<>>, <<>>, NoBody)
Lists(W, n) == UNION {[1..k -> W] : k \in 0..n}
ExtNames == {"KHR_materials_ior", "KHR_materials_unlit", "VENDOR_unknown", "KHR_materials_io", "EXT_meshopt_compression"}
\* every extension alone; every short list of required extensions; every form of asset information with and without them
ReqDocs == {Req(<<"KHR_materials_ior">> \o u, r) : u \in {<<>>, <<"VENDOR_a", "KHR_materials_ior", "VENDOR_a">>}, r \in Lists(ExtNames, IF Big THEN 3 ELSE 2)}
           \cup {Req(<<e>>, <<e>>) : e \in Extensions}
           \* names that are almost those of an extension
           \cup UNION {{Req(<<>>, <<e \o "2">>), Req(<<>>, <<SubSeq(e, 1, Len(e) - 1)>>), Req(<<>>, <<SubSeq(e, 2, Len(e))>>), Req(<<>>, <<" " \o e>>), Req(<<e>>, <<e, e \o " ">>)} : e \in Extensions}
           \cup {Req(<<>>, <<e>>) : e \in {"", "KHR", "KHR_", "khr_materials_ior", "KHR_MATERIALS_IOR", "KHR_materials_ior\t", "KHR-materials-ior", "EXT_materials_ior", "*"}} \cup {Req(<<>>, <<"KHR_materials_ior", e>>) : e \in Extensions}
           \cup {[Req(<<"X_1">>, r) EXCEPT !.asset = AssetForms[i].f, !.kind = k, !.buffers = b] : i \in DOMAIN AssetForms, k \in {"json", "glb"},
                  r \in {<<>>, <<"KHR_materials_ior">>, <<"VENDOR_unknown">>}, b \in {<<>>, <<Ref("badchar", 4, 1, "", "", 4)>>}}
           \cup {[Req(<<>>, r) EXCEPT !.buffers = <<Ref("data", 4, 1, "", "", 4)>>, !.bin = b, !.kind = IF b < 0 THEN "json" ELSE "glb"] : r \in {<<"VENDOR_unknown">>, <<"KHR_materials_unlit">>}, b \in {-1, 8}}
ReqLoads(d) == {LoadOf(d, [Plain(x) EXCEPT !.map = m], Args(o, Categories, "ok", "auto")) :
                  x \in IF Len(d.req) = 1 /\ d.asset = "2.0" THEN {AllX, {}, Range(d.req) \cap Extensions, Extensions \ Range(d.req)} ELSE {AllX, {}, {"KHR_materials_ior"}, Extensions \ {"KHR_materials_unlit"}},
                  o \in {{}} \cup (IF AF(d.asset).t THEN {{"DontRequireValidAssetMember"}} ELSE {}), m \in IF d.buffers = <<>> THEN {"none"} ELSE {"alloc"}}

Sizes == IF Big THEN (0..70) \cup {1000, 4096, 100000} ELSE {0, 1, 2, 3, 12, 15, 16, 17, 47, 48, 49, 64, 1000, 4097, 70001}
BufRefs == {Ref("data", n, 1, m, "", 1) : n \in Sizes \ {0}, m \in {"application/octet-stream"}} \cup {Ref("data", 9, 1, m, "", 7) : m \in {"", "application/gltf-buffer", "text/plain;charset=x", "image/png"}}
           \cup {Ref("data", n, 1, "", "", n + k) : n \in {0, 3, 16, 48}, k \in {1, 3}} \cup {Ref("data", n, 1, "", "", n) : n \in {3, 16, 48}}
           \cup {Ref(k, 8, 1, "application/octet-stream", "", 2) : k \in Malformed \cup {"emptyuri", "colon"}} \cup {Ref("data", 8, 1, "", "", 100000)}
           \cup {Ref("file", 0, i, "", "", 1) : i \in DOMAIN Files} \cup {Ref("remote", 0, i, "", "", 1) : i \in DOMAIN Remote} \cup {Ref("none", 0, 1, "", "", 6)}
ImgRefs == {Ref("data", n, 1, m, mm, 0) : n \in {0, 1, 17, 48}, m \in {"image/png", "", "x/y"}, mm \in {"", "image/jpeg"}} \cup {Ref("data", 5, 1, m, "", 0) : m \in KnownMimes}
           \cup {Ref("data", n, 1, "image/ktx2", "", 0) : n \in Sizes \ {0}}
           \cup {Ref(k, 8, 1, "image/png", "", 0) : k \in Malformed \cup {"emptyuri", "colon", "none", "both"}}
           \cup {Ref("file", 0, i, "", mm, 0) : i \in DOMAIN Files, mm \in {"", "image/png"}} \cup {Ref("remote", 0, i, "", mm, 0) : i \in DOMAIN Remote, mm \in {"", "image/webp"}}
           \cup {Ref("view", 0, 2, "", mm, 0) : mm \in {"", "image/png", "image/webp"}}
D1 == Ref("data", 33, 1, "application/octet-stream", "", 30)
N1 == Ref("none", 0, 1, "", "", 6)
F1 == Ref("file", 0, 2, "", "", 4)
I1 == Ref("data", 10, 1, "image/png", "", 0)
PayDoc(kind, bin, bs, is) == Doc(kind, "2.0", <<>>, <<>>, bin, bs, is, NoBody)
PayDocs == {PayDoc("json", -1, <<b>>, <<>>) : b \in BufRefs} \cup {PayDoc("glb", 8, <<N1, b>>, <<>>) : b \in BufRefs} \cup {PayDoc("json", -1, <<>>, <<r>>) : r \in ImgRefs}
           \cup {PayDoc("glb", 8, <<N1>>, <<r, I1>>) : r \in ImgRefs}
           \cup {PayDoc("glb", n, <<N1>>, <<>>) : n \in {0, 4, 8, 100, 4092, 65536, 140004}} \cup {PayDoc("glb", n, <<D1, N1>>, <<>>) : n \in {-1, 8}} \cup {PayDoc("glb", -1, <<N1>>, <<>>), PayDoc("glb", 8, <<N1, N1>>, <<>>)}
           \cup {PayDoc("json", -1, <<D1, F1, D1>>, <<I1, Ref("file", 0, 1, "", "", 0), I1>>), PayDoc("glb", 12, <<N1, D1, F1>>, <<Ref("file", 0, 6, "", "image/png", 0), I1>>)}
           \cup {Doc(k, "2.0", <<>>, <<"EXT_meshopt_compression">>, b, bs, <<>>, NoBody) : k \in {"json"}, b \in {-1}, bs \in {<<N1>>, <<D1, N1, N1>>}}
           \cup {Doc("glb", "2.0", <<>>, <<"EXT_meshopt_compression">>, b, bs, <<>>, NoBody) : b \in {8, -1}, bs \in {<<N1>>, <<N1, D1, N1>>}}
PayOpts == {{}, {"LoadExternalBuffers"}, {"LoadExternalImages"}, {"LoadExternalBuffers", "LoadExternalImages"}}
PayArgs(d) == {Args(o, Categories, "ok", "auto") : o \in PayOpts} \cup {Args({"LoadExternalBuffers"}, Categories, "bad", "auto"), Args({"LoadExternalBuffers", "LoadExternalImages"}, {"images"}, "ok", "auto"),
               Args({}, {"buffers"}, "ok", "auto"), Args({}, {"cameras"}, "ok", "auto")}
PayCfgs == {Cfg(AllX, m, dec, TRUE) : m \in {"none", "alloc", "decline", "alternate"}, dec \in {FALSE, TRUE}} \cup {Cfg(AllX, "alloc", FALSE, FALSE)}
PayLoads(d) == {LoadOf(d, c, a) : c \in PayCfgs, a \in PayArgs(d)}

Pool == IF Mode = "req" THEN ReqDocs ELSE PayDocs
LoadsOf(d) == SetToSeq(IF Mode = "req" THEN ReqLoads(d) ELSE PayLoads(d))

-----------------------------------------------------------------------------
(* Histories *)
Mat(e) == O(<<<<"name", S("m")>>, <<"extensions", e>>>>)
BodyA == <<<<"materials", <<Mat(O(<<<<"KHR_materials_ior", O(<<<<"ior", N("2.25")>>>>)>>, <<"KHR_materials_unlit", O(<<>>)>>>>)), O(<<<<"emissiveFactor", NA(<<"0.5", "0", "1">>)>>>>)>>>>,
            <<"meshes", <<O(<<<<"primitives", A(<<O(<<<<"attributes", O(<<<<"POSITION", N("0")>>>>)>>, <<"extensions", O(<<<<"KHR_materials_variants", O(<<<<"mappings", A(<<O(<<<<"material", N("1")>>, <<"variants", NA(<<"0", "2">>)>>>>)>>)>>>>)>>>>)>>>>)>>)>>>>)>>>>,
            <<"variants", <<O(<<<<"name", S("v0")>>>>), O(<<<<"name", S("v1")>>>>), O(<<<<"name", S("v2")>>>>)>>>>,
            <<"lights", <<O(<<<<"type", S("point")>>, <<"range", N("3")>>>>)>>>>,
            <<"cameras", <<O(<<<<"type", S("perspective")>>, <<"perspective", O(<<<<"yfov", N("0.5")>>, <<"znear", N("1")>>>>)>>>>)>>>>>>
\* refers to more variants than it defines, so it is not valid when the extension is on
BodyB == <<<<"meshes", BodyA[2][2]>>, <<"nodes", <<O(<<<<"name", S("n")>>, <<"children", NA(<<"1">>)>>>>), O(<<<<"translation", NA(<<"1", "2", "3">>)>>>>)>>>>,
            <<"variants", <<O(<<<<"name", S("w0")>>>>)>>>>, <<"scenes", <<O(<<<<"nodes", NA(<<"0">>)>>>>)>>>>>>
BodyC == <<<<"meshes", <<O(<<<<"primitives", A(<<O(<<<<"attributes", O(<<>>)>>, <<"mode", N("1")>>>>), O(<<<<"attributes", O(<<<<"NORMAL", N("2")>>>>)>>>>)>>)>>, <<"weights", NA(<<"0.5", "1">>)>>>>)>>>>,
            <<"nodes", <<O(<<<<"name", S("only")>>, <<"extensions", O(<<<<"KHR_lights_punctual", O(<<<<"light", N("0")>>>>)>>>>)>>>>)>>>>,
            <<"lights", <<O(<<<<"type", S("spot")>>, <<"spot", O(<<<<"innerConeAngle", N("0.25")>>>>)>>>>)>>>>, <<"samplers", <<O(<<<<"wrapS", N("33071")>>>>)>>>>>>
HistDocs == <<
  Doc("json", "2.0", <<"A_1", "A_2">>, <<>>, -1, <<D1>>, <<I1>>, BodyA),
  Doc("json", "full", <<>>, <<"KHR_materials_unlit">>, -1, <<F1, D1>>, <<Ref("file", 0, 1, "", "image/png", 0)>>, BodyC),
  Doc("json", "2.0", <<"B">>, <<>>, -1, <<>>, <<>>, BodyB),
  Doc("json", "2.0", <<>>, <<"VENDOR_unknown">>, -1, <<D1>>, <<>>, BodyA),
  Doc("json", "1.0", <<>>, <<>>, -1, <<D1>>, <<>>, BodyC),
  Doc("json", "missing", <<>>, <<>>, -1, <<D1>>, <<I1>>, BodyA),
  Doc("json", "2.0", <<>>, <<>>, -1, <<D1, Ref("badchar", 4, 1, "", "", 4)>>, <<I1>>, BodyA),
  Doc("json", "2.0", <<>>, <<>>, -1, <<N1>>, <<>>, BodyA),
  Doc("json", "2.0", <<>>, <<"EXT_meshopt_compression">>, -1, <<N1, N1>>, <<>>, NoBody),
  Doc("json", "2.0", <<>>, <<>>, -1, <<Ref("file", 0, 7, "", "", 4)>>, <<>>, BodyA),
  Doc("glb", "2.0", <<"G">>, <<>>, 12, <<N1, D1>>, <<I1>>, BodyA),
  Doc("glb", "2.0", <<>>, <<>>, 40, <<N1>>, <<>>, BodyC),
  Doc("glb", "2.0", <<>>, <<>>, 12, <<D1>>, <<>>, BodyC),
  Doc("glb", "2.0", <<>>, <<>>, -1, <<N1>>, <<>>, BodyA),
  Doc("glb", "2.0", <<>>, <<"VENDOR_unknown">>, 16, <<N1>>, <<>>, BodyA),
  Doc("glb", "2.0", <<>>, <<>>, 8, <<Ref("none", 0, 1, "", "", 9)>>, <<>>, NoBody),
  Doc("glb", "2.0", <<>>, <<>>, 8, <<D1, N1>>, <<>>, NoBody),
  Doc("glb", "2.0", <<>>, <<>>, 8, <<N1, Ref("badlen", 4, 1, "", "", 4)>>, <<>>, BodyA),
  Doc("glb", "2.0", <<>>, <<"EXT_meshopt_compression">>, 8, <<N1, N1, F1>>, <<>>, BodyB) >>
\* the tables the bytes of documents and files are made from
Tables == PrintT("@@" \o ToJson([files |-> Files, remote |-> Remote, docs |-> HistDocs]))
Xs == {AllX, {}, {"KHR_materials_ior"}, {"KHR_materials_variants", "KHR_lights_punctual"}, {"KHR_materials_unlit", "EXT_meshopt_compression", "KHR_materials_variants"}}
Kinds == {"bytes", "file", "mmap", "stream"}
HCats == {Categories, Categories, {"images"}, {"buffers", "cameras"}, {"scenes"}, {"meshes"}, {"materials", "nodes"}, {"samplers"}, {}}
HOpts == SUBSET {"LoadExternalBuffers", "LoadExternalImages", "DontRequireValidAssetMember"}
\* documents that load come up more often
Weights == <<1, 1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 11, 11, 11, 12, 12, 12, 13, 13, 14, 15, 16, 17, 18, 19, 19>>
VARIABLES parsers,   \* slot -> configuration, or NUL
          sources,   \* slot -> number of a document, or 0
          assets,    \* slot -> the outcome the asset in it has, or NUL
          hist, todo
vars == <<parsers, sources, assets, hist, todo>>
Slots == 1..3
ASlots == 1..4
Dead == [x |-> "dead"]
None == [ok |-> FALSE, none |-> TRUE]
Init == /\ parsers = [s \in Slots |-> Dead] /\ sources = [s \in Slots |-> 0] /\ assets = [a \in ASlots |-> None] /\ hist = <<>>
        /\ todo = <<"run">> /\ Tables
\* (the argument keeps TLC from evaluating it once and for all)
RndCfg(h) == Cfg(RandomElement(Xs), RandomElement({"none", "none", "alloc", "decline"}), RandomElement({TRUE, FALSE}), RandomElement({TRUE, TRUE, FALSE}))
Log(r) == hist' = Append(hist, r)
Alive(p) == parsers[p] # Dead
NewParser(p) == ~Alive(p) /\ \E c \in {RndCfg(hist)} : parsers' = [parsers EXCEPT ![p] = c] /\ Log([op |-> "parser", p |-> p, cfg |-> CfgName(c)]) /\ UNCHANGED <<sources, assets>>
Configure(p) == Alive(p) /\ \E c \in {[RndCfg(hist) EXCEPT !.x = parsers[p].x]} : parsers' = [parsers EXCEPT ![p] = c] /\ Log([op |-> "configure", p |-> p, cfg |-> CfgName(c)]) /\ UNCHANGED <<sources, assets>>
MoveParser(p, q) == p # q /\ Alive(p) /\ parsers' = [parsers EXCEPT ![p] = Dead, ![q] = parsers[p]] /\ Log([op |-> "movep", p |-> p, q |-> q]) /\ UNCHANGED <<sources, assets>>
DeleteParser(p) == Alive(p) /\ parsers' = [parsers EXCEPT ![p] = Dead] /\ Log([op |-> "delp", p |-> p]) /\ UNCHANGED <<sources, assets>>
NewSource(s) == \E d \in {Weights[RandomElement(DOMAIN Weights)]} : sources' = [sources EXCEPT ![s] = d] /\ Log([op |-> "source", s |-> s, doc |-> d, kind |-> RandomElement(Kinds)]) /\ UNCHANGED <<parsers, assets>>
MoveSource(s) == sources[s] # 0 /\ Log([op |-> "moves", s |-> s]) /\ UNCHANGED <<parsers, sources, assets>>
Detect(s) == sources[s] # 0 /\ Log([op |-> "detect", s |-> s, type |-> IF HistDocs[sources[s]].kind = "glb" THEN "glb" ELSE "gltf"]) /\ UNCHANGED <<parsers, sources, assets>>
DoLoad(p, s) ==
  /\ Alive(p) /\ sources[s] # 0
  /\ \E a \in {Args(RandomElement(HOpts), RandomElement(HCats), RandomElement({"ok", "bad", "fine", "here"}), RandomElement({"auto", "any", "one", "other", HistDocs[sources[s]].kind, "json", "glb"}))}, slot \in {RandomElement(ASlots)} :
     LET d == HistDocs[sources[s]]
         out == Outcome1(d, parsers[p], a)
     IN IF Open(d, a) THEN FALSE
        ELSE /\ assets' = [assets EXCEPT ![slot] = IF out.ok THEN out ELSE @]
             /\ Log([op |-> "load", p |-> p, s |-> s, a |-> slot, cfg |-> CfgName(parsers[p]), args |-> ArgName(a), out |-> out])
             /\ UNCHANGED <<parsers, sources>>
Dump(a) == assets[a].ok /\ Log([op |-> "dump", a |-> a]) /\ UNCHANGED <<parsers, sources, assets>>
MoveAsset(a, b) == a # b /\ assets[a].ok /\ assets' = [assets EXCEPT ![b] = assets[a], ![a] = None] /\ Log([op |-> "movea", a |-> a, b |-> b]) /\ UNCHANGED <<parsers, sources>>
\* a step is drawn among a few candidates; loads are the most likely ones
Act == \E p \in {RandomElement(Slots)}, q \in {RandomElement(Slots)}, s \in {RandomElement(Slots)}, z \in {RandomElement(Slots)}, a \in {RandomElement(ASlots)}, b \in {RandomElement(ASlots)} :
         \/ NewParser(p) \/ NewParser(q) \/ Configure(p) \/ DeleteParser(q) \/ MoveParser(p, q)
         \/ NewSource(s) \/ (sources[z] = 0 /\ NewSource(z)) \/ MoveSource(s) \/ Detect(z)
         \/ DoLoad(p, s) \/ DoLoad(q, s) \/ DoLoad(p, z) \/ DoLoad(q, z)
         \/ DoLoad((p % 3) + 1, s) \/ DoLoad(p, (s % 3) + 1)
         \/ Dump(a) \/ MoveAsset(a, b)
HistNext == /\ Mode = "hist"
            /\ \/ todo = <<"run">> /\ Len(hist) < Depth /\ Act /\ todo' = todo
               \/ todo = <<"run">> /\ Len(hist) = Depth /\ todo' = <<"end">> /\ PrintT("@@" \o ToJson([hist |-> hist])) /\ UNCHANGED <<parsers, sources, assets, hist>>
\* one document, every load of it
OneDoc == /\ Mode # "hist" /\ todo = <<"run">> /\ \E d \in Pool : /\ todo' = <<"doc", d>>
          /\ UNCHANGED <<parsers, sources, assets, hist>>
Emit == /\ Mode # "hist" /\ todo[1] = "doc" /\ PrintT("@@" \o ToJson([doc |-> todo[2], loads |-> LoadsOf(todo[2])]))
        /\ todo' = <<"end">> /\ UNCHANGED <<parsers, sources, assets, hist>>
Next == HistNext \/ OneDoc \/ Emit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the model *)
\* an asset is never half loaded, and never holds a payload that was not there
AssetsSound == \A a \in ASlots : assets[a].ok => \A i \in DOMAIN assets[a].buffers : assets[a].buffers[i].ok
\* the required extensions of everything loaded are known and were enabled
Enforced == Mode # "hist" \/ hist = <<>> \/ LET e == hist[Len(hist)] IN e.op # "load" \/ ~e.out.ok \/ \A i \in DOMAIN e.out.req : e.out.req[i] \in Extensions
\* two loads of a history with equal arguments have equal outcomes, whatever happened in between
HistoryFree == Mode # "hist" \/ hist = <<>> \/ LET e == hist[Len(hist)] IN e.op # "load" \/
   (\A i \in 1..(Len(hist) - 1) : (hist[i].op = "load" /\ hist[i].cfg = e.cfg /\ hist[i].args = e.args /\ hist[i].s = e.s
      /\ ~\E j \in i..Len(hist) : hist[j].op = "source" /\ hist[j].s = e.s) => hist[i].out = e.out)
=============================================================================
