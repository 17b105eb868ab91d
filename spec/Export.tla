------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* Exporting assets.  An exporter has a configuration (folders, extras);   *)
(* an asset has buffers and images whose bytes it holds (vector, array,    *)
(* view), only refers to (uri, fallback, bview) or that cannot be written  *)
(* (none, custom).  The outcome of an export is a function of              *)
(*    the configuration, the asset, the form of output and the options     *)
(* and nothing else; the file system after a file export contains what it  *)
(* contained before, the document, and one file per item whose bytes the   *)
(* asset holds (the first buffer of a GLB is inside the document).         *)
(* Mode "glb": single assets, sizes and alignment;  "files": names,        *)
(* folders, references, failing writes;  "history": sequences of exports.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Mode, Big, Depth
VARIABLES st, hist
vars == <<st, hist>>

HeldKinds == {"vector", "array", "view"}
Held(i) == i.src \in HeldKinds
Writable(i) == Held(i) \/ i.src \in {"uri", "fallback", "bview"}
Buf(src, n, len, name, uri) == [src |-> src, n |-> n, len |-> len, name |-> name, uri |-> uri]
Img(src, n, mime, name, uri) == [src |-> src, n |-> n, mime |-> mime, name |-> name, uri |-> uri]
Asset(bufs, imgs, pad, bad) == [bufs |-> bufs, imgs |-> imgs, pad |-> pad, bad |-> bad]
Forms == {"json", "glb", "file-json", "file-glb"}
IsGlb(form) == form \in {"glb", "file-glb"}
IsFile(form) == form \in {"file-json", "file-glb"}
Embedded(a, form) == IsGlb(form) /\ a.bufs # <<>> /\ Held(a.bufs[1])
\* does the export succeed, given that every file can be written
Ok(a, form, opts) == /\ "ValidateAsset" \in opts => ~a.bad
                     /\ \A i \in DOMAIN a.bufs : Writable(a.bufs[i])
                     /\ \A i \in DOMAIN a.imgs : Writable(a.imgs[i])
                     /\ Embedded(a, form) => a.bufs[1].n >= a.bufs[1].len
\* the items that need a file of their own
ToWrite(a, form) == {<<"buffers", i - 1>> : i \in {i \in DOMAIN a.bufs : Held(a.bufs[i]) /\ ~(i = 1 /\ Embedded(a, form))}}
                    \cup {<<"images", i - 1>> : i \in {i \in DOMAIN a.imgs : Held(a.imgs[i])}}
BinLength(a) == a.bufs[1].len + ((4 - (a.bufs[1].len % 4)) % 4)
Outcome(a, form, opts) ==
  IF ~Ok(a, form, opts) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, write |-> SetToSeq(ToWrite(a, form)), embedded |-> Embedded(a, form), bin |-> IF Embedded(a, form) THEN BinLength(a) ELSE -1]
-----------------------------------------------------------------------------
(* glb: every alignment of the JSON and of the first buffer, every kind of first buffer *)
Sizes == IF Big THEN 0..9 \cup {15, 16, 17, 63, 64, 255, 256, 1000} ELSE 0..5 \cup {8, 17, 64}
Second == {<<>>, <<Buf("vector", 5, 5, "b2", "")>>, <<Buf("uri", 0, 3, "", "ext.bin")>>, <<Buf("fallback", 0, 8, "", "")>>}
Pictures == {<<>>, <<Img("array", 3, "image/png", "", "")>>, <<Img("bview", 0, "image/jpeg", "p", "")>>}
GlbAssets == {Asset(<<Buf(s, n, len, "", "")>> \o b2, im, pad, FALSE) : <<s, n, len, b2, im, pad>> \in
                 {<<s, n, len, b2, im, pad>> \in HeldKinds \X Sizes \X Sizes \X Second \X Pictures \X (0..3) :
                     (len = n \/ (len = n - 1) \/ (len = n + 1 /\ b2 = <<>>)) /\ len > 0 /\ (Big \/ b2 = <<>> \/ im = <<>>)}}
          \cup {Asset(<<Buf(s, 0, len, "", IF s = "uri" THEN "first.bin" ELSE "")>> \o b2, im, pad, FALSE) : s \in {"uri", "fallback", "none", "custom"}, len \in {1, 4}, b2 \in Second, im \in Pictures \ {<<Img("bview", 0, "image/jpeg", "p", "")>>}, pad \in 0..3}
          \cup {Asset(<<>>, im, pad, FALSE) : im \in {<<>>, <<Img("vector", 6, "image/jpeg", "x", "")>>}, pad \in 0..7}
-----------------------------------------------------------------------------
(* files: two or three items whose names may collide or mean something to the file system *)
Names == <<"", "a", "a_1", "buffer1", "image0", "@V", "a%2Fb", "dir/x", "../x", "..", ".", "/dev/null/abs", "x\\y", "a b#c?d", "a%41", "@L", "buffers/a", "con:1", "@Q", " ", "a.bin">>
NameSet == Range(Names)
Folders == {<<"-", "-">>, <<"bufs", "imgs">>, <<"d/e f", "d/e f">>, <<"p%41", "..%2f">>, <<"../side", "./x/../y">>}
\* kinds of second items relative to the first
Pairs == {<<"buffers", "buffers">>, <<"buffers", "images">>, <<"images", "images">>}
MimeSet == {"image/png", "", "image/webp", "image/jpeg", "image/ktx2", "image/vnd-ms.dds"}
\* references an asset may contain already, which exported files must not take the place of
RefUris == <<"a.bin", "bufs/a.bin", "a%2523.bin", "a%23b%3Fc.bin", "x%3Ay/a.bin", "a%2Ebin", "buffer1.bin", "image0.png", "./a.bin", "sub/../a.bin", "imgs/a.png", "d/e%20f/a.bin">>
Two(kinds, n1, n2, m1, m2) ==
  LET b1 == Buf("vector", 6, 6, n1, "")  b2 == Buf("array", 7, 7, n2, "")  i1 == Img("view", 6, m1, n1, "")  i2 == Img("vector", 7, m2, n2, "")
  IN CASE kinds = <<"buffers", "buffers">> -> Asset(<<b1, b2>>, <<>>, 0, FALSE)
       [] kinds = <<"buffers", "images">> -> Asset(<<Buf("uri", 0, 3, "", "zero.bin"), b1>>, <<i2>>, 0, FALSE)
       [] OTHER -> Asset(<<>>, <<i1, i2>>, 0, FALSE)
FileCases == {[a |-> Two(k, n1, n2, m1, m2), folders |-> f, refs |-> <<>>, target |-> t, hurt |-> <<>>] :
                 <<k, n1, n2, m1, m2, f, t>> \in {<<k, n1, n2, m1, m2, f, t>> \in Pairs \X NameSet \X NameSet \X {"image/png", ""} \X {"image/png", "", "image/webp"} \X Folders \X {"out/scene.gltf"} :
                     /\ k[1] = "buffers" => m1 = ""
                     /\ k[2] = "buffers" => m2 = ""
                     /\ (m1 = m2 \/ k[1] = "buffers" \/ n1 = n2)
                     /\ (Big \/ (n1 = n2) \/ f = <<"-", "-">> \/ (n1 = "a" /\ f = <<"bufs", "imgs">>))}}
         \cup {[a |-> Asset(<<Buf("uri", 0, 4, "", r), Buf("vector", 5, 5, n, "")>>, <<Img("vector", 3, m, n2, "")>>, 0, FALSE), folders |-> f, refs |-> <<r>>, target |-> "out/scene.gltf", hurt |-> <<>>] :
                 r \in Range(RefUris), n \in {"a", "", "dir/x"}, m \in {"image/png", ""}, n2 \in {"a", ""}, f \in {<<"-", "-">>, <<"bufs", "imgs">>, <<"d/e f", "d/e f">>}}
         \cup {[a |-> Asset(<<Buf("vector", 5, 5, n, "")>>, <<Img("uri", 0, "image/png", "", r), Img("array", 3, m, "a", "")>>, 0, FALSE), folders |-> f, refs |-> <<r>>, target |-> "out/scene.gltf", hurt |-> <<>>] :
                 r \in Range(RefUris), n \in {"a", "buffer1"}, m \in {"image/png", ""}, f \in {<<"-", "-">>, <<"bufs", "imgs">>}}
         \cup {[a |-> Two(k, "n1", "n2", "image/png", "image/png"), folders |-> f, refs |-> <<>>, target |-> t, hurt |-> <<>>] :
                 k \in Pairs, f \in Folders, t \in {"scene.gltf", "out/deep/er/scene.glb", "o p%41/s c#.x", "./out/../q/scene", "rel:scene.gltf", "rel:r/scene.gltf", "rel:./scene.gltf"}}
         \* something in the way of the document or of the n-th item: a directory, a full disk, a file where a folder is needed
         \cup {[a |-> Asset(<<Buf("vector", n, n, "b0", ""), Buf("array", n, n, "", "")>>, <<Img("vector", n, "image/png", "i0", ""), Img("view", n, "image/jpeg", "", "")>>, 0, FALSE),
                 folders |-> f, refs |-> <<>>, target |-> "out/scene.gltf", hurt |-> <<h, w>>] :
                 n \in {9, 70000}, f \in {<<"-", "-">>, <<"bufs", "imgs">>}, h \in {"dir", "full", "file"}, w \in {"doc", "buffers0", "buffers1", "images0", "images1"}}
Hurts(c, form) == c.hurt # <<>> /\ ~(c.hurt[2] = "buffers0" /\ IsGlb(form)) /\ ~(c.hurt[1] = "file" /\ c.hurt[2] # "doc" /\ c.folders[1] = "-")
-----------------------------------------------------------------------------
(* histories over exporters, assets and options *)
Pool == <<
  Asset(<<Buf("vector", 8, 8, "b", ""), Buf("array", 5, 5, "b", "")>>, <<Img("vector", 4, "image/png", "i", "")>>, 1, FALSE),
  Asset(<<Buf("uri", 0, 4, "", "u.bin"), Buf("view", 6, 6, "", "")>>, <<Img("uri", 0, "", "n", "v.png")>>, 2, FALSE),
  Asset(<<>>, <<>>, 0, FALSE),
  Asset(<<Buf("array", 12, 12, "x", "")>>, <<>>, 3, TRUE),
  Asset(<<Buf("vector", 3, 3, "k", ""), Buf("none", 0, 4, "", "")>>, <<Img("array", 2, "image/jpeg", "", "")>>, 0, FALSE),
  Asset(<<Buf("array", 3, 3, "k", "")>>, <<Img("vector", 4, "image/png", "i", ""), Img("custom", 0, "image/png", "", "")>>, 0, TRUE),
  Asset(<<Buf("view", 2, 4, "s", "")>>, <<>>, 0, FALSE),
  Asset(<<Buf("fallback", 0, 16, "", ""), Buf("vector", 1, 1, "", "")>>, <<Img("bview", 0, "image/png", "", "")>>, 0, FALSE) >>
Confs == << [buffers |-> "-", images |-> "-", extras |-> FALSE], [buffers |-> "bufs", images |-> "imgs", extras |-> TRUE], [buffers |-> "x y", images |-> "-", extras |-> FALSE] >>
OptSets == {{}, {"ValidateAsset"}, {"PrettyPrintJson"}, {"ValidateAsset", "PrettyPrintJson"}}
Exporters == 1..2
-----------------------------------------------------------------------------
Emit(r) == PrintT("@@" \o ToJson(r))
One(c) == CASE Mode = "glb" -> Emit([a |-> c, glb |-> Outcome(c, "glb", {}), json |-> Outcome(c, "json", {})])
            [] Mode = "files" -> \A form \in {"file-json", "file-glb"} :
                 Emit([c |-> c, form |-> form, emb |-> Embedded(c.a, form), out |-> IF Hurts(c, form) THEN [ok |-> FALSE] ELSE Outcome(c.a, form, {})])
Cases == CASE Mode = "glb" -> GlbAssets [] Mode = "files" -> FileCases [] OTHER -> {}
Init == hist = <<>> /\ st = IF Mode = "history" THEN [e |-> [x \in Exporters |-> 0], a |-> 0] ELSE "start"
Single == Mode # "history" /\ st = "start" /\ \E c \in Cases : st' = "end" /\ hist' = <<c>> /\ One(c)
\* an exporter is made with a configuration and used; what it was used for before has no influence on what an export gives
Configure(x, k, op) == /\ op # "exporter" => st.e[x] # 0
                       /\ st' = [st EXCEPT !.e[x] = IF op = "absolute" THEN @ ELSE k]
                       /\ hist' = Append(hist, [op |-> op, e |-> x, conf |-> k])
Export(x, i, form, opts) == /\ st.e[x] # 0 /\ st' = st
                            /\ hist' = Append(hist, [op |-> "export", e |-> x, a |-> i - 1, conf |-> st.e[x], form |-> form, opts |-> SetToSeq(opts), out |-> Outcome(Pool[i], form, opts)])
Step == \E x \in {RandomElement(Exporters)}, k \in {RandomElement(DOMAIN Confs)}, op \in {RandomElement({"exporter", "change", "absolute"})}, c \in {RandomElement(1..6)} :
          IF st.e[x] = 0 THEN Configure(x, k, "exporter")
          ELSE IF c = 1 THEN Configure(x, k, op)
          ELSE \E i \in {RandomElement(DOMAIN Pool)}, form \in {RandomElement(Forms)}, opts \in {RandomElement(OptSets)} : Export(x, i, form, opts)
History == Mode = "history" /\ Len(hist) < Depth /\ Step /\ (Len(hist') = Depth => Emit([h |-> hist']))
Next == Single \/ History
Spec == Init /\ [][Next]_vars
\* the outcome never depends on the history: equal exports anywhere in a history have equal outcomes
Functional == Mode = "history" => \A i, j \in DOMAIN hist :
   (hist[i].op = "export" /\ hist[j].op = "export" /\ hist[i].conf = hist[j].conf /\ hist[i].a = hist[j].a /\ hist[i].form = hist[j].form /\ hist[i].opts = hist[j].opts) => hist[i].out = hist[j].out
ASSUME Mode = "history" => Emit([pool |-> Pool, confs |-> Confs, ref |-> SetToSeq({[a |-> i - 1, conf |-> k, form |-> f, opts |-> SetToSeq(o), out |-> Outcome(Pool[i], f, o)] :
                                       i \in DOMAIN Pool, k \in DOMAIN Confs, f \in Forms, o \in OptSets})])
=============================================================================
