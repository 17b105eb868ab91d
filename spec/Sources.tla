------------------------------ MODULE Sources ------------------------------
(***************************************************************************)
(* One content behind several data sources.  Whatever sequence of          *)
(* detections and loads is made on a source, each of them gives what the   *)
(* content alone determines: the position a source was left at, the kind   *)
(* of source and the entry point chosen by hand or by detection play no    *)
(* part.                                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Mode, Big

(* A content: the first bytes, the whole size and what follows.
   body: "json" a complete JSON document, "glb" a complete binary one, "none" nothing valid; cut: bytes missing from the end *)
C(head, body, size, cut) == [head |-> head, body |-> body, size |-> size, cut |-> cut]
Bytes == {" ", "{", "g", "l", "T", "F", "n", "z"}      \* n: newline, t: tab, r: carriage return, z: zero
Magic == <<"g", "l", "T", "F">>
Sz(c) == c.size - c.cut
\* what has to be detected; "any" where sources only have to agree
White == {" ", "n", "t", "r"}
Detected(c) ==
  LET h == SubSeq(c.head, 1, IF Sz(c) < Len(c.head) THEN Sz(c) ELSE Len(c.head))
      seen == {i \in DOMAIN h : h[i] \notin White}
      k == CHOOSE i \in seen : \A j \in seen : i <= j
  IN IF Sz(c) >= 12 /\ Len(h) >= 4 /\ SubSeq(h, 1, 4) = Magic THEN "glb"
     ELSE IF seen = {} THEN "invalid"
     ELSE IF h[k] = "{" THEN "gltf"       \* leading whitespace of a JSON text has no meaning
     ELSE IF \E i \in seen : h[i] = "{" /\ (i <= 4 \/ k > 4) THEN "any"
     ELSE "invalid"
\* whether loading through an entry has to succeed ("ok"), has to fail ("fail"), or only to be the same everywhere ("any")
Valid(c, e) == c.body = e /\ c.cut = 0
Load(c, e) ==
  LET k == IF e # "auto" THEN e ELSE CASE Detected(c) = "glb" -> "glb" [] Detected(c) = "gltf" -> "json" [] Detected(c) = "any" -> "?" [] OTHER -> "none"
  IN IF k = "?" THEN "any" ELSE IF k = "none" THEN "fail" ELSE IF Valid(c, k) THEN "ok" ELSE "fail"

-----------------------------------------------------------------------------
Heads == {<<>>} \cup {<<a>> : a \in Bytes} \cup {<<a, b, x, y>> : a, b, x, y \in {" ", "{", "g", "n", "z"}} \cup {[i \in 1..m |-> IF i = m THEN a ELSE " "] : m \in {5, 6, 8, 9, 12}, a \in {" ", "g", "z", "{"}} \cup {<<a>> \o Tail(Magic) : a \in Bytes} \cup {Magic \o <<a>> : a \in Bytes} \cup {<<"g", "l", "T", a>> : a \in Bytes}
Around(n) == {n - 65, n - 64, n - 63, n - 33, n - 32, n - 31, n - 17, n - 16, n - 15, n - 1, n, n + 1, n + 64}
JsonSizes == (IF Big THEN 100..600 ELSE 127..193) \cup Around(4096) \cup Around(8192) \cup (IF Big THEN Around(65536) \cup Around(1048576) ELSE {65536, 65535, 262144})
GlbSizes == {n \in JsonSizes : n % 4 = 0 /\ n >= 160} \cup {n \in 4000..4200 : n % 4 = 0} \cup {8188, 8192, 8196}
Garbage == {C(h, "none", IF n < Len(h) THEN Len(h) ELSE n, 0) : h \in {h \in Heads : Len(h) # 4 \/ h[1] = "g"}, n \in {0, 3, 11, 12, 13, 20, 100, 4096}}
           \cup {C(h, "none", n, 0) : h \in Heads, n \in IF Big THEN {5, 12, 40} ELSE {12}}
Whole == {C(p \o <<"{">>, "json", n, 0) : p \in {<<>>, <<" ">>, <<" ", " ", " ">>}, n \in JsonSizes} \cup {C(Magic, "glb", n, 0) : n \in GlbSizes}
         \cup {C(p \o <<"{">>, "json", n, 0) : n \in {320, 4096}, p \in {<<"n">>, <<"t">>, <<"r", "n">>, <<"n", " ", "n", " ">>, <<" ", "n", " ">>, <<"n", "t", " ", "r", "n", " ">>, <<"n", "n", "n", "n", "n", "n", "n", "n">>}
                                                   \cup {[i \in 1..m |-> " "] : m \in 4..17} \cup {[i \in 1..m |-> IF i % 5 = 0 THEN "n" ELSE " "] : m \in {64, 80}}}
Cut == {C(<<"{">>, "json", n, k) : n \in {160, 4096}, k \in {1, 2, 20, 64, 96, 128, 150, 156, 157, 158, 159, 160}} \cup {C(Magic, "glb", n, k) : n \in {200, 4096}, k \in {1, 4, 8, 12, 40, 96, 100, 150, 180, 184, 187, 188, 189, 192, 195, 196, 197, 199, 200}}
Contents == Garbage \cup Whole \cup {c \in Cut : Len(c.head) <= c.size}
Ops == {"detect", "auto", "json", "glb"}
\* the source is moved into a new one, or assigned to one that had another content (a longer one, a shorter one, one that was loaded)
Moves == {"move", "long", "short", "used"}

VARIABLES c, hist, st
vars == <<c, hist, st>>
Init == c = C(<<>>, "none", 0, 0) /\ hist = <<>> /\ st = "start"
Obs(o) == IF o = "detect" THEN Detected(c) ELSE Load(c, o)
Pick == st = "start" /\ st' = "run" /\ hist' = hist /\ \E x \in Contents : c' = x
\* a fixed tour of every operation after every other one, or any sequence on a few contents
Tour == <<"detect", "auto", "auto", "detect", "detect", "json", "auto", "glb", "json", "json", "detect", "glb", "glb", "auto", "json", "glb", "detect">>
RunTour == Mode = "tour" /\ st = "run" /\ st' = "done" /\ hist' = [i \in DOMAIN Tour |-> <<Tour[i], Obs(Tour[i])>>] /\ c' = c
Few == {C(<<"{">>, "json", 160, 0), C(<<" ", "{">>, "json", 4096, 0), C(Magic, "glb", 200, 0), C(Magic, "glb", 4096, 0), C(Magic, "glb", 200, 8), C(<<"z", "z">>, "none", 100, 0), C(<<"{">>, "json", 160, 1), C(<<"g">>, "none", 1, 0), C(<<>>, "none", 0, 0)}
Depth == IF Big THEN 6 ELSE 4
RunAny == Mode = "seq" /\ st = "run" /\ c \in Few /\ Len(hist) < Depth /\ \E o \in Ops \cup (IF Cardinality({i \in DOMAIN hist : hist[i][1] \in Moves}) < (IF Big THEN 2 ELSE 1) THEN Moves ELSE {}) : hist' = Append(hist, <<o, IF o \in Moves THEN "" ELSE Obs(o)>>) /\ c' = c /\ st' = IF Len(hist) = Depth - 1 THEN "done" ELSE "run"
Next == (Pick \/ RunTour \/ RunAny) /\ (st' # "done" \/ PrintT("@@" \o ToJson([c |-> c', hist |-> hist'])))
Spec == Init /\ [][Next]_vars
\* equal operations have equal outcomes, wherever they stand
Stable == \A i, j \in DOMAIN hist : hist[i][1] = hist[j][1] => hist[i][2] = hist[j][2]
\* detection and the automatic entry agree
AutoIsDetected == \A i, j \in DOMAIN hist : (hist[i][1] = "detect" /\ hist[j][1] = "auto" /\ hist[j][2] = "ok") => hist[i][2] \in {"glb", "gltf"}
=============================================================================
