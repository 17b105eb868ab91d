-------------------------------- MODULE Glb --------------------------------
(***************************************************************************)
(* The binary container.  A file is laid out as                            *)
(*     12 bytes header, 8 bytes chunk header, T bytes of JSON text, spaces *)
(*     up to J, then (if there is a second chunk) 8 bytes chunk header and *)
(*     B bytes, then S further bytes                                       *)
(* and its length and type fields may claim anything.  Reader is the       *)
(* reading of it as a machine over positions: which fields are read where, *)
(* and when it stops.  Lengths that need more than 31 bits are written as  *)
(* negative numbers (2^32 + n) and never fit.                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS T0, Big
Pad(n) == ((n + 3) \div 4) * 4
Huge(n) == n < 0
Fits(n, room) == n >= 0 /\ n <= room

\* a file: what is there and what the fields say; cut: bytes missing from the end
\* second: is there a second chunk header; bufs: the buffers of the document, <<has uri, byteLength>>
Base(t, second, b, bufs) ==
  LET J == Pad(t)  size == 20 + J + (IF second THEN 8 + b ELSE 0)
  IN [t |-> t, j |-> J, second |-> second, b |-> b, stray |-> 0, strayk |-> "zero", bufs |-> bufs, magic |-> "glTF", version |-> 2, length |-> size,
      l1 |-> J, t1 |-> "JSON", l2 |-> b, t2 |-> "BIN", cut |-> 0]
Size(f) == 20 + f.j + (IF f.second THEN 8 + f.b ELSE 0) + f.stray - f.cut

-----------------------------------------------------------------------------
(* Reading *)
\* the JSON chunk holds the whole text and nothing but spaces after it
TextOk(f) == f.l1 >= f.t /\ f.l1 <= f.j
\* a chunk header found at position p says this (anything else that is there is no chunk header)
HeaderAt(f, p) == IF f.second /\ p = 20 + f.j THEN [len |-> f.l2, type |-> f.t2] ELSE [len |-> 0, type |-> "?"]
Reject == [st |-> "reject", bin |-> -1]
Accept(n) == [st |-> "accept", bin |-> n]
Leave == [st |-> "open", bin |-> -1]
Container(f) ==
  IF Size(f) < 12 \/ f.magic # "glTF" \/ f.version # 2 THEN Reject
  ELSE IF ~Fits(f.length, Size(f)) \/ f.length < 20 THEN Reject
  ELSE IF f.t1 # "JSON" \/ ~Fits(f.l1, f.length - 20) THEN Reject
  ELSE IF ~TextOk(f) THEN Reject
  ELSE LET p == 20 + f.l1  rest == f.length - p  h == HeaderAt(f, p)  soft == f.l1 % 4 # 0 \/ Size(f) # f.length
       IN IF rest = 0 THEN (IF soft THEN Leave ELSE Accept(-1))
          ELSE IF rest < 8 THEN Reject
          ELSE IF h.type # "BIN" \/ ~Fits(h.len, rest - 8) THEN Reject
          ELSE IF soft \/ h.len % 4 # 0 \/ (rest - 8 - h.len > 0 /\ ~(f.strayk = "chunk" /\ f.l2 = f.b)) THEN Leave
          ELSE Accept(h.len)
\* the first buffer without a URI gets the BIN chunk, whose bytes have to suffice; no other does
Bind(f, n) ==
  IF \E i \in DOMAIN f.bufs : ~f.bufs[i][1] /\ (i > 1 \/ n <= 0 \/ f.bufs[i][2] > n) THEN [ok |-> FALSE, bin |-> -1]
  ELSE [ok |-> TRUE, bin |-> IF f.bufs # <<>> /\ ~f.bufs[1][1] THEN n ELSE -1]
Result(f) ==
  LET c == Container(f)
  IN IF c.st = "reject" THEN [st |-> "fail", bin |-> -1]
     ELSE IF c.st = "open" THEN [st |-> "open", bin |-> -1]
     ELSE LET r == Bind(f, c.bin) IN [st |-> IF r.ok THEN "ok" ELSE "fail", bin |-> r.bin]
\* what kind of file it is taken for
Kind(f) == IF Size(f) >= 12 /\ f.magic = "glTF" THEN "glb" ELSE "invalid"

-----------------------------------------------------------------------------
(* Every field off by something, alone and two at a time *)
N8 == <<FALSE, 8>>
U8 == <<TRUE, 8>>
BufSets == {<<>>, <<N8>>, <<U8>>, <<N8, U8>>, <<U8, N8>>, <<N8, N8>>, <<<<FALSE, 7>>>>, <<<<FALSE, 5>>>>, <<<<FALSE, 4>>>>, <<<<FALSE, 9>>>>, <<<<FALSE, 12>>>>, <<<<FALSE, 100>>>>, <<<<FALSE, 1>>, U8, U8>>}
Bases == {Base(T0 + k, s[1], s[2], bs) : k \in 0..3, s \in {<<FALSE, 0>>, <<TRUE, 0>>, <<TRUE, 4>>, <<TRUE, 8>>, <<TRUE, 100>>}, bs \in BufSets}
Some == {Base(T0 + k, s[1], s[2], bs) : k \in IF Big THEN 0..3 ELSE {0, 3}, s \in {<<FALSE, 0>>, <<TRUE, 0>>, <<TRUE, 8>>}, bs \in {<<>>, <<N8>>, <<U8>>}}
Magics == {"glTF", "GLTF", "FTlg", "zero", "glTG", "{lTF"}
Versions == {2, 1, 0, 3, 258, 131072, -2}
Lengths(f) == LET n == Size(f)  e == 20 + f.j IN {n, n - 1, n + 1, n - 4, n + 4, n + 8, 0, 8, 11, 12, 19, 20, 21, 24, e - 4, e - 1, e, e + 1, e + 4, e + 7, e + 8, e + 9, -1, -4, -8, -12, -(20 + f.j)}
L1s(f) == {f.j, f.j - 1, f.j - 2, f.j - 3, f.j - 4, f.j + 1, f.j + 4, f.j + 8, f.j + 8 + f.b, 0, 1, 4, -1, -4, -20, -8, -(28 + f.j)} \cup {f.t}
T1s == {"JSON", "BIN", "zero", "json", "NOSJ"}
L2s(f) == {f.b, f.b - 1, f.b + 1, f.b - 4, f.b + 4, f.b + 8, 0, 1, 4, 1000, -1, -4, -8, -(28 + f.j), -(f.b + 8)}
T2s == {"BIN", "JSON", "zero", "BIN_", "NIB", "bin"}
Strays == {0, 1, 3, 4, 7, 8, 12}
Var(f, k) ==
  CASE k = "magic" -> {[f EXCEPT !.magic = m] : m \in Magics}
    [] k = "version" -> {[f EXCEPT !.version = v] : v \in Versions}
    [] k = "length" -> {[f EXCEPT !.length = n] : n \in Lengths(f)}
    [] k = "l1" -> {[f EXCEPT !.l1 = n] : n \in L1s(f)}
    [] k = "t1" -> {[f EXCEPT !.t1 = x] : x \in T1s}
    [] k = "l2" -> IF f.second THEN {[f EXCEPT !.l2 = n] : n \in L2s(f)} ELSE {}
    [] k = "t2" -> IF f.second THEN {[f EXCEPT !.t2 = x] : x \in T2s} ELSE {}
    [] k = "stray" -> {[f EXCEPT !.stray = n, !.length = IF Huge(@) THEN @ ELSE @ + (IF w THEN n ELSE 0)] : n \in Strays, w \in BOOLEAN}
    [] k = "chunk" -> IF f.second THEN {[f EXCEPT !.stray = n, !.strayk = "chunk", !.length = IF Huge(@) THEN @ ELSE @ + n] : n \in {8, 12, 20}} ELSE {}
    [] k = "cut" -> {[f EXCEPT !.cut = n, !.length = IF w \/ Huge(@) THEN @ ELSE @ - n] : n \in {1, 2, 3, 4, 5, 7, 8, 9, 12, f.j, f.j + 7, f.j + 8, f.j + 9, 20 + f.j - 11, 20 + f.j - 12, 20 + f.j, 20 + f.j - 1} \cap 0..Size(f), w \in BOOLEAN}
Keys == <<"magic", "version", "length", "l1", "t1", "l2", "t2", "stray", "chunk", "cut">>
Cuts == {[f EXCEPT !.cut = n] : f \in {Base(T0, TRUE, 8, <<N8>>)}, n \in 0..(T0 + 36)}

VARIABLES st, f
vars == <<st, f>>
Init == st = "start" /\ f = Base(T0, FALSE, 0, <<>>)
Pick == st = "start" /\ \E b \in Bases : f' = b /\ st' = IF b \in Some THEN "base" ELSE "done"
PickCut == st = "start" /\ \E b \in Cuts : f' = b /\ st' = "done"
One == st = "base" /\ \E i \in DOMAIN Keys : \E g \in Var(f, Keys[i]) : g # f /\ f' = g /\ st' = Keys[i]
After(k) == {i \in DOMAIN Keys : \E h \in DOMAIN Keys : Keys[h] = k /\ i > h}
Two == st \in {Keys[i] : i \in DOMAIN Keys} /\ \E i \in After(st) : \E g \in Var(f, Keys[i]) : g # f /\ f' = g /\ st' = "done"
Next == (Pick \/ PickCut \/ One \/ Two) /\ PrintT("@@" \o ToJson([f |-> f', res |-> Result(f'), kind |-> Kind(f')]))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* whatever is accepted lies within the bytes there are, and within the length the header gives
Within == LET c == Container(f) IN c.st # "reject" => /\ f.length <= Size(f) /\ 20 + f.l1 <= f.length
                                                    /\ (c.bin >= 0 => 20 + f.l1 + 8 + c.bin <= f.length)
\* data is bound only if there is enough of it
Enough == LET r == Result(f) IN r.bin >= 0 => f.bufs[1][2] <= r.bin
=============================================================================
