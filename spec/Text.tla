-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* JSON as text, character by character (characters are byte values):      *)
(*    IsJson(t)    - t is a JSON text: a pushdown automaton                *)
(*    Decode(b)    - the string a string literal with the body b denotes   *)
(*    Squeeze(t)   - t without the whitespace outside strings              *)
(* Mode "gen" enumerates strings to escape and bodies of string literals.  *)
(* Mode "judge" reads what the real code made of them and decides:         *)
(*    an escaped string decodes to exactly the original,                   *)
(*    a pretty-printed text is JSON and the original plus whitespace,      *)
(*    an exported text is JSON.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Mode, MaxLen
VARIABLES item, done

White == {32, 9, 10, 13}
Digit == 48..57
HexDigit == Digit \cup 65..70 \cup 97..102
HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
-----------------------------------------------------------------------------
(* the automaton: m - what is expected, st - open containers, k - inside a key, lit - rest of a literal *)
St(m, st, k, lit) == [m |-> m, st |-> st, k |-> k, lit |-> lit]
Fail == St("fail", <<>>, FALSE, <<>>)
Closes(s, c) == s.st # <<>> /\ ((c = 125 /\ Last(s.st) = "o") \/ (c = 93 /\ Last(s.st) = "a"))
AfterVal(s, c) ==
  CASE c \in White -> St("after", s.st, FALSE, <<>>)
    [] c = 44 /\ s.st # <<>> -> St(IF Last(s.st) = "o" THEN "key" ELSE "value", s.st, FALSE, <<>>)
    [] Closes(s, c) -> St("after", Front(s.st), FALSE, <<>>)
    [] OTHER -> Fail
Begin(s, c) ==
  CASE c \in White -> s
    [] c = 123 -> St("key}", Append(s.st, "o"), FALSE, <<>>)
    [] c = 91 -> St("value]", Append(s.st, "a"), FALSE, <<>>)
    [] c = 34 -> St("str", s.st, FALSE, <<>>)
    [] c = 45 -> St("minus", s.st, FALSE, <<>>)
    [] c = 48 -> St("zero", s.st, FALSE, <<>>)
    [] c \in 49..57 -> St("int", s.st, FALSE, <<>>)
    [] c = 116 -> St("lit", s.st, FALSE, <<114, 117, 101>>)
    [] c = 102 -> St("lit", s.st, FALSE, <<97, 108, 115, 101>>)
    [] c = 110 -> St("lit", s.st, FALSE, <<117, 108, 108>>)
    [] OTHER -> Fail
To(s, m) == [s EXCEPT !.m = m]
Step(s, c) ==
  CASE s.m = "fail" -> s
    [] s.m = "str" -> IF c = 34 THEN (IF s.k THEN St("colon", s.st, FALSE, <<>>) ELSE St("after", s.st, FALSE, <<>>))
                      ELSE IF c = 92 THEN To(s, "esc") ELSE IF c < 32 THEN Fail ELSE s
    [] s.m = "esc" -> IF c \in {34, 92, 47, 98, 102, 110, 114, 116} THEN To(s, "str") ELSE IF c = 117 THEN To(s, "u1") ELSE Fail
    [] s.m \in {"u1", "u2", "u3", "u4"} -> IF c \notin HexDigit THEN Fail
         ELSE To(s, CASE s.m = "u1" -> "u2" [] s.m = "u2" -> "u3" [] s.m = "u3" -> "u4" [] OTHER -> "str")
    [] s.m = "lit" -> IF c # Head(s.lit) THEN Fail ELSE IF Len(s.lit) = 1 THEN St("after", s.st, FALSE, <<>>) ELSE [s EXCEPT !.lit = Tail(s.lit)]
    [] s.m = "value" -> Begin(s, c)
    [] s.m = "value]" -> IF c = 93 THEN St("after", Front(s.st), FALSE, <<>>) ELSE Begin(s, c)
    [] s.m \in {"key", "key}"} -> IF c \in White THEN s ELSE IF c = 34 THEN St("str", s.st, TRUE, <<>>)
         ELSE IF c = 125 /\ s.m = "key}" THEN St("after", Front(s.st), FALSE, <<>>) ELSE Fail
    [] s.m = "colon" -> IF c \in White THEN s ELSE IF c = 58 THEN To(s, "value") ELSE Fail
    [] s.m = "after" -> AfterVal(s, c)
    [] s.m = "minus" -> IF c = 48 THEN To(s, "zero") ELSE IF c \in 49..57 THEN To(s, "int") ELSE Fail
    [] s.m \in {"zero", "int"} -> IF s.m = "int" /\ c \in Digit THEN s ELSE IF c = 46 THEN To(s, "dot") ELSE IF c \in {69, 101} THEN To(s, "e") ELSE AfterVal(s, c)
    [] s.m = "dot" -> IF c \in Digit THEN To(s, "frac") ELSE Fail
    [] s.m = "frac" -> IF c \in Digit THEN s ELSE IF c \in {69, 101} THEN To(s, "e") ELSE AfterVal(s, c)
    [] s.m = "e" -> IF c \in {43, 45} THEN To(s, "esign") ELSE IF c \in Digit THEN To(s, "exp") ELSE Fail
    [] s.m = "esign" -> IF c \in Digit THEN To(s, "exp") ELSE Fail
    [] s.m = "exp" -> IF c \in Digit THEN s ELSE AfterVal(s, c)
Start == St("value", <<>>, FALSE, <<>>)
IsJson(t) == LET e == FoldLeft(Step, Start, t) IN e.st = <<>> /\ e.m \in {"after", "zero", "int", "frac", "exp"}
-----------------------------------------------------------------------------
(* what the body of a string literal denotes, in UTF-8 *)
Utf8(n) == IF n < 128 THEN <<n>>
           ELSE IF n < 2048 THEN <<192 + (n \div 64), 128 + (n % 64)>>
           ELSE IF n < 65536 THEN <<224 + (n \div 4096), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
           ELSE <<240 + (n \div 262144), 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
Named == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |-> CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]
\* d: decoded so far, m: "", "\" or the digits of a \u escape seen so far, hi: a high surrogate waiting
DStep(s, c) ==
  CASE s.m = "bad" -> s
    [] s.m = "" -> IF c = 92 THEN [s EXCEPT !.m = "esc"] ELSE IF c = 34 \/ c < 32 \/ s.hi # 0 THEN [s EXCEPT !.m = "bad"] ELSE [s EXCEPT !.d = Append(@, c)]
    [] s.m = "esc" -> IF c = 117 THEN [s EXCEPT !.m = "u", !.n = 0, !.c = 0]
                      ELSE IF c \in DOMAIN Named /\ s.hi = 0 THEN [s EXCEPT !.m = "", !.d = Append(@, Named[c])] ELSE [s EXCEPT !.m = "bad"]
    [] s.m = "u" -> IF c \notin HexDigit THEN [s EXCEPT !.m = "bad"]
         ELSE LET n == s.n * 16 + HexVal(c) IN
              IF s.c < 3 THEN [s EXCEPT !.n = n, !.c = @ + 1]
              ELSE IF n \in 55296..56319 THEN (IF s.hi = 0 THEN [s EXCEPT !.m = "", !.hi = n] ELSE [s EXCEPT !.m = "bad"])
              ELSE IF n \in 56320..57343 THEN (IF s.hi # 0 THEN [s EXCEPT !.m = "", !.hi = 0, !.d = @ \o Utf8(65536 + (s.hi - 55296) * 1024 + n - 56320)] ELSE [s EXCEPT !.m = "bad"])
              ELSE IF s.hi # 0 THEN [s EXCEPT !.m = "bad"] ELSE [s EXCEPT !.m = "", !.d = @ \o Utf8(n)]
Decode(b) == LET e == FoldLeft(DStep, [d |-> <<>>, m |-> "", n |-> 0, c |-> 0, hi |-> 0], b) IN IF e.m = "" /\ e.hi = 0 THEN <<"ok", e.d>> ELSE <<"bad">>
\* whitespace outside strings removed
QStep(s, c) ==
  IF s.q = "esc" THEN [q |-> "in", o |-> Append(s.o, c)]
  ELSE IF s.q = "in" THEN [q |-> IF c = 34 THEN "out" ELSE IF c = 92 THEN "esc" ELSE "in", o |-> Append(s.o, c)]
  ELSE IF c \in White THEN s ELSE [q |-> IF c = 34 THEN "in" ELSE "out", o |-> Append(s.o, c)]
Squeeze(t) == FoldLeft(QStep, [q |-> "out", o |-> <<>>], t).o
-----------------------------------------------------------------------------
(* strings to escape: sequences over characters that matter to JSON, to UTF-8 and to neither *)
Chars == {<<34>>, <<92>>, <<47>>, <<8>>, <<10>>, <<0>>, <<31>>, <<32>>, <<97>>, <<117>>, <<127>>, <<195, 169>>, <<240, 159, 152, 128>>, <<226, 128, 168>>}
Plain == UNION {[1..n -> Chars] : n \in 0..MaxLen} \cup {<<<<c>>>> : c \in 0..127} \cup {<<<<c>>, <<d>>>> : c \in 0..31, d \in {0, 34, 92, 48, 102}}
\* pieces of string literals that look like structure, and escapes
Pieces == {<<97>>, <<32>>, <<123>>, <<125>>, <<91>>, <<93>>, <<44>>, <<58>>, <<92, 34>>, <<92, 92>>, <<92, 110>>, <<92, 117, 48, 48, 53, 99>>, <<195, 169>>}
Bodies == UNION {[1..n -> Pieces] : n \in 0..MaxLen}
\* how the automaton, the decoder and the squeezer agree
Quote(b) == <<34>> \o b \o <<34>>
ASSUME \A b \in {FlattenSeq(x) : x \in UNION {[1..n -> Pieces \cup Chars] : n \in 0..2}} : IsJson(Quote(b)) <=> (Decode(b)[1] = "ok")
ASSUME \A b \in {FlattenSeq(x) : x \in UNION {[1..n -> Pieces] : n \in 0..2}} : Squeeze(<<32, 91, 10>> \o Quote(b) \o <<9, 93, 13>>) = <<91>> \o Quote(b) \o <<93>>

Items == IF Mode = "judge" THEN JsonDeserialize("pairs.json") ELSE <<>>
Todo == IF Mode = "judge" THEN 1..Len(Items) ELSE {<<"esc", FlattenSeq(x)>> : x \in Plain} \cup {<<"body", FlattenSeq(x)>> : x \in Bodies}
Verdict(p) ==
  CASE p.k = "esc" -> IF Decode(p.o) = <<"ok", p.i>> THEN "" ELSE IF Decode(p.o)[1] = "bad" THEN "the escaped string is not the body of a string literal" ELSE "the escaped string denotes another string"
    [] p.k = "pretty" -> IF ~IsJson(p.o) THEN "the pretty-printed text is not JSON" ELSE IF Squeeze(p.o) # Squeeze(p.i) THEN "pretty printing changed more than whitespace" ELSE ""
    [] p.k = "json" -> IF IsJson(p.o) THEN "" ELSE "the exported document is not JSON"
Init == item \in Todo /\ done = FALSE
Next == ~done /\ done' = TRUE /\ item' = item
        /\ IF Mode = "judge" THEN LET v == Verdict(Items[item]) IN (v # "" => PrintT("@@" \o ToJson([n |-> item, why |-> v])))
           ELSE PrintT("@@" \o ToJson(item))
Spec == Init /\ [][Next]_<<item, done>>
\* escaping as the library does it is decodable (the specification is satisfiable)
=============================================================================
