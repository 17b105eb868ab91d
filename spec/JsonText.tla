------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON texts as token sequences: a pushdown automaton.  A text is being   *)
(* written token by token; every viable text is reported with whether it   *)
(* is complete, and every viable text followed by one token that cannot    *)
(* continue it is reported as malformed.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES toks, stack, want, dead
vars == <<toks, stack, want, dead>>
\* "s" string, "n" number, "l" literal, "x" something that is no token at all
Tokens == {"{", "}", "[", "]", ",", ":", "s", "n", "l", "x"}
\* want: what is expected next: "value", "key" (first key or }), "key2" (key after a comma), "colon", "val1" (value or ]), "after", "done"
After(st) == IF st = <<>> THEN "done" ELSE "after"
Step(t, st, w) ==    \* the new <<stack, want>>, or <<>> if t cannot come here
  CASE w \in {"value", "val1"} /\ t = "{" -> <<Append(st, "o"), "key">>
    [] w \in {"value", "val1"} /\ t = "[" -> <<Append(st, "a"), "val1">>
    [] w \in {"value", "val1"} /\ t \in {"s", "n", "l"} -> <<st, After(st)>>
    [] w = "val1" /\ t = "]" -> LET r == SubSeq(st, 1, Len(st) - 1) IN <<r, After(r)>>
    [] w = "key" /\ t = "}" -> LET r == SubSeq(st, 1, Len(st) - 1) IN <<r, After(r)>>
    [] w \in {"key", "key2"} /\ t = "s" -> <<st, "colon">>
    [] w = "colon" /\ t = ":" -> <<st, "value">>
    [] w = "after" /\ t = "," -> <<st, IF st[Len(st)] = "o" THEN "key2" ELSE "value">>
    [] w = "after" /\ t = "}" /\ st[Len(st)] = "o" -> LET r == SubSeq(st, 1, Len(st) - 1) IN <<r, After(r)>>
    [] w = "after" /\ t = "]" /\ st[Len(st)] = "a" -> LET r == SubSeq(st, 1, Len(st) - 1) IN <<r, After(r)>>
    [] OTHER -> <<>>
Init == toks = <<>> /\ stack = <<>> /\ want = "value" /\ dead = FALSE
Report(ts, ok) == PrintT("@@" \o ToJson([t |-> ts, ok |-> ok]))
Write(t) == /\ ~dead /\ Len(toks) < MaxLen
            /\ LET r == Step(t, stack, want) IN
               /\ toks' = Append(toks, t)
               /\ dead' = (r = <<>>)
               /\ stack' = IF r = <<>> THEN stack ELSE r[1]
               /\ want' = IF r = <<>> THEN want ELSE r[2]
               /\ Report(toks', r # <<>> /\ r[2] = "done")
Next == \E t \in Tokens : Write(t)
Spec == Init /\ [][Next]_vars
\* nothing can follow a complete text, and no proper prefix of a text that is an object or array is complete
NothingAfterDone == want = "done" => \A t \in Tokens : Step(t, stack, want) = <<>>
Balanced == want = "done" <=> (stack = <<>> /\ toks # <<>> /\ want \notin {"value", "colon"})
=============================================================================
