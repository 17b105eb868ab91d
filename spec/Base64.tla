------------------------------- MODULE Base64 -------------------------------
(***************************************************************************)
(* RFC 4648 base64.  A canonical text is a sequence of sextets (length a   *)
(* multiple of four) with 0..2 paddings whose unused bits are zero.        *)
(* Enc/Dec are the two directions; TLC checks that they are inverse and    *)
(* that the size helpers predict the length.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxGroups,    \* texts have 0..MaxGroups groups of four characters
          Steps,        \* strides of the symbol patterns
          Offsets       \* number of start symbols per stride

Sym == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
         "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
         "0","1","2","3","4","5","6","7","8","9","+","/">>

\* the sextets of a pattern: symbol (k * step + off) mod 64 at position k, unused bits cleared
Sextets(groups, pad, step, off) ==
    LET n == 4 * groups
        raw(k) == (k * step + off) % 64
    IN [k \in 1..(n - pad) |-> IF k = n - pad /\ pad = 1 THEN (raw(k) \div 4) * 4
                               ELSE IF k = n - pad /\ pad = 2 THEN (raw(k) \div 16) * 16 ELSE raw(k)]
OutSize(groups, pad) == 3 * groups - pad

\* byte j (0-based) of the decoded data
Byte(s, j) ==
    LET g == (j \div 3) * 4  r == j % 3  at(i) == IF g + i <= Len(s) THEN s[g + i] ELSE 0
    IN IF r = 0 THEN at(1) * 4 + at(2) \div 16
       ELSE IF r = 1 THEN (at(2) % 16) * 16 + at(3) \div 4
       ELSE (at(3) % 4) * 64 + at(4)
Dec(s, groups, pad) == [j \in 1..OutSize(groups, pad) |-> Byte(s, j - 1)]
\* sextet k (1-based) of the encoding of bytes b
EncAt(b, k) ==
    LET q == ((k - 1) \div 4) * 3  r == (k - 1) % 4  at(i) == IF q + i <= Len(b) THEN b[q + i] ELSE 0
    IN IF r = 0 THEN at(1) \div 4
       ELSE IF r = 1 THEN (at(1) % 4) * 16 + at(2) \div 16
       ELSE IF r = 2 THEN (at(2) % 16) * 4 + at(3) \div 64
       ELSE at(3) % 64

RECURSIVE Text(_, _)
Text(s, k) == IF k > Len(s) THEN "" ELSE Sym[s[k] + 1] \o Text(s, k + 1)

VARIABLES groups, pad, step, off
vars == <<groups, pad, step, off>>
Init == /\ groups = 0 /\ pad = 0 /\ step \in Steps /\ off \in {(i * 64) \div Offsets : i \in 0..(Offsets - 1)}
Longer == groups < MaxGroups /\ groups' = groups + 1 /\ pad' \in 0..2 /\ UNCHANGED <<step, off>>
Next == Longer
Spec == Init /\ [][Next]_vars

s == Sextets(groups, pad, step, off)
bytes == Dec(s, groups, pad)
Inverse == \A k \in 1..Len(s) : EncAt(bytes, k) = s[k]
SizeOK == Len(bytes) = OutSize(groups, pad) /\ \A j \in DOMAIN bytes : bytes[j] \in 0..255
Emit == PrintT("@@" \o ToJson([text |-> Text(s, 1), pad |-> pad, exp |-> [bytes |-> bytes, size |-> OutSize(groups, pad)]]))
=============================================================================
