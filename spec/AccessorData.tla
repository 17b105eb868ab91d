---------------------------- MODULE AccessorData ----------------------------
(***************************************************************************)
(* What the elements of an accessor are: a memory of bytes, a buffer view  *)
(* and an accessor over it, and the decoding glTF prescribes (little       *)
(* endian, two's complement, columns of matrices aligned to four bytes,    *)
(* normalised integers).  32-bit quantities are pairs <<hi, lo>> standing  *)
(* for hi * 65536 + lo, because TLC's integers are smaller than a 32-bit   *)
(* unsigned number.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CTypes == {"s8", "u8", "s16", "u16", "s32", "u32", "f32", "f64"}
IntTypes == CTypes \ {"f32", "f64"}
Size(ct) == CASE ct \in {"s8", "u8"} -> 1 [] ct \in {"s16", "u16"} -> 2 [] ct \in {"s32", "u32", "f32"} -> 4 [] ct = "f64" -> 8
Signed(ct) == ct \in {"s8", "s16", "s32"}
Types == {"SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4"}
IsMat(t) == t \in {"MAT2", "MAT3", "MAT4"}
RowsOf(t) == CASE t = "SCALAR" -> 1 [] t \in {"VEC2", "MAT2"} -> 2 [] t \in {"VEC3", "MAT3"} -> 3 [] OTHER -> 4
ColsOf(t) == IF IsMat(t) THEN RowsOf(t) ELSE 1
Comps(t) == RowsOf(t) * ColsOf(t)
Up4(n) == ((n + 3) \div 4) * 4
\* bytes from one column to the next, and of an element
ColSize(t, ct) == IF IsMat(t) THEN Up4(RowsOf(t) * Size(ct)) ELSE RowsOf(t) * Size(ct)
ElemSize(t, ct) == ColsOf(t) * ColSize(t, ct)
\* where component k (1-based, column by column) of an element starts
CompAt(t, ct, k) == ((k - 1) \div RowsOf(t)) * ColSize(t, ct) + ((k - 1) % RowsOf(t)) * Size(ct)

\* ---- numbers: <<hi, lo>> ----
P(n) == IF n >= 0 THEN <<n \div 65536, n % 65536>> ELSE <<-(((-n) + 65535) \div 65536), (65536 - ((-n) % 65536)) % 65536>>
Small(p) == p[1] >= -16000 /\ p[1] <= 16000
Num(p) == p[1] * 65536 + p[2]
InRange(p, ct) ==
    CASE ct = "s8"  -> Small(p) /\ Num(p) >= -128 /\ Num(p) <= 127
      [] ct = "u8"  -> Small(p) /\ Num(p) >= 0 /\ Num(p) <= 255
      [] ct = "s16" -> Small(p) /\ Num(p) >= -32768 /\ Num(p) <= 32767
      [] ct = "u16" -> Small(p) /\ Num(p) >= 0 /\ Num(p) <= 65535
      [] ct = "s32" -> p[1] >= -32768 /\ p[1] <= 32767
      [] ct = "u32" -> p[1] >= 0 /\ p[1] <= 65535
      [] OTHER -> TRUE
MaxOf(ct) == CASE ct = "s8" -> 127 [] ct = "u8" -> 255 [] ct = "s16" -> 32767 [] ct = "u16" -> 65535

IntBytes(p, n) == LET h == IF p[1] < 0 THEN p[1] + 65536 ELSE p[1] IN
                  SubSeq(<<p[2] % 256, p[2] \div 256, h % 256, h \div 256>>, 1, n)
IntOf(b, signed) == LET n == Len(b)
                        ext == IF signed /\ b[n] >= 128 THEN 255 ELSE 0
                        x(i) == IF i <= n THEN b[i] ELSE ext
                        h == x(3) + 256 * x(4) IN
                    <<IF signed /\ h >= 32768 THEN h - 65536 ELSE h, x(1) + 256 * x(2)>>
\* floating point numbers used: bytes and value p / d
F32s == {[b |-> <<0, 0, 0, 0>>, p |-> P(0), d |-> 1], [b |-> <<0, 0, 128, 63>>, p |-> P(1), d |-> 1], [b |-> <<0, 0, 128, 191>>, p |-> P(-1), d |-> 1],
         [b |-> <<0, 0, 0, 63>>, p |-> P(1), d |-> 2], [b |-> <<0, 0, 32, 192>>, p |-> P(-5), d |-> 2], [b |-> <<0, 0, 64, 64>>, p |-> P(3), d |-> 1],
         [b |-> <<0, 0, 200, 66>>, p |-> P(100), d |-> 1], [b |-> <<0, 0, 128, 71>>, p |-> P(65536), d |-> 1], [b |-> <<0, 0, 0, 195>>, p |-> P(-128), d |-> 1],
         [b |-> <<0, 0, 127, 67>>, p |-> P(255), d |-> 1]}
F64s == {[b |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, p |-> P(0), d |-> 1], [b |-> <<0, 0, 0, 0, 0, 0, 240, 63>>, p |-> P(1), d |-> 1],
         [b |-> <<0, 0, 0, 0, 0, 0, 240, 191>>, p |-> P(-1), d |-> 1], [b |-> <<0, 0, 0, 0, 0, 0, 224, 63>>, p |-> P(1), d |-> 2],
         [b |-> <<0, 0, 0, 0, 0, 0, 4, 192>>, p |-> P(-5), d |-> 2], [b |-> <<0, 0, 0, 0, 0, 0, 8, 64>>, p |-> P(3), d |-> 1],
         [b |-> <<0, 0, 0, 0, 0, 0, 89, 64>>, p |-> P(100), d |-> 1], [b |-> <<0, 0, 0, 0, 0, 0, 240, 64>>, p |-> P(65536), d |-> 1],
         [b |-> <<0, 0, 0, 0, 0, 224, 111, 64>>, p |-> P(255), d |-> 1]}
Ints(ct) == CASE ct = "s8"  -> {P(n) : n \in {-128, -127, -64, -1, 0, 1, 5, 64, 127}}
              [] ct = "u8"  -> {P(n) : n \in {0, 1, 51, 127, 128, 200, 255}}
              [] ct = "s16" -> {P(n) : n \in {-32768, -32767, -300, -1, 0, 2, 127, 128, 255, 256, 32767}}
              [] ct = "u16" -> {P(n) : n \in {0, 1, 255, 256, 258, 32767, 32768, 65535}}
              [] ct = "s32" -> {<<-32768, 0>>, <<-32768, 1>>, P(-70000), P(-1), P(0), P(3), P(255), P(65536), P(16909060), <<32767, 65535>>}
              [] ct = "u32" -> {P(0), P(1), P(255), P(65535), P(65536), P(16909060), <<32768, 0>>, <<65535, 65535>>}
\* a component value: its bytes
Values(ct) == CASE ct = "f32" -> {f.b : f \in F32s} [] ct = "f64" -> {f.b : f \in F64s} [] OTHER -> {IntBytes(p, Size(ct)) : p \in Ints(ct)}
\* decoding: <<hi, lo, denominator>>
Decode(b, ct) == IF ct = "f32" THEN LET f == CHOOSE f \in F32s : f.b = b IN <<f.p[1], f.p[2], f.d>>
                 ELSE IF ct = "f64" THEN LET f == CHOOSE f \in F64s : f.b = b IN <<f.p[1], f.p[2], f.d>>
                 ELSE LET p == IntOf(b, Signed(ct)) IN <<p[1], p[2], 1>>
Undefined == <<>>
\* conversion to the requested component type; Undefined when the value is outside its range or has a fraction
Convert(v, ct, norm, dt) ==
    IF norm /\ ct \in IntTypes /\ dt \in {"f32", "f64"}
    THEN IF Num(v) < -MaxOf(ct) THEN <<-1, 65535, 1>> ELSE <<v[1], v[2], MaxOf(ct)>>
    ELSE IF dt \in {"f32", "f64"} THEN v
    ELSE IF v[3] # 1 \/ ~InRange(v, dt) THEN Undefined ELSE v

\* ---- memory ----
Poison(n) == [k \in 1..n |-> (k * 37 + 11) % 256]
\* mem with the bytes b at 0-based offset o
Put(mem, o, b) == [k \in DOMAIN mem |-> IF k > o /\ k <= o + Len(b) THEN b[k - o] ELSE mem[k]]
Read(mem, o, n) == [k \in 1..n |-> mem[o + k]]
\* mem with list[i] at offset off + (i - 1) * stride
Spread(mem, off, stride, list) ==
    [k \in DOMAIN mem |-> LET rel == k - 1 - off   i == (rel \div stride) + 1   r == (rel % stride) + 1 IN
                          IF rel >= 0 /\ i <= Len(list) /\ r <= Len(list[i]) THEN list[i][r] ELSE mem[k]]
\* an element as bytes: its components, with poison in the padding
Element(t, ct, comps) == [k \in 1..ElemSize(t, ct) |->
    LET hit == {c \in 1..Comps(t) : k > CompAt(t, ct, c) /\ k <= CompAt(t, ct, c) + Size(ct)} IN
    IF hit = {} THEN 165 ELSE LET c == CHOOSE c \in hit : TRUE IN comps[c][k - CompAt(t, ct, c)]]
\* component c of the element at offset o
ReadComp(mem, o, t, ct, c) == Decode(Read(mem, o + CompAt(t, ct, c), Size(ct)), ct)
\* the order in which the destination has its components
Order(t, shape, c) == IF shape = "row" THEN ((c - 1) % RowsOf(t)) * RowsOf(t) + ((c - 1) \div RowsOf(t)) + 1 ELSE c

\* ---- accessors ----
\* a: [t, ct, norm, count, off, base: view or <<>>, sparse: <<>> or [n, ict, iv, ioff, vv, voff]],  views: [off, len, stride (0: none)]
StrideOf(a, views) == IF views[a.base[1]].stride # 0 THEN views[a.base[1]].stride ELSE ElemSize(a.t, a.ct)
SparseIndex(mem, a, views, j) == Num(IntOf(Read(mem, views[a.sparse[1].iv].off + a.sparse[1].ioff + (j - 1) * Size(a.sparse[1].ict), Size(a.sparse[1].ict)), FALSE))
Listed(mem, a, views, i) == {j \in 1..(IF a.sparse = <<>> THEN 0 ELSE a.sparse[1].n) : SparseIndex(mem, a, views, j) = i}
\* element i (0-based) for a destination of component type dt and shape
ElementAt(mem, a, views, i, dt, shape) ==
    LET hit == Listed(mem, a, views, i)
        at(o) == [c \in 1..Comps(a.t) |-> Convert(ReadComp(mem, o, a.t, a.ct, Order(a.t, shape, c)), a.ct, a.norm, dt)] IN
    IF hit # {} THEN at(views[a.sparse[1].vv].off + a.sparse[1].voff + ((CHOOSE j \in hit : TRUE) - 1) * ElemSize(a.t, a.ct))
    ELSE IF a.base = <<>> THEN [c \in 1..Comps(a.t) |-> <<0, 0, 1>>]
    ELSE at(views[a.base[1]].off + a.off + i * StrideOf(a, views))
=============================================================================
