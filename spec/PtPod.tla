------------------------------- MODULE PtPod -------------------------------
(* Picotron's stored values ("pods"): text like {1,a="x",[2.5]=true,userdata("u8",2,2,"00010203")}, possibly with numeric data in the
   binary form pxu, possibly compressed as an LZ4 block, possibly in base64.
   The machine takes two of them apart - what the tool read (a) and what it wrote (b) - and compares what they stand for: the set of the
   values in them, each with the keys that lead to it.  What layers b has is compared with what was asked for. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.VF_DATA)
Cases == Data.cases
VARIABLES c, side,     \* "a", "b", "end"
          s, k,        \* the bytes left to take apart, and how far
          ph, layers, out, lz,
          stack,       \* the open tables: [path, next (index), key (the key given, or <<>>)]
          leaves,      \* what was found: <<path, value>>
          px, res
vars == <<c, side, s, k, ph, layers, out, lz, stack, leaves, px, res>>

\* (what tells the states of one case apart)
Seen == <<c, side, ph, k, layers, Len(out), Len(stack), Cardinality(leaves), IF px = <<>> THEN 0 ELSE Len(px.data)>>
StartsWithAt(t, i, w) == Len(t) >= i + Len(w) - 1 /\ SubSeq(t, i, i + Len(w) - 1) = w
U32(t, j) == IF t[j + 3] >= 64 THEN 1073741824 ELSE t[j] + 256 * t[j + 1] + 65536 * t[j + 2] + 16777216 * t[j + 3] \* (no file is that long)
U16(t, j) == t[j] + 256 * t[j + 1]
B64 == [ch \in 0..255 |-> CASE ch \in 65..90 -> ch - 65 [] ch \in 97..122 -> ch - 71 [] ch \in 48..57 -> ch + 4 [] ch = Data.b64[1] -> 62 [] ch = Data.b64[2] -> 63 [] OTHER -> -1]
DecodeB64(t) ==
  LET d == SelectSeq(t, LAMBDA ch : B64[ch] >= 0)
      n == (Len(d) * 3) \div 4
      At(j) == IF j <= Len(d) THEN B64[d[j]] ELSE 0
  IN [j \in 1..n |-> LET g == 4 * ((j - 1) \div 3) + 1  o == (j - 1) % 3
                     IN CASE o = 0 -> At(g) * 4 + At(g + 1) \div 16 [] o = 1 -> (At(g + 1) % 16) * 16 + At(g + 2) \div 4 [] OTHER -> (At(g + 2) % 4) * 64 + At(g + 3)]

(* ---- numbers: whole ones by their digits, others by their digits and exponent (and only these, without needless zeros) *)
IsDigit(ch) == ch \in 48..57
HexVal(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 97..102 THEN ch - 87 ELSE ch - 55
IsHex(ch) == ch \in 48..57 \/ ch \in 97..102 \/ ch \in 65..70
RECURSIVE StripL(_), StripR(_)
StripL(d) == IF d # <<>> /\ d[1] = 0 THEN StripL(Tail(d)) ELSE d
StripR(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN StripR(SubSeq(d, 1, Len(d) - 1)) ELSE d
MaxInt == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
RECURSIVE Less(_, _)
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
\* the number with digits d (after all dots), where the last digit stands for 10^e
Float(d, e) == LET a == StripL(d)  b == StripR(a)  x == e + Len(a) - Len(b)
               IN IF b = <<>> THEN <<"f", <<>>, 0>> ELSE IF x + Len(b) > 309 THEN <<"inf">> ELSE <<"f", b, x>>
\* multiplying the decimal digits d by 16 and adding h
Times16(d, h) == LET r == FoldRight(LAMBDA x, acc : LET t == x * 16 + acc[2] IN <<<<t % 10>> \o acc[1], t \div 10>>, d, <<<<>>, h>>)
                     hi == IF r[2] = 0 THEN <<>> ELSE IF r[2] < 10 THEN <<r[2]>> ELSE <<r[2] \div 10, r[2] % 10>>
                 IN hi \o r[1]
HexToDec(h) == StripL(FoldLeft(LAMBDA d, x : Times16(d, x), <<0>>, h))
\* the two's complement of 16 hex digits
Negated(h) == LET inv == [j \in 1..16 |-> 15 - h[j]]
                  r == FoldRight(LAMBDA x, acc : <<<<(x + acc[2]) % 16>> \o acc[1], (x + acc[2]) \div 16>>, inv, <<<<>>, 1>>)
              IN r[1]
HexNumber(h) == LET g == LET n == Len(h) IN IF n > 16 THEN SubSeq(h, n - 15, n) ELSE [j \in 1..16 - n |-> 0] \o h
                IN IF g[1] >= 8 THEN <<"i", TRUE, HexToDec(Negated(g))>> ELSE <<"i", FALSE, HexToDec(g)>>
MinInt == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
Neg(v) == CASE v[1] = "i" -> IF v[3] = <<>> \/ v[3] = MinInt THEN v ELSE <<"i", ~v[2], v[3]>>
            [] v[1] = "f" -> <<"-f", v[2], v[3]>> [] v[1] = "inf" -> <<"-inf">> [] OTHER -> <<"bad">>
RECURSIVE Run(_, _)   \* the end of the digits starting at p
Run(t, p) == IF p <= Len(t) /\ IsDigit(t[p]) THEN Run(t, p + 1) ELSE p
RECURSIVE HexRun(_, _)
HexRun(t, p) == IF p <= Len(t) /\ IsHex(t[p]) THEN HexRun(t, p + 1) ELSE p
ToNat(d) == FoldLeft(LAMBDA a, x : IF a > 100000 THEN a ELSE a * 10 + x, 0, d)
Digits(t, a, b) == [j \in 1..b - a |-> t[a + j - 1] - 48]
\* a number at p: <<value, end>>
Number(t, p) ==
  IF StartsWithAt(t, p, <<48, 120>>) THEN LET q == HexRun(t, p + 2) IN <<HexNumber([j \in 1..q - p - 2 |-> HexVal(t[p + 1 + j])]), q>>
  ELSE LET a == Run(t, p)
           dot == a <= Len(t) /\ t[a] = 46
           b == IF dot THEN Run(t, a + 1) ELSE a
           ex == b <= Len(t) /\ t[b] \in {69, 101}
           sg == ex /\ b < Len(t) /\ t[b + 1] \in {43, 45}
           e1 == IF sg THEN b + 2 ELSE b + 1
           e2 == IF ex THEN Run(t, e1) ELSE b
           x == IF ~ex THEN 0 ELSE IF sg /\ t[b + 1] = 45 THEN -ToNat(Digits(t, e1, e2)) ELSE ToNat(Digits(t, e1, e2))
           whole == Digits(t, p, a)
           frac == IF dot THEN Digits(t, a + 1, b) ELSE <<>>
       IN IF ~dot /\ ~ex /\ ~Less(MaxInt, StripL(whole)) THEN <<<<"i", FALSE, StripL(whole)>>, e2>>
          ELSE <<Float(whole \o frac, x - Len(frac)), e2>>

(* ---- strings *)
Escape == [ch \in {97, 98, 116, 110, 118, 102, 114, 92, 34, 39, 10} |->
            CASE ch = 97 -> 7 [] ch = 98 -> 8 [] ch = 116 -> 9 [] ch = 110 -> 10 [] ch = 118 -> 11 [] ch = 102 -> 12 [] ch = 114 -> 13 [] OTHER -> ch]
\* a quoted string from p on (after the quote q): the characters, folded over the text with a small state.  <<bytes, end>>
RECURSIVE Slow(_, _, _, _)
Slow(t, p, q, acc) ==
  IF p > Len(t) THEN <<acc, -1>>
  ELSE IF t[p] = q THEN <<acc, p + 1>>
  ELSE IF t[p] # 92 THEN Slow(t, p + 1, q, Append(acc, t[p]))
  ELSE IF p = Len(t) THEN <<acc, -1>>
  ELSE LET e == t[p + 1] IN
       IF e \in DOMAIN Escape THEN Slow(t, p + 2, q, Append(acc, Escape[e]))
       ELSE IF e = 120 THEN IF p + 3 <= Len(t) THEN Slow(t, p + 4, q, Append(acc, HexVal(t[p + 2]) * 16 + HexVal(t[p + 3]))) ELSE <<acc, -1>>
       ELSE IF IsDigit(e) THEN LET z0 == Run(t, p + 1)  z == IF z0 > p + 4 THEN p + 4 ELSE z0 IN Slow(t, z, q, Append(acc, ToNat(Digits(t, p + 1, z))))
       ELSE <<acc, -1>>

\* (without escapes, all at once)
Str(t, p, q) == LET z == SelectInSubSeq(t, p, Len(t), LAMBDA x : x = q)
                    e == SelectInSubSeq(t, p, Len(t), LAMBDA x : x = q \/ x = 92)
                IN IF z # 0 /\ e = z THEN <<SubSeq(t, p, z - 1), z + 1>> ELSE Slow(t, p, q, <<>>)

(* ---- the value pxu holds: its header here, its items one by one *)
Pxu == <<112, 120, 117, 0>>
TypeName(n) == CASE n = 3 -> <<117, 56>> [] n = 12 -> <<105, 49, 54>> [] OTHER -> <<>>
Nyb(n) == [j \in 1..1 |-> n]
HexOf(vals, w) == FoldLeft(LAMBDA a, x : a \o [j \in 1..w |-> (x \div (16 ^ (w - j))) % 16], <<>>, vals)

IsName(ch) == ch \in 97..122 \/ ch \in 65..90 \/ ch = 95 \/ IsDigit(ch)
RECURSIVE NameEnd(_, _)
NameEnd(t, p) == IF p <= Len(t) /\ IsName(t[p]) THEN NameEnd(t, p + 1) ELSE p
Word(t, p) == SubSeq(t, p, NameEnd(t, p) - 1)
W_true == <<116,114,117,101>>
W_false == <<102,97,108,115,101>>
W_nil == <<110,105,108>>
W_userdata == <<117,115,101,114,100,97,116,97>>
W_unpod == <<117,110,112,111,100>>

Case == Cases[c]
Source == IF side = "a" THEN Case.a ELSE Case.b
Start(t) == s' = t /\ k' = 1 /\ ph' = "layers" /\ layers' = <<>> /\ out' = <<>> /\ lz' = -1 /\ stack' = <<[path |-> <<>>, next |-> 1, key |-> <<>>, args |-> <<>>]>> /\ leaves' = {} /\ px' = <<>>
Init == /\ c \in 1..Len(Cases) /\ side = "a" /\ s = Cases[c].a /\ k = 1 /\ ph = "layers" /\ layers = <<>> /\ out = <<>> /\ lz = -1
        /\ stack = <<[path |-> <<>>, next |-> 1, key |-> <<>>, args |-> <<>>]>> /\ leaves = {} /\ px = <<>> /\ res = {}
Say(x, d) == PrintT("V " \o ToString(c) \o " " \o x \o " " \o side \o " " \o ToString(d))
Fail(x, d) == /\ Say(x, d) /\ side' = "end" /\ UNCHANGED <<c, s, k, ph, layers, out, lz, stack, leaves, px, res>>

Layers ==
  /\ ph = "layers" /\ side # "end"
  /\ IF StartsWithAt(s, 1, <<98, 54, 52, 58>>) THEN
       IF layers # <<>> THEN Fail("base64-inside", 0)
       ELSE s' = DecodeB64(SubSeq(s, 5, Len(s))) /\ layers' = Append(layers, "b64") /\ UNCHANGED <<c, side, k, ph, out, lz, stack, leaves, px, res>>
     ELSE IF StartsWithAt(s, 1, <<108, 122, 52, 0>>) THEN
       IF Len(s) < 12 \/ U32(s, 5) # Len(s) - 12 THEN Fail("lz4-size", Len(s))
       ELSE ph' = "lz4" /\ k' = 13 /\ layers' = Append(layers, "lz4") /\ UNCHANGED <<c, side, s, out, lz, stack, leaves, px, res>>
     ELSE ph' = "value" /\ k' = 1 /\ UNCHANGED <<c, side, s, layers, out, lz, stack, leaves, px, res>>
RECURSIVE More(_, _, _)
More(t, p, n) == IF p > Len(t) THEN <<-1, p>> ELSE IF t[p] = 255 THEN More(t, p + 1, n + 255) ELSE <<n + t[p], p + 1>>
Copied(o, off, n) == [j \in 1..Len(o) + n |-> IF j <= Len(o) THEN o[j] ELSE o[Len(o) - off + 1 + ((j - Len(o) - 1) % off)]]
Lz4 ==
  /\ ph = "lz4" /\ side # "end"
  /\ LET t == s[k]
         lits == IF t \div 16 = 15 THEN More(s, k + 1, 15) ELSE <<t \div 16, k + 1>>
         n == lits[1]  p == lits[2]
     IN IF n < 0 \/ p + n - 1 > Len(s) THEN Fail("lz4-literals", k)
        ELSE LET o2 == out \o SubSeq(s, p, p + n - 1)  q == p + n
             IN IF q > Len(s) THEN
                  IF t % 16 # 0 \/ (lz >= 0 /\ (n < 5 \/ lz + 12 > Len(o2))) THEN Fail("lz4-last-block", <<t, n, lz>>)
                  ELSE IF Len(o2) # U32(s, 9) THEN Fail("lz4-uncompressed-size", <<Len(o2), U32(s, 9)>>)
                  ELSE s' = o2 /\ k' = 1 /\ out' = <<>> /\ ph' = "value" /\ UNCHANGED <<c, side, layers, lz, stack, leaves, px, res>>
                ELSE IF q + 1 > Len(s) THEN Fail("lz4-offset", k)
                ELSE LET off == U16(s, q)
                         len == IF t % 16 = 15 THEN More(s, q + 2, 15) ELSE <<t % 16, q + 2>>
                     IN IF off = 0 \/ off > Len(o2) THEN Fail("lz4-offset", <<k, off, Len(o2)>>)
                        ELSE IF len[1] < 0 \/ len[2] > Len(s) THEN Fail("lz4-ends-in-a-copy", k)
                        ELSE out' = Copied(o2, off, len[1] + 4) /\ k' = len[2] /\ lz' = Len(o2) /\ UNCHANGED <<c, side, s, ph, layers, stack, leaves, px, res>>

\* a value was read: it belongs to the table on top of the stack
Top == stack[Len(stack)]
PathOf(e) == IF Len(stack) = 1 THEN <<>> ELSE Append(e.path, IF e.key = <<>> THEN <<"i", FALSE, LET RECURSIVE D(_) D(n) == IF n < 10 THEN <<n>> ELSE Append(D(n \div 10), n % 10) IN D(e.next)>> ELSE e.key)
Advance(st) == LET e == st[Len(st)] IN [st EXCEPT ![Len(st)] = [e EXCEPT !.next = IF e.key = <<>> THEN e.next + 1 ELSE e.next, !.key = <<>>]]
Leaf(v, p) == /\ leaves' = (IF v = <<"nil">> THEN leaves ELSE leaves \cup {<<PathOf(Top), v>>})
              /\ stack' = Advance(stack) /\ k' = p /\ UNCHANGED <<c, side, s, ph, layers, out, lz, px, res>>
Skip(p) == k' = p /\ UNCHANGED <<c, side, s, ph, layers, out, lz, stack, leaves, px, res>>
RECURSIVE Blank(_)
Blank(p) == IF p <= Len(s) /\ s[p] \in {32, 10, 9, 13} THEN Blank(p + 1) ELSE p

\* a scalar at p: <<value, end>>, the end is -1 if there is none
Scalar(p) ==
  IF p > Len(s) THEN <<<<"none">>, -1>>
  ELSE IF s[p] \in {34, 39} THEN LET r == Str(s, p + 1, s[p]) IN <<<<"s", r[1]>>, r[2]>>
  ELSE IF s[p] = 45 THEN LET r == Number(s, Blank(p + 1)) IN <<Neg(r[1]), r[2]>>
  ELSE IF IsDigit(s[p]) \/ s[p] = 46 THEN Number(s, p)
  ELSE LET w == Word(s, p) IN
       CASE w = W_true -> <<<<"b", TRUE>>, p + 4>> [] w = W_false -> <<<<"b", FALSE>>, p + 5>> [] w = W_nil -> <<<<"nil">>, p + 3>> [] OTHER -> <<<<"none">>, -1>>
\* the arguments of userdata(...): <<values, end>>
RECURSIVE Args(_, _)
Args(p, acc) == LET r == Scalar(p) IN IF r[2] < 0 THEN <<acc, -1>>
                ELSE LET q == Blank(r[2]) IN IF q > Len(s) THEN <<acc, -1>> ELSE IF s[q] = 41 THEN <<Append(acc, r[1]), q + 1>> ELSE IF s[q] = 44 THEN Args(Blank(q + 1), Append(acc, r[1])) ELSE <<acc, -1>>
\* lists of hex digits may be in capitals
UdData(t) == [j \in 1..Len(t) |-> IF t[j] \in 65..70 THEN t[j] + 32 ELSE t[j]]
Userdata(a) == IF Len(a) = 3 THEN <<"ud", a[1][2], a[2], <<"i", FALSE, <<>>>>, UdData(a[3][2])>> ELSE <<"ud", a[1][2], a[2], a[3], UdData(a[4][2])>>
NatVal(n) == LET RECURSIVE D(_) D(m) == IF m = 0 THEN <<>> ELSE Append(D(m \div 10), m % 10) IN <<"i", FALSE, D(n)>>
Value ==
  /\ ph = "value" /\ side # "end"
  /\ LET p == Blank(k) IN
     IF p > Len(s) THEN IF Len(stack) = 1 THEN ph' = "done" /\ UNCHANGED <<c, side, s, k, layers, out, lz, stack, leaves, px, res>> ELSE Fail("table-not-closed", k)
     ELSE IF s[p] = 123 THEN \* a table: it is a value of its own (also if empty)
       /\ leaves' = leaves \cup {<<PathOf(Top), <<"table">>>>}
       /\ stack' = Append(Advance(stack), [path |-> PathOf(Top), next |-> 1, key |-> <<>>, args |-> <<>>])
       /\ k' = p + 1 /\ UNCHANGED <<c, side, s, ph, layers, out, lz, px, res>>
     ELSE IF s[p] = 125 THEN IF Len(stack) = 1 THEN Fail("bracket", p)
       ELSE stack' = SubSeq(stack, 1, Len(stack) - 1) /\ k' = p + 1 /\ UNCHANGED <<c, side, s, ph, layers, out, lz, leaves, px, res>>
     ELSE IF s[p] \in {44, 59} THEN Skip(p + 1)
     ELSE IF s[p] = 91 THEN LET r == Scalar(Blank(p + 1))  q == IF r[2] < 0 THEN p ELSE Blank(r[2])  q2 == Blank(q + 1)
       IN IF r[2] < 0 \/ q > Len(s) \/ s[q] # 93 \/ q2 > Len(s) \/ s[q2] # 61 THEN Fail("key", p)
          ELSE stack' = [stack EXCEPT ![Len(stack)].key = r[1]] /\ k' = q2 + 1 /\ UNCHANGED <<c, side, s, ph, layers, out, lz, leaves, px, res>>
     ELSE IF StartsWithAt(s, p, Pxu) THEN LET flags == U16(s, p + 4)
                                              long == (flags \div 2048) % 2 = 1
                                              high == (flags \div 64) % 2 = 1
                                              w == IF long THEN U32(s, p + 6) ELSE s[p + 6]
                                              p2 == IF long THEN p + 10 ELSE p + 7
                                              h == IF ~high THEN 0 ELSE IF long THEN U32(s, p2) ELSE s[p2]
                                              p3 == IF ~high THEN p2 ELSE IF long THEN p2 + 4 ELSE p2 + 1
                                              comp == flags \div 4096
                                              type == flags % 16
       IN IF type \notin {3, 12} \/ comp \notin {1, 2, 8} \/ (flags \div 16) % 4 # 0 \/ (flags \div 128) % 16 # 0 THEN Fail("pxu-flags", flags)
          ELSE IF comp = 2 /\ s[p3] # 4 THEN Fail("pxu-bits", s[p3])
          ELSE IF comp = 8 /\ s[p3] # 0 THEN Fail("pxu-bits", s[p3])
          ELSE LET bits == IF comp = 2 THEN 4 ELSE 0
                   n == (2 ^ bits) - 1
               IN /\ px' = [type |-> type, w |-> w, h |-> h, comp |-> comp, bits |-> bits, size |-> w * (IF high THEN h ELSE 1),
                            vals |-> [j \in 1..n |-> j - 1], order |-> [j \in 1..n |-> j - 1], data |-> <<>>]
                  /\ k' = (IF comp = 1 THEN p3 ELSE p3 + 1) /\ ph' = "pxu" /\ layers' = Append(layers, "pxu")
                  /\ UNCHANGED <<c, side, s, out, lz, stack, leaves, res>>
     ELSE LET w == Word(s, p) IN
       IF w = W_userdata THEN LET r == Args(Blank(NameEnd(s, p) + 1), <<>>)
         IN IF r[2] < 0 \/ Len(r[1]) \notin {3, 4} THEN Fail("userdata", p) ELSE Leaf(Userdata(r[1]), r[2])
       ELSE LET r == Scalar(p) IN
         IF r[2] >= 0 THEN Leaf(r[1], r[2])
         ELSE LET q == NameEnd(s, p)  q2 == Blank(q) IN
           IF w # <<>> /\ q2 <= Len(s) /\ s[q2] = 61 THEN stack' = [stack EXCEPT ![Len(stack)].key = <<"s", w>>] /\ k' = q2 + 1 /\ UNCHANGED <<c, side, s, ph, layers, out, lz, leaves, px, res>>
           ELSE Fail("value", <<p, SubSeq(s, p, IF p + 10 > Len(s) THEN Len(s) ELSE p + 10)>>)
\* numeric data, run by run: an index into a list of known values (moved to its front), or a new value (in the place of the last)
Hexes == [j \in 0..15 |-> IF j < 10 THEN 48 + j ELSE 87 + j]
PxuItem ==
  /\ ph = "pxu" /\ side # "end"
  /\ IF Len(px.data) >= px.size THEN
       IF Len(px.data) > px.size THEN Fail("pxu-size", <<Len(px.data), px.size>>)
       ELSE /\ leaves' = leaves \cup {<<PathOf(Top), <<"ud", TypeName(px.type), NatVal(px.w), NatVal(px.h), [j \in 1..Len(px.data) * (IF px.type = 3 THEN 2 ELSE 4) |->
                 LET w == IF px.type = 3 THEN 2 ELSE 4 IN Hexes[(px.data[(j - 1) \div w + 1] \div (16 ^ (w - 1 - ((j - 1) % w)))) % 16]]>>>>}
            /\ stack' = Advance(stack) /\ ph' = "value" /\ UNCHANGED <<c, side, s, k, layers, out, lz, px, res>>
     ELSE LET wide == px.type = 12
              Val(p) == IF wide THEN U16(s, p) ELSE s[p]
              step == IF wide THEN 2 ELSE 1
          IN IF k > Len(s) THEN Fail("pxu-ends", k)
             ELSE IF px.comp = 1 THEN px' = [px EXCEPT !.data = Append(px.data, Val(k))] /\ k' = k + step /\ UNCHANGED <<c, side, s, ph, layers, out, lz, stack, leaves, res>>
             ELSE LET b == s[k]
                      n == (2 ^ px.bits) - 1
                      index == b % (n + 1)
                      new == index = n
                      value == IF new THEN Val(k + 1) ELSE px.vals[index + 1]
                      at == IF new THEN 0 ELSE CHOOSE j \in 1..n : px.order[j] = index
                      full == 256 \div (n + 1)
                      cnt0 == 1 + b \div (n + 1)
                      p1 == IF new THEN k + 1 + step ELSE k + 1
                      more == IF cnt0 = full THEN More(s, p1, cnt0) ELSE <<cnt0, p1>>
                      order2 == IF new THEN px.order ELSE <<index>> \o [j \in 1..n - 1 |-> IF j < at THEN px.order[j] ELSE px.order[j + 1]]
                      vals2 == IF new /\ n > 0 THEN [px.vals EXCEPT ![px.order[n] + 1] = value] ELSE px.vals
                  IN IF more[1] < 0 THEN Fail("pxu-count", k)
                     ELSE /\ px' = [px EXCEPT !.data = px.data \o [j \in 1..more[1] |-> value], !.order = order2, !.vals = vals2]
                          /\ k' = more[2] /\ UNCHANGED <<c, side, s, ph, layers, out, lz, stack, leaves, res>>
Asked == /\ (Case.want = "plain" => ToSet(layers) \cap {"lz4", "pxu"} = {})
         /\ (Case.want = "nolz4" => "lz4" \notin ToSet(layers))
         /\ (Case.b64 => layers # <<>> /\ layers[1] = "b64") /\ (~Case.b64 => "b64" \notin ToSet(layers))
Done ==
  /\ ph = "done" /\ side # "end"
  /\ IF side = "a" THEN res' = leaves /\ side' = "b" /\ Start(Case.b) /\ UNCHANGED c
     ELSE IF leaves # res THEN Fail("value-changed", <<res \ leaves, leaves \ res>>)
     ELSE IF Case.ma # Case.mb THEN Fail("metadata-changed", Case.mb)
     ELSE IF ~Asked THEN Fail("not-as-asked", layers)
     ELSE /\ PrintT("V " \o ToString(c) \o " ok") /\ side' = "end" /\ UNCHANGED <<c, s, k, ph, layers, out, lz, stack, leaves, px, res>>
Next == Layers \/ Lz4 \/ Value \/ PxuItem \/ Done
Spec == Init /\ [][Next]_vars
\* the known values are always in some order
OrderOk == ph = "pxu" => (ToSet(px.order) = 0..(2 ^ px.bits) - 2 /\ Len(px.order) = (2 ^ px.bits) - 1)
=============================================================================
