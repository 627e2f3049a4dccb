------------------------------- MODULE P8Mem -------------------------------
(* Where every byte of a cart's memory (0x0000-0x42ff) and every pixel of its label stands in the text sections of a .p8 file.
   A case: the sections of a file read (ins), the memory it gave (mem), and the sections of the files written from it (outs);
   or, without ins, a memory given as a rom.  The spec reads each text by its own layout, a block of addresses at a time. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.VF_DATA)
Cases == Data.cases
VARIABLES c, a, v, ts, ti
vars == <<c, a, v, ts, ti>>
\* ts, ti: the tables of the written texts and of the one read (made in the first step)

BlankCh == {32, 9, 13, 11, 12}
RECURSIVE TrimR(_), TrimL(_)
TrimR(l) == IF l # <<>> /\ l[Len(l)] \in BlankCh THEN TrimR(SubSeq(l, 1, Len(l) - 1)) ELSE l
TrimL(l) == IF l # <<>> /\ l[1] \in BlankCh THEN TrimL(Tail(l)) ELSE l
\* the lines of a section that hold something
Section(secs, n) ==
  LET ks == SelectSeq([k \in 1..Len(secs) |-> k], LAMBDA k : secs[k].n = n)
  IN IF ks = <<>> THEN <<>> ELSE SelectSeq([i \in 1..Len(secs[ks[1]].l) |-> TrimL(TrimR(secs[ks[1]].l[i]))], LAMBDA l : l # <<>>)
Order(secs, n) == SelectInSeq(secs, LAMBDA s : s.n = n)

Hex(ch) == IF ch <= 57 THEN ch - 48 ELSE IF ch <= 70 THEN ch - 55 ELSE ch - 87
\* labels have 32 colours: 0-9 a-v
Hex32(ch) == IF ch <= 57 THEN ch - 48 ELSE IF ch <= 86 THEN ch - 55 ELSE ch - 87
\* digit x (from 0) of line y (from 0), or -1
Dig(ls, y, x) == IF y < Len(ls) /\ x < Len(ls[y + 1]) THEN Hex(ls[y + 1][x + 1]) ELSE -1
Or0(n) == IF n < 0 THEN 0 ELSE n
\* two digits make a byte; a missing second digit counts as 0, a missing byte as the default
Byte(ls, y, x, d) == LET h == Dig(ls, y, x) IN IF h < 0 THEN d ELSE h * 16 + Or0(Dig(ls, y, x + 1))

\* t: the sections <<gfx, map, gff, sfx, music, mapIsLater>>
Bit(n, k) == (n \div 2 ^ k) % 2
GfxAt(g, ad, lo, hi) == \* (the first pixel is in the low half)
  LET y == ad \div 64  x == 2 * (ad % 64)  p == Dig(g, y, x)  q == Dig(g, y, x + 1)
  IN (IF p < 0 THEN lo ELSE p) + 16 * (IF q < 0 THEN hi ELSE q)
MapLow(m, ad, d) == LET k == ad - 4096 IN Byte(m, 32 + k \div 128, 2 * (k % 128), d)
At(t, ad) ==
  CASE ad < 4096 -> GfxAt(t.gfx, ad, 0, 0)
    [] ad < 8192 -> \* shared by the lower sprites and the lower map: what comes later in the file stays
         IF t.mapLater THEN MapLow(t.map, ad, GfxAt(t.gfx, ad, 0, 0))
         ELSE LET b == MapLow(t.map, ad, 0) IN GfxAt(t.gfx, ad, b % 16, b \div 16)
    [] ad < 12288 -> LET k == ad - 8192 IN Byte(t.map, k \div 128, 2 * (k % 128), 0)
    [] ad < 12544 -> LET k == ad - 12288 IN Byte(t.gff, k \div 128, 2 * (k % 128), 0)
    [] ad < 12800 -> LET k == ad - 12544  p == k \div 4  ch == k % 4
                         b == Byte(t.music, p, 3 + 2 * ch, -1)  f == Byte(t.music, p, 0, 0)
                     IN IF b < 0 THEN 65 + ch ELSE IF b < 128 THEN b + 128 * Bit(f, ch) ELSE b
    [] OTHER ->      LET k == ad - 12800  n == k \div 68  o == k % 68 IN
                     IF o >= 64 THEN Byte(t.sfx, n, 2 * (o - 64), IF o = 65 THEN (IF n = 0 THEN 1 ELSE 16) ELSE 0)
                     ELSE LET x == 8 + 5 * (o \div 2)
                              d(i) == Or0(Dig(t.sfx, n, x + i))
                          IN IF o % 2 = 0 THEN d(1) + 16 * (d(0) % 4) + 64 * (d(2) % 4)                 \* pitch, wave bits 0-1
                             ELSE Bit(d(2), 2) + 2 * (d(3) % 8) + 16 * (d(4) % 8) + 128 * Bit(d(2), 3)  \* wave bit 2, volume, effect, custom
Table(secs) == [gfx |-> Section(secs, "gfx"), map |-> Section(secs, "map"), gff |-> Section(secs, "gff"), sfx |-> Section(secs, "sfx"), music |-> Section(secs, "music"), label |-> Section(secs, "label"),
                mapLater |-> Order(secs, "map") > Order(secs, "gfx")]
LabelAt(ls, x, y) == IF y < Len(ls) /\ x < Len(ls[y + 1]) THEN Hex32(ls[y + 1][x + 1]) ELSE 0

\* what a written section must look like: full lines of lower-case digits, no more lines than there is memory
Digits(l, n) == Len(l) = n /\ \A i \in 1..n : l[i] \in 48..57 \cup 97..102
WellFormed(secs) ==
  /\ \A l \in ToSet(Section(secs, "gfx")) : Digits(l, 128)
  /\ \A l \in ToSet(Section(secs, "map")) \cup ToSet(Section(secs, "gff")) : Digits(l, 256)
  /\ \A l \in ToSet(Section(secs, "sfx")) : Digits(l, 168)
  /\ \A l \in ToSet(Section(secs, "music")) : Len(l) = 11 /\ l[3] = 32 /\ Digits(SubSeq(l, 1, 2) \o SubSeq(l, 4, 11), 10)
  /\ \A l \in ToSet(Section(secs, "label")) : Len(l) = 128 /\ \A i \in 1..128 : l[i] \in 48..57 \cup 97..118
  /\ Len(Section(secs, "gfx")) <= 128 /\ Len(Section(secs, "map")) <= 32 /\ Len(Section(secs, "gff")) <= 2
  /\ Len(Section(secs, "sfx")) <= 64 /\ Len(Section(secs, "music")) <= 64 /\ Len(Section(secs, "label")) \in {0, 128}

Finish(w, d) == v' = w /\ UNCHANGED <<c, a, ts, ti>> /\ PrintT("V " \o ToString(c) \o " " \o w \o " " \o ToString(d))
Init == c \in 1..Len(Cases) /\ a = -1 /\ v = "" /\ ts = <<>> /\ ti = <<>>
Block == 2144  \* addresses per step
Size == 17152
Next ==
  /\ v = ""
  /\ IF a = -1 THEN /\ ts' = [i \in 1..Len(Cases[c].outs) |-> Table(Cases[c].outs[i])] /\ ti' = Table(Cases[c].ins)
                   /\ a' = 0 /\ UNCHANGED <<c, v>>
     ELSE
     LET k == Cases[c]
         rd == IF k.read THEN {ad \in a..(a + Block - 1) : At(ti, ad) # k.mem[ad + 1]} ELSE {}
         wr == {<<i, ad>> \in (1..Len(ts)) \X (a..(a + Block - 1)) : At(ts[i], ad) # k.mem[ad + 1]}
     IN
     IF a = Size THEN
       LET bad == IF ti.label = <<>> /\ \A i \in 1..Len(ts) : ts[i].label = <<>> THEN {} ELSE {<<i, x, y>> \in (1..Len(k.outs)) \X (0..127) \X (0..127) : k.label[i] /\ LabelAt(ts[i].label, x, y) # LabelAt(ti.label, x, y)}
           ill == {i \in 1..Len(k.outs) : ~ WellFormed(k.outs[i])}
       IN IF ill # {} THEN Finish("ill-formed", ill)
          ELSE IF bad # {} THEN Finish("label", CHOOSE w \in bad : TRUE)
          ELSE Finish("ok", "")
     ELSE IF rd # {} THEN LET ad == CHOOSE w \in rd : \A z \in rd : w <= z IN Finish("read-differently", <<ad, At(ti, ad), k.mem[ad + 1]>>)
     ELSE IF wr # {} THEN LET w == CHOOSE w \in wr : \A z \in wr : w[2] <= z[2] IN Finish("written-differently", <<w, At(ts[w[1]], w[2]), k.mem[w[2] + 1]>>)
     ELSE a' = a + Block /\ UNCHANGED <<c, v, ts, ti>>
Spec == Init /\ [][Next]_vars
=============================================================================
