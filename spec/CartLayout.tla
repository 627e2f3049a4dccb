----------------------------- MODULE CartLayout -----------------------------
(* The layout of a cart image: 160x205 pixels that carry 0x8020 bytes in the low two bits of their channels and a picture in the rest.
   A case: px (each pixel's channels' low bits, packed r g b a, 2 bits each), hi (the other bits, 6 each, packed the same way), mem (the 0x4300 bytes
   of cart memory), version, tuple, platform, sha (the checksum of the first 0x8000 carried bytes), label (128x128 colours, or empty),
   titled/title (whether the cart names a title; its characters), code (the code's characters). *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.VF_DATA)
Cases == Data.cases
Template == Data.template  \* the picture of an empty cart (same packing)
Font == Data.font          \* 128x96 pixels, -1 where transparent
Colours == Data.palette    \* the high bits of the 32 colours
W == 160
H == 205
RomSize == 32768
Chan(p, k) == (p \div (4 ^ (3 - k))) % 4 \* k = 0..3: r g b a
ByteOf(p) == Chan(p, 2) + 4 * Chan(p, 1) + 16 * Chan(p, 0) + 64 * Chan(p, 3)

\* the title: given, or the comments in the first two lines of the code
NL == 10
LineEnds(s) == {i \in 1..Len(s) : s[i] = NL}
LineFrom(s, i) == LET e == {j \in LineEnds(s) : j >= i} IN SubSeq(s, i, (IF e = {} THEN Len(s) + 1 ELSE CHOOSE j \in e : \A k \in e : j <= k) - 1)
Comment(l) == IF Len(l) < 2 \/ l[1] # 45 \/ l[2] # 45 THEN <<>> ELSE IF Len(l) > 2 /\ l[3] = 32 THEN SubSeq(l, 4, Len(l)) ELSE SubSeq(l, 3, Len(l))
Title(k) == IF k.titled THEN k.title ELSE
  LET l1 == LineFrom(k.code, 1) IN Comment(l1) \o (IF Len(l1) < Len(k.code) THEN <<NL>> \o Comment(LineFrom(k.code, Len(l1) + 2)) ELSE <<>>)
\* the glyphs of a title: <<x, y, char>> within the title's box of 124x16 pixels (wide characters take 8 pixels, others 4; lines are 8 apart)
Place(a, ch) ==
  IF ch = NL THEN [a EXCEPT !.x = 0, !.y = a.y + 8]
  ELSE LET w == IF ch >= 128 THEN 8 ELSE 4
       IN [a EXCEPT !.x = a.x + w, !.out = IF a.x + w <= 124 /\ a.y < 16 THEN Append(a.out, <<a.x, a.y, ch>>) ELSE a.out]
Glyphs(t) == FoldLeft(Place, [x |-> 0, y |-> 0, out |-> <<>>], t).out
TitleX == 18
TitleY == 167
\* the pixels a glyph sets: <<position, value>>
Ink(g) == LET w == IF g[3] >= 128 THEN 8 ELSE 4
              fx == (g[3] % 16) * 8
              fy == (g[3] \div 16) * 6
          IN {<<(TitleY + g[2] + dy) * W + TitleX + g[1] + dx + 1, Font[(fy + dy) * 128 + fx + dx + 1]>> : dx \in 0..(w - 1), dy \in 0..5}
TitleInk(t) == UNION {{p \in Ink(Glyphs(t)[i]) : p[2] >= 0} : i \in 1..Len(Glyphs(t))}
\* the picture: the template, the label's colours but black at (16,24), the title
Picture(k, ink) ==
  LET at == {p[1] : p \in ink}
  IN [i \in 1..(W * H) |->
       LET x == (i - 1) % W  y == (i - 1) \div W
       IN IF i \in at THEN (CHOOSE p \in ink : p[1] = i)[2]
          ELSE IF k.label # <<>> /\ x \in 16..143 /\ y \in 24..151 /\ k.label[(y - 24) * 128 + x - 15] # 0 THEN Colours[k.label[(y - 24) * 128 + x - 15] + 1]
          ELSE Template[i]]
Trailer(k) == <<k.version, k.tuple[1], k.tuple[2], k.tuple[3], k.platform, k.tuple[4]>> \o k.sha \o <<0, 0, 0, 0, 0, 0>>

VARIABLES c, v, b
vars == <<c, v, b>>
Init == c \in 1..Len(Cases) /\ v = "" /\ b = <<>>
Say(w, d) == v' = w /\ UNCHANGED <<c, b>> /\ PrintT("V " \o ToString(c) \o " " \o w \o " " \o ToString(d))
\* (some of the font's glyphs let a trace of the background through)
Close(p, q) == \A k \in 0..3 : LET d == ((p \div (64 ^ k)) % 64) - ((q \div (64 ^ k)) % 64) IN d \in {-1, 0, 1}
PictureDiff(s, t, ink) == LET bad == {i \in 1..Len(t) : s[i] # t[i] /\ ~ (Close(s[i], t[i]) /\ i \in {p[1] : p \in ink})} IN IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j
FirstDiff(s, t) == IF \A i \in 1..Len(t) : s[i] = t[i] THEN 0 ELSE CHOOSE i \in 1..Len(t) : s[i] # t[i] /\ \A j \in 1..(i - 1) : s[j] = t[j]
Carry == v = "" /\ b = <<>> /\ b' = [rom |-> [i \in 1..(W * H) |-> ByteOf(Cases[c].px[i])], ink |-> TitleInk(Title(Cases[c]))] /\ UNCHANGED <<c, v>>
Judge ==
  /\ v = "" /\ b # <<>>
  /\ LET k == Cases[c] IN
     IF Len(k.px) # W * H THEN Say("size", Len(k.px))
     ELSE LET m == FirstDiff(b.rom, k.mem)  t == FirstDiff(SubSeq(b.rom, RomSize + 1, W * H), Trailer(k))
          IN IF m # 0 THEN Say("memory", m - 1)
             ELSE IF t # 0 THEN Say("trailer", <<t - 1, b.rom[RomSize + t], Trailer(k)[t]>>)
             ELSE LET p == PictureDiff(k.hi, Picture(k, b.ink), b.ink) IN IF p # 0 THEN Say("picture", <<(p - 1) % W, (p - 1) \div W>>) ELSE Say("ok", "")
Next == Carry \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
