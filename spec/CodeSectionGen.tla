-------------------------- MODULE CodeSectionGen --------------------------
(* The writer's side of the code section: every step appends one legal item of the
   format, chosen freely, so its behaviours are all the streams PICO-8 (not only this
   implementation's compressor) may write.  Each reached state is printed as one stream
   with the text it stands for; the harness packs the bits and feeds them to the real
   reader.  Used breadth-first over a small alphabet (every stream of up to Depth
   items), and in simulation for long ones. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt

CONSTANTS Depth, Random, Format

VARIABLES out,   \* the text so far
          mtf,   \* pxa: move-to-front list
          bits,  \* items: <<value, width>> (pxa), <<byte, 8>> (old)
          k      \* items so far
vars == <<out, mtf, bits, k>>

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
P2(i) == Pow2[i + 1]

Alphabet == IF Random THEN {RandomElement(1..255), RandomElement(97..122), RandomElement({9, 10, 32, 255, 128})}
                      ELSE {97, 98, 253}
BlockTexts == IF Random THEN {[i \in 1..RandomElement(1..40) |-> RandomElement(1..255)]}
                        ELSE {<<97>>, <<254, 97, 98>>}
Counts == IF Random THEN {RandomElement(3..12), RandomElement({9, 10, 11, 16, 17, 18, 24, 31, 38, 60, 200})}
                    ELSE {3, 9, 10, 17}
Offsets == IF out = <<>> THEN {}
           ELSE IF Random THEN {RandomElement(1..Len(out)), Len(out)} \cup {o \in {1, 2, 31, 32, 33, 34, 1023, 1024, 1025, 1026} : o <= Len(out) /\ RandomElement(1..4) = 1}
           ELSE {o \in 1..3 : o <= Len(out)} \cup {Len(out)}

RECURSIVE Copy(_, _, _)
Copy(s, off, cnt) == IF cnt = 0 THEN s ELSE Copy(Append(s, s[Len(s) - off + 1]), off, cnt - 1)
CopyFast(s, off, cnt) == IF off >= cnt THEN s \o SubSeq(s, Len(s) - off + 1, Len(s) - off + cnt)
                         ELSE s \o [i \in 1..cnt |-> s[Len(s) - off + 1 + ((i - 1) % off)]]

Index(c) == CHOOSE i \in 0..255 : mtf[i + 1] = c
Extra(i) == CHOOSE e \in 0..4 : 16 * (P2(e) - 1) <= i /\ i < 16 * (P2(e + 1) - 1)
Bits01(v, w) == <<v, w>>

Init == out = <<>> /\ mtf = [i \in 1..256 |-> i - 1] /\ bits = <<>> /\ k = 0

Literal(c) ==
  LET i == Index(c)
      e == Extra(i)
  IN /\ bits' = bits \o <<<<1, 1>>, <<P2(e) - 1, e>>, <<0, 1>>, <<i - 16 * (P2(e) - 1), 4 + e>>>>
     /\ out' = Append(out, c)
     /\ mtf' = <<c>> \o SubSeq(mtf, 1, i) \o SubSeq(mtf, i + 2, 256)

CountBits(n) == [j \in 1..((n \div 7) + 1) |-> IF j <= n \div 7 THEN <<7, 3>> ELSE <<n % 7, 3>>]

\* any offset width that can hold the offset, except the code reserved for blocks
Match(off, cnt, w) ==
  /\ off - 1 < P2(w) /\ ~(off = 1 /\ w # 5)
  /\ bits' = bits \o (CASE w = 15 -> <<<<0, 1>>, <<0, 1>>>>
                        [] w = 10 -> <<<<0, 1>>, <<1, 1>>, <<0, 1>>>>
                        [] w = 5  -> <<<<0, 1>>, <<1, 1>>, <<1, 1>>>>) \o <<<<off - 1, w>>>> \o CountBits(cnt - 3)
  /\ out' = CopyFast(out, off, cnt)
  /\ UNCHANGED mtf

Block(t) ==
  /\ bits' = bits \o <<<<0, 1>>, <<1, 1>>, <<0, 1>>, <<0, 10>>>> \o [j \in 1..Len(t) |-> <<t[j], 8>>] \o <<<<0, 8>>>>
  /\ out' = out \o t
  /\ UNCHANGED mtf

OldTable == << 10, 32, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57,
               97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109,
               110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122,
               33, 35, 37, 40, 41, 123, 125, 91, 93, 60, 62,
               43, 61, 47, 42, 58, 59, 46, 44, 126, 95 >>
OldLiteral(c) ==
  \/ \E i \in 1..59 : OldTable[i] = c /\ bits' = Append(bits, <<i, 8>>) /\ out' = Append(out, c) /\ UNCHANGED mtf
  \/ /\ ~ \E i \in 1..59 : OldTable[i] = c
     /\ bits' = bits \o <<<<0, 8>>, <<c, 8>>>> /\ out' = Append(out, c) /\ UNCHANGED mtf
OldMatch(off, cnt) ==
  /\ cnt <= off /\ cnt <= 17 /\ off <= 3135
  /\ bits' = bits \o <<<<60 + (off \div 16), 8>>, <<(off % 16) + 16 * (cnt - 2), 8>>>>
  /\ out' = CopyFast(out, off, cnt) /\ UNCHANGED mtf

Next ==
  /\ k < Depth /\ k' = k + 1
  /\ IF Format = "pxa"
     THEN \/ \E c \in Alphabet : Literal(c)
          \/ \E off \in Offsets, cnt \in Counts, w \in {5, 10, 15} : Match(off, cnt, w)
          \/ \E t \in BlockTexts : Block(t)
     ELSE \/ \E c \in Alphabet : OldLiteral(c)
          \/ \E off \in Offsets, cnt \in Counts \cup {2} : OldMatch(off, cnt)
  /\ (IF Random THEN k' = Depth ELSE TRUE) => PrintT("G " \o ToJson([out |-> out', bits |-> bits']))

Spec == Init /\ [][Next]_vars

\* a match copies what stands `off` characters back, for every character of it
CopyMeaning == [][\A off \in 1..Len(out) : \A cnt \in {3, 10} :
                    CopyFast(out, off, cnt) = Copy(out, off, cnt)]_vars
=============================================================================
