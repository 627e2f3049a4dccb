---------------------------- MODULE CodeSection ----------------------------
(* The code section of a PICO-8 cart (0x3d00 bytes at 0x4300), as PICO-8 reads it.
   A state machine that decodes the section item by item: the raw form (text up to a
   NUL), the old ":c:" form and the "\0pxa" form.  It never stores the decoded text:
   in every reachable non-failed state the n characters decoded so far are the first n
   characters of the text the section is supposed to hold (Prefix, by construction of
   the checks made by each action), so a single position n stands for them.

   A behaviour validates one section written by the implementation: the case record has
     code : the text (bytes) the cart holds        rom  : the section as written
     back : what the implementation reads back
     comp : TRUE if it must be compressed          raw  : TRUE if it must be stored as is
     full : the section is a whole one (0x3d00 bytes; trailing zeros are not recorded) *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Data  == JsonDeserialize(IOEnv.VF_DATA)
Cases == Data.cases

VARIABLES ci,     \* the case
          phase,  \* "start" | "raw" | "old" | "pxa" | "count" | "block" | "done"
          pos,    \* raw/old: next byte (1-based);  pxa: next bit (0-based, from the section's start)
          n,      \* characters decoded so far
          match,  \* pxa: the match being read, <<offset, count so far>>
          mtf,    \* pxa: move-to-front list
          verdict, detail
vars == <<ci, phase, pos, n, match, mtf, verdict, detail>>

C    == Cases[ci]
Code == C.code
Len0 == Len(Code)
Byte(i) == IF i <= Len(C.rom) THEN C.rom[i] ELSE 0

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
P2(k) == Pow2[k + 1]
Bit(p) == (Byte((p \div 8) + 1) \div P2(p % 8)) % 2
\* bits are least-significant first: the spec reads whole bytes where it can
RECURSIVE Bits(_, _)
Bits(p, k) == IF k = 0 THEN 0
              ELSE LET avail == 8 - (p % 8)
                       take  == IF k < avail THEN k ELSE avail
                       part  == (Byte((p \div 8) + 1) \div P2(p % 8)) % P2(take)
                   IN  part + P2(take) * Bits(p + take, k - take)

OldTable == << 10, 32, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57,
               97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109,
               110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122,
               33, 35, 37, 40, 41, 123, 125, 91, 93, 60, 62,
               43, 61, 47, 42, 58, 59, 46, 44, 126, 95 >>

UncSize  == 256 * Byte(5) + Byte(6)
CompSize == 256 * Byte(7) + Byte(8)
SectionSize == 15616 \* 0x3d00

Init == /\ ci \in 1..Len(Cases)
        /\ phase = "start" /\ pos = 0 /\ n = 0 /\ match = <<0, 0>>
        /\ mtf = [k \in 1..256 |-> k - 1]
        /\ verdict = "run" /\ detail = 0

Fail(why, d) == /\ verdict' = why /\ detail' = d /\ phase' = "done"
                /\ UNCHANGED <<pos, n, mtf, match>>
Go(ph, p, k, m) == /\ phase' = ph /\ pos' = p /\ n' = k /\ mtf' = m
                   /\ UNCHANGED <<verdict, detail, match>>

IsPxa == Byte(1) = 0 /\ Byte(2) = 112 /\ Byte(3) = 120 /\ Byte(4) = 97
IsOld == Byte(1) = 58 /\ Byte(2) = 99 /\ Byte(3) = 58 /\ Byte(4) = 0

ZeroFrom(i) == \A k \in i..Len(C.rom) : C.rom[k] = 0

Start ==
  /\ phase = "start"
  /\ IF C.back # Code THEN Fail("readback-differs", Len(C.back))
     ELSE IF Len(C.rom) > SectionSize THEN Fail("section-too-large", Len(C.rom))
     ELSE IF C.comp /\ ~IsPxa /\ ~IsOld THEN Fail("not-compressed", 0)
     ELSE IF C.raw /\ (IsPxa \/ IsOld) THEN Fail("compressed-without-need", 0)
     ELSE IF IsPxa THEN
            IF UncSize # Len0 THEN Fail("declared-length", UncSize)
            ELSE IF ~ZeroFrom(CompSize + 1) THEN Fail("declared-compressed-size", CompSize)
            ELSE Go("pxa", 64, 0, mtf)
     ELSE IF IsOld THEN
            IF UncSize \notin {Len0, Len0 + 1} THEN Fail("declared-length", UncSize)
            ELSE Go("old", 9, 0, mtf)
     ELSE Go("raw", 1, 0, mtf)

\* ---- raw text, ended by a NUL (or by the section's end)
Raw ==
  /\ phase = "raw"
  /\ IF n = Len0
     THEN IF ~ZeroFrom(pos) THEN Fail("raw-trailing", pos)
          ELSE IF C.full /\ Len0 >= SectionSize THEN Fail("raw-no-room-for-nul", Len0)
          ELSE /\ verdict' = "ok" /\ phase' = "done" /\ UNCHANGED <<pos, n, mtf, match, detail>>
     ELSE LET hi == IF n + 512 < Len0 THEN n + 512 ELSE Len0 IN
          IF \E k \in (n + 1)..hi : Code[k] # Byte(k) \/ Code[k] = 0
          THEN Fail("raw-mismatch", n) ELSE Go("raw", hi + 1, hi, mtf)

MatchOk(off, cnt) ==
  /\ off >= 1 /\ off <= n /\ n + cnt <= Len0
  /\ \A k \in (n + 1)..(n + cnt) : Code[k] = Code[k - off]

\* ---- old format
Old ==
  /\ phase = "old"
  /\ LET b == Byte(pos) IN
     IF pos > Len(C.rom) + 2 THEN Fail("old-overrun", pos)
     ELSE IF b = 0 THEN
        LET b2 == Byte(pos + 1) IN
        IF b2 = 0 THEN IF n # Len0 THEN Fail("old-ended-early", n)
                       ELSE IF ~ZeroFrom(pos) THEN Fail("old-trailing", pos)
                       ELSE /\ verdict' = "ok" /\ phase' = "done" /\ UNCHANGED <<pos, n, mtf, match, detail>>
        ELSE IF n >= Len0 \/ Code[IF n < Len0 THEN n + 1 ELSE 1] # b2 THEN Fail("old-literal", n)
        ELSE Go("old", pos + 2, n + 1, mtf)
     ELSE IF b <= 59 THEN
        IF n >= Len0 THEN Fail("old-too-long", n)
        ELSE IF Code[n + 1] # OldTable[b] THEN Fail("old-literal", n)
        ELSE Go("old", pos + 1, n + 1, mtf)
     ELSE
        LET b2  == Byte(pos + 1)
            cnt == (b2 \div 16) + 2
            off == (b - 60) * 16 + (b2 % 16)
        IN IF cnt > off THEN Fail("old-overlapping-match", n)
           ELSE IF ~MatchOk(off, cnt) THEN Fail("old-match", n)
           ELSE Go("old", pos + 2, n + cnt, mtf)

\* ---- pxa format
RECURSIVE Ones(_, _)
Ones(p, k) == IF k > 8 \/ Bit(p) = 0 THEN k ELSE Ones(p + 1, k + 1)

RECURSIVE Count(_, _, _)  \* at most k more 3-bit parts: <<count, position after, finished>>
Count(p, acc, k) == LET part == Bits(p, 3) IN
                    IF part # 7 THEN <<acc + part, p + 3, TRUE>>
                    ELSE IF k = 0 THEN <<acc + 7, p + 3, FALSE>>
                    ELSE Count(p + 3, acc + 7, k - 1)

BytesUsed(p) == (p + 7) \div 8

PxaEnd ==
  /\ phase = "pxa" /\ n = Len0
  /\ IF BytesUsed(pos) # CompSize THEN Fail("declared-compressed-size", BytesUsed(pos))
     ELSE /\ verdict' = "ok" /\ phase' = "done" /\ UNCHANGED <<pos, n, mtf, match, detail>>

PxaLiteral ==
  /\ phase = "pxa" /\ n < Len0 /\ Bit(pos) = 1
  /\ LET extra == Ones(pos + 1, 0)
         p1    == pos + 2 + extra
         idx   == Bits(p1, 4 + extra) + 16 * (P2(IF extra > 8 THEN 0 ELSE extra) - 1)
     IN IF extra > 8 \/ idx > 255 THEN Fail("bad-literal", n)
        ELSE IF BytesUsed(p1 + 4 + extra) > CompSize THEN Fail("overrun", n)
        ELSE LET c == mtf[idx + 1] IN
             IF Code[n + 1] # c THEN Fail("literal", n)
             ELSE Go("pxa", p1 + 4 + extra, n + 1,
                     <<c>> \o SubSeq(mtf, 1, idx) \o SubSeq(mtf, idx + 2, 256))

PxaMatch ==
  /\ phase = "pxa" /\ n < Len0 /\ Bit(pos) = 0
  /\ LET w1     == Bit(pos + 1)
         w2     == Bit(pos + 2)
         offlen == IF w1 = 0 THEN 15 ELSE IF w2 = 1 THEN 5 ELSE 10
         p1     == pos + (IF w1 = 0 THEN 2 ELSE 3)
         off    == Bits(p1, offlen) + 1
         p2     == p1 + offlen
     IN IF BytesUsed(p2) > CompSize THEN Fail("overrun", n)
        ELSE IF off = 1 /\ offlen = 10 THEN Go("block", p2, n, mtf)
        ELSE IF off = 1 /\ offlen = 15 THEN Fail("reserved-match", n)
        ELSE /\ phase' = "count" /\ pos' = p2 /\ match' = <<off, 3>>
             /\ UNCHANGED <<n, mtf, verdict, detail>>

PxaCount == \* a match's length: 3-bit parts up to one that is not 7
  /\ phase = "count"
  /\ LET cp == Count(pos, match[2], 60) IN
     IF BytesUsed(cp[2]) > CompSize THEN Fail("overrun", n)
     ELSE IF ~cp[3] THEN /\ pos' = cp[2] /\ match' = <<match[1], cp[1]>>
                         /\ UNCHANGED <<phase, n, mtf, verdict, detail>>
     ELSE IF ~MatchOk(match[1], cp[1]) THEN Fail("match", n)
     ELSE Go("pxa", cp[2], n + cp[1], mtf)

PxaBlock == \* a run of plain 8-bit characters, ended by 0
  /\ phase = "block"
  /\ LET ch == Bits(pos, 8) IN
     IF BytesUsed(pos + 8) > CompSize THEN Fail("overrun", n)
     ELSE IF ch = 0 THEN Go("pxa", pos + 8, n, mtf)
     ELSE IF n >= Len0 THEN Fail("too-long", n)
     ELSE IF Code[n + 1] # ch THEN Fail("block-char", n)
     ELSE Go("block", pos + 8, n + 1, mtf)

Report == /\ verdict' # "run"
          => PrintT("V " \o ToString(ci) \o " " \o verdict' \o " at " \o ToString(n') \o " (" \o ToString(detail') \o ")")

Next == /\ phase # "done"
        /\ \/ Start \/ Raw \/ Old \/ PxaEnd \/ PxaLiteral \/ PxaMatch \/ PxaCount \/ PxaBlock
        /\ UNCHANGED ci
        /\ Report

Spec == Init /\ [][Next]_vars

TypeOK == /\ n \in 0..Len0
          /\ phase \in {"start", "raw", "old", "pxa", "block", "done"}
=============================================================================
