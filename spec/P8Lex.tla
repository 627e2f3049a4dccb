------------------------------- MODULE P8Lex -------------------------------
(* The tokens of PICO-8 Lua.  Source texts are sequences of PICO-8 characters (0..255).
   Written from the language, not from pico_tokenize.py.
   Positions are 1-based; an end is the position after the last character. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1

IsDigit(c) == c >= 48 /\ c <= 57
IsHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
IsIdStart(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95 \/ c >= 128 \/ c = 30 \/ c = 31
IsIdChar(c) == IsIdStart(c) \/ IsDigit(c)
IsBlank(c) == c \in {32, 9, 13}
NL == 10

Keywords == { <<97,110,100>>, <<98,114,101,97,107>>, <<100,111>>, <<101,108,115,101>>, <<101,108,115,101,105,102>>, <<101,110,100>>,
              <<102,97,108,115,101>>, <<102,111,114>>, <<102,117,110,99,116,105,111,110>>, <<103,111,116,111>>, <<105,102>>, <<105,110>>,
              <<108,111,99,97,108>>, <<110,105,108>>, <<110,111,116>>, <<111,114>>, <<114,101,112,101,97,116>>, <<114,101,116,117,114,110>>,
              <<116,104,101,110>>, <<116,114,117,101>>, <<117,110,116,105,108>>, <<119,104,105,108,101>> }
K_if == <<105,102>>   K_while == <<119,104,105,108,101>>   K_then == <<116,104,101,110>>   K_do == <<100,111>>   K_end == <<101,110,100>>
K_else == <<101,108,115,101>>  K_elseif == <<101,108,115,101,105,102>>  K_until == <<117,110,116,105,108>>  K_repeat == <<114,101,112,101,97,116>>
K_function == <<102,117,110,99,116,105,111,110>>  K_local == <<108,111,99,97,108>>  K_return == <<114,101,116,117,114,110>>
K_and == <<97,110,100>>  K_or == <<111,114>>  K_not == <<110,111,116>>  K_in == <<105,110>>  K_for == <<102,111,114>>
K_nil == <<110,105,108>>  K_true == <<116,114,117,101>>  K_false == <<102,97,108,115,101>>

\* the operators and separators, longest match first
Punct4 == { <<62,62,62,61>>, <<60,60,62,61>>, <<62,62,60,61>> }
Punct3 == { <<46,46,46>>, <<46,46,61>>, <<60,60,62>>, <<62,62,62>>, <<62,62,60>>, <<94,94,61>>, <<60,60,61>>, <<62,62,61>> }
Punct2 == { <<58,58>>, <<46,46>>, <<61,61>>, <<126,61>>, <<33,61>>, <<60,61>>, <<62,61>>, <<43,61>>, <<45,61>>, <<42,61>>, <<47,61>>, <<92,61>>,
            <<37,61>>, <<94,61>>, <<124,61>>, <<38,61>>, <<94,94>>, <<60,60>>, <<62,62>> }
Punct1 == { 43, 45, 42, 47, 37, 94, 35, 38, 124, 126, 60, 62, 61, 40, 41, 123, 125, 91, 93, 59, 58, 44, 46, 92, 63, 64, 36 }

RECURSIVE IdEnd(_, _), DecEnd(_, _), HexEnd(_, _), LineEnd(_, _), Eqs(_, _), LongEnd(_, _, _)
IdEnd(s, i) == IF IsIdChar(At(s, i)) THEN IdEnd(s, i + 1) ELSE i
DecEnd(s, i) == IF IsDigit(At(s, i)) \/ At(s, i) = 46 THEN DecEnd(s, i + 1) ELSE i
HexEnd(s, i) == IF IsHex(At(s, i)) \/ At(s, i) = 46 THEN HexEnd(s, i + 1) ELSE i
LineEnd(s, i) == IF At(s, i) \in {NL, -1} THEN i ELSE LineEnd(s, i + 1)      \* position of the line break, or the end
Eqs(s, i) == IF At(s, i) = 61 THEN Eqs(s, i + 1) ELSE i
\* a long bracket opened with n equal signs closes at ..: the position after it, or 0
LongEnd(s, i, n) ==
  IF i > Len(s) THEN 0
  ELSE IF s[i] = 93 /\ Eqs(s, i + 1) = i + 1 + n /\ At(s, i + 1 + n) = 93 THEN i + n + 2
  ELSE LongEnd(s, i + 1, n)
\* does a long bracket open at i ('[')?  its level, or -1
LongLevel(s, i) == IF At(s, i) # 91 THEN -1 ELSE LET e == Eqs(s, i + 1) IN IF At(s, e) = 91 THEN e - i - 1 ELSE -1

\* from i: where the next token starts, whether a line ends before it, the comments before it (start, end, block?, end of the inner text)
RECURSIVE SkipFrom(_, _, _, _)
SkipFrom(s, i, nl, cs) ==
  LET ch == At(s, i) IN
  IF ch = NL THEN SkipFrom(s, i + 1, TRUE, cs)
  ELSE IF IsBlank(ch) THEN SkipFrom(s, i + 1, nl, cs)
  ELSE IF ch = 45 /\ At(s, i + 1) = 45 /\ LongLevel(s, i + 2) >= 0 THEN
       LET n == LongLevel(s, i + 2)  e == LongEnd(s, i + 4 + n, n)
       IN IF e = 0 THEN [p |-> i, nl |-> nl, cs |-> cs, bad |-> TRUE]
          ELSE SkipFrom(s, e, nl, Append(cs, [f |-> i + 4 + n, t |-> e - n - 2, block |-> TRUE]))
  ELSE IF (ch = 45 /\ At(s, i + 1) = 45) \/ (ch = 47 /\ At(s, i + 1) = 47) THEN
       LET e == LineEnd(s, i + 2) IN SkipFrom(s, e, nl, Append(cs, [f |-> i + 2, t |-> e, block |-> FALSE]))
  ELSE [p |-> i, nl |-> nl, cs |-> cs, bad |-> FALSE]
Skip(s, i) == SkipFrom(s, i, FALSE, <<>>)
CText(s, c) == SubSeq(s, c.f, c.t - 1)

\* a quoted string from i (after the opening quote): the position after its closing quote, or 0
RECURSIVE StrEnd(_, _, _), Blanks(_, _)
Blanks(s, i) == IF At(s, i) \in {32, 9, 10, 11, 12, 13} THEN Blanks(s, i + 1) ELSE i
StrEnd(s, i, q) ==
  LET ch == At(s, i) IN
  IF ch = -1 \/ ch = NL THEN 0
  ELSE IF ch = q THEN i + 1
  ELSE IF ch # 92 THEN StrEnd(s, i + 1, q)
  ELSE IF At(s, i + 1) = -1 THEN 0
  ELSE IF At(s, i + 1) = 122 THEN StrEnd(s, Blanks(s, i + 2), q)
  ELSE StrEnd(s, i + 2, q)

\* the token that starts at p: kind and end (kind "bad": PICO-8 rejects it)
Tok(s, p) ==
  LET ch == At(s, p)
      T(k, e) == [k |-> k, e |-> e]
  IN
  IF ch = -1 THEN T("eof", p)
  ELSE IF IsIdStart(ch) THEN LET e == IdEnd(s, p + 1) IN T(IF SubSeq(s, p, e - 1) \in Keywords THEN "kw" ELSE "id", e)
  ELSE IF IsDigit(ch) \/ (ch = 46 /\ IsDigit(At(s, p + 1))) THEN
       IF ch = 48 /\ At(s, p + 1) \in {120, 88} THEN T("num", HexEnd(s, p + 2))
       ELSE IF ch = 48 /\ At(s, p + 1) \in {98, 66} THEN T("num", DecEnd(s, p + 2))
       ELSE T("num", DecEnd(s, p))
  ELSE IF ch \in {34, 39} THEN LET e == StrEnd(s, p + 1, ch) IN IF e = 0 THEN T("bad", p + 1) ELSE T("str", e)
  ELSE IF LongLevel(s, p) >= 0 THEN LET n == LongLevel(s, p)  e == LongEnd(s, p + 2 + n, n) IN IF e = 0 THEN T("bad", p + 1) ELSE T("str", e)
  ELSE IF ch = 91 /\ At(s, p + 1) = 61 THEN T("bad", p + 1)
  ELSE IF p + 3 <= Len(s) /\ SubSeq(s, p, p + 3) \in Punct4 THEN T("p", p + 4)
  ELSE IF p + 2 <= Len(s) /\ SubSeq(s, p, p + 2) \in Punct3 THEN T("p", p + 3)
  ELSE IF p + 1 <= Len(s) /\ SubSeq(s, p, p + 1) \in Punct2 THEN T("p", p + 2)
  ELSE IF ch \in Punct1 THEN T("p", p + 1)
  ELSE T("bad", p + 1)
Text(s, p, t) == SubSeq(s, p, t.e - 1)

\* ---- the value of a numeral (between p and e) as a 32-bit pattern in -2^31 .. 2^31-1; digits below 2^-16 are dropped
DigVal(c) == IF c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
RECURSIVE FracBits(_, _, _, _)
\* ds: the digits after the point; k bits of the fraction still wanted
FracBits(ds, base, k, acc) ==
  IF k = 0 THEN acc
  ELSE LET r == FoldRight(LAMBDA d, x : LET v == 2 * d + x[2] IN << <<v % base>> \o x[1], v \div base >>, ds, << <<>>, 0 >>)
       IN FracBits(r[1], base, k - 1, 2 * acc + r[2])
NumParts(s, p, e) ==
  LET b == IF At(s, p) = 48 /\ At(s, p + 1) \in {120, 88} THEN 16 ELSE IF At(s, p) = 48 /\ At(s, p + 1) \in {98, 66} THEN 2 ELSE 10
      q == IF b = 10 THEN p ELSE p + 2
      dots == {i \in q..(e - 1) : s[i] = 46}
      d == IF dots = {} THEN e ELSE CHOOSE i \in dots : TRUE
  IN [base |-> b, int |-> SubSeq(s, q, d - 1), frac |-> IF dots = {} THEN <<>> ELSE SubSeq(s, d + 1, e - 1), ndots |-> Cardinality(dots)]
\* PICO-8 rejects numerals with two points, without digits, or with digits of another base
NumOk(s, p, e) ==
  LET n == NumParts(s, p, e) IN
  /\ n.ndots <= 1 /\ Len(n.int) + Len(n.frac) > 0
  /\ \A i \in 1..Len(n.int) : DigVal(n.int[i]) < n.base
  /\ \A i \in 1..Len(n.frac) : DigVal(n.frac[i]) < n.base
NumVal(s, p, e) ==
  LET n == NumParts(s, p, e)
      ip == FoldLeft(LAMBDA acc, c : (acc * n.base + DigVal(c)) % 65536, 0, n.int)
      fp == IF n.frac = <<>> THEN 0 ELSE FracBits([i \in 1..Len(n.frac) |-> DigVal(n.frac[i])], n.base, 16, 0)
  IN (IF ip >= 32768 THEN ip - 65536 ELSE ip) * 65536 + fp

\* ---- the bytes a string literal denotes: <<ok, bytes>>
EscVal(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 116 -> 9 [] c = 110 -> 10 [] c = 118 -> 11 [] c = 102 -> 12 [] c = 114 -> 13 [] c = 34 -> 34 [] c = 39 -> 39
               [] c = 92 -> 92 [] c = 10 -> 10 [] c = 42 -> 1 [] c = 35 -> 2 [] c = 45 -> 3 [] c = 124 -> 4 [] c = 43 -> 5 [] c = 94 -> 6 [] OTHER -> -1
RECURSIVE Quoted(_, _, _, _)
Quoted(s, i, e, acc) ==    \* e: position of the closing quote
  IF i >= e THEN <<TRUE, acc>>
  ELSE IF s[i] # 92 THEN Quoted(s, i + 1, e, Append(acc, s[i]))
  ELSE LET c == s[i + 1] IN
    IF IsDigit(c) THEN
      LET n == IF ~ IsDigit(At(s, i + 2)) THEN 1 ELSE IF ~ IsDigit(At(s, i + 3)) THEN 2 ELSE 3
          v == FoldLeft(LAMBDA a, d : 10 * a + (d - 48), 0, SubSeq(s, i + 1, i + n))
      IN IF v > 255 THEN <<FALSE, acc>> ELSE Quoted(s, i + 1 + n, e, Append(acc, v))
    ELSE IF c = 120 THEN
      IF IsHex(At(s, i + 2)) /\ IsHex(At(s, i + 3)) THEN Quoted(s, i + 4, e, Append(acc, 16 * DigVal(s[i + 2]) + DigVal(s[i + 3]))) ELSE <<FALSE, acc>>
    ELSE IF c = 122 THEN Quoted(s, Blanks(s, i + 2), e, acc)
    ELSE IF EscVal(c) >= 0 THEN Quoted(s, i + 2, e, Append(acc, EscVal(c)))
    ELSE <<FALSE, acc>>
\* every way to end a line reads as one line break
RECURSIVE Breaks(_, _)
Breaks(s, i) == IF i > Len(s) THEN <<>>
                ELSE IF s[i] \in {10, 13} THEN <<10>> \o Breaks(s, IF At(s, i + 1) \in {10, 13} /\ s[i + 1] # s[i] THEN i + 2 ELSE i + 1)
                ELSE <<s[i]>> \o Breaks(s, i + 1)
StrVal(s, p, e) ==
  IF s[p] \in {34, 39} THEN Quoted(s, p + 1, e - 1, <<>>)
  ELSE LET n == LongLevel(s, p)
           t0 == SubSeq(s, p + 2 + n, e - n - 3)
           t == IF \E i \in 1..Len(t0) : t0[i] = 13 THEN Breaks(t0, 1) ELSE t0
       IN <<TRUE, IF t # <<>> /\ t[1] = 10 THEN Tail(t) ELSE t>>

\* ---- one-line constructs.  From p (after "if" or "while"): is it the one-line form?
\* It is when the condition is one parenthesised group, and what follows the group neither continues the condition nor is then/do.
RECURSIVE GroupEnd(_, _, _)
GroupEnd(s, i, d) ==      \* position after the bracket that closes depth d; 0 when there is none
  LET k == Skip(s, i)  t == Tok(s, k.p) IN
  IF t.k \in {"eof", "bad"} THEN 0
  ELSE IF t.k = "p" /\ At(s, k.p) \in {40, 123, 91} /\ t.e = k.p + 1 THEN GroupEnd(s, t.e, d + 1)
  ELSE IF t.k = "p" /\ At(s, k.p) \in {41, 125, 93} /\ t.e = k.p + 1 THEN IF d = 1 THEN t.e ELSE GroupEnd(s, t.e, d - 1)
  ELSE GroupEnd(s, t.e, d)
\* tokens that continue an expression that ended with ')'
Continues(s, p, t) ==
  \/ t.k = "str"
  \/ t.k = "kw" /\ Text(s, p, t) \in {K_and, K_or}
  \/ t.k = "p" /\ Text(s, p, t) \notin {<<59>>, <<63>>, <<58,58>>, <<35>>, <<64>>, <<36>>}
\* <<is it the one-line form, position after its condition's ')'>>
ShortCond(s, p) ==
  LET k == Skip(s, p)  t == Tok(s, k.p) IN
  IF t.k # "p" \/ Text(s, k.p, t) # <<40>> THEN <<FALSE, 0>>
  ELSE LET e == GroupEnd(s, t.e, 1) IN
    IF e = 0 THEN <<FALSE, 0>>
    ELSE LET k2 == Skip(s, e)  t2 == Tok(s, k2.p) IN
      \* (a one-line form's body starts on its line)
      IF k2.nl \/ t2.k = "eof" \/ Continues(s, k2.p, t2) THEN <<FALSE, 0>>
      ELSE <<~ (t2.k = "kw" /\ Text(s, k2.p, t2) \in {K_then, K_do}), e>>
=============================================================================
