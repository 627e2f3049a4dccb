------------------------------ MODULE LexPair ------------------------------
(* Reads two programs token by token in lock step: the original (a) and what the tool made of it (b).
   mode "same":  both have the same tokens, one-line constructs end at the same token.
   mode "lit":   literals may be written differently, but denote the same value (numbers possibly through one unary operator).
   mode "written": one-line constructs are written out;  "comments": only the comments are compared;  "identical": every character.
   keep:         which comments must have stayed: "none", "keep" (marked ones), "all". *)
EXTENDS P8Lex, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.VF_DATA)
Cases == Data.cases

VARIABLES c, i, j, open, v, qa, qb
vars == <<c, i, j, open, v, qa, qb>>
\* i, j: positions in the two texts; open: one-line constructs open on the current line; v: verdict;
\* qa, qb: comments read and not yet compared

Init == c \in 1..Len(Cases) /\ i = 1 /\ j = 1 /\ open = 0 /\ v = "" /\ qa = <<>> /\ qb = <<>>

a == Cases[c].a
b == Cases[c].b
Mode == Cases[c].mode
Keep == Cases[c].keep
Version == Cases[c].version

Finish(verdict, detail) ==
  /\ v' = verdict /\ UNCHANGED <<c, i, j, open, qa, qb>>
  /\ PrintT("V " \o ToString(c) \o " " \o verdict \o " " \o ToString(detail))

Solid(t) == SelectSeq(t, LAMBDA x : x \notin {32, 9, 10, 13})
KeepMark == <<107, 101, 101, 112, 58>>
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
\* what is to remain of a comment (or <<-1>> when it is to go)
Wanted(t) == IF Keep = "all" THEN Solid(t)
             ELSE IF Keep = "keep" /\ Starts(t, KeepMark) THEN Solid(SubSeq(t, 6, Len(t)))
             ELSE IF Keep = "keep" /\ Starts(t, <<36>> \o KeepMark) THEN Solid(SubSeq(t, 7, Len(t)))
             ELSE <<-1>>
CommentsOk(A, B) ==
  LET want == SelectSeq([k \in 1..Len(A.cs) |-> Wanted(CText(a, A.cs[k]))], LAMBDA t : t # <<-1>>)
      got  == [k \in 1..Len(B.cs) |-> Solid(CText(b, B.cs[k]))]
  IN want = got

Around(s, p) == SubSeq(s, p, IF p + 30 > Len(s) THEN Len(s) ELSE p + 30)
NumberOk(s, p, t) == t.k = "num" => NumOk(s, p, t.e)

FNeg(x) == IF x = -2147483647 - 1 THEN x ELSE -x
FNot(x) == -1 - x

\* the token of b at B.p matches the one of a: the position after the matched token(s) of b, or 0
Match(A, TA, B, TB) ==
  IF Mode = "same" THEN IF TA.k = TB.k /\ Text(a, A.p, TA) = Text(b, B.p, TB) THEN TB.e ELSE 0
  ELSE CASE TA.k = "num" /\ TB.k = "num" -> IF NumVal(a, A.p, TA.e) = NumVal(b, B.p, TB.e) THEN TB.e ELSE 0
         [] TA.k = "num" /\ TB.k = "p" /\ Text(b, B.p, TB) \in {<<45>>, <<126>>} ->
              LET t2 == Tok(b, TB.e)
                  k3 == Skip(b, t2.e)  t3 == Tok(b, k3.p)
                  w == IF At(b, B.p) = 45 THEN FNeg(NumVal(b, TB.e, t2.e)) ELSE FNot(NumVal(b, TB.e, t2.e))
              IN IF t2.k = "num" /\ NumOk(b, TB.e, t2.e) /\ w = NumVal(a, A.p, TA.e) /\ Text(b, k3.p, t3) # <<94>> THEN t2.e ELSE 0
         [] TA.k = "str" /\ TB.k = "str" ->
              LET x == StrVal(a, A.p, TA.e)  y == StrVal(b, B.p, TB.e) IN IF y[1] /\ x[2] = y[2] THEN TB.e ELSE 0
         [] OTHER -> IF TA.k = TB.k /\ Text(a, A.p, TA) = Text(b, B.p, TB) THEN TB.e ELSE 0

\* only the comments: each text is read token by token; the same comments, as often, must have been met at the end
\* (the tool may move a comment within its statement when the token it stood before goes)
WantedOf(cs) == SelectSeq([k \in 1..Len(cs) |-> Wanted(CText(a, cs[k]))], LAMBDA t : t # <<-1>>)
GotOf(cs) == [k \in 1..Len(cs) |-> Solid(CText(b, cs[k]))]
Times(q, t) == Cardinality({k \in 1..Len(q) : q[k] = t})
OnlyComments ==
  /\ v = "" /\ Mode = "comments"
  /\ IF i > 0 THEN
       LET k == Skip(a, i)  t == Tok(a, k.p) IN
       IF k.bad \/ t.k = "bad" THEN Finish("badinput", Around(a, k.p))
       ELSE i' = (IF t.k = "eof" THEN 0 ELSE t.e) /\ qa' = qa \o WantedOf(k.cs) /\ UNCHANGED <<c, j, open, v, qb>>
     ELSE IF j > 0 THEN
       LET k == Skip(b, j)  t == Tok(b, k.p) IN
       IF k.bad \/ t.k = "bad" THEN Finish("rejected-token", Around(b, k.p))
       ELSE j' = (IF t.k = "eof" THEN 0 ELSE t.e) /\ qb' = qb \o GotOf(k.cs) /\ UNCHANGED <<c, i, open, v, qa>>
     ELSE LET ts == {qa[k] : k \in 1..Len(qa)} \cup {qb[k] : k \in 1..Len(qb)}
              bad == {t \in ts : Times(qa, t) # Times(qb, t)}
          IN IF bad = {} THEN Finish("ok", "")
             ELSE LET less == {t \in bad : Times(qb, t) < Times(qa, t) \/ Times(qa, t) = 0}
                      t == CHOOSE t \in bad : less = {} \/ t \in less
                  IN Finish(IF less = {} THEN "comments-twice" ELSE "comments", <<t, Times(qa, t), Times(qb, t)>>)

\* b is a layout of a with one-line constructs written out: its tokens are those of a, but
\*   a semicolon between statements may be gone, "do" of an if is "then",
\*   the parentheses of a one-line condition become then/do, and an end stands where its line ended.
\* qa: the blocks open in a ("b" ends by a token of a; "i" an if before its then; "r" repeat; "s" one-line, ends with the line);
\* qb: where the parentheses of one-line conditions close
Word(s, p) == LET k == Skip(s, p)  t == Tok(s, k.p) IN <<Text(s, k.p, t), t.e>>
Top(q) == IF q = <<>> THEN "" ELSE q[Len(q)]
Pop(q) == IF q = <<>> THEN q ELSE SubSeq(q, 1, Len(q) - 1)
RECURSIVE Ends(_, _)
\* writes out the ends of the one-line blocks on top: <<stack, position in b>> (position 0: an end is missing)
Ends(q, p) == IF Top(q) # "s" THEN <<q, p>> ELSE LET w == Word(b, p) IN IF w[1] = K_end THEN Ends(Pop(q), w[2]) ELSE <<q, 0>>
Written ==
  /\ v = "" /\ Mode = "written"
  /\ LET A == Skip(a, i)  TA == Tok(a, A.p)  ta == Text(a, A.p, TA)
         closes == TA.k = "eof" \/ (TA.k = "kw" /\ ta \in {K_end, K_until})
         ed == IF A.nl \/ closes THEN Ends(qa, j) ELSE <<qa, j>>
         q == ed[1]
         B == Skip(b, ed[2])  TB == Tok(b, B.p)  tb == Text(b, B.p, TB)
         Go(stk, parens, e) == i' = TA.e /\ j' = e /\ qa' = stk /\ qb' = parens /\ UNCHANGED <<c, open, v>>
         same == TA.k = TB.k /\ ta = tb
     IN
     IF A.bad \/ TA.k = "bad" THEN Finish("badinput", Around(a, A.p))
     ELSE IF ed[2] = 0 THEN Finish("end-missing", <<Around(a, i), Around(b, j)>>)
     ELSE IF B.bad \/ TB.k = "bad" THEN Finish("rejected-token", Around(b, ed[2]))
     ELSE IF TA.k = "eof" /\ TB.k = "eof" THEN Finish("ok", "")
     ELSE IF TA.k = "p" /\ ta = <<59>> /\ ~ same THEN Go(q, qb, ed[2])
     ELSE IF qb # <<>> /\ Top(qb) = TA.e THEN       \* the parenthesis that closes a one-line condition
       LET w == IF Top(Pop(q)) = "w" THEN K_do ELSE K_then IN
       IF tb = w THEN Go(Append(Pop(Pop(q)), "s"), Pop(qb), TB.e) ELSE Finish("token", <<Around(a, A.p), Around(b, B.p)>>)
     ELSE IF TA.k = "kw" /\ ta = K_do /\ Top(q) = "i" THEN
       IF tb = K_then THEN Go(Append(Pop(q), "b"), qb, TB.e) ELSE Finish("token", <<Around(a, A.p), Around(b, B.p)>>)
     ELSE IF ~ same THEN Finish("token", <<Around(a, A.p), Around(b, B.p)>>)
     ELSE IF TA.k # "kw" THEN Go(q, qb, TB.e)
     ELSE IF ta \in {K_if, K_while} /\ ShortCond(a, TA.e)[1] THEN
       \* (the opening parenthesis is gone in b)
       /\ i' = Word(a, TA.e)[2] /\ j' = TB.e /\ qa' = q \o <<IF ta = K_while THEN "w" ELSE "f", "c">> /\ qb' = Append(qb, ShortCond(a, TA.e)[2]) /\ UNCHANGED <<c, open, v>>
     ELSE CASE ta = K_if -> Go(Append(q, "i"), qb, TB.e)
            [] ta = K_elseif -> Go(Append(Pop(q), "i"), qb, TB.e)
            [] ta = K_then -> Go(Append(Pop(q), "b"), qb, TB.e)
            [] ta \in {K_function, K_do} -> Go(Append(q, "b"), qb, TB.e)
            [] ta = K_repeat -> Go(Append(q, "r"), qb, TB.e)
            [] ta \in {K_end, K_until} -> Go(Pop(q), qb, TB.e)
            [] OTHER -> Go(q, qb, TB.e)

Identical == v = "" /\ Mode = "identical" /\ Finish(IF a = b THEN "ok" ELSE "differs",
   IF a = b THEN "" ELSE LET d == CHOOSE k \in 1..(Len(a) + 1) : (k > Len(a) \/ k > Len(b) \/ a[k] # b[k]) /\ \A m \in 1..(k - 1) : a[m] = b[m] IN <<Around(a, IF d > 10 THEN d - 10 ELSE 1), Around(b, IF d > 10 THEN d - 10 ELSE 1)>>)

InStep ==
  /\ v = "" /\ Mode \in {"same", "lit"}
  /\ LET A == Skip(a, i)  B == Skip(b, j)
         TA == Tok(a, A.p)  TB == Tok(b, B.p)
         o == IF A.nl THEN 0 ELSE open
     IN
     IF A.bad \/ TA.k = "bad" \/ ~ NumberOk(a, A.p, TA) THEN Finish("badinput", Around(a, A.p))
     ELSE IF B.bad THEN Finish("unfinished-comment", Around(b, B.p))
     ELSE IF ~ CommentsOk(A, B) THEN Finish("comments", <<Around(a, i), Around(b, j)>>)
     ELSE IF TA.k = "eof" /\ TB.k = "eof" THEN Finish("ok", "")
     ELSE IF TB.k = "bad" \/ ~ NumberOk(b, B.p, TB) THEN Finish("rejected-token", Around(b, B.p))
     ELSE IF TB.k = "str" /\ LongLevel(b, B.p) > 0 /\ Version < 40 THEN Finish("unsupported-bracket", Around(b, B.p))
     ELSE IF TA.k = "eof" \/ TB.k = "eof" THEN Finish("length", <<Around(a, A.p), Around(b, B.p)>>)
     ELSE IF open > 0 /\ A.nl # B.nl THEN Finish("line", <<Around(a, A.p), Around(b, B.p)>>)
     ELSE LET e == Match(A, TA, B, TB) IN
       IF e = 0 THEN Finish(IF TA.k \in {"num", "str"} THEN TA.k ELSE "token", <<Around(a, A.p), Around(b, B.p)>>)
       ELSE IF Mode = "lit" /\ TA.k \in {"num", "str"} /\ e - B.p > TA.e - A.p THEN Finish("longer", <<Around(a, A.p), Around(b, B.p)>>)
       ELSE /\ i' = TA.e /\ j' = e
            /\ open' = IF TA.k = "p" /\ Text(a, A.p, TA) = <<63>> THEN o + 1
                       ELSE IF TA.k = "kw" /\ Text(a, A.p, TA) \in {K_if, K_while} /\ ShortCond(a, TA.e)[1] THEN o + 1
                       ELSE o
            /\ UNCHANGED <<c, v, qa, qb>>

Next == OnlyComments \/ Written \/ Identical \/ InStep
Spec == Init /\ [][Next]_vars
=============================================================================
