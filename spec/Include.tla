------------------------------ MODULE Include ------------------------------
(* How a cart's code is put together from files, and where each piece of it comes from.
   The machine reads the main file line by line.  A line that begins with #include outside of comments and strings is replaced by the
   named file (or by one tab of it), read the same way; every other line is taken over.  What comments and strings are is followed
   character by character.  At the end the text so composed is compared with the code the tool wrote, and the place of every name
   that is code (file, tab and line) with where the tool's warnings say it is. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Data == JsonDeserialize(IOEnv.VF_DATA)
Cases == Data.cases
VARIABLES c, stack,   \* the files being read: [f, ln (next line), last, mode (lexical mode at the start of that line)]
          out,        \* what was taken over: <<file, line>>, <<0, 0>> for a line break
          found,      \* the names in the code: <<name, file, line>>, in order
          ph
vars == <<c, stack, out, found, ph>>
K == Cases[c]
NL == 10
\* (the line break that ends a Lua file is not part of its code)
Lines(f) == LET l == K.files[f].lines IN IF K.files[f].kind = "lua" /\ Len(l) > 1 /\ l[Len(l)].s = <<>> THEN SubSeq(l, 1, Len(l) - 1) ELSE l
Code == [m |-> "code", lvl |-> 0, q |-> 0]

\* ---- lexical structure: the mode at each character of a line
\* the level of a long bracket that begins at position p of line s, -1 if there is none
Eqs(s, p) == CHOOSE n \in 0..Len(s) : (\A k \in 1..n : p + k <= Len(s) /\ s[p + k] = 61) /\ ~ (p + n + 1 <= Len(s) /\ s[p + n + 1] = 61)
Opens(s, p) == IF p > Len(s) \/ s[p] # 91 THEN -1 ELSE LET n == Eqs(s, p) IN IF p + n + 1 <= Len(s) /\ s[p + n + 1] = 91 THEN n ELSE -1
Closes(s, p, n) == p + n + 1 <= Len(s) /\ s[p] = 93 /\ s[p + n + 1] = 93 /\ \A k \in 1..n : s[p + k] = 61
At(s, p, w) == p + Len(w) - 1 <= Len(s) /\ \A k \in 1..Len(w) : s[p + k - 1] = w[k]
\* a = [mode, skip (characters yet to pass), modes (of the characters so far)]
Step(s, a, p) ==
  LET to(m, n) == [mode |-> m, skip |-> n - 1, modes |-> Append(a.modes, a.mode.m)]
      m == a.mode
  IN IF a.skip > 0 THEN [a EXCEPT !.skip = @ - 1, !.modes = Append(@, IF m.m = "code" THEN "end" ELSE m.m)]
     ELSE CASE m.m = "code" ->
                 IF At(s, p, <<45, 45>>) THEN (LET n == Opens(s, p + 2) IN IF n >= 0 THEN to([m |-> "long", lvl |-> n, q |-> 0], n + 4) ELSE to([m |-> "rest", lvl |-> 0, q |-> 0], 2))
                 ELSE IF At(s, p, <<47, 47>>) THEN to([m |-> "rest", lvl |-> 0, q |-> 0], 2)
                 ELSE IF Opens(s, p) >= 0 THEN to([m |-> "long", lvl |-> Opens(s, p), q |-> 0], Opens(s, p) + 2)
                 ELSE IF s[p] \in {34, 39} THEN to([m |-> "str", lvl |-> 0, q |-> s[p]], 1)
                 ELSE to(m, 1)
            [] m.m = "rest" -> to(m, 1)
            [] m.m = "long" -> IF Closes(s, p, m.lvl) THEN to(Code, m.lvl + 2) ELSE to(m, 1)
            [] m.m = "str" -> IF s[p] = 92 THEN to(m, 2) ELSE IF s[p] = m.q THEN to(Code, 1) ELSE to(m, 1)
Scan(s, mode) == FoldLeft(LAMBDA a, p : Step(s, a, p), [mode |-> mode, skip |-> 0, modes |-> <<>>], [p \in 1..Len(s) |-> p])
After(a) == IF a.mode.m = "rest" THEN Code ELSE a.mode   \* (a comment ends with its line)

\* ---- tabs: the lines that separate them
Breaks(f) == {l \in 2..(Len(Lines(f)) - 1) : Lines(f)[l].s = <<45, 45, 62, 56>>}
TabOf(f, l) == Cardinality({b \in Breaks(f) : b < l})
Begin(f, t) == IF t = 0 THEN 1 ELSE (CHOOSE b \in Breaks(f) : Cardinality({x \in Breaks(f) : x < b}) = t - 1) + 1
End(f, t) == IF t = Cardinality(Breaks(f)) THEN Len(Lines(f)) ELSE (CHOOSE b \in Breaks(f) : Cardinality({x \in Breaks(f) : x < b}) = t) - 1

Whole(f) == [f |-> f, ln |-> 1, last |-> Len(Lines(f)), mode |-> Code]
Init == c \in 1..Len(Cases) /\ stack = <<Whole(1)>> /\ out = <<>> /\ found = <<>> /\ ph = "read"
Say(w, d) == ph' = "done" /\ UNCHANGED <<c, stack, out, found>> /\ PrintT("V " \o ToString(c) \o " " \o w \o " " \o ToString(d))
Fails(code) == IF K.rc # code \/ K.written THEN Say("no-failure", <<K.rc, K.written>>) ELSE Say("ok", "fails")
Top == stack[Len(stack)]
\* (the line break after a line, unless it is the last one of its file or tab)
Break(t) == IF t.ln < t.last THEN <<<<0, 0>>>> ELSE <<>>
Read ==
  /\ ph = "read" /\ stack # <<>>
  /\ LET t == Top  l == Lines(t.f)[t.ln]  sc == Scan(l.s, t.mode)
         rest == IF t.ln < t.last THEN <<[t EXCEPT !.ln = @ + 1, !.mode = After(sc)]>> ELSE <<>>
         below == SubSeq(stack, 1, Len(stack) - 1)
     IN IF l.at > 0 /\ t.mode = Code /\ \A k \in 1..(l.at - 1) : l.s[k] \in {32, 9}
        THEN IF l.file = 0 THEN Fails(4)
             ELSE IF l.tab > Cardinality(Breaks(l.file)) THEN Fails(3)
             ELSE LET w == IF l.tab < 0 THEN Whole(l.file) ELSE [f |-> l.file, ln |-> Begin(l.file, l.tab), last |-> End(l.file, l.tab), mode |-> Code]
                      then == IF t.ln < t.last THEN <<[t EXCEPT !.ln = @ + 1, !.mode = Code]>> ELSE <<>>
                  IN /\ stack' = below \o then \o <<[f |-> -1, ln |-> 0, last |-> IF then = <<>> THEN 0 ELSE 1, mode |-> Code], w>>
                     /\ UNCHANGED <<c, out, found, ph>>
        ELSE /\ stack' = below \o rest
             /\ out' = out \o <<<<t.f, t.ln>>>> \o Break(t)
             /\ found' = found \o FoldLeft(LAMBDA a, n : IF sc.modes[n.col] = "code" THEN Append(a, <<n.n, t.f, t.ln>>) ELSE a, <<>>, l.names)
             /\ UNCHANGED <<c, ph>>
\* (the end of an included file: the break of the directive's own line)
Back == /\ ph = "read" /\ stack # <<>> /\ Top.f = -1
        /\ out' = (IF Top.last = 1 THEN Append(out, <<0, 0>>) ELSE out) /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<c, found, ph>>
Text == FoldLeft(LAMBDA a, x : IF x[1] = 0 THEN Append(a, NL) ELSE a \o Lines(x[1])[x[2]].s, <<>>, out)
\* (sh: whether lines within tabs are counted from the header of the file - they are not to be, and that is a finding of its own)
Place(w, sh) == IF K.tabbed THEN <<w[1], w[2], TabOf(w[2], w[3]), w[3] - Begin(w[2], TabOf(w[2], w[3])) + 1 + (IF sh THEN K.files[w[2]].first - 1 ELSE 0)>>
                ELSE <<w[1], w[2], 0, K.files[w[2]].first + w[3] - 1>>
Trim(s) == LET e == {k \in 1..Len(s) : s[k] # NL} IN IF e = {} THEN <<>> ELSE SubSeq(s, 1, CHOOSE k \in e : \A j \in e : j <= k)
Bad == {j \in 1..Len(found) : found[j][1] = K.bad}
Verdict(sh) ==
  LET due == [j \in 1..Len(found) |-> Place(found[j], sh)]
  IN IF K.bad # "" /\ Bad # {} THEN   \* a syntax error at this name: it is reported where it is, and nothing is written
          IF K.rc = 0 \/ K.written THEN <<"no-failure", <<K.rc, K.written>>>>
          ELSE LET p == due[CHOOSE j \in Bad : \A k \in Bad : j <= k] IN
               IF <<p[2], p[3], p[4]>> \notin {K.errors[j] : j \in 1..Len(K.errors)} THEN <<"error-place", <<p, K.errors>>>> ELSE <<"ok", "error">>
     ELSE IF ~ K.written THEN <<"failed", <<K.rc>>>>
     ELSE IF Trim(Text) # Trim(K.out) THEN <<"code", <<"line", Cardinality({k \in 1..Len(Text) : Text[k] = NL /\ k <= Len(K.out) /\ SubSeq(Text, 1, k) = SubSeq(K.out, 1, k)}) + 1>>>>
     ELSE LET said == K.said  all == {due[j] : j \in 1..Len(due)} \cup {said[j] : j \in 1..Len(said)}
              off == {w \in all : Cardinality({j \in 1..Len(due) : due[j] = w}) # Cardinality({j \in 1..Len(said) : said[j] = w})}
          IN IF off # {} THEN <<"place", off>> ELSE <<"ok", <<Len(due)>>>>
Judge == /\ ph = "read" /\ stack = <<>>
         /\ LET v == Verdict(FALSE) IN IF v[1] # "ok" /\ K.tabbed /\ Verdict(TRUE)[1] = "ok" THEN Say("tabbed-header", <<>>) ELSE Say(v[1], v[2])
Next == (IF stack # <<>> /\ Top.f = -1 THEN Back ELSE Read) \/ Judge
Spec == Init /\ [][Next]_vars
StackOk == \A j \in 1..Len(stack) : stack[j].f = -1 \/ (stack[j].ln >= 1 /\ stack[j].ln <= stack[j].last /\ stack[j].last <= Len(Lines(stack[j].f)))
=============================================================================
