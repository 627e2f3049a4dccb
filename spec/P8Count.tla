------------------------------ MODULE P8Count ------------------------------
(* PICO-8's counts of a cart: tokens, characters and compressed bytes, and how the tool reports them.
   A case: parts (the input and, if any, the output: their code, compressed size or -1), what was asked for, and the lines printed. *)
EXTENDS P8Lex, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.VF_DATA)
Cases == Data.cases
Limit(name) == CASE name = "tokens" -> 8192 [] name = "chars" -> 65535 [] name = "compressed" -> 15616 [] name = "url" -> 2040

Free == { <<44>>, <<46>>, <<58>>, <<59>>, <<58,58>>, <<41>>, <<93>>, <<125>> } \* , . : ; :: ) ] }  (the brackets count where they open)
FreeWords == {K_end, K_local}
\* a sign before a number belongs to it, unless what stands before the sign ends an operand
EndsOperand(k, t) == k \in {"num", "str", "id"} \/ t \in {<<41>>, <<93>>, <<125>>, <<59>>} \/ t = K_end
\* comments of the form --lint: ..., count::stop, ...
Lint == <<108,105,110,116,58>>
Stop == <<99,111,117,110,116,58,58,115,116,111,112>>
IsSep(ch) == ch \in {32, 9, 10, 11, 12, 13, 44}
HasStop(x) == LET t == IF x # <<>> /\ x[1] = 36 THEN Tail(x) ELSE x IN
  /\ Len(t) > 5 /\ SubSeq(t, 1, 5) = Lint
  /\ \E i \in 6..(Len(t) - 10) : SubSeq(t, i, i + 10) = Stop /\ (i = 6 \/ IsSep(t[i - 1])) /\ (i + 11 > Len(t) \/ IsSep(t[i + 11]))

VARIABLES c, part, i, n, pk, pt, tokens, v
vars == <<c, part, i, n, pk, pt, tokens, v>>
Init == c \in 1..Len(Cases) /\ part = 1 /\ i = 1 /\ n = 0 /\ pk = "" /\ pt = <<>> /\ tokens = <<>> /\ v = ""
K == Cases[c]
Done == /\ tokens' = Append(tokens, n) /\ part' = part + 1 /\ i' = 1 /\ n' = 0 /\ pk' = "" /\ pt' = <<>> /\ UNCHANGED <<c, v>>
Token ==
  /\ v = "" /\ part <= Len(K.parts)
  /\ LET s == K.parts[part].code
         k == Skip(s, i)
         t == Tok(s, k.p)
         x == Text(s, k.p, t)
         sign == x \in {<<45>>, <<126>>} /\ Tok(s, t.e).k = "num" /\ pk # "" /\ ~ EndsOperand(pk, pt)
     IN IF K.hints /\ \E j \in 1..Len(k.cs) : HasStop(CText(s, k.cs[j])) THEN Done
        ELSE IF t.k = "eof" THEN Done
        ELSE IF t.k = "bad" THEN v' = "bad" /\ UNCHANGED <<c, part, i, n, pk, pt, tokens>> /\ PrintT("V " \o ToString(c) \o " uninterpretable " \o ToString(<<part, k.p>>))
        ELSE /\ i' = t.e /\ pk' = t.k /\ pt' = x
             /\ n' = IF (t.k = "p" /\ x \in Free) \/ (t.k = "kw" /\ x \in FreeWords) \/ sign THEN n ELSE n + 1
             /\ UNCHANGED <<c, part, tokens, v>>
\* the lines that should be printed: <<prefix, name, size>>
Expected ==
  LET in == K.parts[1]  out == K.parts[Len(K.parts)]  m == Len(K.parts)
  IN (IF ~ K.icount THEN {} ELSE
        {<<"input", "chars", Len(in.code)>>} \cup (IF K.tokenless THEN {} ELSE {<<"input", "tokens", tokens[1]>>})
        \cup (IF in.compressed < 0 THEN {} ELSE {<<"input", "compressed", in.compressed>>}))
     \cup (IF ~ K.count THEN {} ELSE
        {<<"", "chars", Len(out.code)>>} \cup (IF K.tokenless THEN {} ELSE {<<"", "tokens", tokens[m]>>})
        \cup (IF out.compressed < 0 THEN {} ELSE {<<"", "compressed", out.compressed>>})
        \cup (IF out.url < 0 THEN {} ELSE {<<"", "url", out.url>>}))
\* the percentage printed (in hundredths) is that of the limit, rounded, with decimals only near the limit
PercentOk(l) ==
  IF l.limit >= 0 THEN l.limit = Limit(l.name)
  ELSE LET d == l.percent * Limit(l.name) - 10000 * l.size
           near == 100 * l.size >= 95 * Limit(l.name)
       IN l.decimals = near /\ 2 * (IF d < 0 THEN -d ELSE d) <= (IF near THEN 1 ELSE 100) * Limit(l.name)
Say(w, d) == v' = w /\ UNCHANGED <<c, part, i, n, pk, pt, tokens>> /\ PrintT("V " \o ToString(c) \o " " \o w \o " " \o ToString(d))
Judge ==
  /\ v = "" /\ part > Len(K.parts)
  /\ LET said == {<<K.lines[j].prefix, K.lines[j].name, K.lines[j].size>> : j \in 1..Len(K.lines)}
     IN IF said # Expected \/ Cardinality(said) # Len(K.lines) THEN Say("counts", <<said \ Expected, Expected \ said, Len(K.lines)>>)
        ELSE LET bad == {j \in 1..Len(K.lines) : ~ PercentOk(K.lines[j])} IN IF bad # {} THEN Say("percentage", K.lines[CHOOSE j \in bad : TRUE]) ELSE Say("ok", tokens)
Next == Token \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
