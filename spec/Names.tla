------------------------------- MODULE Names -------------------------------
(* What the names of a program refer to, and what renaming may do to them.
   The machine steps through the scope events (lib/names.py) of a program A and of the program B that the tool made of it.
   First both are resolved, side by side: which declaration each name means, and which _ENV a global is looked up in.
   Then each name's kind is found - by what it is, by the hints at it, at its table or at its _ENV, and by the rules that say what
   is kept - and what became of it is judged:
     - nothing but names changed, and every name means the same declaration in A and in B,
     - a global (a member) has one new name wherever it occurs, and no two share one,
     - a jump goes to the same label,
     - what is to be kept is kept, what is to get a certain name gets it, what a rule excepts from being kept is renamed,
     - names with a meaning to PICO-8 are kept, and nothing else gets one of them,
     - the map of the renaming says what was done. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, P8Names
Data == JsonDeserialize(IOEnv.VF_DATA)
Cases == Data.cases

VARIABLES c,      \* the case
  ph,             \* "resolve", "judge", "map" or "done"
  i,              \* the next event
  locals,         \* the visible locals: <<name in A, name in B, block, event>>
  blocks,         \* the open blocks: <<number, is a function>>
  ra,             \* what each event resolved to: the event that declares it (a label's position for a jump), 0 if a global
  en,             \* the declaration of the _ENV visible at each event, 0 if the program's own
  hk, hr,         \* hints on variables: <<variable, kind of its keys>>, <<variable, new name>>
  g, m,           \* global -> new name, member -> new name (functions with a growing domain)
  cp, gu,         \* PICO-8's locals -> new name; the new names of globals that are used as such
  keptG, keptM    \* the names that were kept for a hint or a rule
vars == <<c, ph, i, locals, blocks, ra, en, hk, hr, g, m, keptG, keptM, cp, gu>>
K == Cases[c]
None == [x \in {} |-> ""]
Init == /\ c \in 1..Len(Cases) /\ ph = "resolve" /\ i = 1 /\ locals = <<>> /\ blocks = <<>> /\ ra = <<>> /\ en = <<>> /\ hk = {} /\ hr = {}
        /\ g = None /\ m = None /\ keptG = {} /\ keptM = {} /\ cp = None /\ gu = {}

Say(w, d) == ph' = "done" /\ UNCHANGED <<c, i, locals, blocks, ra, en, hk, hr, g, m, keptG, keptM, cp, gu>> /\ PrintT("V " \o ToString(c) \o " " \o w \o " " \o ToString(d))

----------------------------------------------------------------------------
\* resolution
\* the visible local a name means: its position, 0 if none
Visible(n, w) == LET s == {j \in 1..Len(locals) : locals[j][w] = n} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A k \in s : k <= j
LabelsAt == {K.labels[j] : j \in 1..Len(K.labels)}   \* (where the labels are, in both)
\* the label a jump goes to: of the innermost block that has it, not beyond the function
Labels(ev, b, n) == {j \in LabelsAt : ev[j].n = n /\ ev[j].x = b}
Target(ev, n) ==
  LET top == IF \E k \in 1..Len(blocks) : blocks[k][2] THEN CHOOSE k \in 1..Len(blocks) : blocks[k][2] /\ \A l \in (k+1)..Len(blocks) : ~ blocks[l][2] ELSE 0
      s == {k \in (top+1)..Len(blocks) : Labels(ev, blocks[k][1], n) # {}}
  IN IF s = {} THEN 0 ELSE LET k == CHOOSE k \in s : \A l \in s : l <= k IN CHOOSE j \in Labels(ev, blocks[k][1], n) : TRUE
Go(r) == /\ i' = i + 1 /\ ra' = Append(ra, r)
         /\ en' = Append(en, LET j == Visible("_ENV", 1) IN IF j = 0 THEN 0 ELSE locals[j][4])
         /\ UNCHANGED <<c, ph, hk, hr, g, m, keptG, keptM, cp, gu>>
Same == UNCHANGED <<locals, blocks>>
Resolve ==
  /\ ph = "resolve" /\ i <= Len(K.a)
  /\ LET x == K.a[i]  y == IF i <= Len(K.b) THEN K.b[i] ELSE [k |-> "", n |-> "", x |-> ""]
         k == x.k  a == x.n  b == y.n
     IN IF k # y.k \/ x.x # y.x THEN Say("changed", <<i, x, y>>)
        ELSE CASE k \in {"#", "mem", "lab", "word"} -> Go(0) /\ Same
          [] k = "open" -> Go(0) /\ blocks' = Append(blocks, <<x.x, FALSE>>) /\ UNCHANGED locals
          [] k = "fopen" -> Go(0) /\ blocks' = Append(blocks, <<"", TRUE>>) /\ UNCHANGED locals
          [] k \in {"close", "fclose"} -> /\ Go(0) /\ blocks' = SubSeq(blocks, 1, Len(blocks) - 1)
                                          /\ locals' = SelectSeq(locals, LAMBDA l : l[3] < Len(blocks))
          [] k = "decl" -> IF (a = "_ENV") # (b = "_ENV") THEN Say("env-local", <<i, a, b>>)
                           ELSE Go(i) /\ locals' = Append(locals, <<a, b, Len(blocks), i>>) /\ UNCHANGED blocks
          [] k = "use" -> LET ja == Visible(a, 1)  jb == Visible(b, 2) IN
                          IF ja # jb THEN Say("binding", <<i, a, b, "means", IF ja = 0 THEN "global" ELSE locals[ja], "became", IF jb = 0 THEN "global" ELSE locals[jb]>>)
                          ELSE Go(IF ja = 0 THEN 0 ELSE locals[ja][4]) /\ Same
          [] k = "goto" -> LET t == Target(K.a, a) IN IF t # Target(K.b, b) THEN Say("label", <<i, a, b, t, Target(K.b, b)>>) ELSE Go(t) /\ Same
\* a variable: a local's declaration, a global's or a member's name
Named == {"decl", "use", "mem"}
VarOf(j) == IF K.a[j].k = "mem" THEN <<"M", K.a[j].n>> ELSE IF ra[j] # 0 THEN <<"L", ra[j]>> ELSE <<"G", K.a[j].n>>
Resolved ==
  /\ ph = "resolve" /\ i > Len(K.a)
  /\ IF Len(K.b) # Len(K.a) THEN Say("changed", <<Len(K.a), Len(K.b)>>)
     ELSE IF \E j, l \in LabelsAt : j < l /\ K.b[j].n = K.b[l].n /\ K.b[j].x = K.b[l].x THEN Say("label-twice", <<>>)
     ELSE /\ ph' = "judge" /\ i' = 1
          /\ hk' = {<<VarOf(j), K.a[j].keys>> : j \in {j \in 1..Len(K.a) : K.a[j].k \in Named /\ K.a[j].keys # ""}}
          /\ hr' = {<<VarOf(j), K.a[j].ren>> : j \in {j \in 1..Len(K.a) : K.a[j].k \in Named /\ K.a[j].ren # ""}}
          /\ UNCHANGED <<c, locals, blocks, ra, en, g, m, keptG, keptM, cp, gu>>

----------------------------------------------------------------------------
\* the rules that say what is kept: neg (an exception), tab (a pattern of tables' names, "" if the rule is about globals), pat
RECURSIVE Match(_, _)
Match(p, n) ==
  IF p = "" THEN n = ""
  ELSE IF SubSeq(p, 1, 1) = "*" THEN \E k \in 0..Len(n) : Match(SubSeq(p, 2, Len(p)), SubSeq(n, k + 1, Len(n)))
  ELSE n # "" /\ SubSeq(p, 1, 1) = SubSeq(n, 1, 1) /\ Match(SubSeq(p, 2, Len(p)), SubSeq(n, 2, Len(n)))
Exact(p) == \A k \in 1..Len(p) : SubSeq(p, k, k) # "*"
\* r says more precisely than s what it is about
Finer(r, s) == /\ <<r.tab, r.pat>> # <<s.tab, s.pat>> /\ Match(s.tab, r.tab) /\ Match(s.pat, r.pat)
\* what the rules say of a name (tab: "" for a global, "." and the table's name for a member): keep, free (to be renamed) or any (they do not say)
Verdict(rs, base) ==
  LET pos == {r \in rs : ~ r.neg}  neg == {r \in rs : r.neg} IN
  CASE neg = {} -> IF pos # {} \/ base THEN "keep" ELSE "free"
    [] neg # {} /\ pos = {} -> IF ~ base \/ \E r \in neg : Exact(r.pat) THEN "free" ELSE "any"
    [] OTHER -> IF (\A p \in pos : \E q \in neg : Finer(q, p)) /\ (~ base \/ \E r \in neg : Exact(r.pat)) THEN "free"
                ELSE IF (\A q \in neg : q.pat = "*" /\ q.tab \in {"", ".*"}) /\ \E p \in pos : Exact(p.pat) THEN "keep"
                ELSE "any"
Rules == {K.rules[j] : j \in 1..Len(K.rules)}
UsesEnv == \E j \in 1..Len(K.a) : K.a[j].n = "_ENV" /\ K.a[j].k \in Named
Matching(t, n) == {r \in Rules : (r.tab = "") = (t = "") /\ Match(r.tab, t) /\ Match(r.pat, n)}
           \cup (IF K.safe /\ (t # "" \/ UsesEnv) THEN {[neg |-> FALSE, tab |-> IF t = "" THEN "" ELSE ".*", pat |-> "*"]} ELSE {})
OfMember(t, n) == Verdict(Matching("." \o t, n), n \in Members /\ t # "_ENV")
OfGlobal(n) == LET v == Verdict(Matching("", n), n \in Fixed) IN
  IF v # "free" \/ ~ K.together THEN v ELSE IF n \in Members THEN "any" ELSE OfMember("", n)   \* (members are as globals: what keeps one keeps the other)
\* a name's kind: "L" (a local), "C" (one of PICO-8's locals that need not be kept), "keepG"/"keepM" (by a rule or as PICO-8's), "hintG"/"hintM" (by a hint), "anyG"/"anyM" (kept or not), "G", "M"
AsGlobal(n) == CASE n = "_ENV" -> "keepG" [] OTHER -> LET v == OfGlobal(n) IN CASE v = "keep" -> "keepG" [] v = "any" -> "anyG" [] OTHER -> "G"
AsMember(t, n, told) ==
  LET v == OfMember(t, n) IN
  CASE v = "keep" -> "keepM" [] v = "any" -> IF K.together \/ (t = "_ENV" /\ ~ told) THEN "anyG" ELSE "anyM"
    [] OTHER -> IF K.together \/ (t = "_ENV" /\ ~ told) THEN AsGlobal(n) ELSE "M"
As(h, t, n) == CASE h = "global" -> AsGlobal(n) [] h = "member" -> AsMember(IF t = "(global)" THEN "" ELSE t, n, TRUE) [] h = "preserve" -> IF t = "(global)" THEN "hintG" ELSE "hintM"
KeysOf(x) == LET s == {p \in hk : p[1] = x} IN IF s = {} THEN "" ELSE (CHOOSE p \in s : TRUE)[2]
RenOf(x) == LET s == {p \in hr : p[1] = x} IN IF s = {} THEN "" ELSE (CHOOSE p \in s : TRUE)[2]
Kind(j) ==
  LET e == K.a[j] IN
  IF e.k = "word" THEN As(e.h, "", e.n)
  ELSE IF ra[j] # 0 THEN (IF e.n = "_ENV" THEN "keepG" ELSE "L")
  ELSE IF e.k = "mem" THEN
    LET k == IF e.h # "" THEN e.h ELSE IF e.own # "" THEN e.own ELSE IF e.via # 0 THEN KeysOf(VarOf(e.via)) ELSE ""
    IN IF k # "" THEN As(k, e.tab, e.n) ELSE AsMember(e.tab, e.n, FALSE)
  ELSE LET k == IF e.h # "" THEN e.h ELSE IF en[j] # 0 /\ e.n \notin Copied THEN KeysOf(<<"L", en[j]>>) ELSE ""
       IN IF e.n = "_ENV" \/ e.pos < 0 THEN "hintG" ELSE IF k # "" THEN As(k, "(global)", e.n)
          ELSE IF e.n \in Copied /\ AsGlobal(e.n) \in {"G", "anyG"} THEN (IF AsGlobal(e.n) = "G" THEN "C" ELSE "anyC") ELSE AsGlobal(e.n)   \* (pos < 0: the print that ? calls)
\* the name a hint gives to what is here: to the variable itself, or to the one it is treated as
Own(j) == LET e == K.a[j] IN IF e.k = "word" \/ (e.h \in {"global", "member"} /\ ra[j] = 0) THEN "" ELSE RenOf(VarOf(j))
RenHere(j, k) ==
  LET e == K.a[j]
  IN IF Own(j) # "" THEN Own(j)
     ELSE CASE k \in {"keepG", "anyG", "G"} -> RenOf(<<"G", e.n>>) [] k \in {"keepM", "anyM", "M"} -> RenOf(<<"M", e.n>>) [] OTHER -> ""

Clash(f, a, b) == IF a \in DOMAIN f THEN f[a] # b ELSE \E x \in DOMAIN f : f[x] = b
Put(f, a, b) == IF a \in DOMAIN f THEN f ELSE f @@ (a :> b)
On == i' = i + 1 /\ UNCHANGED <<c, ph, locals, blocks, ra, en, hk, hr>>
Global(a, b) ==
  IF b \in Fixed /\ a # b THEN Say("becomes-builtin", <<i, a, b>>)
  ELSE IF Clash(g, a, b) THEN Say("globals", <<i, a, b, IF a \in DOMAIN g THEN g[a] ELSE CHOOSE x \in DOMAIN g : g[x] = b>>)
  ELSE On /\ g' = Put(g, a, b) /\ gu' = (IF K.a[i].k = "use" THEN gu \cup {b} ELSE gu) /\ UNCHANGED <<m, keptG, keptM, cp>>
Member(a, b) ==
  IF b \in Members /\ a # b THEN Say("becomes-special", <<i, a, b>>)
  ELSE IF Clash(m, a, b) THEN Say("members", <<i, a, b, IF a \in DOMAIN m THEN m[a] ELSE CHOOSE x \in DOMAIN m : m[x] = b>>)
  ELSE On /\ m' = Put(m, a, b) /\ UNCHANGED <<g, keptG, keptM, cp, gu>>
Kept(a, k) == On /\ (IF k \in {"keepM", "anyM", "hintM"} THEN keptM' = keptM \cup {a} /\ UNCHANGED keptG ELSE keptG' = keptG \cup {a} /\ UNCHANGED keptM) /\ UNCHANGED <<g, m, cp, gu>>
Judge ==
  /\ ph = "judge" /\ i <= Len(K.a)
  /\ LET e == K.a[i]  a == e.n  b == K.b[i].n IN
     IF e.k \notin Named \cup {"word"} THEN On /\ UNCHANGED <<g, m, keptG, keptM, cp, gu>>
     ELSE LET k == Kind(i)  w == RenHere(i, k) IN
       CASE w # "" -> IF b # w THEN Say("not-as-hinted", <<i, a, b>>)
                      ELSE IF k = "L" THEN On /\ UNCHANGED <<g, m, keptG, keptM, cp, gu>>
                      ELSE IF (IF Own(i) # "" THEN e.k = "mem" ELSE k \in {"keepM", "anyM", "M"}) THEN Member(a, b) ELSE Global(a, b)
         [] k = "L" -> On /\ UNCHANGED <<g, m, keptG, keptM, cp, gu>>   \* (what it means was compared before)
         [] k \in {"keepG", "keepM", "hintG", "hintM"} -> IF a # b THEN Say("not-kept", <<i, a, b>>) ELSE Kept(a, k)
         [] k = "anyC" /\ a = b -> Kept(a, k)
         [] k \in {"C", "anyC"} -> IF a = b /\ Len(a) > 3 THEN Say("not-renamed", <<i, a>>) ELSE IF Clash(cp, a, b) THEN Say("globals", <<i, a, b>>)
                       ELSE On /\ cp' = Put(cp, a, b) /\ UNCHANGED <<g, m, keptG, keptM, gu>>
         [] k = "G" -> IF a = b /\ Len(a) > 3 THEN Say("not-renamed", <<i, a>>) ELSE Global(a, b)
         [] k = "M" -> IF a = b /\ Len(a) > 3 THEN Say("not-renamed", <<i, a>>) ELSE Member(a, b)
         [] k \in {"anyG", "anyM"} -> IF a = b THEN Kept(a, k) ELSE IF k = "anyG" THEN Global(a, b) ELSE Member(a, b)

----------------------------------------------------------------------------
\* the map of the renaming: lines <<kind, new name, old name>>
Lines == {K.map[j] : j \in 1..Len(K.map)}
Renamed(f) == {<<f[x], x>> : x \in DOMAIN f}
Changed(f) == {<<f[x], x>> : x \in {x \in DOMAIN f : f[x] # x}}
LineSet(k) == {<<l[2], l[3]>> : l \in {l \in Lines : l[1] = k}}
LocalVars(k) == {j \in 1..Len(K.a) : K.a[j].k = k}
Count(k, b, a) == Cardinality({j \in 1..Len(K.map) : K.map[j] = <<k, b, a>>})
PairsOf(k) == {<<K.b[j].n, K.a[j].n>> : j \in LocalVars(k)}
Map ==
  /\ ph = "judge" /\ i > Len(K.a)
  /\ IF \E a \in DOMAIN g : g[a] # a /\ g[a] \in keptG THEN LET a == CHOOSE a \in DOMAIN g : g[a] # a /\ g[a] \in keptG IN Say("takes-kept-name", <<"global", a, g[a]>>)
     ELSE IF \E a \in DOMAIN m : m[a] # a /\ m[a] \in keptM THEN LET a == CHOOSE a \in DOMAIN m : m[a] # a /\ m[a] \in keptM IN Say("takes-kept-name", <<"member", a, m[a]>>)
     ELSE IF {cp[x] : x \in DOMAIN cp} \cap gu # {} THEN Say("globals", {cp[x] : x \in DOMAIN cp} \cap gu)
     ELSE IF ~ K.hasmap THEN Say("ok", <<Cardinality(DOMAIN g), Cardinality(DOMAIN m)>>)
     ELSE IF ~ (Changed(g) \subseteq LineSet("global") /\ LineSet("global") \subseteq Renamed(g) \cup {<<x, x>> : x \in keptG}) THEN Say("map-globals", <<Changed(g) \ LineSet("global"), LineSet("global") \ Renamed(g)>>)
     ELSE IF ~ (Changed(m) \subseteq LineSet("member") /\ LineSet("member") \subseteq Renamed(m) \cup {<<x, x>> : x \in keptM}) THEN Say("map-members", <<Changed(m) \ LineSet("member"), LineSet("member") \ Renamed(m)>>)
     ELSE LET bad == {q \in {<<k, p>> : k \in {"local"}, p \in PairsOf("decl") \cup LineSet("local")} \cup {<<k, p>> : k \in {"label"}, p \in PairsOf("lab") \cup LineSet("label")} :
                        LET n == Cardinality({j \in LocalVars(IF q[1] = "local" THEN "decl" ELSE "lab") : K.b[j].n = q[2][1] /\ K.a[j].n = q[2][2]})
                                 + (IF q[1] = "local" /\ q[2][2] \in DOMAIN cp /\ cp[q[2][2]] = q[2][1] THEN 1 ELSE 0)
                            l == Count(q[1], q[2][1], q[2][2])
                        IN l > n \/ (q[2][1] # q[2][2] /\ l < n)}
          IN IF bad # {} THEN Say("map-locals", bad) ELSE Say("ok", <<Cardinality(DOMAIN g), Cardinality(DOMAIN m)>>)
Next == Resolve \/ Resolved \/ Judge \/ Map
Spec == Init /\ [][Next]_vars
\* (checked by TLC along every behaviour)
Injective == ph = "done" => \A f \in {g, m} : Cardinality({f[x] : x \in DOMAIN f}) = Cardinality(DOMAIN f)
BlocksOk == ph = "resolve" => \A j \in 1..Len(locals) : locals[j][3] <= Len(blocks)
=============================================================================
