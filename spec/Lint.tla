-------------------------------- MODULE Lint --------------------------------
(* What --lint warns about.  The machine steps through the scope events of a program (lib/names.py), resolving names to the locals
   and labels they mean and gathering what is used, assigned and defined; then it says which warnings are due, and compares
   these - what about, which name, on which line - with what the tool printed, and the exit code and written file with what
   they should then be. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, P8Names
Data == JsonDeserialize(IOEnv.VF_DATA)
Cases == Data.cases
VARIABLES c, ph, i,
  locals,      \* the visible locals: <<name, block depth, event, function depth, declared together>>
  blocks,      \* the open blocks and functions: <<number, is a function>>
  fns,         \* for each open function: may it define globals
  labs,        \* the labels: [n, blk, up (the blocks around it, innermost last), fd, ev]
  jumps,       \* the jumps, resolved after the walk: <<name, blocks around it>>
  usedL, asgL, \* the locals (their events) that are used, that are assigned
  usedG, asgG, defG,   \* global names: used, assigned, defined where that is allowed (or declared to be by a hint)
  hid,         \* what a new local hides: <<event, "" | "top" | "func" | "scope">>
  glob         \* the events that use a global: <<event, how it is assigned>>
vars == <<c, ph, i, locals, blocks, fns, labs, jumps, usedL, asgL, usedG, asgG, defG, hid, glob>>
K == Cases[c]
Range(s) == {s[j] : j \in 1..Len(s)}
Builtins == ((Functions \cup Glyphs) \cup Range(K.builtin)) \ Range(K.notbuiltin)
Init == /\ c \in 1..Len(Cases) /\ ph = "walk" /\ i = 1 /\ locals = <<>> /\ blocks = <<>> /\ fns = <<>> /\ labs = <<>> /\ jumps = <<>>
        /\ usedL = {} /\ asgL = {} /\ usedG = Range(K.used) /\ asgG = {} /\ defG = Range(K.globals) /\ hid = {} /\ glob = {}
Say(w, d) == ph' = "done" /\ UNCHANGED <<c, i, locals, blocks, fns, labs, jumps, usedL, asgL, usedG, asgG, defG, hid, glob>> /\ PrintT("V " \o ToString(c) \o " " \o w \o " " \o ToString(d))

Visible(n, grp) == LET s == {j \in 1..Len(locals) : locals[j][1] = n /\ locals[j][5] # grp} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A k \in s : k <= j
\* globals may be defined here: outside of functions, in _init, in a function that a hint says is like it
InInit(e) == e.kind = "_init" \/ (e.kind = "" /\ e.n = "_init" /\ fns = <<>>)
MayDefine == fns = <<>> \/ fns[Len(fns)]
G0 == UNCHANGED <<usedG, asgG, defG, glob>>
L0 == UNCHANGED <<usedL, asgL>>
Walk ==
  /\ ph = "walk" /\ i <= Len(K.ev) /\ i' = i + 1 /\ UNCHANGED <<c, ph>>
  /\ LET e == K.ev[i]  n == e.n IN
     CASE e.k = "open" -> blocks' = Append(blocks, e.x) /\ UNCHANGED <<locals, fns, labs, jumps, hid>> /\ G0 /\ L0
       [] e.k = "close" -> /\ blocks' = SubSeq(blocks, 1, Len(blocks) - 1)
                           /\ locals' = SelectSeq(locals, LAMBDA l : l[2] < Len(blocks)) /\ UNCHANGED <<fns, labs, jumps, hid>> /\ G0 /\ L0
       [] e.k = "fopen" -> fns' = Append(fns, InInit(e)) /\ UNCHANGED <<locals, blocks, labs, jumps, hid>> /\ G0 /\ L0
       [] e.k = "fclose" -> fns' = SubSeq(fns, 1, Len(fns) - 1) /\ UNCHANGED <<locals, blocks, labs, jumps, hid>> /\ G0 /\ L0
       [] e.k = "decl" -> LET j == Visible(n, e.grp)  w == IF j = 0 THEN "" ELSE IF locals[j][4] = Len(fns) THEN "scope" ELSE IF locals[j][4] = 0 THEN "top" ELSE "func" IN
                          /\ locals' = Append(locals, <<n, Len(blocks), i, Len(fns), e.grp>>) /\ hid' = hid \cup {<<i, w>>}
                          /\ UNCHANGED <<blocks, fns, labs, jumps>> /\ G0 /\ L0
       [] e.k = "use" -> LET j == Visible(n, 0) IN
                         /\ UNCHANGED <<locals, blocks, fns, labs, jumps, hid>>
                         /\ IF j # 0 THEN /\ G0 /\ (IF e.asg = "" THEN usedL' = usedL \cup {locals[j][3]} /\ UNCHANGED asgL ELSE asgL' = asgL \cup {locals[j][3]} /\ UNCHANGED usedL)
                            ELSE /\ L0 /\ glob' = glob \cup {<<i, e.asg>>}
                                 /\ usedG' = (IF e.asg = "" THEN usedG \cup {n} ELSE usedG)
                                 /\ asgG' = (IF e.asg # "" THEN asgG \cup {n} ELSE asgG)
                                 /\ defG' = (IF e.asg \in {"=", "fn"} /\ MayDefine THEN defG \cup {n} ELSE defG)
       [] e.k = "lab" -> labs' = Append(labs, [n |-> n, blk |-> e.x, up |-> SubSeq(blocks, 1, Len(blocks) - 1), fd |-> Len(fns), ev |-> i]) /\ UNCHANGED <<locals, blocks, fns, jumps, hid>> /\ G0 /\ L0
       [] e.k = "goto" -> jumps' = Append(jumps, <<n, blocks>>) /\ UNCHANGED <<locals, blocks, fns, labs, hid>> /\ G0 /\ L0
       [] OTHER -> UNCHANGED <<locals, blocks, fns, labs, jumps, hid>> /\ G0 /\ L0

----------------------------------------------------------------------------
Under(n) == n # "" /\ SubSeq(n, 1, 1) = "_"
\* labels: the one a jump means is the innermost's; a label repeats one of a block around it
LabelIn(b, n) == {l \in 1..Len(labs) : labs[l].blk = b /\ labs[l].n = n}
Innermost(bs, n) == LET s == {k \in 1..Len(bs) : LabelIn(bs[k], n) # {}} IN IF s = {} THEN 0 ELSE CHOOSE l \in LabelIn(bs[CHOOSE k \in s : \A m \in s : m <= k], n) : TRUE
Jumped == {Innermost(jumps[j][2], jumps[j][1]) : j \in 1..Len(jumps)}
On(o) == o \notin Range(K.off)
\* the warnings that are due: <<about, name, event>>
DueLocals ==
  {<<"duplicate-" \o h[2], K.ev[h[1]].n, h[1]>> : h \in {h \in hid : On("duplicate") /\ K.ev[h[1]].n \notin {"_", "_ENV"} /\ h[2] # ""}}
  \cup {<<IF K.ev[h[1]].n \in defG THEN "duplicate-global" ELSE "duplicate-builtin", K.ev[h[1]].n, h[1]>> :
        h \in {h \in hid : On("duplicate") /\ On("duplicate-global") /\ K.ev[h[1]].n \notin {"_", "_ENV"} /\ h[2] = "" /\ K.ev[h[1]].n \in defG \cup usedG \cup asgG}}
  \cup {<<IF h[1] \in asgL THEN "assigned-local" ELSE "unused-local", K.ev[h[1]].n, h[1]>> :
        h \in {h \in hid : On("unused") /\ h[1] \notin usedL /\ ~ Under(K.ev[h[1]].n) /\ (h[1] \in asgL \/ K.ev[h[1]].par \notin {"mid", "self"})}}
DueLabels ==
  {<<LET m == Innermost(labs[l].up, labs[l].n) IN IF labs[m].fd = labs[l].fd THEN "label-scope" ELSE IF labs[m].fd = 0 THEN "label-top" ELSE "label-func", labs[l].n, labs[l].ev>> :
        l \in {l \in 1..Len(labs) : On("duplicate") /\ labs[l].n # "_" /\ Innermost(labs[l].up, labs[l].n) # 0}}
  \cup {<<"unused-label", labs[l].n, labs[l].ev>> : l \in {l \in 1..Len(labs) : On("unused") /\ l \notin Jumped /\ ~ Under(labs[l].n)}}
DueGlobals ==
  {<<IF K.ev[x[1]].n \in Builtins THEN "builtin-assigned" ELSE "undefined", K.ev[x[1]].n, x[1]>> :
        x \in {x \in glob : On("undefined") /\ K.ev[x[1]].n \notin defG /\ (K.ev[x[1]].n \notin Builtins \/ x[2] \in {"=", "fn"})}}
  \cup {<<"unused-global", K.ev[x[1]].n, x[1]>> : x \in {x \in glob : On("unused") /\ On("unused-global") /\ K.ev[x[1]].n \notin usedG /\ ~ Under(K.ev[x[1]].n)}}
Due == DueLocals \cup DueLabels \cup DueGlobals
\* where an event is: K.tabs holds the lines that begin a tab, K.first the line of the file on which the code begins
TabOf(l) == Cardinality({j \in 1..Len(K.tabs) : K.tabs[j] <= l}) - 1
Place(l, sh) == IF K.tabbed THEN <<TabOf(l), l - K.tabs[TabOf(l) + 1] + 1 + sh>> ELSE <<0, K.first + l - 1>>
Said == {K.said[j] : j \in 1..Len(K.said)}
Times(w) == Cardinality({j \in 1..Len(K.said) : K.said[j] = w})
Verdict(sh) ==
  LET due == {<<d[1], d[2], Place(K.ev[d[3]].line, sh)[1], Place(K.ev[d[3]].line, sh)[2], d[3]>> : d \in Due}
      all == {<<d[1], d[2], d[3], d[4]>> : d \in due}
      n(w) == Cardinality({d \in due : <<d[1], d[2], d[3], d[4]>> = w})
  IN IF \E w \in Said : w \notin all THEN <<"unwarranted", CHOOSE w \in Said : w \notin all>>
     ELSE IF \E w \in all : Times(w) # n(w) THEN <<"missing", CHOOSE w \in all : Times(w) # n(w)>>
     ELSE IF K.rc # (IF Due = {} \/ K.nofail THEN 0 ELSE 2) THEN <<"exit-code", <<K.rc>>>>
     ELSE IF K.written # (K.nofail \/ Due = {}) THEN <<"written", <<K.written>>>>
     ELSE <<"ok", <<Cardinality(Due)>>>>
\* ("tabbed-header": all is as it is due, but that lines within tabs are counted from the cart's header - a finding of its own)
Judge == /\ ph = "walk" /\ i > Len(K.ev)
         /\ LET v == Verdict(0) IN IF v[1] # "ok" /\ K.tabbed /\ K.first > 1 /\ Verdict(K.first - 1)[1] = "ok" THEN Say("tabbed-header", <<K.first - 1>>) ELSE Say(v[1], v[2])
Next == Walk \/ Judge
Spec == Init /\ [][Next]_vars
TypeOk == /\ Len(fns) <= Len(blocks) + 1
          /\ \A j \in 1..Len(locals) : locals[j][2] <= Len(blocks) /\ locals[j][4] <= Len(fns)
          /\ usedL \cup asgL \subseteq 1..Len(K.ev)
=============================================================================
