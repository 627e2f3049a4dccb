------------------------------ MODULE ExpTrace ------------------------------
(* Recorded histories of runs on an export against ExpOps: after each run, what the file holds (decoded by the harness), what --list
   prints, what --dump writes and what reading one cart gives *)
EXTENDS ExpOps, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VF_DATA).cases
VARIABLES c, i, x
K == Cases[c]
Init == c \in 1..Len(Cases) /\ i = 1 /\ x = Cases[c].start
S == K.steps[i]
\* a new export: the carts given, in their order, after what every such export holds
Created(e, news) == \E n \in 0..Len(e) : e = SubSeq(e, 1, n) \o news /\ \A j \in 1..n : e[j].n = ""
After == IF S.op.k = "create" THEN (IF Created(S.entries, S.news) THEN S.entries ELSE S.news) ELSE Result(x, S.op, S.new)
Say(w, d) == PrintT("V " \o ToString(c) \o " " \o w \o " " \o ToString(<<i, d>>)) /\ i' = 99 /\ UNCHANGED <<c, x>>
CartsOf(y) == [j \in 1..Len(Carts(y)) |-> Carts(y)[j].n]
Contents(y) == {<<Carts(y)[j].n, Carts(y)[j].d>> : j \in 1..Len(Carts(y))}
ReadOf(y) == IF Which(y, S.read.n) = "" THEN "" ELSE y[Pos(y, Which(y, S.read.n))].d
Step ==
  /\ i <= Len(K.steps)
  /\ IF S.crash # "" THEN Say("crash", S.crash)
     ELSE IF Refused(x, S.op, S.new) /\ (S.rc # 3 \/ ~S.same) THEN Say("not-refused", <<S.rc, S.same>>)
     ELSE IF ~Refused(x, S.op, S.new) /\ S.rc # 0 THEN Say("refused", S.rc)
     ELSE IF S.bad # "" THEN Say("unreadable", S.bad)
     ELSE IF S.entries # After THEN Say("wrong-carts", <<S.entries, After>>)
     ELSE IF S.rest # K.rest THEN Say("rest-changed", "")
     ELSE IF S.list # CartsOf(After) THEN Say("wrong-list", <<S.list, CartsOf(After)>>)
     ELSE IF {<<S.dump[j].n, S.dump[j].d>> : j \in 1..Len(S.dump)} # Contents(After) THEN Say("wrong-dump", S.dump)
     ELSE IF (S.read.rc = 0) # (ReadOf(After) # "") THEN Say("read-status", S.read.rc)
     ELSE IF S.read.rc = 0 /\ S.read.d # ReadOf(After) THEN Say("wrong-read", S.read)
     ELSE i' = i + 1 /\ x' = After /\ UNCHANGED c
Done == i = Len(K.steps) + 1 /\ Say("ok", "")
Spec == Init /\ [][Step \/ Done]_<<c, i, x>>
=============================================================================
