------------------------------ MODULE CliTrace ------------------------------
(* Recorded runs (files before and after, exit code) against the machine of CliRun *)
EXTENDS CliRun, Json, IOUtils, SequencesExt
Cases == JsonDeserialize(IOEnv.VF_DATA).cases
VARIABLES c
K == Cases[c]
ToSc(s) == [s EXCEPT !.act = {s.act[i] : i \in 1..Len(s.act)}]
Init == c \in 1..Len(Cases) /\ Start(ToSc(Cases[c].sc))
\* the record decides where the machine leaves it open
Fails == K.rc # 0
What == IF sc.prog # "random" THEN {"ok", "warn", "syntax"} ELSE {CASE K.rc = 1 -> "syntax" [] K.rc = 2 -> "warn" [] OTHER -> "ok"}
Step == ph # "end" /\ UNCHANGED c /\ (Args \/ Read(IF sc.read = "damaged" THEN Fails ELSE TRUE) \/ (sc.read # "damaged" /\ Read(FALSE)) \/ Extra \/ (\E w \in What : Process(w)) \/ Write)
Say(w, d) == PrintT("V " \o ToString(c) \o " " \o w \o " " \o ToString(d)) /\ ph' = "said" /\ UNCHANGED <<sc, j, wrote, exit, c>>
\* an internal error is only put up with where the input is not a cart (or has no end)
MayCrash == sc.read = "damaged" \/ sc.extra = "badlabel" \/ sc.prog = "selfinclude"
Out(i) == K.outs[i]
Judge ==
  /\ ph = "end"
  /\ IF K.crash /\ ~(MayCrash /\ exit # {0}) THEN Say("crash", K.note)
     ELSE IF K.rc \notin exit THEN Say("exit-code", <<K.rc, exit>>)
     ELSE IF ~K.inputs_same THEN Say("input-changed", K.note)
     ELSE IF K.strays # <<>> THEN Say("stray-files", K.strays)
     ELSE IF \E i \in 1..Len(sc.outs) \ wrote : Out(i).after # Out(i).before THEN Say("output-touched", {<<i, Out(i).before, Out(i).after>> : i \in {i \in 1..Len(sc.outs) \ wrote : Out(i).after # Out(i).before}})
     ELSE IF \E i \in wrote : ~Out(i).readable THEN Say("output-unreadable", {i \in wrote : ~Out(i).readable})
     ELSE IF \E i \in wrote : ~(sc.read = "damaged" \/ sc.act \cap {"minify", "unminify"} # {}) /\ Out(i).code # K.code THEN Say("output-incomplete", {i \in wrote : Out(i).code # K.code})
     ELSE IF \E i \in wrote : sc.read # "damaged" /\ K.mem # <<>> /\ Out(i).mem # K.mem THEN Say("output-memory", {i \in wrote : Out(i).mem # K.mem})
     ELSE Say("ok", "")
Spec == Init /\ [][Step \/ Judge]_<<mvars, c>>
OutcomeOk == ZeroMeansAll /\ FaultMeansNonZero /\ NothingBeforeChecks /\ InOrder
=============================================================================
