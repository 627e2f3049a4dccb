------------------------------- MODULE CliRun -------------------------------
(* One run of the command line, as a machine over files: what it reads, in which order it can fail, what it has written by then, and
   how it ends.  A scenario sc says what is the matter with the inputs, the program, and the places written to.
     read:  ok | missing | damaged             the main input
     extra: none | merge | nofile | nosection | badlabel     (--merge, --label)
     prog:  clean | unused (a warning of --lint) | syntax | noinclude | selfinclude | random
     act:   the options, of {"lint", "nofail", "minify", "unminify", "count", "map"}
     big:   the code does not fit the binary formats
     outs:  where and in which format to write: [to |-> new | old | noparent | folder | input, bin |-> is it a binary format] *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES sc, ph, j, wrote, exit
mvars == <<sc, ph, j, wrote, exit>>
\* exit codes: 0 done, 1 errors in the code (or an internal error), 2 warnings, 3 failure, 4 a missing include
Failure == 1..4
Start(s) == sc = s /\ ph = "args" /\ j = 1 /\ wrote = {} /\ exit = {}
End(codes) == ph' = "end" /\ exit' = codes /\ UNCHANGED <<sc, j, wrote>>
On(p) == ph' = p /\ UNCHANGED <<sc, j, wrote, exit>>
\* options that make no sense without an output
Args == ph = "args" /\ IF sc.outs = <<>> /\ "count" \notin sc.act /\ sc.act \cap {"minify", "unminify"} # {} THEN End({3}) ELSE On("read")
\* fails: whether damage is noticed (a changed byte can make another valid cart)
Read(fails) ==
  /\ ph = "read" /\ (sc.read # "damaged" => fails = (sc.read = "missing" \/ sc.prog \in {"noinclude", "selfinclude"}))
  /\ IF ~fails THEN On("extra")
     ELSE End(IF sc.read = "missing" THEN {3} ELSE IF sc.read = "damaged" THEN Failure ELSE IF sc.prog = "noinclude" THEN {4} ELSE Failure)
Extra ==
  /\ ph = "extra"
  /\ IF sc.extra \in {"nofile", "nosection"} THEN End({3}) ELSE IF sc.extra = "badlabel" THEN End(Failure) ELSE On("process")
Parses == sc.act \cap {"lint", "minify", "unminify"} # {}
Reads == Parses \/ "count" \in sc.act
\* what: "ok", "warn" or "syntax", which only a random program leaves open
Process(what) ==
  /\ ph = "process"
  /\ sc.prog # "random" => what = (IF sc.prog = "syntax" /\ Parses THEN "syntax" ELSE IF sc.prog = "unused" /\ "lint" \in sc.act THEN "warn" ELSE "ok")
  /\ what = "syntax" => Reads
  /\ what = "warn" => "lint" \in sc.act
  /\ CASE what = "syntax" -> End({1})
       [] what = "warn" /\ "nofail" \notin sc.act -> End({2})
       [] OTHER -> On("write")
Blocked(o) == o.to \in {"noparent", "folder"} \/ (o.bin /\ sc.big)
Write ==
  /\ ph = "write"
  /\ IF j > Len(sc.outs) THEN End({0})
     ELSE IF Blocked(sc.outs[j]) THEN End({3})
     ELSE j' = j + 1 /\ wrote' = wrote \cup {j} /\ UNCHANGED <<sc, ph, exit>>
Next == \/ Args
        \/ \E f \in BOOLEAN : Read(f)
        \/ Extra
        \/ \E w \in {"ok", "warn", "syntax"} : Process(w)
        \/ Write
(* What a user relies on; checked on every scenario by CliGen *)
Done == ph = "end"
ZeroMeansAll == Done /\ 0 \in exit => exit = {0} /\ wrote = 1..Len(sc.outs)
FaultMeansNonZero == Done /\ exit # {0} => 0 \notin exit /\ exit # {}
NothingBeforeChecks == ph \in {"args", "read", "extra", "process"} => wrote = {}
InOrder == wrote = 1..(j - 1)
=============================================================================
