------------------------------- MODULE CliGen -------------------------------
(* All scenarios with at most one fault before the outputs, for the harness to carry out; TLC also checks the machine on each and
   that each of its runs ends. *)
EXTENDS CliRun
Places == {"new", "old", "noparent", "folder", "input"}
Outs == {<<[to |-> t, bin |-> b]>> : t \in Places, b \in BOOLEAN}
        \cup {<<[to |-> t, bin |-> b], [to |-> t2, bin |-> b2]>> : t \in {"new", "old", "folder"}, b \in BOOLEAN, t2 \in {"new", "old", "noparent"}, b2 \in BOOLEAN}
        \cup {<<>>}
Acts == {{}, {"lint"}, {"lint", "nofail"}, {"minify"}, {"unminify"}, {"count"}, {"lint", "minify", "count"}, {"lint", "nofail", "minify", "map"}, {"lint", "minify", "map"}}
Scenarios ==
  {[read |-> r, extra |-> x, prog |-> p, act |-> a, big |-> b, outs |-> o] :
     r \in {"ok", "missing", "damaged"}, x \in {"none", "merge", "nofile", "nosection", "badlabel"},
     p \in {"clean", "unused", "syntax", "noinclude", "selfinclude", "random"}, a \in Acts, b \in BOOLEAN, o \in Outs}
Sane(s) == /\ Cardinality({f \in {"r", "x", "p"} : (f = "r" /\ s.read # "ok") \/ (f = "x" /\ s.extra \notin {"none", "merge"}) \/ (f = "p" /\ s.prog \notin {"clean", "unused"})}) <= 1
           /\ (s.big => s.prog \in {"clean", "unused"} /\ s.read = "ok")
           /\ (s.outs = <<>> => s.act # {})
           /\ (s.read = "damaged" => s.prog = "clean" /\ Len(s.outs) <= 1 /\ \A i \in 1..Len(s.outs) : s.outs[i].to \in {"new", "old", "input"})
           /\ (s.prog \in {"noinclude", "selfinclude"} => \A i \in 1..Len(s.outs) : s.outs[i] # [to |-> "input", bin |-> TRUE])
           /\ ("map" \in s.act => s.prog \in {"clean", "unused"})
Init == \E s \in {s \in Scenarios : Sane(s)} : Start(s) /\ PrintT("S " \o ToString(s))
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
Ends == <>Done
=============================================================================
