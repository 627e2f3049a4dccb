------------------------------ MODULE CartGen ------------------------------
(* Generates histories of runs: sequences of <<operation, format>> numbers.  The cart's parts are followed symbolically (which parts
   are not default), so that no history goes on after a step that leaves nothing, and an operation is only used where it changes something. *)
EXTENDS CartOps
CONSTANTS Depth,   \* the length of the histories
          WithOps  \* whether operations other than plain conversion occur
Fmt == <<"p8", "png", "rom", "clip", "url", "tiny_rom", "lua", "label", "spritesheet">>
\* the operations: sections merged from another cart (all of whose parts are given), or what the harness gives the number
Secs == <<<<"lua">>, <<"gfx">>, <<"map">>, <<"gff">>, <<"music">>, <<"sfx">>, <<"label">>, <<"meta:foo">>, <<"meta:title">>,
          <<"lua", "label">>, <<"gfx", "sfx">>, <<"music", "gff", "map">>, <<"sfx", "meta:foo">>, <<"lua", "nothing">>, <<"gfx", "Lua">>>>
NOps == Len(Secs) + 12
VARIABLES h, left
Init == h = <<>> /\ left = Parts \ {"platform", "tuple"}
After(op) == IF op \in 1..Len(Secs) THEN left \cup UNION {PartsOf(Secs[op][j]) : j \in 1..Len(Secs[op])} ELSE left
Next ==
  /\ Len(h) < Depth
  /\ \E f \in 1..Len(Fmt) : \E op \in (IF WithOps THEN 0..NOps ELSE {0}) :
       /\ WithOps => (f \in {1, 2, 3} /\ (Len(h) = 0 => op # 0))
       /\ left # {}
       /\ h' = Append(h, <<op, f>>)
       /\ left' = After(op) \cap Holds(Fmt[f])
       /\ (Len(h') = Depth => PrintT("H " \o ToString(h')))
Spec == Init /\ [][Next]_<<h, left>>
=============================================================================
