------------------------------- MODULE PtGen -------------------------------
(* Generates histories of runs over Picotron carts: sequences of <<operation, format>>.  An operation on the label or on metadata is
   only used while there may be some; a format that keeps only the code ends the history. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth, NOps
Fmt == <<"p64", "rom", "png", "dir", "lua", "tiny", "list", "extract">>
VARIABLES h, code, label
Init == h = <<>> /\ code = FALSE /\ label = TRUE
Next ==
  /\ Len(h) < Depth /\ ~code
  /\ \E f \in 1..Len(Fmt) : \E op \in 0..NOps :
       /\ (op = 1 => label)                      \* 1: deletes the label
       /\ (f \in {7, 8} => Len(h) = Depth - 1)   \* listing and extracting write no cart
       /\ h' = Append(h, <<op, f>>)
       /\ code' = (f \in {5, 6})
       /\ label' = (op # 1 \/ f = 3)             \* (a png gives the cart its picture as its label)
       /\ (Len(h') = Depth \/ code' => PrintT("H " \o ToString(h')))
Spec == Init /\ [][Next]_<<h, code, label>>
=============================================================================
