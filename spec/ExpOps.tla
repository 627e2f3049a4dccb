------------------------------- MODULE ExpOps -------------------------------
(* An exported game (js or pod) as a sequence of entries [n |-> name, d |-> content].  Entries without a name (pods hold some, next
   to the carts) are no carts and stay where they are.  An operation is [k, a, b]: kind, and one or two names (NoName: not given). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoName == "-"
Carts(x) == SelectSeq(x, LAMBDA e : e.n # "")
Names(x) == {x[i].n : i \in 1..Len(x)} \ {""}
Pos(x, n) == CHOOSE i \in 1..Len(x) : x[i].n = n
InsertBefore(x, i, e) == SubSeq(x, 1, i - 1) \o <<e>> \o SubSeq(x, i, Len(x))
Remove(x, i) == SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x))
\* which cart an operation or a read is about; "" if there is none
Which(x, n) == IF n = NoName THEN (IF Carts(x) = <<>> THEN "" ELSE Carts(x)[1].n) ELSE IF n \in Names(x) THEN n ELSE ""
\* new: the name and content of the input cart
Refused(x, op, new) ==
  CASE op.k = "create" -> FALSE
    [] op.k = "insert" -> \/ (IF op.a = NoName THEN new.n ELSE op.a) \in Names(x)
                          \/ (op.b # NoName /\ op.b \notin Names(x))
    [] op.k = "replace" -> Which(x, op.a) = ""
    [] op.k = "delete" -> op.a \notin Names(x)
    [] op.k = "rename" -> op.a \notin Names(x) \/ op.b \in Names(x)
Result(x, op, new) ==
  IF Refused(x, op, new) THEN x
  ELSE CASE op.k = "insert" -> LET e == [n |-> IF op.a = NoName THEN new.n ELSE op.a, d |-> new.d]
                               IN InsertBefore(x, IF op.b = NoName THEN Len(x) + 1 ELSE Pos(x, op.b), e)
         [] op.k = "replace" -> [x EXCEPT ![Pos(x, Which(x, op.a))].d = new.d]
         [] op.k = "delete" -> Remove(x, Pos(x, op.a))
         [] op.k = "rename" -> [x EXCEPT ![Pos(x, op.a)].n = op.b]
=============================================================================
