------------------------------- MODULE ExpGen -------------------------------
(* All histories of Depth operations over an export that starts with some of the carts a, b, c; what must hold of every operation is
   checked on the way. *)
EXTENDS ExpOps
CONSTANTS Depth
VARIABLES x, h, start
N == {"a", "b", "c"}
Ops == {[k |-> "insert", a |-> p, b |-> q] : p \in N \cup {NoName}, q \in N \cup {NoName}} \cup {[k |-> "replace", a |-> p, b |-> NoName] : p \in N \cup {NoName}}
       \cup {[k |-> "delete", a |-> p, b |-> NoName] : p \in N} \cup {o \in {[k |-> "rename", a |-> p, b |-> q] : p \in N, q \in N} : o.a # o.b}
New == [n |-> "c", d |-> Len(h) + 10]
Seqs(S) == UNION {{s \in [1..k -> S] : \A i, j \in 1..k : i # j => s[i] # s[j]} : k \in 0..2}
Init == h = <<>> /\ start \in Seqs(N) /\ x = [i \in 1..Len(start) |-> [n |-> start[i], d |-> i]]
Next == /\ Len(h) < Depth /\ UNCHANGED start
        /\ \E o \in Ops : h' = Append(h, o) /\ x' = Result(x, o, New)
        /\ (Len(h') = Depth => PrintT("H " \o ToString(<<start, h'>>)))
Spec == Init /\ [][Next]_<<x, h, start>>
Distinct == Cardinality(Names(x)) = Len(x)
\* every step: the carts not named keep their contents and their order
Keeps == [][LET o == h'[Len(h')] IN
             \A e \in {x[i] : i \in 1..Len(x)} : e.n \notin {o.a, o.b} /\ ~(o.a = NoName /\ e.n = x[1].n) => e \in {x'[i] : i \in 1..Len(x')}]_<<x, h, start>>
Order == [][\A i, j \in 1..Len(x) : i < j /\ {x[i].n, x[j].n} \subseteq Names(x') /\ h'[Len(h')].k # "rename" => Pos(x', x[i].n) < Pos(x', x[j].n)]_<<x, h, start>>
=============================================================================
