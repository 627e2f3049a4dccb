----------------------------- MODULE CartTrace -----------------------------
(* Checks recorded histories of runs of the command line against CartOps.  A case: the cart at the start (init), carts merged from
   (srcs), and steps: the options used, the format written, the exit status, and what the written file holds (obs). *)
EXTENDS CartOps, Json, IOUtils
Data == JsonDeserialize(IOEnv.VF_DATA)
Cases == Data.cases
VARIABLES c, i, cart, v
vars == <<c, i, cart, v>>
(* what --version says about a file *)
Letters == <<"", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Name(t) == LET a == t \div 4194304  b == (t \div 65536) % 64  d == (t \div 256) % 256  e == t % 256
           IN IF b < 2 THEN "pre-v0.2.0" ELSE "v" \o ToString(a) \o "." \o ToString(b) \o "." \o ToString(d) \o (IF e < 26 THEN Letters[e + 1] ELSE "")
Said(k, fmt) == IF "version" \notin Holds(fmt) THEN [name |-> "none", id |-> -1, platform |-> 0]
                ELSE [name |-> Name(k.tuple), id |-> k.version, platform |-> IF "platform" \in Holds(fmt) THEN k.platform ELSE 0]
Init == c \in 1..Len(Cases) /\ i = 1 /\ v = "" /\ cart = Cases[c].init
Finish(w, d) == v' = w /\ UNCHANGED <<c, i, cart>> /\ PrintT("V " \o ToString(c) \o " " \o w \o " " \o ToString(d))
Next ==
  /\ v = ""
  /\ LET k == Cases[c] IN
     IF i > Len(k.steps) THEN Finish("ok", "")
     ELSE
       LET s == k.steps[i] IN
       IF Failed(s) \/ (k.corrupt /\ i = 1) THEN IF s.status # 0 /\ ~ s.written THEN (IF k.corrupt THEN Finish("ok", "") ELSE i' = i + 1 /\ UNCHANGED <<c, cart, v>>) ELSE Finish("accepted", <<i, s.status, s.written>>)
       ELSE IF s.status # 0 \/ ~ s.written THEN Finish("refused", <<i, s.fmt, s.status>>)
       ELSE
         LET w == Options(cart, s, k.srcs)
             held == Held(s.fmt, s.outsecs)
             bad == {f \in held : f \notin DOMAIN s.obs \/ s.obs[f] # w[f]}
             \* a p8 file also shows that it does not hold more
             more == {f \in Holds(s.fmt) \ held : f \in DOMAIN s.obs /\ s.obs[f] # Empty[f]}
         IN IF bad # {} THEN Finish("changed", <<i, s.fmt, bad>>)
            ELSE IF more # {} THEN Finish("holds-more", <<i, s.fmt, more>>)
            ELSE IF "name" \in DOMAIN s.said /\ s.said # Said(Read(w, held), s.fmt) THEN Finish("version", <<i, s.said, Said(Read(w, held), s.fmt)>>)
            ELSE cart' = Read(w, held) /\ i' = i + 1 /\ UNCHANGED <<c, v>>
Spec == Init /\ [][Next]_vars
=============================================================================
