------------------------------ MODULE CartOps ------------------------------
(* A PICO-8 cart as a record of parts, what each file format holds of it, and what the command line's options do to it.
   Parts hold abstract contents (numbers that stand for contents; 0 is the default content: empty code, PICO-8's empty memory,
   a black label, no title), except version and platform, which hold themselves.  Shared by the trace checker and the generator. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Parts == {"code", "gfx", "shared", "map", "gff", "music", "sfx", "label", "title", "foo", "version", "tuple", "platform"}
Memory == {"gfx", "shared", "map", "gff", "music", "sfx"}
DefaultVersion == 42
DefaultPlatform == 108 \* 'l'
\* PICO-8's releases, by id
Releases == <<<<28, <<0,2,0,0>>>>, <<29, <<0,2,1,0>>>>, <<30, <<0,2,2,0>>>>, <<31, <<0,2,2,1>>>>, <<32, <<0,2,2,2>>>>, <<33, <<0,2,3,0>>>>, <<34, <<0,2,4,0>>>>,
  <<35, <<0,2,4,1>>>>, <<36, <<0,2,4,2>>>>, <<37, <<0,2,5,0>>>>, <<38, <<0,2,5,2>>>>, <<39, <<0,2,5,4>>>>, <<40, <<0,2,5,5>>>>, <<41, <<0,2,5,6>>>>, <<42, <<0,2,6,1>>>>, <<43, <<0,2,7,0>>>>>>
Latest == 43
\* the release tuple of a version id, as one number
Number(t) == ((t[1] * 64 + t[2]) * 256 + t[3]) * 256 + t[4]
TupleNumber(id) == LET m == {i \in 1..Len(Releases) : Releases[i][1] = id} IN IF m = {} THEN 0 ELSE Number(Releases[CHOOSE i \in m : TRUE][2])
Empty == [f \in Parts |-> IF f = "version" THEN DefaultVersion ELSE IF f = "tuple" THEN TupleNumber(DefaultVersion) ELSE IF f = "platform" THEN DefaultPlatform ELSE 0]

Formats == {"p8", "png", "rom", "clip", "url", "tiny_rom", "lua", "label", "spritesheet"}
\* the parts a file of each format holds
Holds(fmt) ==
  CASE fmt = "p8"          -> Parts \ {"platform", "tuple"}
    [] fmt \in {"png", "clip"} -> {"code", "label", "version", "tuple", "platform"} \cup Memory
    [] fmt = "rom"         -> {"code"} \cup Memory
    [] fmt = "url"         -> {"code", "gfx", "shared"}
    [] fmt = "tiny_rom"    -> {"code"}
    [] fmt = "lua"         -> {"code"}
    [] fmt = "label"       -> {"label"}
    [] fmt = "spritesheet" -> {"gfx", "shared"}
\* --output-sections restricts what a p8 file holds (the version line always stays)
PartsOf(sec) ==
  CASE sec = "lua" -> {"code"} [] sec = "gfx" -> {"gfx", "shared"} [] sec = "map" -> {"map"} [] sec = "gff" -> {"gff"}
    [] sec = "music" -> {"music"} [] sec = "sfx" -> {"sfx"} [] sec = "label" -> {"label"} [] sec = "meta:title" -> {"title"} [] sec = "meta:foo" -> {"foo"} [] OTHER -> {}
Known(sec) == PartsOf(sec) # {}
Held(fmt, outsecs) == IF fmt # "p8" \/ outsecs = <<>> THEN Holds(fmt) ELSE {"version"} \cup UNION {PartsOf(outsecs[i]) : i \in 1..Len(outsecs)}
\* reading a file back: what it does not hold has its default
(* (a p8 file's version line stands for the release) *)
Read(cart, held) == [f \in Parts |-> IF f \in held THEN cart[f] ELSE IF f = "tuple" /\ "version" \in held THEN TupleNumber(cart.version) ELSE Empty[f]]

\* merging sections of another cart
MergeIn(cart, src, secs) == LET fs == UNION {PartsOf(secs[i]) : i \in 1..Len(secs)} IN [f \in Parts |-> IF f \in fs THEN src[f] ELSE cart[f]]

RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLe(Tail(a), Tail(b))
\* the release a version string names: the latest that is not later; -1 if it is none (unknown, too new)
ByName(t) ==
  LET fit == {i \in 1..Len(Releases) : LexLe(Releases[i][2], t)}
  IN IF t[2] < 2 \/ fit = {} THEN -1
     ELSE LET m == CHOOSE i \in fit : \A j \in fit : j <= i IN IF Releases[m][1] = Latest /\ Releases[m][2] # t THEN -1 ELSE Releases[m][1]
ReleaseOf(id) == LET m == {i \in 1..Len(Releases) : Releases[i][1] = id} IN IF m = {} THEN <<>> ELSE Releases[CHOOSE i \in m : TRUE][2]

\* one run of the command line on a cart: the options of step s (srcs: the carts merged from), or "error"
Failed(s) == (\E i \in 1..Len(s.merges) : \E j \in 1..Len(s.merges[i].secs) : ~ Known(s.merges[i].secs[j])) \/ (s.ver.kind = "name" /\ ByName(s.ver.tuple) < 0)
Options(cart, s, srcs) ==
  LET merged == FoldLeft(LAMBDA k, m : MergeIn(k, srcs[m.src], m.secs), IF s.title = -1 THEN cart ELSE [cart EXCEPT !.title = s.title], s.merges)
      labelled == IF s.label = -1 THEN merged ELSE [merged EXCEPT !.label = s.label]
      To(id) == [labelled EXCEPT !.version = id, !.tuple = TupleNumber(id)]
  IN CASE s.ver.kind = "none" -> labelled
       [] s.ver.kind = "id" -> To(s.ver.id)
       [] s.ver.kind = "latest" -> To(Latest)
       [] s.ver.kind = "name" -> To(ByName(s.ver.tuple))
=============================================================================
