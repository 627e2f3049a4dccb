------------------------------- MODULE PtCart -------------------------------
(* Picotron carts: a set of files and folders, what the operations on them do, and how the containers hold them.
   The machine follows recorded histories of runs.  Each run applies operations to a cart and writes it in some format; the file
   written is decoded here (p64 text line by line, rom: LZ4 block by block, png: the rom in the low bits of its pixels) and
   what it holds is compared with the cart of the model.
   Texts, paths and data are sequences of bytes.  A cart is a function from paths to data; a folder's path ends in '/', its data is Folder. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.VF_DATA)
Cases == Data.cases
VARIABLES c, i,      \* the case and the run
          cart,      \* the cart that it reads
          ph, k,     \* what is being done, and how far
          cur, out,  \* what the decoder gathers: the file being read, the bytes decompressed
          got,       \* the files decoded
          lz,        \* LZ4: how much was decompressed before the last copy
          v
vars == <<c, i, cart, ph, k, cur, out, got, lz, v>>

Folder == <<-1>>
Slash == 47
Bytes(s) == s
\* (what tells the states of one history apart: all else follows from it)
Seen == <<c, i, ph, k, Len(out)>>
NoCart == [p \in {} |-> Folder]
Put(f, p, d) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN d ELSE f[q]]
FromList(l) == FoldLeft(LAMBDA f, e : Put(f, e.p, e.d), NoCart, l)
StartsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
IsFolder(p) == p # <<>> /\ p[Len(p)] = Slash

(* ---- patterns: * (any characters, also none and also '/'), ? (one); a pattern after '!' excludes *)
MatchOne(pat, s) ==
  LET n == Len(pat)
      \* positions reachable without reading: past every '*'
      Close(S) == S \cup {q \in 2..n + 1 : \E a \in S : a < q /\ \A j \in a..q - 1 : pat[j] = 42}
      StepOn(S, ch) == Close({q + 1 : q \in {q \in S : q <= n /\ pat[q] # 42 /\ (pat[q] = 63 \/ pat[q] = ch)}} \cup {q \in S : q <= n /\ pat[q] = 42})
  IN n + 1 \in FoldLeft(StepOn, Close({1}), s)
Excludes(pat) == pat # <<>> /\ pat[1] = 33
Matches(pats, p) == /\ \E j \in 1..Len(pats) : ~Excludes(pats[j]) /\ MatchOne(pats[j], p)
                    /\ \A j \in 1..Len(pats) : ~(Excludes(pats[j]) /\ MatchOne(Tail(pats[j]), p))

(* ---- the folders that a path lies in *)
FoldersOf(p) == {SubSeq(p, 1, j) : j \in {j \in 1..Len(p) - 1 : p[j] = Slash}}
WithFolders(f) == LET more == UNION {FoldersOf(p) : p \in DOMAIN f} \ DOMAIN f
                  IN [q \in DOMAIN f \cup more |-> IF q \in more THEN Folder ELSE f[q]]
Merge(f, g, pats) == LET names == {p \in DOMAIN g : Matches(pats, p)}
                         \* (up to the nearest that exists: those above it may have been left out on purpose)
                         new(p) == {q \in FoldersOf(p) : \A q2 \in FoldersOf(p) : Len(q2) >= Len(q) => q2 \notin DOMAIN f}
                         more == UNION {new(p) : p \in names} \ (DOMAIN f \cup names)
                     IN [q \in DOMAIN f \cup names \cup more |-> IF q \in names THEN g[q] ELSE IF q \in more THEN Folder ELSE f[q]]
Filter(f, pats) == [p \in {p \in DOMAIN f : Matches(pats, p)} |-> f[p]]
LabelPng == <<108, 97, 98, 101, 108, 46, 112, 110, 103>>
LabelQoi == <<108, 97, 98, 101, 108, 46, 113, 111, 105>>
Labels == {LabelPng, LabelQoi}
MainLua == <<109, 97, 105, 110, 46, 108, 117, 97>>
InfoPod == <<46, 105, 110, 102, 111, 46, 112, 111, 100>>
Without(f, S) == [p \in DOMAIN f \ S |-> f[p]]

(* ---- inserted folders: listed relative to the folder inserted (files and folders); at: the place it is put in ("" for the root).
   With a filter only what matches it comes along, and the folders that lies in *)
Inserted(list, at, pats) ==
  LET base == IF at = <<>> \/ at = <<46>> \/ at = <<Slash>> THEN <<>> ELSE IF IsFolder(at) THEN at ELSE Append(at, Slash)
      all == FromList(list)
      names == {base \o p : p \in {p \in DOMAIN all : pats = <<>> \/ Matches(pats, base \o p)}}
      at2 == IF base = <<>> \/ ~(pats = <<>> \/ Matches(pats, base)) THEN {} ELSE {base}
  IN [q \in names \cup at2 |-> IF q \in at2 THEN Folder ELSE all[SubSeq(q, Len(base) + 1, Len(q))]]
BaseName(p) == LET s == {j \in 1..Len(p) : p[j] = Slash} IN IF s = {} THEN p ELSE SubSeq(p, 1 + CHOOSE j \in s : \A j2 \in s : j2 <= j, Len(p))

(* ---- metadata: --[[pod_format="raw",key=value,...]] before the data.  e.m: the parts (the first is the format), or none *)
Join(parts, sep) == IF parts = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, parts[1], Tail(parts))
Text(m, data) == IF m = <<>> THEN data ELSE <<45, 45, 91, 91>> \o Join([j \in 1..Len(m) |-> IF m[j].val = <<>> THEN m[j].key ELSE m[j].key \o <<61>> \o m[j].val], <<44>>) \o <<93, 93>> \o data
FormatKey(m) == m.val = <<>> \/ m.key = <<112,111,100,95,102,111,114,109,97,116>>
\* what is left of it when the metadata is deleted: the keys to be kept, and if there are some or
\* the data is Picotron's own (raw data need not be marked) the format
Left(m, keep) == SelectSeq(m, LAMBDA e : e.val # <<>> /\ Matches(keep, e.key))
Stripped(m, keep) == LET left == Left(m, keep) IN IF left = <<>> /\ (m = <<>> \/ m[1].val # <<>>) THEN <<>> ELSE SelectSeq(m, FormatKey) \o SelectSeq(left, LAMBDA e : ~FormatKey(e))
Runtime == <<114, 117, 110, 116, 105, 109, 101>>
WithRuntime(m, n) == LET e == [key |-> Runtime, val |-> n] IN IF \E j \in 1..Len(m) : m[j].key = Runtime THEN [j \in 1..Len(m) |-> IF m[j].key = Runtime THEN e ELSE m[j]] ELSE Append(m, e)

(* ---- one operation *)
Case == Cases[c]
Run == Case.runs[i]
\* the metadata of a file (its values hold no commas, equal signs or brackets here)
\* or of what operations made of these
MetaOf(d) ==
  IF ~StartsWith(d, <<45, 45, 91, 91, 112, 111, 100>>) THEN [m |-> <<>>, data |-> d]
  ELSE LET z == CHOOSE j \in 1..Len(d) - 1 : d[j] = 93 /\ d[j + 1] = 93 /\ \A j2 \in 1..j - 1 : ~(d[j2] = 93 /\ d[j2 + 1] = 93)
           inner == SubSeq(d, 5, z - 1)
           cuts == SetToSortSeq({j \in 1..Len(inner) : inner[j] = 44}, <)
           parts == [j \in 1..Len(cuts) + 1 |-> SubSeq(inner, IF j = 1 THEN 1 ELSE cuts[j - 1] + 1, IF j > Len(cuts) THEN Len(inner) ELSE cuts[j] - 1)]
           eq(p) == SelectInSeq(p, LAMBDA x : x = 61)
       IN [m |-> [j \in 1..Len(parts) |-> IF eq(parts[j]) = 0 THEN [key |-> parts[j], val |-> <<>>] ELSE [key |-> SubSeq(parts[j], 1, eq(parts[j]) - 1), val |-> SubSeq(parts[j], eq(parts[j]) + 1, Len(parts[j]))]],
           data |-> SubSeq(d, z + 2, Len(d))]
DeleteMeta(f, pats, keep) ==
  LET new(p) == LET e == MetaOf(f[p]) IN [m |-> Stripped(e.m, keep), data |-> e.data]
      gone == {p \in DOMAIN f : ~IsFolder(p) /\ Matches(pats, p) /\ BaseName(p) = InfoPod /\ Left(MetaOf(f[p]).m, keep) = <<>>}
  IN [p \in DOMAIN f \ gone |-> IF IsFolder(p) \/ ~Matches(pats, p) THEN f[p] ELSE LET e == new(p) IN Text(e.m, e.data)]
Apply(f, op) ==
  CASE op.op = "filter" -> Filter(f, op.pats)
    [] op.op = "merge" -> Merge(f, FromList(op.files), op.pats)
    [] op.op = "insert" -> LET at == IF op.at = <<>> THEN op.name ELSE IF IsFolder(op.at) THEN op.at \o op.name ELSE op.at
                               one == IF op.pats = <<>> \/ Matches(op.pats, at) THEN Put(NoCart, at, op.data) ELSE NoCart
                           IN Merge(f, one, <<<<42>>>>)
    [] op.op = "insertdir" -> Merge(f, Inserted(op.files, op.at, op.pats), <<<<42>>>>)
    [] op.op = "delmeta" -> DeleteMeta(f, op.pats, op.keep)
    [] op.op = "runtime" -> IF InfoPod \notin DOMAIN f \/ MetaOf(f[InfoPod]).m = <<>> THEN f
                            ELSE LET e == MetaOf(f[InfoPod]) IN Put(f, InfoPod, Text(WithRuntime(e.m, op.val), e.data))
    [] op.op = "label" -> Put(Without(f, Labels), op.file, op.data)
    [] op.op = "dellabel" -> Without(f, Labels)
    [] OTHER -> f

(* ---- what a format holds *)
\* of one file: extracted files and folders, relative to the place extracted to
Extracted(f, at) == LET base == IF IsFolder(at) THEN at ELSE Append(at, Slash)
                    IN IF at \in DOMAIN f /\ ~IsFolder(at) THEN [q \in {BaseName(at)} |-> f[at]]
                       ELSE WithFolders([q \in {SubSeq(p, Len(base) + 1, Len(p)) : p \in {p \in DOMAIN f : StartsWith(p, base) /\ p # base}} |-> f[base \o q]])
Expected(f, r) == CASE r.fmt = "dir" -> WithFolders(f)
                    [] r.fmt = "png" -> Without(f, IF r.keeplabel THEN {} ELSE Labels)
                    [] r.fmt = "lua" -> [p \in {MainLua} |-> f[MainLua]]
                    [] r.fmt = "tiny" -> [p \in {MainLua} |-> MetaOf(f[MainLua]).data]
                    [] r.fmt = "list" -> [p \in DOMAIN f |-> Folder]
                    [] r.fmt = "extract" -> Extracted(f, r.at)
                    [] OTHER -> f
\* paths that would leave the folder written to
Escapes(f) == \E p \in DOMAIN f : StartsWith(p, <<Slash>>) \/ \E q \in FoldersOf(p) : q = <<46, 46, Slash>> \/ (Len(q) > 3 /\ SubSeq(q, Len(q) - 3, Len(q)) = <<Slash, 46, 46, Slash>>)
ShouldFail(f, r) == \/ r.fmt \in {"lua", "tiny"} /\ MainLua \notin DOMAIN f
                    \/ r.fmt = "dir" /\ Escapes(f)
                    \/ r.fmt = "extract" /\ Escapes(Extracted(f, r.at))
                    \/ r.fmt = "extract" /\ r.at \notin DOMAIN f /\ ~\E p \in DOMAIN f : StartsWith(p, (IF IsFolder(r.at) THEN r.at ELSE Append(r.at, Slash)))

(* ---- decoding *)
B64 == [ch \in 0..255 |-> CASE ch \in 65..90 -> ch - 65 [] ch \in 97..122 -> ch - 71 [] ch \in 48..57 -> ch + 4 [] ch = Data.b64[1] -> 62 [] ch = Data.b64[2] -> 63 [] OTHER -> -1]
DecodeB64(s) ==
  LET d == SelectSeq(s, LAMBDA ch : B64[ch] >= 0)
      n == (Len(d) * 3) \div 4
      At(j) == IF j <= Len(d) THEN B64[d[j]] ELSE 0
  IN [j \in 1..n |-> LET g == 4 * ((j - 1) \div 3) + 1  o == (j - 1) % 3
                     IN CASE o = 0 -> At(g) * 4 + At(g + 1) \div 16 [] o = 1 -> (At(g + 1) % 16) * 16 + At(g + 2) \div 4 [] OTHER -> (At(g + 2) % 4) * 64 + At(g + 3)]
B64Prefix == <<98, 54, 52, 36>>
FileOf(lines) == LET s == Join(lines, <<10>>) IN IF StartsWith(s, B64Prefix) THEN DecodeB64(SubSeq(s, 5, Len(s))) ELSE s
Mark == <<58, 58, 32>>
Eoc == <<91, 101, 111, 99, 93>>
Header == <<112,105,99,111,116,114,111,110,32,99,97,114,116,114,105,100,103,101>>

Obs == Run.obs   \* bytes (rom), lines (p64, list), px (png: the low bits of the first pixels, packed), files (dir)
U32(s, j) == IF s[j + 3] >= 64 THEN 1073741824 ELSE s[j] + 256 * s[j + 1] + 65536 * s[j + 2] + 16777216 * s[j + 3] \* (no file is that long)
\* the byte j (from 0) carried by pixels of 11 bits each
PxByte(px, j) == LET a == (8 * j) \div 11  o == (8 * j) % 11  IN (((px[a + 1] + 2048 * (IF a + 2 <= Len(px) THEN px[a + 2] ELSE 0)) \div (2 ^ o)) % 256)
Rom == IF Run.fmt = "png" THEN [j \in 1..((Len(Obs.px) * 11) \div 8) |-> PxByte(Obs.px, j - 1)] ELSE Obs.bytes

Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ cart = FromList(Cases[c].start) /\ ph = "run" /\ k = 1 /\ cur = <<>> /\ out = <<>> /\ got = NoCart /\ lz = -1 /\ v = "ok"
Say(x, d) == PrintT("V " \o ToString(c) \o " " \o x \o " run " \o ToString(i) \o " " \o ToString(d))
Fail(x, d) == /\ v' = x /\ ph' = "end" /\ Say(x, d) /\ UNCHANGED <<c, i, cart, k, cur, out, got, lz>>
Goto(p) == ph' = p
Name(p) == [j \in 1..Len(p) |-> p[j]]

Operated == FoldLeft(Apply, cart, Run.ops)
Operate ==
  /\ ph = "run"
  /\ LET f == Operated
     IN IF ShouldFail(f, Run) # (Run.rc # 0) THEN Fail("outcome", <<ShouldFail(f, Run), Run.rc>>)
        ELSE IF Run.strays # <<>> THEN Fail("stray-files", Run.strays)
        ELSE IF Run.rc # 0 THEN /\ ph' = "next" /\ UNCHANGED <<c, i, cart, k, cur, out, got, v, lz>>  \* (the history goes on with the cart as it was)
        ELSE /\ k' = 1 /\ cur' = <<>> /\ got' = NoCart /\ out' = <<>>
             /\ ph' = (CASE Run.fmt = "p64" -> "p64" [] Run.fmt \in {"rom", "png"} -> "rom" [] Run.fmt = "tiny" -> "tiny" [] OTHER -> "given")
             /\ UNCHANGED <<c, i, cart, v, lz>>

\* p64: the lines
P64Line ==
  /\ ph = "p64"
  /\ IF k > Len(Obs.lines) THEN Fail("p64-without-end", k)
     ELSE LET l == Obs.lines[k]
              flushed == IF cur = <<>> THEN got ELSE IF IsFolder(cur[1]) THEN Put(got, cur[1], Folder) ELSE Put(got, cur[1], FileOf(Tail(cur)))
          IN IF k = 1 THEN IF StartsWith(l, Header) THEN k' = 2 /\ UNCHANGED <<c, i, cart, ph, cur, out, got, v, lz>> ELSE Fail("p64-header", l)
             ELSE IF k = 2 THEN IF l = Run.version THEN k' = 3 /\ UNCHANGED <<c, i, cart, ph, cur, out, got, v, lz>> ELSE Fail("p64-version", l)
             ELSE IF ~StartsWith(l, Mark) THEN
                IF cur = <<>> /\ l # <<>> THEN Fail("p64-text-before-files", l)
                ELSE /\ k' = k + 1 /\ cur' = (IF cur = <<>> THEN cur ELSE Append(cur, l)) /\ UNCHANGED <<c, i, cart, ph, out, got, v, lz>>
             ELSE LET name == SubSeq(l, 4, Len(l))
                  IN IF name \in DOMAIN flushed THEN Fail("file-twice", name)
                     ELSE /\ got' = flushed /\ k' = k + 1 /\ cur' = <<name>>
                          /\ ph' = (IF name = Eoc THEN "compare" ELSE "p64") /\ UNCHANGED <<c, i, cart, out, v, lz>>

\* rom: the header, the LZ4 blocks, the files
RomHeader ==
  /\ ph = "rom"
  /\ LET b == Rom
     IN IF Len(b) < 8 \/ SubSeq(b, 1, 4) # <<112, 54, 52, Run.verid>> THEN Fail("rom-header", SubSeq(b, 1, 8))
        ELSE IF Len(b) < 8 + U32(b, 5) \/ (Run.fmt = "rom" /\ Len(b) # 8 + U32(b, 5)) THEN Fail("rom-size", <<U32(b, 5), Len(b)>>)
        ELSE /\ cur' = SubSeq(b, 9, 8 + U32(b, 5)) /\ k' = 1 /\ ph' = "lz4" /\ lz' = -1 /\ UNCHANGED <<c, i, cart, out, got, v>>
\* a length that goes on in further bytes: <<length, position after them>>
RECURSIVE More(_, _, _)
More(s, p, n) == IF p > Len(s) THEN <<-1, p>> ELSE IF s[p] = 255 THEN More(s, p + 1, n + 255) ELSE <<n + s[p], p + 1>>
\* (the characters copied may include ones this very copy makes)
Copied(o, off, n) == [j \in 1..Len(o) + n |-> IF j <= Len(o) THEN o[j] ELSE o[Len(o) - off + 1 + ((j - Len(o) - 1) % off)]]
Lz4Block ==
  /\ ph = "lz4"
  /\ LET t == cur[k]
         lits == IF t \div 16 = 15 THEN More(cur, k + 1, 15) ELSE <<t \div 16, k + 1>>
         n == lits[1]  p == lits[2]
     IN IF n < 0 \/ p + n - 1 > Len(cur) THEN Fail("lz4-literals", k)
        ELSE LET o2 == out \o SubSeq(cur, p, p + n - 1)  q == p + n
             IN IF q > Len(cur) THEN \* the last block has only literals: the last five bytes at least, and no copy starts within the last twelve
                  IF t % 16 # 0 \/ (lz >= 0 /\ (n < 5 \/ lz + 12 > Len(o2))) THEN Fail("lz4-last-block", <<t, n, lz>>)
                  ELSE out' = o2 /\ k' = 1 /\ cur' = <<>> /\ ph' = "romfiles" /\ UNCHANGED <<c, i, cart, got, v, lz>>
                ELSE IF q + 1 > Len(cur) THEN Fail("lz4-offset", k)
                ELSE LET off == cur[q] + 256 * cur[q + 1]
                         len == IF t % 16 = 15 THEN More(cur, q + 2, 15) ELSE <<t % 16, q + 2>>
                     IN IF off = 0 \/ off > Len(o2) THEN Fail("lz4-offset", <<k, off, Len(o2)>>)
                        ELSE IF len[1] < 0 \/ len[2] > Len(cur) THEN Fail("lz4-ends-in-a-copy", k)
                        ELSE /\ out' = Copied(o2, off, len[1] + 4) /\ k' = len[2] /\ lz' = Len(o2)
                             /\ UNCHANGED <<c, i, cart, ph, cur, got, v>>
RomFile ==
  /\ ph = "romfiles"
  /\ IF k > Len(out) THEN ph' = "compare" /\ UNCHANGED <<c, i, cart, k, cur, out, got, v, lz>>
     ELSE LET z == SelectInSubSeq(out, k, Len(out), LAMBDA x : x = 0)
          IN IF z = 0 THEN Fail("rom-name", k)
             ELSE LET name == SubSeq(out, k, z - 1)
                      long == z < Len(out) /\ out[z + 1] = 255
                      size == IF IsFolder(name) THEN 0 ELSE IF z >= Len(out) THEN -1 ELSE IF ~long THEN out[z + 1] ELSE IF z + 5 > Len(out) THEN -1 ELSE U32(out, z + 2)
                      at == IF IsFolder(name) THEN z + 1 ELSE IF long THEN z + 6 ELSE z + 2
                  IN IF name \in DOMAIN got THEN Fail("file-twice", name)
                     ELSE IF size < 0 \/ at + size - 1 > Len(out) THEN Fail("rom-file-size", <<k, size>>)
                     ELSE /\ got' = Put(got, name, IF IsFolder(name) THEN Folder ELSE SubSeq(out, at, at + size - 1))
                          /\ k' = at + size /\ UNCHANGED <<c, i, cart, ph, cur, out, v, lz>>

\* a tiny rom is a rom, PICO-8's compressed code (as text: what reading it back gives), or the code itself
Tiny == /\ ph = "tiny"
        /\ IF Len(Obs.bytes) > 8 /\ SubSeq(Obs.bytes, 1, 3) = <<112, 54, 52>> /\ 0 \in ToSet(SubSeq(Obs.bytes, 5, 8)) THEN ph' = "rom" /\ UNCHANGED <<c, i, cart, k, cur, out, got, v, lz>>
           ELSE /\ got' = Put(NoCart, MainLua, IF StartsWith(Obs.bytes, <<0, 112, 120, 97>>) THEN Obs.back ELSE Obs.bytes)
                /\ ph' = "compare" /\ UNCHANGED <<c, i, cart, k, cur, out, v, lz>>

Given == /\ ph = "given" /\ got' = FromList(Obs.files) /\ ph' = "compare" /\ UNCHANGED <<c, i, cart, k, cur, out, v, lz>>

\* a label in a png is only in the picture
LabelOk == Run.fmt # "png" \/ Len(Run.label) = 0 \/ \A j \in 1..Len(Run.label) : Run.label[j][1] \div 8 = Run.label[j][2] \div 8
Compare ==
  /\ ph = "compare"
  /\ LET want == Expected(Operated, Run)
         missing == DOMAIN want \ DOMAIN got   extra == DOMAIN got \ DOMAIN want
         wrong == {p \in DOMAIN want \cap DOMAIN got : want[p] # got[p]}
     IN IF missing # {} THEN Fail("files-missing", missing)
        ELSE IF extra # {} THEN Fail("files-added", extra)
        ELSE IF wrong # {} THEN Fail("files-changed", {<<p, want[p], got[p]>> : p \in {CHOOSE p \in wrong : TRUE}})
        ELSE IF ~LabelOk THEN Fail("label-picture", Run.label)
        ELSE ph' = "next" /\ UNCHANGED <<c, i, cart, k, cur, out, got, v, lz>>
\* the next run reads what this one wrote; from a png whose cart holds no label file it takes the picture as the label
After == IF Run.rc # 0 \/ Run.fmt \in {"list", "extract"} THEN cart ELSE FoldLeft(LAMBDA g, e : Put(g, e.p, e.d), Expected(Operated, Run), Run.added)
AddedOk == Run.last \/ IF ~(Run.rc = 0 /\ Run.fmt = "png") THEN Run.added = <<>>
                       ELSE LET f == Expected(Operated, Run) IN
                            IF DOMAIN f \cap Labels = {} THEN Len(Run.added) = 1 /\ Run.added[1].p \in Labels ELSE FromList(Run.added) = [p \in DOMAIN f \cap Labels |-> f[p]]
NextRun ==
  /\ ph = "next"
  /\ IF i = Len(Case.runs) THEN ph' = "end" /\ Say("ok", "") /\ UNCHANGED <<c, i, cart, k, cur, out, got, v, lz>>
     ELSE IF ~AddedOk THEN Fail("label-read-back", [j \in 1..Len(Run.added) |-> Run.added[j].p])
     ELSE /\ i' = i + 1 /\ ph' = "run" /\ cart' = After /\ UNCHANGED <<c, k, cur, out, got, v, lz>>
Next == Operate \/ P64Line \/ RomHeader \/ Lz4Block \/ RomFile \/ Tiny \/ Given \/ Compare \/ NextRun
Spec == Init /\ [][Next]_vars
\* what the decoders never do: leave their input, or gather a file of no name
InBounds == /\ ph = "lz4" => k \in 1..Len(cur)
            /\ <<>> \notin DOMAIN got
=============================================================================
