------------------------------ MODULE P8Chars ------------------------------
(* PICO-8's 256 characters and their text forms, and how code travels between files of text and bytes.
   A case: kind "write": code (bytes of a cart) and the file written for it (bytes);
           kind "read" : a file of text (bytes) and the code (bytes) the cart read from it holds.
   Only the lines of code of the files are recorded.  The spec decodes UTF-8 itself. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.VF_DATA)
Cases == Data.cases

\* the code points of each character, 0 to 255
Table ==
  <<
    <<0>>, <<185>>, <<178>>, <<179>>, <<8308>>, <<8309>>, <<8310>>, <<8311>>, <<8312>>, <<9>>, <<10>>, <<7495>>, <<7580>>, <<13>>, <<7497>>, <<7584>>,
    <<9646>>, <<9632>>, <<9633>>, <<8281>>, <<8280>>, <<8214>>, <<9664>>, <<9654>>, <<12300>>, <<12301>>, <<165>>, <<8226>>, <<12289>>, <<12290>>, <<12443>>, <<12444>>,
    <<32>>, <<33>>, <<34>>, <<35>>, <<36>>, <<37>>, <<38>>, <<39>>, <<40>>, <<41>>, <<42>>, <<43>>, <<44>>, <<45>>, <<46>>, <<47>>,
    <<48>>, <<49>>, <<50>>, <<51>>, <<52>>, <<53>>, <<54>>, <<55>>, <<56>>, <<57>>, <<58>>, <<59>>, <<60>>, <<61>>, <<62>>, <<63>>,
    <<64>>, <<65>>, <<66>>, <<67>>, <<68>>, <<69>>, <<70>>, <<71>>, <<72>>, <<73>>, <<74>>, <<75>>, <<76>>, <<77>>, <<78>>, <<79>>,
    <<80>>, <<81>>, <<82>>, <<83>>, <<84>>, <<85>>, <<86>>, <<87>>, <<88>>, <<89>>, <<90>>, <<91>>, <<92>>, <<93>>, <<94>>, <<95>>,
    <<96>>, <<97>>, <<98>>, <<99>>, <<100>>, <<101>>, <<102>>, <<103>>, <<104>>, <<105>>, <<106>>, <<107>>, <<108>>, <<109>>, <<110>>, <<111>>,
    <<112>>, <<113>>, <<114>>, <<115>>, <<116>>, <<117>>, <<118>>, <<119>>, <<120>>, <<121>>, <<122>>, <<123>>, <<124>>, <<125>>, <<126>>, <<9675>>,
    <<9608>>, <<9618>>, <<128049>>, <<11015,65039>>, <<9617>>, <<10045>>, <<9679>>, <<9829>>, <<9737>>, <<50883>>, <<8962>>, <<11013,65039>>, <<128528>>, <<9834>>, <<127358,65039>>, <<9670>>,
    <<8230>>, <<10145,65039>>, <<9733>>, <<10711>>, <<11014,65039>>, <<711>>, <<8743>>, <<10062>>, <<9636>>, <<9637>>, <<12354>>, <<12356>>, <<12358>>, <<12360>>, <<12362>>, <<12363>>,
    <<12365>>, <<12367>>, <<12369>>, <<12371>>, <<12373>>, <<12375>>, <<12377>>, <<12379>>, <<12381>>, <<12383>>, <<12385>>, <<12388>>, <<12390>>, <<12392>>, <<12394>>, <<12395>>,
    <<12396>>, <<12397>>, <<12398>>, <<12399>>, <<12402>>, <<12405>>, <<12408>>, <<12411>>, <<12414>>, <<12415>>, <<12416>>, <<12417>>, <<12418>>, <<12420>>, <<12422>>, <<12424>>,
    <<12425>>, <<12426>>, <<12427>>, <<12428>>, <<12429>>, <<12431>>, <<12434>>, <<12435>>, <<12387>>, <<12419>>, <<12421>>, <<12423>>, <<12450>>, <<12452>>, <<12454>>, <<12456>>,
    <<12458>>, <<12459>>, <<12461>>, <<12463>>, <<12465>>, <<12467>>, <<12469>>, <<12471>>, <<12473>>, <<12475>>, <<12477>>, <<12479>>, <<12481>>, <<12484>>, <<12486>>, <<12488>>,
    <<12490>>, <<12491>>, <<12492>>, <<12493>>, <<12494>>, <<12495>>, <<12498>>, <<12501>>, <<12504>>, <<12507>>, <<12510>>, <<12511>>, <<12512>>, <<12513>>, <<12514>>, <<12516>>,
    <<12518>>, <<12520>>, <<12521>>, <<12522>>, <<12523>>, <<12524>>, <<12525>>, <<12527>>, <<12530>>, <<12531>>, <<12483>>, <<12515>>, <<12517>>, <<12519>>, <<9692>>, <<9693>>
  >>
Text(b) == Table[b + 1]
\* mathematical italics that stand for capitals
CapBase == 120328
CapText(b) == IF b \in 65..90 THEN <<CapBase + 26 + b - 65>> ELSE Text(b)

VARIABLES c, st, tab, pos, out, v
vars == <<c, st, tab, pos, out, v>>

Utf8(cp) == IF cp < 128 THEN <<cp>> ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
            ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
            ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
\* the code point at byte i of s (1-based): <<code point, bytes used>>; a byte that starts no sequence stands for itself (-1 - byte)
At(s, i) ==
  LET b == s[i]
      n == IF b < 128 THEN 1 ELSE IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..244 THEN 4 ELSE 0
      whole == n > 0 /\ i + n - 1 <= Len(s) /\ \A k \in (i + 1)..(i + n - 1) : s[k] \in 128..191
      cp == CASE n = 1 -> b [] n = 2 -> (b - 192) * 64 + s[i + 1] - 128 [] n = 3 -> (b - 224) * 4096 + (s[i + 1] - 128) * 64 + s[i + 2] - 128
             [] OTHER -> (b - 240) * 262144 + (s[i + 1] - 128) * 4096 + (s[i + 2] - 128) * 64 + s[i + 3] - 128
  IN IF ~ whole THEN <<-1 - b, 1>>
     ELSE IF (n = 3 /\ (cp < 2048 \/ cp \in 55296..57343)) \/ (n = 4 /\ (cp < 65536 \/ cp > 1114111)) THEN <<-1 - b, 1>> ELSE <<cp, n>>

\* the inverse of the table: a map from first code points to the characters (tab), filled in the first step
Single(cp) == IF cp \in 120354..120379 THEN cp - 120354 + 65 ELSE IF cp \in DOMAIN tab.one THEN tab.one[cp] ELSE -1
Pair(cp) == IF cp \in DOMAIN tab.two THEN tab.two[cp] ELSE <<-1, -1>>
\* one character of text at byte i: <<codes, bytes used>>
One(s, i) ==
  LET a == At(s, i) IN
  IF a[1] < 0 THEN <<<<-1 - a[1]>>, 1>>
  ELSE IF a[1] < 128 THEN <<<<a[1]>>, 1>>
  ELSE IF Single(a[1]) >= 0 THEN <<<<Single(a[1])>>, a[2]>>
  ELSE LET p == Pair(a[1])
           nx == IF i + a[2] <= Len(s) THEN At(s, i + a[2]) ELSE <<-1, 0>>
       IN IF p[1] >= 0 /\ nx[1] = p[1] THEN <<<<p[2]>>, a[2] + nx[2]>> ELSE <<Utf8(a[1]), a[2]>>

Init == c \in 1..Len(Cases) /\ st = "start" /\ tab = <<>> /\ pos = 1 /\ out = 0 /\ v = ""
K == Cases[c]
Finish(w, d) == v' = w /\ UNCHANGED <<c, st, tab, pos, out>> /\ PrintT("V " \o ToString(c) \o " " \o w \o " " \o ToString(d))
Start ==
  /\ st = "start" /\ st' = "run" /\ UNCHANGED <<c, pos, out, v>>
  /\ LET ones == {b \in 0..255 : Len(Table[b + 1]) = 1}  twos == {b \in 0..255 : Len(Table[b + 1]) = 2}
     IN tab' = [one |-> [cp \in {Table[b + 1][1] : b \in ones} |-> CHOOSE b \in ones : Table[b + 1][1] = cp],
                two |-> [cp \in {Table[b + 1][1] : b \in twos} |-> LET b == CHOOSE b \in twos : Table[b + 1][1] = cp IN <<Table[b + 1][2], b>>]]
\* reading: one character of text per step; out counts the bytes of code so far
ReadStep ==
  /\ st = "run" /\ K.kind = "read" /\ v = ""
  /\ IF pos > Len(K.text) THEN (IF out = Len(K.code) THEN Finish("ok", "") ELSE Finish("more-code", <<out, Len(K.code)>>))
     ELSE LET o == One(K.text, pos)
              n == Len(o[1])
          IN IF out + n <= Len(K.code) /\ SubSeq(K.code, out + 1, out + n) = o[1] THEN pos' = pos + o[2] /\ out' = out + n /\ UNCHANGED <<c, st, tab, v>>
             ELSE Finish("read-differently", <<pos, o[1], SubSeq(K.code, out + 1, out + n + 1)>>)
\* writing: one character of code per step
WriteStep ==
  /\ st = "run" /\ K.kind = "write" /\ v = ""
  /\ IF pos > Len(K.code) THEN (IF out = Len(K.text) THEN Finish("ok", "") ELSE Finish("more-text", <<out, Len(K.text)>>))
     ELSE LET cps == IF K.caps THEN CapText(K.code[pos]) ELSE Text(K.code[pos])
              t == FlattenSeq([i \in 1..Len(cps) |-> Utf8(cps[i])])
              n == Len(t)
          IN IF out + n <= Len(K.text) /\ SubSeq(K.text, out + 1, out + n) = t THEN pos' = pos + 1 /\ out' = out + n /\ UNCHANGED <<c, st, tab, v>>
             ELSE Finish("written-differently", <<pos, K.code[pos], SubSeq(K.text, out + 1, out + n)>>)
Next == Start \/ ReadStep \/ WriteStep
Spec == Init /\ [][Next]_vars
\* the table is a bijection: no text form is a prefix of another's, so reading text written is the identity (checked by TLC on its own)
Distinct == \A a, b \in 0..255 : a # b => ~ IsPrefix(Text(a), Text(b))
ASSUME Distinct
ASSUME CapBase + 26 = 120354
=============================================================================
