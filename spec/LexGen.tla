------------------------------- MODULE LexGen -------------------------------
(* Enumerates small programs whose neighbouring tokens may merge when the space between them goes:
   every operator between every two kinds of operand, every statement after every statement, in every separation. *)
EXTENDS P8Lex, TLC, Json, IOUtils
Kind == IOEnv.VF_KIND      \* "binary", "stmts", "strings", "groups", "assign"

Atoms == << "x", "_y1", "1", "0x1f", "0b11", "1.", ".5", "0x.8", "12", "'s'", "\"s\"", "[[s]]", "[=[s]]]=]", "nil", "true", "...", "{}", "(x)", "f()", "x.y", "x[1]", "x[ [[s]] ]",
            "f's'", "f{}", "f[[s]]", "#x", "-x", "- -x", "-1", "not x", "~x", "~ ~x", "-.5", "@x", "%x", "$x", "function()end", "o:m()", "o:m's'", "- - -1", "-~x", "~-1", "not- -x", "..." >>
Ops == << "+", "-", "*", "/", "\\", "%", "^", "..", "<", ">", "<=", ">=", "==", "~=", "!=", "and", "or", "&", "|", "^^", "~", "<<", ">>", ">>>", "<<>", ">><" >>
Seps == << " ", "\n", "--[[c]]", " --c\n", "\t", " --[[\n]] " >>
Stmts == << "x=1", "x=.5", "x=0x1f", "x=0b1", "x=1.", "x='s'", "x=[[s]]", "x=y", "x=nil", "x={}", "x=(y)", "x=f()", "x=y[1]", "x=...", "x=#y", "x=function()end", "f()", "f's'", "f{}", "f[[s]]", "o:m()", "(f)()", "(f or g)'s'",
            "local x", "local x,y=1,2", "local function q()end", "function q()end", "function o.p:q()end", "x+=1", "x..='s'", "x>><=2", "x,y=y,x", "do end", "do x=1 end", "while x do break end", "repeat until x",
            "repeat x=1 until 1", "for i=1,2 do end", "for k in all(t) do end", "if x then end", "if x then y=1 else y=2 end", "if x then elseif y then end", "if (x) then y=1 end", "if (x) y=1", "if (x) f()", "if (x) y=1 else z=2", "if (x) ?1", "if (x) return", "if (x) return 1",
            "while (x) x=1", "?1", "?'s',x", "?(x)", "?x..'s'", "goto l9", "::l1::", "_ENV=_ENV", "if(x)y=1 z=2", "if (x) if (y) z=1", "if x do y=1 end", "if (x) while (y) z=1", "a.b.c=1", "a[1][2]=3", "x=f()()" >>
StmtSeps == << " ", "\n", ";", " ; ", ";\n", "\n\n", " --c\n", "--[[c]]", "//c\n", " --[[\n]] ", "\n--c\n" >>

\* a one-line construct needs the line to end before the next statement
NeedsLine(s) == s \in {"if (x) y=1", "if (x) f()", "if (x) y=1 else z=2", "if (x) ?1", "if (x) return", "if (x) return 1", "while (x) x=1", "?1", "?'s',x", "?(x)", "?x..'s'", "if(x)y=1 z=2", "if (x) if (y) z=1", "if (x) while (y) z=1"}
EndsLine(p) == p \in {"\n", ";\n", "\n\n", " --c\n", "//c\n", "\n--c\n"}
SplitParen(s, t, p) == (t \in {"(f)()", "(f or g)'s'"} /\ ~ NeedsLine(s)) => p \in {";", " ; ", ";\n"}

VARIABLE g
\* numbered without building the whole set
NBinary == Len(Atoms) * Len(Ops) * Len(Atoms) * Len(Seps) * Len(Seps)
NStmts == Len(Stmts) * Len(Stmts) * Len(StmtSeps)
Binary(n) ==
  LET l == Atoms[1 + (n % Len(Atoms))]  n1 == n \div Len(Atoms)
      o == Ops[1 + (n1 % Len(Ops))]     n2 == n1 \div Len(Ops)
      r == Atoms[1 + (n2 % Len(Atoms))] n3 == n2 \div Len(Atoms)
      s == Seps[1 + (n3 % Len(Seps))]   t == Seps[1 + (n3 \div Len(Seps))]
  IN "x=" \o l \o s \o o \o t \o r
Stmt2(n) ==
  LET l == Stmts[1 + (n % Len(Stmts))]  n1 == n \div Len(Stmts)
      r == Stmts[1 + (n1 % Len(Stmts))] p == StmtSeps[1 + (n1 \div Len(Stmts))]
  IN IF (NeedsLine(l) => EndsLine(p)) /\ SplitParen(l, r, p) THEN l \o p \o r ELSE ""
\* ---- string literals: every sequence of up to four troublesome pieces, in every form of literal
QPieces == << <<97>>, <<49>>, <<92,48>>, <<92,49>>, <<92,49,52>>, <<92,48,48,49>>, <<92,120,48,48>>, <<92,120,102,102>>, <<92,110>>, <<92,114>>, <<92,34>>, <<92,39>>, <<92,92>>, <<92,122,32>>, <<92,122,10,32>>,
             <<92,42>>, <<92,94>>, <<92,10>>, <<93>>, <<93,93>>, <<91,91>>, <<61>>, <<45,45>>, <<34>>, <<39>>, <<14>>, <<7>>, <<200>>, <<92,116>>, <<92,49,50,55>>, <<32>>, <<10>>, <<47,47>>, <<91,61>>, <<93,61>>, <<92,122,32,9,32>>, <<92,122,9,10>> >>
NStrings == 7 * Len(QPieces) * Len(QPieces) * Len(QPieces) * Len(QPieces)
\* piece 1 stands for itself only in the first place, so that shorter contents are not repeated
Str4(n) ==
  LET f == n % 7  n1 == n \div 7  L == Len(QPieces)
      ps == << n1 % L, (n1 \div L) % L, (n1 \div (L * L)) % L, n1 \div (L * L * L) >>
      body == QPieces[1 + ps[1]] \o (IF ps[2] = 0 THEN <<>> ELSE QPieces[1 + ps[2]]) \o (IF ps[3] = 0 THEN <<>> ELSE QPieces[1 + ps[3]]) \o (IF ps[4] = 0 THEN <<>> ELSE QPieces[1 + ps[4]])
      lit == CASE f = 0 -> <<34>> \o body \o <<34>> [] f = 1 -> <<39>> \o body \o <<39>>
               [] f = 2 -> <<91,91>> \o body \o <<93,93>> [] f = 3 -> <<91,61,91>> \o body \o <<93,61,93>> [] f = 4 -> <<91,61,61,91>> \o body \o <<93,61,61,93>>
               [] f = 5 -> <<91,91,10>> \o body \o <<93,93>> [] f = 6 -> <<91,61,91,10>> \o body \o <<93,61,93>>
      t == Tok(lit, 1)
  IN IF t.k = "str" /\ t.e = Len(lit) + 1 /\ StrVal(lit, 1, t.e)[1] THEN lit ELSE <<>>
\* ---- groups: every two operators, either one in parentheses, and every unary operator in or before a group
NumOps == << "+", "-", "*", "/", "\\", "%", "&", "|", "^^", "<<", ">>", ">>>", "<<>", ">><" >>
RecOps == << "+", "-", "*", "/", "\\", "%", "^", ".." >>
AllOps == NumOps \o << "^", "..", "<", ">", "<=", ">=", "==", "~=", "!=", " and ", " or " >>
UnOps == << "-", "~", "not ", "- ", "-~", "not -", "#" >>
Among(o, q) == \E x \in 1..Len(q) : q[x] = o
Kind4(o) == IF Among(o, NumOps) \/ o = "^" THEN "n" ELSE IF o = ".." THEN "s" ELSE IF o \in {" and ", " or "} THEN "l" ELSE IF o \in {"==", "~=", "!="} THEN "e" ELSE "c"
\* a value of a result kind can be an operand of o
Fits(inner, o) == CASE Kind4(o) \in {"n", "c"} -> Kind4(inner) \in {"n", "l"} [] Kind4(o) = "s" -> Kind4(inner) \in {"n", "l", "s"} [] OTHER -> TRUE
NGroup == Len(AllOps) * Len(AllOps) * 4 + Len(AllOps) * Len(UnOps) * 5
Group(n) ==
  LET m == Len(AllOps) * Len(AllOps) * 4 IN
  IF n < m THEN
    LET o == AllOps[1 + (n % Len(AllOps))]  n1 == n \div Len(AllOps)
        q == AllOps[1 + (n1 % Len(AllOps))] f == n1 \div Len(AllOps)
        rec == Among(o, RecOps) /\ Among(q, RecOps)
        e == CASE f % 2 = 0 -> "(x" \o o \o "y)" \o q \o "z" [] OTHER -> "x" \o q \o "(y" \o o \o "z)"
    IN IF f < 2 THEN (IF Fits(o, q) /\ "^" \notin {o, q} THEN "N" \o e ELSE "")
       ELSE (IF rec THEN "R" \o e ELSE "")
  ELSE
    LET k == n - m
        o == AllOps[1 + (k % Len(AllOps))]  k1 == k \div Len(AllOps)
        u == UnOps[1 + (k1 % Len(UnOps))]   f == k1 \div Len(UnOps)
        rec == Among(o, RecOps) /\ u \in {"-", "- ", "not "}
        num == o # "^" /\ u # "#" /\ (Kind4(o) \in {"n", "l"} \/ u = "not ") /\ (u \in {"not ", "not -"} => Kind4(o) \in {"l", "e"})
        e == CASE f = 0 -> u \o "(x" \o o \o "y)" [] f = 1 -> "(" \o u \o "x)" \o o \o "y" [] f = 2 -> "x" \o o \o "(" \o u \o "y)" [] f = 3 -> "(" \o u \o "(x))" \o o \o "z" [] OTHER -> u \o "((x)" \o o \o "(y))" \o o \o "z"
    IN IF rec /\ (u = "not " => f = 0) /\ (f = 4 => u # "not ") THEN "R" \o e
       ELSE IF num /\ (f = 4 => Fits(o, o) /\ u # "not ") THEN "N" \o e ELSE ""

\* ---- assignments: every two statements that set something, of all kinds of target and source
Targets == << "local l=", "local q=", "l=", "g=", "t.a=", "t[k]=", "t[\"a\"]=", "t.b=", "k=", "local l,q=5,", "g,l=5,", "t.a,g=5,", "l,t[k]=l,", "local g=", "_ENV.g=", "_ENV[\"g\"]=", "rawset(t,\"a\",(", "g+=", "t.a+=", "u.a=", "t=", "t[1]=", "t[#t+1]=", "t.c,t[2]=5," >>
Sources == << "1", "l", "g", "t.a", "t[k]", "t[\"a\"]", "u.a", "f()", "t:m()", "l+g", "({l}).x or 7", "_ENV.g", "rawget(t,\"a\")", "(f())", "function()return l end and l", "k==\"a\" and 8 or 9", "\"b\"", "nil", "#t", "unpack(t)", "count(t)", "t[1]", "-l", "next({[t]=1})==t and 3 or 4", "select(\"#\",unpack(t))", "add(t,3)", "rawlen(t)" >>
NAssign == Len(Targets) * Len(Sources) * Len(Targets) * Len(Sources)
Assign1(i, j) == LET t == Targets[i]  s == Sources[j] IN
  IF t = "k=" /\ s \notin {"\"b\"", "l", "g", "t.a"} THEN "" ELSE IF t = "t=" THEN (IF s = "u.a" THEN "t=u" ELSE IF s = "({l}).x or 7" THEN "t={a=l,m=m}" ELSE "")
  ELSE IF t \in {"g+=", "t.a+="} /\ s \in {"nil", "\"b\""} THEN ""
  ELSE IF t = "rawset(t,\"a\",(" THEN t \o s \o "))" ELSE t \o s
Assign(n) ==
  LET a == 1 + (n % Len(Targets))  n1 == n \div Len(Targets)
      b == 1 + (n1 % Len(Sources)) n2 == n1 \div Len(Sources)
      x == Assign1(a, b)  y == Assign1(1 + (n2 % Len(Targets)), 1 + (n2 \div Len(Targets)))
      sum(i, j) == Targets[i] \in {"g+=", "t.a+="} \/ Sources[j] = "l+g"
      odd(i, j) == Sources[j] \in {"\"b\"", "nil"} \/ Targets[i] = "k="
      c == 1 + (n2 % Len(Targets))  d == 1 + (n2 \div Len(Targets))
  IN IF x = "" \/ y = "" \/ (odd(a, b) /\ sum(c, d)) THEN "" ELSE x \o "\n" \o y

StepOf == atoi(IOEnv.VF_STEP)
StartOf == atoi(IOEnv.VF_START)
Init == /\ g = StartOf
Limit == atoi(IOEnv.VF_LIMIT)
All == CASE Kind = "binary" -> NBinary [] Kind = "stmts" -> NStmts [] Kind = "strings" -> NStrings [] Kind = "groups" -> NGroup [] Kind = "assign" -> NAssign
Total == IF Limit > 0 /\ Limit < All THEN Limit ELSE All
Next == /\ g < Total
        /\ IF Kind = "strings" THEN LET p == Str4(g) IN p = <<>> \/ PrintT("G " \o ToJson(p))
           ELSE LET p == CASE Kind = "binary" -> Binary(g) [] Kind = "groups" -> Group(g) [] Kind = "assign" -> Assign(g) [] OTHER -> Stmt2(g) IN p = "" \/ PrintT("G " \o ToJson(p))
        /\ g' = g + StepOf
Spec == Init /\ [][Next]_g
=============================================================================
