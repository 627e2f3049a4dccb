------------------------------- MODULE LuaSem -------------------------------
(* The meaning of PICO-8 Lua programs, as a state machine that runs programs given as
   syntax trees (lib/p8lua.py) one top-level statement per transition, and compares the
   observable behaviour of the programs of a case: what they print, every call of an
   API function with its arguments, and how they end.

   A case is [progs |-> <<original, variant, ..>>, names |-> <<labels>>]; the first program's
   behaviour is what every other one must show (C09, C12, C13).

   Values are tagged tuples: <<"nil">>, <<"b", BOOLEAN>>, <<"n", fixnum>>, <<"s", bytes>>,
   <<"t", table>>, <<"f", closure>>, <<"p", builtin>>, <<"x", API function>>, <<"it", all()-iterator>>.
   The machine's store st:  cells (local variables), tabs (tables), fns (closures), out
   (observations, newest last), err ("" while running normally), fuel, depth. *)
EXTENDS Fix32, TLC, Json, IOUtils

Data  == JsonDeserialize(IOEnv.VF_DATA)
Cases == Data.cases
Api   == Data.api           \* names (bytes) of functions that are only observed

VARIABLES ci, pi, pc, env, labs, st, exp, verdict, detail
vars == <<ci, pi, pc, env, labs, st, exp, verdict, detail>>

Nil == <<"nil">>
B(b) == <<"b", b>>
N(n) == <<"n", n>>
S(s) == <<"s", s>>
Truthy(v) == v[1] # "nil" /\ v # <<"b", FALSE>>
IsNil(v) == v[1] = "nil"
First(vs) == IF vs = <<>> THEN Nil ELSE vs[1]
Max0(n) == IF n < 0 THEN 0 ELSE n

MaxFuel == 1500
MaxDepth == 14

Fail(s, e) == IF s.err = "" THEN [s EXCEPT !.err = e] ELSE s
R(s, vs) == [s |-> s, v |-> vs]
RF(s, e) == R(Fail(s, e), <<Nil>>)

\* ---- tables: parallel sequences of keys and values (no nil values)
Find(t, k) == SelectInSeq(t.k, LAMBDA x : x = k)
RawGet(s, r, k) == LET t == s.tabs[r]  i == Find(t, k) IN IF i = 0 THEN Nil ELSE t.v[i]
RawSet(s, r, k, v) ==
  LET t == s.tabs[r]  i == Find(t, k) IN
  IF i = 0 THEN IF IsNil(v) THEN s ELSE [s EXCEPT !.tabs[r].k = Append(@, k), !.tabs[r].v = Append(@, v)]
  ELSE IF IsNil(v) THEN [s EXCEPT !.tabs[r].k = RemoveAt(@, i), !.tabs[r].v = RemoveAt(@, i)]
  ELSE [s EXCEPT !.tabs[r].v[i] = v]
\* the length: the last of 1..n without a gap
RECURSIVE Border(_, _)
Border(t, n) == IF Find(t, <<"n", (n + 1) * 65536>>) = 0 THEN n ELSE Border(t, n + 1)
LenT(t) ==  \* sequences are usually filled in order
  IF \A i \in 1..Len(t.k) : t.k[i] = <<"n", i * 65536>> THEN Len(t.k) ELSE Border(t, 0)
NewTab(s) == [s EXCEPT !.tabs = Append(@, [k |-> <<>>, v |-> <<>>, m |-> 0])]

\* ---- names as bytes
b_index == <<95,95,105,110,100,101,120>>
b_newindex == <<95,95,110,101,119,105,110,100,101,120>>
b_call == <<95,95,99,97,108,108>>
b_eq == <<95,95,101,113>>
b_lt == <<95,95,108,116>>
b_le == <<95,95,108,101>>
b_concat == <<95,95,99,111,110,99,97,116>>
b_len == <<95,95,108,101,110>>
b_unm == <<95,95,117,110,109>>
MetaName(op) == CASE op = "+" -> <<95,95,97,100,100>> [] op = "-" -> <<95,95,115,117,98>> [] op = "*" -> <<95,95,109,117,108>>
   [] op = "/" -> <<95,95,100,105,118>> [] op = "\\" -> <<95,95,105,100,105,118>> [] op = "%" -> <<95,95,109,111,100>>
   [] op = "^" -> <<95,95,112,111,119>> [] op = ".." -> b_concat [] OTHER -> <<95,95,63>>
MetaOf(s, v, n) == IF v[1] = "t" /\ s.tabs[v[2]].m # 0 THEN RawGet(s, s.tabs[v[2]].m, S(n)) ELSE Nil

\* ---- coercions
IsDigit(c) == c >= 48 /\ c <= 57
ToNum(v) == \* numbers, and strings holding plain whole numbers
  IF v[1] = "n" THEN v
  ELSE IF v[1] = "s" /\ Len(v[2]) \in 1..5 /\ \A i \in 1..Len(v[2]) : IsDigit(v[2][i])
       THEN N(FromInt(FoldLeft(LAMBDA a, c : (a * 10 + (c - 48)) % 65536, 0, v[2])))
  ELSE Nil
Str_nil == <<91,110,105,108,93>>
Str_true == <<116,114,117,101>>
Str_false == <<102,97,108,115,101>>
ToStr(v) == CASE v[1] = "s" -> v[2] [] v[1] = "n" -> FToStr(v[2]) [] v[1] = "nil" -> Str_nil
   [] v[1] = "b" -> (IF v[2] THEN Str_true ELSE Str_false)
   [] v[1] = "t" -> <<91,116,97,98,108,101,93>> [] OTHER -> <<91,102,117,110,99,93>>
CanCat(v) == v[1] \in {"s", "n"}
BytesLess(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      d == SelectInSeq([i \in 1..n |-> a[i] # b[i]], LAMBDA x : x)
  IN IF d = 0 THEN Len(a) < Len(b) ELSE a[d] < b[d]

Arith(op, x, y) ==
  CASE op = "+" -> FAdd(x, y) [] op = "-" -> FSub(x, y) [] op = "*" -> FMul(x, y) [] op = "/" -> FDiv(x, y)
    [] op = "\\" -> FIDiv(x, y) [] op = "%" -> FMod(x, y) [] op = "&" -> FAnd(x, y) [] op = "|" -> FOr(x, y) [] op = "^^" -> FXor(x, y)
    [] op = "<<" -> FShl(x, y) [] op = ">>" -> FShr(x, y) [] op = ">>>" -> FLshr(x, y) [] op = "<<>" -> FRotl(x, y) [] op = ">><" -> FRotr(x, y)
    [] OTHER -> \* "^": small whole exponents
       FoldLeft(LAMBDA a, i : FMul(a, x), ONE, [i \in 1..Whole(y) |-> i])

\* ---- programs and functions
Prelude == Data.prelude
NP == Len(Prelude.fns)
Prog == Cases[ci].progs[pi]
Fn(i) == IF i <= NP THEN Prelude.fns[i] ELSE Prog.fns[i - NP]

NewCell(s, v) == [s EXCEPT !.cells = Append(@, v)]
\* declare the locals ns with the values vs: <<store, environment>>
Declare(s, e, ns, vs) ==
  LET b == Len(s.cells)
      n == Len(ns)
      s1 == [s EXCEPT !.cells = @ \o [i \in 1..n |-> IF i <= Len(vs) THEN vs[i] ELSE Nil]]
  IN [s |-> s1, e |-> FoldLeft(LAMBDA x, i : (ns[i] :> (b + i)) @@ x, e, [i \in 1..n |-> i])]

RECURSIVE Eval(_, _, _), EvalM(_, _, _), EvalList(_, _, _), Call(_, _, _), Index(_, _, _), SetIndex(_, _, _, _), BinOp(_, _, _, _),
          Exec(_, _, _), Block(_, _, _), BlockFrom(_, _, _, _, _), Builtin(_, _, _), Loop(_, _, _)

One(r) == R(r.s, <<First(r.v)>>)
V1(r) == First(r.v)

Index(s, o, k) ==
  IF s.err # "" THEN R(s, <<Nil>>)
  ELSE IF o[1] = "t" THEN
     LET v == RawGet(s, o[2], k) IN
     IF ~IsNil(v) \/ s.tabs[o[2]].m = 0 THEN R(s, <<v>>)
     ELSE LET h == MetaOf(s, o, b_index) IN
          IF IsNil(h) THEN R(s, <<Nil>>)
          ELSE IF h[1] = "t" THEN Index(s, h, k)
          ELSE One(Call(s, h, <<o, k>>))
  ELSE IF o[1] = "s" THEN
     IF k[1] = "n" /\ IsWhole(k[2]) THEN LET i == Whole(k[2])  j == IF i < 0 THEN Len(o[2]) + 1 + i ELSE i IN
        R(s, <<IF j >= 1 /\ j <= Len(o[2]) THEN S(<<o[2][j]>>) ELSE Nil>>)
     ELSE R(s, <<Nil>>)
  ELSE RF(s, "index")

SetIndex(s, o, k, v) ==
  IF s.err # "" THEN s
  ELSE IF o[1] # "t" THEN Fail(s, "index")
  ELSE IF s.tabs[o[2]].m # 0 /\ IsNil(RawGet(s, o[2], k)) /\ ~IsNil(MetaOf(s, o, b_newindex)) THEN
     LET h == MetaOf(s, o, b_newindex) IN
     IF h[1] = "t" THEN SetIndex(s, h, k, v) ELSE Call(s, h, <<o, k, v>>).s
  ELSE IF IsNil(k) THEN Fail(s, "nil index")
  ELSE RawSet(s, o[2], k, v)

\* a free name is a member of whatever _ENV is
GetName(s, e, x) == IF x.n \in DOMAIN e THEN R(s, <<s.cells[e[x.n]]>>) ELSE Index(s, s.cells[e["_ENV"]], S(x.s))
SetName(s, e, x, v) == IF x.n \in DOMAIN e THEN [s EXCEPT !.cells[e[x.n]] = v] ELSE SetIndex(s, s.cells[e["_ENV"]], S(x.s), v)

Compare(s, op, x, y) ==   \* "<" and "<="
  IF x[1] = "n" /\ y[1] = "n" THEN R(s, <<B(IF op = "<" THEN x[2] < y[2] ELSE x[2] <= y[2])>>)
  ELSE IF x[1] = "s" /\ y[1] = "s" THEN R(s, <<B(IF op = "<" THEN BytesLess(x[2], y[2]) ELSE ~BytesLess(y[2], x[2]))>>)
  ELSE LET m == IF op = "<" THEN b_lt ELSE b_le
           h == IF IsNil(MetaOf(s, x, m)) THEN MetaOf(s, y, m) ELSE MetaOf(s, x, m)
       IN IF IsNil(h) THEN RF(s, "compare") ELSE LET r == Call(s, h, <<x, y>>) IN R(r.s, <<B(Truthy(V1(r)))>>)
Equal(s, x, y) ==
  IF x = y THEN R(s, <<B(TRUE)>>)
  ELSE IF x[1] = "t" /\ y[1] = "t" /\ s.tabs[x[2]].m # 0 THEN
     LET h == MetaOf(s, x, b_eq) IN IF IsNil(h) THEN R(s, <<B(FALSE)>>) ELSE LET r == Call(s, h, <<x, y>>) IN R(r.s, <<B(Truthy(V1(r)))>>)
  ELSE R(s, <<B(FALSE)>>)

BinOp(s, op, x, y) ==
  CASE s.err # "" -> R(s, <<Nil>>)
    [] op = "==" -> Equal(s, x, y)
    [] op = "~=" -> LET r == Equal(s, x, y) IN R(r.s, <<B(~Truthy(V1(r)))>>)
    [] op = "<" -> Compare(s, "<", x, y)
    [] op = "<=" -> Compare(s, "<=", x, y)
    [] op = ">" -> Compare(s, "<", y, x)
    [] op = ">=" -> Compare(s, "<=", y, x)
    [] op = ".." /\ CanCat(x) /\ CanCat(y) -> R(s, <<S(ToStr(x) \o ToStr(y))>>)
    [] OTHER ->
       LET a == IF op = ".." THEN Nil ELSE ToNum(x)
           b == IF op = ".." THEN Nil ELSE ToNum(y)
       IN IF ~IsNil(a) /\ ~IsNil(b) THEN
             IF op = "^" /\ (b[2] < 0 \/ ~IsWhole(b[2]) \/ b[2] > 16 * 65536) THEN RF(s, "unmodelled power")
             ELSE R(s, <<N(Arith(op, a[2], b[2]))>>)
          ELSE LET m == MetaName(op)
                   h == IF IsNil(MetaOf(s, x, m)) THEN MetaOf(s, y, m) ELSE MetaOf(s, x, m)
               IN IF IsNil(h) THEN RF(s, "arith") ELSE One(Call(s, h, <<x, y>>))

UnOp(s, op, x) ==
  CASE s.err # "" -> R(s, <<Nil>>)
    [] op = "not" -> R(s, <<B(~Truthy(x))>>)
    [] op = "-" -> LET a == ToNum(x) IN IF ~IsNil(a) THEN R(s, <<N(FNeg(a[2]))>>)
                   ELSE LET h == MetaOf(s, x, b_unm) IN IF IsNil(h) THEN RF(s, "arith") ELSE One(Call(s, h, <<x>>))
    [] op = "~" -> LET a == ToNum(x) IN IF IsNil(a) THEN RF(s, "arith") ELSE R(s, <<N(FNot(a[2]))>>)
    [] op = "#" -> IF x[1] = "s" THEN R(s, <<N(FromInt(Len(x[2])))>>)
                   ELSE IF x[1] # "t" THEN RF(s, "len")
                   ELSE LET h == MetaOf(s, x, b_len) IN IF IsNil(h) THEN R(s, <<N(FromInt(LenT(s.tabs[x[2]])))>>) ELSE One(Call(s, h, <<x>>))
    [] OTHER -> \* peeks (@ % $): memory is only observed
       R([s EXCEPT !.out = Append(@, <<"peek", op, ToStr(x)>>)], <<N(0)>>)

EvalM(s, e, x) ==
  IF s.err # "" THEN R(s, <<Nil>>) ELSE
  CASE x.k = "call" -> LET f == Eval(s, e, x.f)
                           a == EvalList(f.s, e, x.a)
                       IN Call(a.s, V1(f), a.v)
    [] x.k = "meth" -> LET o == Eval(s, e, x.o)
                           f == Index(o.s, V1(o), S(x.s))
                           a == EvalList(f.s, e, x.a)
                       IN Call(a.s, V1(f), <<V1(o)>> \o a.v)
    [] x.k = "va" -> R(s, s.cells[e["..."]][2])
    [] OTHER -> Eval(s, e, x)

EvalList(s, e, xs) ==
  LET n == Len(xs) IN
  IF n = 0 THEN R(s, <<>>)
  ELSE LET r == FoldLeft(LAMBDA a, i : LET q == Eval(a.s, e, xs[i]) IN R(q.s, Append(a.v, V1(q))), R(s, <<>>), [i \in 1..(n - 1) |-> i])
           l == EvalM(r.s, e, xs[n])
       IN R(l.s, r.v \o l.v)

Eval(s, e, x) ==
  IF s.err # "" THEN R(s, <<Nil>>) ELSE
  CASE x.k = "num" -> R(s, <<N(x.h * 65536 + x.l)>>)
    [] x.k = "str" -> R(s, <<S(x.s)>>)
    [] x.k = "name" -> GetName(s, e, x)
    [] x.k = "idx" -> LET o == Eval(s, e, x.o)  k == Eval(o.s, e, x.i) IN Index(k.s, V1(o), V1(k))
    [] x.k = "bin" -> LET l == Eval(s, e, x.l)  r == Eval(l.s, e, x.r) IN BinOp(r.s, x.op, V1(l), V1(r))
    [] x.k = "and" -> LET l == Eval(s, e, x.l) IN IF Truthy(V1(l)) THEN Eval(l.s, e, x.r) ELSE l
    [] x.k = "or" -> LET l == Eval(s, e, x.l) IN IF Truthy(V1(l)) THEN l ELSE Eval(l.s, e, x.r)
    [] x.k = "un" -> LET o == Eval(s, e, x.e) IN UnOp(o.s, x.op, V1(o))
    [] x.k = "par" -> Eval(s, e, x.e)
    [] x.k = "nil" -> R(s, <<Nil>>)
    [] x.k = "true" -> R(s, <<B(TRUE)>>)
    [] x.k = "false" -> R(s, <<B(FALSE)>>)
    [] x.k = "fn" -> R([s EXCEPT !.fns = Append(@, [p |-> IF s.pre THEN x.i ELSE x.i + NP, e |-> e])], <<<<"f", Len(s.fns) + 1>>>>)
    [] x.k = "tab" ->
       LET s1 == NewTab(s)
           t == Len(s1.tabs)
           n == Len(x.items)
           r == FoldLeft(LAMBDA a, i :
                  LET it == x.items[i] IN
                  IF it.t = "key" THEN
                     LET k == Eval(a.s, e, it.key)  v == Eval(k.s, e, it.v) IN
                     IF v.s.err # "" THEN [a EXCEPT !.s = v.s] ELSE IF IsNil(V1(k)) THEN [a EXCEPT !.s = Fail(v.s, "nil index")]
                     ELSE [s |-> RawSet(v.s, t, V1(k), V1(v)), n |-> a.n, p |-> a.p]
                  ELSE LET v == IF i = n THEN EvalM(a.s, e, it.v) ELSE One(Eval(a.s, e, it.v))
                       IN [s |-> v.s, n |-> a.n + Len(v.v), p |-> a.p \o v.v],
                [s |-> s1, n |-> 0, p |-> <<>>], [i \in 1..n |-> i])
           \* positional values are stored last
           s2 == FoldLeft(LAMBDA a, i : RawSet(a, t, N(FromInt(i)), r.p[i]), r.s, [i \in 1..Len(r.p) |-> i])
       IN R(s2, <<<<"t", t>>>>)
    [] OTHER -> One(EvalM(s, e, x))

\* ---- calls
Call(s, f, as) ==
  IF s.err # "" THEN R(s, <<Nil>>)
  ELSE IF s.fuel = 0 THEN RF(s, "fuel")
  ELSE IF f[1] = "f" THEN
     IF s.depth >= MaxDepth THEN RF(s, "depth")
     ELSE LET c == s.fns[f[2]]
              fn == Fn(c.p)
              s1 == [s EXCEPT !.fuel = @ - 1, !.depth = @ + 1]
              d == Declare(s1, c.e, fn.p, as)
              d2 == IF fn.va THEN Declare(d.s, d.e, <<"...">>, <<<<"m", SubSeq(as, Len(fn.p) + 1, Len(as))>>>>) ELSE d
              r == Block(d2.s, d2.e, fn.b)
          IN R([r.s EXCEPT !.depth = @ - 1], IF r.c[1] = "ret" THEN r.c[2] ELSE <<>>)
  ELSE IF f[1] = "p" THEN Builtin(s, f[2], as)
  ELSE IF f[1] = "x" THEN R([s EXCEPT !.out = Append(@, <<"api", f[2], [i \in 1..Len(as) |-> ToStr(as[i])]>>)],
                            <<N(FromInt(Len(s.out) % 4))>>)
  ELSE IF f[1] = "it" THEN   \* an iteration of all()
     LET q == s.its[f[2]]
         t == s.tabs[q.t]
         at(i) == RawGet(s, q.t, N(FromInt(i)))
         i0 == IF at(q.i) = q.prev THEN q.i + 1 ELSE q.i
         n == LenT(t)
         fresh == {i \in i0..n : ~IsNil(at(i))}
         i1 == IF fresh = {} THEN n + 1 ELSE CHOOSE i \in fresh : \A j \in fresh : i <= j
     IN R([s EXCEPT !.its[f[2]] = [t |-> q.t, i |-> i1, prev |-> at(i1)], !.fuel = @ - 1], <<at(i1)>>)
  ELSE LET h == MetaOf(s, f, b_call) IN IF IsNil(h) THEN RF(s, "call") ELSE Call([s EXCEPT !.fuel = @ - 1], h, <<f>> \o as)

Arg(as, i) == IF i <= Len(as) THEN as[i] ELSE Nil
NumArg(as, i) == LET v == ToNum(Arg(as, i)) IN IF IsNil(v) THEN 0 ELSE v[2]

Builtin(s, n, as) ==
  LET a1 == Arg(as, 1)  a2 == Arg(as, 2)  a3 == Arg(as, 3)
      n1 == NumArg(as, 1)  n2 == NumArg(as, 2)  n3 == NumArg(as, 3)
      num(x) == R(s, <<N(x)>>)
  IN
  CASE n = "print" -> R([s EXCEPT !.out = Append(@, <<"print", [i \in 1..Len(as) |-> ToStr(as[i])]>>)], <<>>)
    [] n = "flr" -> num(FFlr(n1)) [] n = "ceil" -> num(FCeil(n1)) [] n = "abs" -> num(FAbs(n1)) [] n = "sgn" -> num(FSgn(n1))
    [] n = "min" -> num(FMin(n1, n2)) [] n = "max" -> num(FMax(n1, n2)) [] n = "mid" -> num(FMid(n1, n2, n3))
    [] n = "band" -> num(FAnd(n1, n2)) [] n = "bor" -> num(FOr(n1, n2)) [] n = "bxor" -> num(FXor(n1, n2)) [] n = "bnot" -> num(FNot(n1))
    [] n = "shl" -> num(FShl(n1, n2)) [] n = "shr" -> num(FShr(n1, n2)) [] n = "lshr" -> num(FLshr(n1, n2))
    [] n = "rotl" -> num(FRotl(n1, n2)) [] n = "rotr" -> num(FRotr(n1, n2))
    [] n = "type" -> R(s, <<S(CASE a1[1] = "nil" -> <<110,105,108>> [] a1[1] = "n" -> <<110,117,109,98,101,114>> [] a1[1] = "s" -> <<115,116,114,105,110,103>>
                      [] a1[1] = "b" -> <<98,111,111,108,101,97,110>> [] a1[1] = "t" -> <<116,97,98,108,101>> [] OTHER -> <<102,117,110,99,116,105,111,110>>)>>)
    [] n = "tostr" -> R(s, <<S(IF as = <<>> THEN <<>> ELSE IF a1[1] = "n" /\ a2 \in {B(TRUE), N(ONE)} THEN FToHex(n1) ELSE ToStr(a1))>>)
    [] n = "tonum" -> R(s, <<ToNum(a1)>>)
    [] n = "sub" -> IF a1[1] # "s" THEN RF(s, "sub") ELSE
         LET l == Len(a1[2])
             i0 == IF Len(as) < 2 THEN 1 ELSE Whole(n2)
             j0 == IF Len(as) < 3 \/ IsNil(a3) THEN l ELSE Whole(n3)
             i == IF i0 < 0 THEN LET x == l + 1 + i0 IN IF x < 1 THEN 1 ELSE x ELSE IF i0 = 0 THEN 1 ELSE i0
             j == IF j0 < 0 THEN l + 1 + j0 ELSE IF j0 > l THEN l ELSE j0
         IN R(s, <<S(IF i > j THEN <<>> ELSE SubSeq(a1[2], i, j))>>)
    [] n = "ord" -> IF a1[1] # "s" THEN R(s, <<>>) ELSE LET i == IF Len(as) < 2 THEN 1 ELSE Whole(n2) IN
         IF i < 1 \/ i > Len(a1[2]) THEN R(s, <<>>) ELSE num(FromInt(a1[2][i]))
    [] n = "chr" -> R(s, <<S([i \in 1..Len(as) |-> Whole(NumArg(as, i)) % 256])>>)
    [] n = "rawget" -> IF a1[1] # "t" THEN RF(s, "rawget") ELSE R(s, <<RawGet(s, a1[2], a2)>>)
    [] n = "rawset" -> IF a1[1] # "t" \/ IsNil(a2) THEN RF(s, "rawset") ELSE R(RawSet(s, a1[2], a2, a3), <<a1>>)
    [] n = "rawequal" -> R(s, <<B(a1 = a2)>>)
    [] n = "rawlen" -> IF a1[1] # "t" THEN RF(s, "rawlen") ELSE num(FromInt(LenT(s.tabs[a1[2]])))
    [] n = "setmetatable" -> IF a1[1] # "t" \/ a2[1] \notin {"t", "nil"} THEN RF(s, "setmetatable")
         ELSE R([s EXCEPT !.tabs[a1[2]].m = IF IsNil(a2) THEN 0 ELSE a2[2]], <<a1>>)
    [] n = "getmetatable" -> R(s, <<IF a1[1] # "t" \/ s.tabs[a1[2]].m = 0 THEN Nil ELSE <<"t", s.tabs[a1[2]].m>>>>)
    [] n = "next" -> IF a1[1] # "t" THEN RF(s, "next") ELSE
         LET t == s.tabs[a1[2]]
             i == IF IsNil(a2) THEN 1 ELSE Find(t, a2) + 1
         IN IF i > Len(t.k) THEN R(s, <<Nil>>) ELSE R(s, <<t.k[i], t.v[i]>>)
    [] n = "pairs" -> IF a1[1] # "t" THEN RF(s, "pairs") ELSE R(s, <<<<"p", "next">>, a1, Nil>>)
    [] n = "ipairs" -> IF a1[1] # "t" THEN RF(s, "ipairs") ELSE R(s, <<<<"p", "inext">>, a1, N(0)>>)
    [] n = "inext" -> LET k == N(FAdd(n2, ONE))  v == Index(s, a1, k) IN IF IsNil(V1(v)) THEN R(v.s, <<Nil>>) ELSE R(v.s, <<k, V1(v)>>)
    [] n = "all" -> IF a1[1] # "t" THEN (IF IsNil(a1) THEN R(s, <<<<"p", "none">>>>) ELSE RF(s, "all"))
         ELSE R([s EXCEPT !.its = Append(@, [t |-> a1[2], i |-> 1, prev |-> Nil])], <<<<"it", Len(s.its) + 1>>>>)
    [] n = "none" -> R(s, <<Nil>>)
    [] n = "add" -> IF IsNil(a1) THEN R(s, <<Nil>>) ELSE IF a1[1] # "t" THEN RF(s, "add") ELSE
         LET l == LenT(s.tabs[a1[2]]) IN
         IF Len(as) < 3 THEN R(RawSet(s, a1[2], N(FromInt(l + 1)), a2), <<a2>>)
         ELSE LET at == Whole(n3)
                  s1 == FoldLeft(LAMBDA a, i : RawSet(a, a1[2], N(FromInt(l + 2 - i)), RawGet(a, a1[2], N(FromInt(l + 1 - i)))), s, [i \in 1..Max0(l + 1 - at) |-> i])
              IN R(RawSet(s1, a1[2], N(FromInt(at)), a2), <<a2>>)
    [] n = "del" -> IF a1[1] # "t" THEN R(s, <<>>) ELSE
         LET l == LenT(s.tabs[a1[2]])
             hits == {i \in 1..l : RawGet(s, a1[2], N(FromInt(i))) = a2}
         IN IF hits = {} THEN R(s, <<>>) ELSE Builtin(s, "deli", <<a1, N(FromInt(CHOOSE i \in hits : \A j \in hits : i <= j))>>)
    [] n = "deli" -> IF a1[1] # "t" THEN R(s, <<>>) ELSE
         LET l == LenT(s.tabs[a1[2]])
             i == IF Len(as) < 2 THEN l ELSE Whole(n2)
             v == RawGet(s, a1[2], N(FromInt(i)))
             s1 == FoldLeft(LAMBDA a, j : RawSet(a, a1[2], N(FromInt(j)), RawGet(a, a1[2], N(FromInt(j + 1)))), s, [j \in 1..Max0(l - i) |-> i + j - 1])
         IN IF i < 1 \/ i > l THEN R(s, <<>>) ELSE R(RawSet(s1, a1[2], N(FromInt(l)), Nil), <<v>>)
    [] n = "count" -> IF a1[1] # "t" THEN num(0) ELSE
         LET l == LenT(s.tabs[a1[2]]) IN IF Len(as) < 2 THEN num(FromInt(l))
         ELSE num(FromInt(Len(SelectSeq([i \in 1..l |-> RawGet(s, a1[2], N(FromInt(i)))], LAMBDA v : v = a2))))
    [] n = "unpack" -> IF a1[1] # "t" THEN RF(s, "unpack") ELSE R(s, [i \in 1..LenT(s.tabs[a1[2]]) |-> RawGet(s, a1[2], N(FromInt(i)))])
    [] n = "pack" -> LET s1 == NewTab(s)  t == Len(s1.tabs)
                         s2 == FoldLeft(LAMBDA a, i : RawSet(a, t, N(FromInt(i)), as[i]), s1, [i \in 1..Len(as) |-> i])
                     IN R(RawSet(s2, t, S(<<110>>), N(FromInt(Len(as)))), <<<<"t", t>>>>)
    [] n = "select" -> IF a1 = S(<<35>>) THEN num(FromInt(Len(as) - 1))
         ELSE LET i == Whole(n1) IN IF i < 0 THEN R(s, SubSeq(as, Len(as) + 1 + i, Len(as))) ELSE IF i = 0 THEN RF(s, "select") ELSE R(s, SubSeq(as, i + 1, Len(as)))
    [] OTHER -> RF(s, "builtin")

\* ---- statements: Exec gives the store, the environment afterwards and how control continues:
\*      <<"go">>, <<"brk">>, <<"goto", label>>, <<"ret", values>>
Go == <<"go">>
X(s, e, c) == [s |-> s, e |-> e, c |-> c]

\* store the values into evaluated targets, the last one first
Targets(s, e, ts) ==
  FoldLeft(LAMBDA a, i : LET x == ts[i] IN
     IF x.k = "idx" THEN LET o == Eval(a.s, e, x.o)  k == Eval(o.s, e, x.i) IN R(k.s, Append(a.v, <<V1(o), V1(k)>>))
     ELSE R(a.s, Append(a.v, <<>>)), R(s, <<>>), [i \in 1..Len(ts) |-> i])
Store(s, e, x, ref, v) == IF s.err # "" THEN s ELSE IF x.k = "idx" THEN SetIndex(s, ref[1], ref[2], v) ELSE SetName(s, e, x, v)

Exec(s, e, x) ==
  CASE x.k = "local" -> LET r == EvalList(s, e, x.e)  d == Declare(r.s, e, x.n, r.v) IN X(d.s, d.e, Go)
    [] x.k = "assign" ->
       LET t == Targets(s, e, x.t)
           r == EvalList(t.s, e, x.e)
           n == Len(x.t)
       IN X(FoldLeft(LAMBDA a, i : LET j == n + 1 - i IN Store(a, e, x.t[j], t.v[j], Arg(r.v, j)), r.s, [i \in 1..n |-> i]), e, Go)
    [] x.k = "cassign" ->
       LET t == Targets(s, e, <<x.t>>)
           old == IF x.t.k = "idx" THEN Index(t.s, t.v[1][1], t.v[1][2]) ELSE GetName(t.s, e, x.t)
           r == Eval(old.s, e, x.e)
           w == BinOp(r.s, x.op, V1(old), V1(r))
       IN X(Store(w.s, e, x.t, t.v[1], V1(w)), e, Go)
    [] x.k = "calls" -> X(EvalM(s, e, x.e).s, e, Go)
    [] x.k = "do" -> LET r == Block(s, e, x.b) IN X(r.s, e, r.c)
    [] x.k = "if" ->
       LET p == FoldLeft(LAMBDA a, i : IF a.i # 0 \/ a.s.err # "" THEN a ELSE
                  LET c == Eval(a.s, e, x.c[i].c) IN [s |-> c.s, i |-> IF Truthy(V1(c)) THEN i ELSE 0], [s |-> s, i |-> 0], [i \in 1..Len(x.c) |-> i])
           r == IF p.s.err # "" THEN X(p.s, e, Go) ELSE Block(p.s, e, IF p.i = 0 THEN x.e ELSE x.c[p.i].b)
       IN X(r.s, e, r.c)
    [] x.k = "ret" -> LET r == EvalList(s, e, x.e) IN X(r.s, e, <<"ret", r.v>>)
    [] x.k = "brk" -> X(s, e, <<"brk">>)
    [] x.k = "goto" -> X(s, e, <<"goto", x.n>>)
    [] x.k = "label" -> X(s, e, Go)
    [] x.k = "fn" -> LET f == Eval(s, e, [k |-> "fn", i |-> x.f])
                         t == Targets(f.s, e, <<x.t>>)
                     IN X(Store(t.s, e, x.t, t.v[1], V1(f)), e, Go)
    [] x.k = "localfn" -> LET d == Declare(s, e, <<x.n>>, <<>>)
                              f == Eval(d.s, d.e, [k |-> "fn", i |-> x.f])
                          IN X([f.s EXCEPT !.cells[d.e[x.n]] = V1(f)], d.e, Go)
    [] OTHER -> Loop(s, e, x)

\* the loops: a bounded number of iterations, each costing fuel
Iter(s, n) == [i \in 1..n |-> i]
After(r) == IF r.c[1] = "brk" THEN Go ELSE r.c
Stop(s) == s.err # "" \/ s.fuel = 0
Loop(s, e, x) ==
  CASE x.k = "while" ->
       LET r == FoldLeft(LAMBDA a, i : IF a.done THEN a ELSE
                  IF Stop(a.s) THEN [a EXCEPT !.done = TRUE, !.s = Fail(@, "fuel")] ELSE
                  LET c == Eval(a.s, e, x.c) IN
                  IF ~Truthy(V1(c)) \/ c.s.err # "" THEN [s |-> c.s, done |-> TRUE, c |-> Go] ELSE
                  LET b == Block([c.s EXCEPT !.fuel = @ - 1], e, x.b) IN
                  IF b.c = Go THEN [s |-> b.s, done |-> FALSE, c |-> Go] ELSE [s |-> b.s, done |-> TRUE, c |-> After(b)],
                [s |-> s, done |-> FALSE, c |-> Go], Iter(s, 40))
       IN X(IF r.done THEN r.s ELSE Fail(r.s, "fuel"), e, r.c)
    [] x.k = "repeat" ->  \* the condition sees the body's locals
       LET r == FoldLeft(LAMBDA a, i : IF a.done THEN a ELSE
                  IF Stop(a.s) THEN [a EXCEPT !.done = TRUE, !.s = Fail(@, "fuel")] ELSE
                  LET b == Block([a.s EXCEPT !.fuel = @ - 1], e, x.b) IN
                  IF b.c # Go THEN [s |-> b.s, done |-> TRUE, c |-> After(b)] ELSE
                  LET c == Eval(b.s, b.e, x.c) IN [s |-> c.s, done |-> Truthy(V1(c)) \/ c.s.err # "", c |-> Go],
                [s |-> s, done |-> FALSE, c |-> Go], Iter(s, 40))
       IN X(IF r.done THEN r.s ELSE Fail(r.s, "fuel"), e, r.c)
    [] x.k = "fornum" ->
       LET a0 == Eval(s, e, x.a)  z0 == Eval(a0.s, e, x.z)  p0 == Eval(z0.s, e, x.s)
           a == ToNum(V1(a0))  z == ToNum(V1(z0))  p == ToNum(V1(p0))
           r == FoldLeft(LAMBDA q, i : IF q.done THEN q ELSE
                  IF Stop(q.s) THEN [q EXCEPT !.done = TRUE, !.s = Fail(@, "fuel")] ELSE
                  IF ~(IF p[2] >= 0 THEN q.i <= z[2] ELSE q.i >= z[2]) THEN [q EXCEPT !.done = TRUE] ELSE
                  LET d == Declare([q.s EXCEPT !.fuel = @ - 1], e, <<x.n>>, <<N(q.i)>>)
                      b == Block(d.s, d.e, x.b)
                      nx == FAdd(q.i, p[2])
                  IN IF b.c = Go THEN [s |-> b.s, done |-> (p[2] >= 0 /\ nx < q.i) \/ (p[2] < 0 /\ nx > q.i), c |-> Go, i |-> nx]
                     ELSE [s |-> b.s, done |-> TRUE, c |-> After(b), i |-> nx],
                [s |-> p0.s, done |-> FALSE, c |-> Go, i |-> a[2]], Iter(s, 40))
       IN IF p0.s.err # "" \/ IsNil(a) \/ IsNil(z) \/ IsNil(p) THEN X(Fail(p0.s, "for"), e, Go)
          ELSE X(IF r.done THEN r.s ELSE Fail(r.s, "fuel"), e, r.c)
    [] OTHER -> \* forin
       LET g == EvalList(s, e, x.e)
           r == FoldLeft(LAMBDA q, i : IF q.done THEN q ELSE
                  IF Stop(q.s) THEN [q EXCEPT !.done = TRUE, !.s = Fail(@, "fuel")] ELSE
                  LET vs == Call(q.s, Arg(g.v, 1), <<Arg(g.v, 2), q.i>>) IN
                  IF IsNil(V1(vs)) \/ vs.s.err # "" THEN [q EXCEPT !.done = TRUE, !.s = vs.s] ELSE
                  LET d == Declare([vs.s EXCEPT !.fuel = @ - 1], e, x.n, vs.v)
                      b == Block(d.s, d.e, x.b)
                  IN IF b.c = Go THEN [s |-> b.s, done |-> FALSE, c |-> Go, i |-> V1(vs)]
                     ELSE [s |-> b.s, done |-> TRUE, c |-> After(b), i |-> Nil],
                [s |-> g.s, done |-> FALSE, c |-> Go, i |-> Arg(g.v, 3)], Iter(s, 40))
       IN IF g.s.err # "" THEN X(g.s, e, Go) ELSE X(IF r.done THEN r.s ELSE Fail(r.s, "fuel"), e, r.c)

HasLabel(b, n) == \E i \in 1..Len(b) : b[i].k = "label" /\ b[i].n = n
LabelAt(b, n) == CHOOSE i \in 1..Len(b) : b[i].k = "label" /\ b[i].n = n
\* labs: the environment at each label passed so far (a jump back drops the locals declared since)
NoLabs == [x \in {} |-> 0]
BlockFrom(s, e, b, from, ls) ==
  LET r == FoldLeft(LAMBDA a, i : IF a.c # Go \/ a.s.err # "" THEN a ELSE
             LET q == Exec(a.s, a.e, b[i]) IN
             [s |-> q.s, e |-> q.e, c |-> q.c, ls |-> IF b[i].k = "label" THEN (b[i].n :> a.e) @@ a.ls ELSE a.ls],
           [s |-> s, e |-> e, c |-> Go, ls |-> ls], [i \in 1..(Len(b) + 1 - from) |-> from + i - 1])
  IN IF r.c[1] = "goto" /\ r.s.err = "" /\ HasLabel(b, r.c[2]) THEN
        IF r.s.fuel = 0 THEN X(Fail(r.s, "fuel"), e, Go)
        ELSE BlockFrom([r.s EXCEPT !.fuel = @ - 1], IF r.c[2] \in DOMAIN r.ls THEN r.ls[r.c[2]] ELSE r.e, b, LabelAt(b, r.c[2]), r.ls)
     ELSE X(r.s, r.e, r.c)
Block(s, e, b) == BlockFrom(s, e, b, 1, NoLabs)

\* ---- the machine
BuiltinNames == Data.builtins     \* <<name, bytes>> pairs
Globals ==
  [k |-> [i \in 1..(Len(BuiltinNames) + Len(Api)) |-> IF i <= Len(BuiltinNames) THEN S(BuiltinNames[i][2]) ELSE S(Api[i - Len(BuiltinNames)][2])],
   v |-> [i \in 1..(Len(BuiltinNames) + Len(Api)) |-> IF i <= Len(BuiltinNames) THEN <<"p", BuiltinNames[i][1]>> ELSE <<"x", Api[i - Len(BuiltinNames)][1]>>],
   m |-> 0]
Start == [cells |-> <<<<"t", 1>>>>, tabs |-> <<Globals>>, fns |-> <<>>, its |-> <<>>, out |-> <<>>, err |-> "", fuel |-> MaxFuel, depth |-> 0, pre |-> TRUE]
Env0 == "_ENV" :> 1
\* the builtins written in Lua itself (foreach, ..) are defined once
Boot == [Block(Start, Env0, Prelude.b).s EXCEPT !.pre = FALSE, !.fuel = MaxFuel]

Init == /\ ci \in 1..Len(Cases)
        /\ pi = 1 /\ pc = 1 /\ env = Env0 /\ labs = NoLabs /\ st = Boot
        /\ exp = [out |-> <<>>, err |-> ""] /\ verdict = "" /\ detail = ""

TopStep ==
  /\ verdict = "" /\ pc <= Len(Prog.b) /\ st.err = ""
  /\ LET x == Prog.b[pc]
         q == Exec(st, env, x)
         ls == IF x.k = "label" THEN (x.n :> env) @@ labs ELSE labs
         jump == q.c[1] = "goto"
     IN /\ st' = IF jump THEN (IF ~HasLabel(Prog.b, q.c[2]) THEN Fail(q.s, "no label") ELSE IF q.s.fuel = 0 THEN Fail(q.s, "fuel") ELSE [q.s EXCEPT !.fuel = @ - 1]) ELSE q.s
        /\ labs' = ls
        /\ env' = IF jump /\ q.c[2] \in DOMAIN ls THEN ls[q.c[2]] ELSE q.e
        /\ pc' = IF q.c[1] = "ret" THEN Len(Prog.b) + 1
                 ELSE IF jump /\ HasLabel(Prog.b, q.c[2]) THEN LabelAt(Prog.b, q.c[2]) ELSE pc + 1
  /\ UNCHANGED <<ci, pi, exp, verdict, detail>>

Finished == pc > Len(Prog.b) \/ st.err # ""
NProgs == Len(Cases[ci].progs)
FirstDiff(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                       d == SelectInSeq([i \in 1..n |-> a[i] # b[i]], LAMBDA x : x)
                   IN IF d = 0 THEN n + 1 ELSE d
ObsAt(o, i) == IF i <= Len(o) THEN ToString(o[i]) ELSE "nothing"
\* programs the model cannot run (too long, an error in the original) decide nothing
EndProg ==
  /\ verdict = "" /\ Finished
  /\ LET o == [out |-> st.out, err |-> st.err] IN
     IF pi = 1 THEN
        IF st.err # "" THEN /\ verdict' = "skip" /\ detail' = st.err /\ UNCHANGED <<pi, exp>>
        ELSE /\ exp' = o /\ pi' = (IF NProgs = 1 THEN 1 ELSE 2) /\ verdict' = (IF NProgs = 1 THEN "ran" ELSE "") /\ detail' = (IF NProgs = 1 THEN ToString(st.out) ELSE "")
     ELSE IF o = exp THEN
        /\ verdict' = (IF pi = NProgs THEN "ok" ELSE "")
        /\ pi' = IF pi = NProgs THEN pi ELSE pi + 1
        /\ UNCHANGED <<exp, detail>>
     ELSE /\ verdict' = "differs"
          /\ detail' = Cases[ci].names[pi] \o ": " \o (IF st.err # "" THEN "error " \o st.err \o " " ELSE "")
                       \o ObsAt(st.out, FirstDiff(st.out, exp.out)) \o " instead of " \o ObsAt(exp.out, FirstDiff(st.out, exp.out))
          /\ UNCHANGED <<pi, exp>>
  /\ pc' = 1 /\ env' = Env0 /\ labs' = NoLabs /\ st' = Boot
  /\ UNCHANGED ci

Report == /\ verdict \notin {"", "reported"}
          /\ PrintT("V " \o ToString(ci) \o " " \o verdict \o " " \o detail)
          /\ verdict' = "reported"
          /\ UNCHANGED <<ci, pi, pc, env, labs, st, exp, detail>>
Next == TopStep \/ EndProg \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
