"""Generates PICO-8 Lua programs that run without errors and whose behaviour is observable, aimed at what the
   minifier, constant folder, renamer and reformatter transform.  Everything is driven by one random.Random."""

NAMES = ["a", "b", "c", "d", "x", "y", "i", "n", "t", "foo", "bar_1", "player", "hp", "_u", "e", "spr2", "total", "_", "k", "v"]
MEMBERS = ["x", "y", "hp", "next_one", "a", "val", "n", "size", "_p", "kind"]
STRS = ["", "a", "hi", "x1", "it's", 'say "q"', "tab\tx", "nl\nx", "back\\s", "]]", "12", "0x1", "a]]b]=]", "\0z", "\x7f\x80\xff", "end", "--c", "  "]

class Scope(dict):
    pass

class Gen:
    def __init__(m, r, consts=True, goto=True, meta=True, env=False, maxdepth=3, strs=True, shorts=True, const_hints=False, comments=True, dense=None, hard_locals=True):
        m.r = r
        m.scopes = [Scope()]      # locals: name -> type
        m.globals = {}
        m.fnlevel = 0
        m.barrier = [0]
        m.opt = dict(consts=consts, goto=goto, meta=meta, env=env, strs=strs, shorts=shorts, const_hints=const_hints, comments=comments, hard=hard_locals)
        m.loop = 0
        m.va = [False]
        m.budget = 60
        m.label = 0
        m.ro = set()              # names not to assign (loop counters of while loops)
        m.dense = r.random() < .3 if dense is None else dense

    # ---- names
    def pick(m, ty):
        c = [n for n, t in m.visible().items() if t == ty]
        return m.r.choice(c) if c else None
    def visible(m):
        v = dict(m.globals)
        for s in m.scopes: v.update(s)
        return v
    def fresh(m):
        # a name that may shadow, but never one of a global function or builtin in use
        while True:
            n = m.r.choice(NAMES)
            if m.visible().get(n, "") not in ("f1", "f2", "fv", "o"): return n
    def lvalue(m, ty):
        c = [n for n, t in m.visible().items() if t == ty and n not in m.ro and not n.startswith("K")]
        return m.r.choice(c) if c else None

    def ws(m):
        return "" if m.dense else m.r.choice(["", " ", " "])

    # ---- expressions
    def num(m):
        r = m.r
        k = r.random()
        if k < .5: return str(r.randrange(0, 12))
        if k < .6: return r.choice(["0.5", "1.5", ".25", "2.", "0x10", "0xf.8", "0b101", "0x7fff", "32767", "100", "1000", "0x1.0001", "255", "0xffff", "0x8000", "65535.5"])
        if k < .8: return "%d.%d" % (r.randrange(20), r.randrange(1000))
        return str(r.randrange(0, 300))

    def lit(m, s):
        r = m.r
        q = r.choice("\"'")
        out = []
        for ch in s:
            if ch == q or ch == "\\": out.append("\\" + ch)
            elif ch == "\n": out.append(r.choice(["\\n", "\\10", "\\x0a"]))
            elif ch == "\t": out.append("\\t")
            elif ch == "\0": out.append(r.choice(["\\0", "\\x00", "\\000"]))
            elif ord(ch) >= 127: out.append(r.choice([ch, "\\x%02x" % ord(ch), "\\%d" % ord(ch)]) if ch != "\x7f" else "\\127")
            else: out.append(ch)
        # a decimal escape must not run into a digit
        t = ""
        for i, o in enumerate(out):
            if o.startswith("\\") and o[1:].isdigit() and i + 1 < len(out) and out[i+1][:1].isdigit(): o = "\\" + o[1:].zfill(3)
            t += o
        if r.random() < .15 and "]]" not in s and not s.startswith("\n") and "\0" not in s and not s.endswith("]") and "\t" not in s:
            return "[[" + s + "]]"
        return q + t + q

    def par(m, e, p=.2):
        while m.r.random() < p: e = "(" + e + ")"; p *= .5
        return e

    def expr(m, ty, d=3):
        f = getattr(m, "e_" + ty)
        return m.par(f(d), .15)

    def e_n(m, d):
        r = m.r
        k = r.random()
        v = m.pick("n")
        if d <= 0 or k < .25:
            if v and r.random() < .6: return v
            return m.num()
        if k < .5:
            op = r.choice(["+", "-", "*", "+", "-", "*", "%", "\\", "/", "&", "|", "^^", "<<", ">>", ">>>", "<<>", ">><", "+"])
            a = m.expr("n", d - 1)
            if op in ("%", "\\", "/"): b = r.choice(["2", "3", "(" + m.num() + "|1)", "7"])
            elif op in ("<<", ">>", ">>>", "<<>", ">><"): b = str(r.randrange(0, 6))
            else: b = m.expr("n", d - 1)
            if r.random() < .25: a, b = (a, "(" + b + ")") if r.random() < .6 else ("(" + a + ")", b)
            if a.startswith("[") : a = " " + a
            if b[:1] in "-~" and not m.dense or b[:1] == "-": b = " " + b
            w = m.ws()
            if op == "-" and b.lstrip()[:1] == "-": w = " "
            return a + w + (op if op not in ("/",) or b[:1] != "/" else op + " ") + w + b
        if k < .58: return r.choice(["-", "- ", "~"]) + r.choice([m.num(), "(" + m.expr("n", d - 1) + ")", v or "3"])
        if k < .63: return "#" + r.choice([m.pick("t") or "{1,2}", "'abc'", "{" + m.expr("n", 0) + "," + m.expr("n", 0) + "}", "(" + m.expr("s", 1) + ")"])
        if k < .70: return m.call1(d)
        if k < .76:
            f = r.choice(["flr", "abs", "min", "max", "mid", "sgn", "ceil", "band", "bxor"])
            n = {"flr": 1, "abs": 1, "sgn": 1, "ceil": 1, "mid": 3}.get(f, 2)
            return f + "(" + ",".join(m.expr("n", d - 1) for _ in range(n)) + ")"
        if k < .84:
            t = m.pick("t")
            if t: return t + r.choice([".a", ".b", "[1]", "[2]", '["a"]' if False else ".a", "[ 1 ]", "[(1)]", "[1+1]"])
            return m.num()
        if k < .90:
            a, b = m.expr("n", d - 1), m.expr("n", d - 1)
            return m.expr("b", d - 1) + " and " + a + " or " + b
        if k < .94: return "(" + r.choice(["function() return " + m.expr("n", 1) + " end", "function(q) return q+" + m.num() + " end"]) + ")(" + m.expr("n", 1) + ")"
        if k < .97 and m.opt["strs"]: return r.choice(["ord(" + m.lit("A") + ")", "tonum('" + str(r.randrange(99)) + "')", "#tostr(" + m.expr("n", 1) + ")"])
        return "(" + m.expr("n", d - 1) + ")"

    def call1(m, d):
        """a call giving a number first"""
        r = m.r
        f = [(n, t) for n, t in m.visible().items() if t in ("f1", "f2", "fv", "o")]
        if not f: return "tap(" + m.expr("n", d - 1) + ")"
        n, t = r.choice(f)
        a = lambda: m.expr("n", d - 1)
        if t == "f1": return r.choice([f"{n}({a()})", f"{n}( {a()} )", f"tap({a()})"])
        if t == "f2": return f"{n}({a()},{a()})"
        if t == "fv": return f"{n}({','.join(a() for _ in range(r.randrange(4)))})"
        return r.choice([f"{n}:get({a()})", f"{n}:get(1)", f"{n}.get({n},{a()})", f"{n}:add2 " + "{" + a() + "}", f"{n}.val"])

    def multi(m, d=1):
        """an expression that may give several values"""
        r = m.r
        f = m.pick("fv") or "tap"
        k = r.random()
        if k < .5: return f"{f}({','.join(m.expr('n', d) for _ in range(r.randrange(1, 4)))})"
        if k < .7 and m.va[-1]: return "..."
        if k < .85: return f"({f}({m.expr('n', d)},{m.num()}))"
        return "unpack({" + ",".join(m.num() for _ in range(r.randrange(1, 4))) + "})"

    def e_s(m, d):
        r = m.r
        v = m.pick("s")
        k = r.random()
        if d <= 0 or k < .4: return v if v and r.random() < .5 else m.lit(r.choice(STRS))
        if k < .7: return m.expr("s", d - 1) + r.choice(["..", " .. "]) + m.expr("s", d - 1)
        if k < .8: return "tostr(" + m.expr("n", d - 1) + ")"
        if k < .9: return "sub(" + m.expr("s", d - 1) + "," + r.choice(["1", "2", "-2"]) + r.choice(["", ",3", ",-1"]) + ")"
        return "(" + m.expr("s", d - 1) + ")" + "..(" + m.expr("n", d - 1) + ")"

    def e_b(m, d):
        r = m.r
        v = m.pick("b")
        k = r.random()
        if d <= 0 or k < .2: return v if v and r.random() < .5 else r.choice(["true", "false"])
        if k < .55:
            a, b = m.expr("n", d - 1), m.expr("n", d - 1)
            if m.isbool(a): a = "(" + a + ")"
            if m.isbool(b): b = "(" + b + ")"
            return a + m.ws() + r.choice(["==", "!=", "~=", "<", ">", "<=", ">="]) + " " + b
        if k < .65: return "not " + r.choice([m.expr("b", 0), "(" + m.expr("b", d - 1) + ")"])
        if k < .85: return m.expr("b", d - 1) + r.choice([" and ", " or "]) + m.expr("b", d - 1)
        if k < .92: return m.expr("s", 1) + r.choice(["==", "!=", "<"]) + m.expr("s", 1)
        return "(" + m.expr("b", d - 1) + ")"
    def isbool(m, e): return " and " in e or " or " in e

    def e_t(m, d):
        r = m.r
        v = m.pick("t")
        if v and r.random() < .2: return v
        items = ["a" + m.ws() + "=" + m.ws() + m.expr("n", 1), "b=" + m.expr("n", 1), m.expr("n", 1), m.expr("n", 1)]
        if r.random() < .2: items.append("[" + r.choice(["3", "'zz'", "1.5"]) + "]=" + m.expr("n", 1))
        if r.random() < .3: items.append(m.multi())
        sep = r.choice([",", ",", ";", ", "])
        return "{" + m.ws() + sep.join(items) + r.choice(["", "", ",", ";"]) + "}"

    # ---- statements; each returns text; a trailing "\n" marks one that must end its line
    def stmt(m, d):
        r = m.r
        m.budget -= 1
        opts = ["local"] * 6 + ["assign"] * 6 + ["call"] * 4 + ["print"] * 4 + ["cassign"] * 2 + ["multi"] * 2 + ["field"] * 2
        if d > 0 and m.budget > 0:
            opts += ["if"] * 4 + ["sif"] * 3 + ["while", "swhile", "for", "for", "forin", "repeat", "do", "do"] + ["func"] * 2 + ["lfunc"] * 2 + ["closure"]
            if m.opt["goto"]: opts += ["goto"]
            if m.opt["meta"]: opts += ["meta", "obj"]
            if m.opt["consts"]: opts += ["dead", "kconst"]
            if m.opt["env"]: opts += ["env"]
        k = r.choice(opts)
        return getattr(m, "s_" + k)(d)

    def declare(m, n, ty): m.scopes[-1][n] = ty

    def s_local(m, d):
        r = m.r
        out = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            k = r.random()
            if k < .6:
                ty = r.choice(["n", "n", "n", "s", "b", "t"])
                n = m.fresh(); e = m.expr(ty, 2)
                out.append(f"local {n}{m.ws()}={m.ws()}{e}"); m.declare(n, ty)
            elif k < .8:
                ns, ts, es = [], [], []
                for _ in range(r.randrange(2, 4)):
                    ty = r.choice(["n", "n", "s", "b"])
                    ns.append(m.fresh()); ts.append(ty)
                es = [m.expr(t, 1) for t in ts]
                if len(set(ns)) != len(ns) and r.random() < .7: ns = [n + str(i) for i, n in enumerate(ns)]
                extra = ""
                if r.random() < .15: extra = "," + m.expr("n", 1)
                elif r.random() < .1: extra = ",tap(1)"
                out.append("local " + ",".join(ns) + "=" + ",".join(es) + extra)
                for n, t in zip(ns, ts): m.declare(n, t)
            elif k < .9:
                # declared first, assigned later
                n = m.fresh()
                out.append(f"local {n}"); m.declare(n, "m")
                if out[-2:-1] and out[-2].endswith(")"): out[-1] = "--[[$no-merge]]" + out[-1]
                if r.random() < .7:
                    out.append(f"{n}={m.expr('n', 1)}"); m.declare(n, "n")
            else:
                ns = [m.fresh() for _ in range(2)]
                if ns[0] == ns[1]: ns[1] += "9"
                out.append(f"local {ns[0]},{ns[1]}={m.multi()}")
                m.declare(ns[0], "m"); m.declare(ns[1], "m")
        return m.sep(out)

    def s_assign(m, d):
        r = m.r
        out = []
        for _ in range(r.choice([1, 1, 2, 3])):
            ty = r.choice(["n", "n", "n", "s", "b"])
            n = m.lvalue(ty)
            if not n or r.random() < .2:
                n = r.choice(NAMES) + "g"
                e = m.expr(ty, 2)
                if m.visible().get(n, ty) != ty: continue
                out.append(f"{n}={e}")
                if m.fnlevel == 0 and not m.loop and len(m.scopes) == 1: m.globals[n] = ty
            else:
                out.append(f"{n}{m.ws()}={m.ws()}{m.expr(ty, 2)}")
        return m.sep(out) or "tap()"

    def s_multi(m, d):
        r = m.r
        ns = [n for n, t in m.visible().items() if t == "n" and n not in m.ro and not n.startswith("K")]
        if len(ns) < 2: return m.s_print(d)
        a, b = r.sample(ns, 2)
        t = m.pick("t")
        k = r.random()
        if k < .4: return f"{a},{b}={b},{a}"
        if k < .7: return f"{a},{b}={m.expr('n', 1)},{m.expr('n', 1)}"
        if t: return f"{t}.a,{a}={m.expr('n', 1)},{t}.a"
        return f"{a},{b}=tap({m.expr('n', 0)},{m.num()}),{m.expr('n', 1)}"

    def s_cassign(m, d):
        r = m.r
        n = m.lvalue("n")
        op = r.choice(["+=", "-=", "*=", "&=", "|=", "^^=", "<<=", ">>=", "+=", "-="])
        if op in ("<<=", ">>="): e = str(r.randrange(4))
        elif r.random() < .2: op, e = r.choice(["%=", "\\=", "/="]), r.choice(["2", "3", "7"])
        else: e = m.expr("n", 2)
        t = m.pick("t")
        if t and r.random() < .4: return t + r.choice([".a", "[1]", ".b"]) + op + e
        s = m.lvalue("s")
        if s and r.random() < .2: return s + "..=" + m.expr("s", 1)
        if not n: return m.s_print(d)
        return n + m.ws() + op + m.ws() + e

    def s_field(m, d):
        r = m.r
        t = m.pick("t")
        if not t: return m.s_local(d)
        k = r.random()
        if k < .5: return t + r.choice([".a", ".b", "[1]", "[2]"]) + "=" + m.expr("n", 2)
        if k < .7: return m.sep([t + ".a=" + m.expr("n", 1), t + ".b=" + m.expr("n", 1)])
        if k < .8: return f"add({t},{m.expr('n', 1)})"
        return "(" + t + ").a=" + m.expr("n", 1)

    def s_call(m, d):
        r = m.r
        k = r.random()
        if k < .3: return "tap(" + ",".join(m.expr(r.choice(["n", "s", "b", "n"]), 2) for _ in range(r.randrange(0, 3))) + ")"
        if k < .4: return r.choice(["tap ", "tap", "print "]) + m.lit(r.choice(STRS))
        if k < .5: return "tap" + m.e_t(1) if False else "tap(" + "#" + "{" + m.num() + "})"
        if k < .6: return r.choice(["spr", "circfill", "btn"]) + "(" + m.expr("n", 1) + "," + m.multi() + ")"
        if k < .7: return "(" + r.choice(["tap", m.pick("fv") or "tap"]) + ")(" + m.expr("n", 1) + ")"
        if k < .8: return "(function(...) tap(...) end)(" + m.expr("n", 1) + "," + m.multi() + ")"
        c = m.call1(2)
        if c.endswith(")") or c.endswith("}"):
            if not c.startswith("("): return c
        return "tap(" + c + ")"

    def s_print(m, d):
        r = m.r
        k = r.random()
        if k < .6: return "print(" + m.expr(r.choice("nnsb"), 3) + ")"
        if k < .75:
            v = m.pick("m")
            return "print(" + (v or "nil") + ")"
        if k < .9 and m.opt["shorts"]: return "?" + m.expr(r.choice("nsb"), 2) + r.choice(["", "," + m.num()]) + "\n"
        return "print(" + m.expr("n", 1) + "," + m.num() + ")"

    def block(m, d, n=None, extra=None):
        m.scopes.append(Scope(extra or {}))
        out = [m.stmt(d - 1) for _ in range(n if n is not None else m.r.choice([0, 1, 1, 2, 2, 3]))]
        m.scopes.pop()
        t = m.sep(out)
        return t

    def end(m, b, e="end"):
        return b + ("" if b.endswith("\n") else m.r.choice([" ", "\n", " "])) + e

    def sep(m, out):
        """statements -> text"""
        r = m.r
        t = ""
        for s in out:
            if not s: continue
            if t and not t.endswith("\n"):
                if s.lstrip().startswith("("): t += r.choice([";", ";", "; ", ";\n"])
                else: t += r.choice([" ", "\n", " ", ";", "\n\n", "; "] if not m.dense else ["\n", " ", ";"])
                if m.opt["comments"] and r.random() < .06: t += r.choice(["--[[c]]", "-- note\n", "--[[ two\nlines ]] ", "// old\n"])
            elif t and s.lstrip().startswith("(") and not t.rstrip().endswith(";"): t += r.choice(["", ";"]) # (t ends with a one-line shorthand)
            t += s
        return t

    def s_if(m, d):
        r = m.r
        out = "if " + m.expr("b", 2) + " " + r.choice(["then", "then", "then\n"]) + " " + m.block(d)
        while r.random() < .2: out = m.end(out, "elseif ") + m.expr("b", 1) + " then " + m.block(d)
        if r.random() < .5: out = m.end(out, "else ") + m.block(d)
        return m.end(out)

    def oneline(m, d):
        """statements fit for a one-line shorthand"""
        r = m.r
        sv = m.dense
        m.scopes.append(Scope())
        out = []
        for _ in range(r.choice([1, 1, 2])):
            for _ in range(10):
                s = m.stmt(0).rstrip("\n")
                if "\n" not in s and "//" not in s and "-- " not in s: break
            else: s = "tap()"
            if s.startswith("?") and out: s = "tap(2)"
            if s.startswith("(") and out: out[-1] += ";"
            out.append(s)
            if s.startswith("?"): break
        m.scopes.pop()
        return " ".join(out)

    def cond(m):
        for _ in range(10):
            c = m.expr("b", 2)
            if "\n" not in c: return c
        return "true"

    def s_sif(m, d):
        r = m.r
        if not m.opt["shorts"]: return m.s_if(d)
        b = m.oneline(d)
        if b.startswith("do"): b = "tap() " + b
        if b.startswith("("): b = ";" + b
        t = "if (" + m.cond() + ") " + b
        if r.random() < .3 and "?" not in t: t += " else " + m.oneline(d)
        if m.loop and r.random() < .2: t = "if (" + m.cond() + ") break"
        return t + "\n"

    def s_while(m, d):
        n = "w" + str(m.label); m.label += 1
        m.loop += 1; m.ro.add(n)
        m.scopes.append(Scope({n: "n"}))
        b = m.block(d)
        if m.r.random() < .2: b = m.sep([b, "if " + m.expr("b", 1) + " then break end"])
        m.scopes.pop(); m.loop -= 1
        return m.end(f"local {n}=0 while {n}<{m.r.randrange(1, 4)} " + m.r.choice(["do ", "do\n"]) + f"{n}+=1 " + ("" if not b.startswith("(") else ";") + b)

    def s_swhile(m, d):
        if not m.opt["shorts"]: return m.s_while(d)
        n = "w" + str(m.label); m.label += 1
        m.ro.add(n); m.loop += 1
        b = m.oneline(d)
        m.loop -= 1
        return f"local {n}=0\nwhile ({n}<{m.r.randrange(1, 3)}) {n}+=1 " + (";" if b.startswith("(") else "") + b + "\n"

    def s_for(m, d):
        r = m.r
        n = r.choice(["i", "j", "x", "n"])
        m.loop += 1
        m.ro_add = None
        a, z, s = r.choice([("1", "3", ""), ("3", "1", ",-1"), ("1", "2", ",.5"), ("(1)", "(2)", ""), ("0", "0x2", ",1"), ("2", "1", ""), ("-1", "1", ",(1)")])
        b = m.block(d, extra={n: "n"})
        if r.random() < .2: b = m.sep([b, "if " + m.expr("b", 1) + " then break end"])
        m.loop -= 1
        return m.end(f"for {n}{m.ws()}={m.ws()}{a},{z}{s} do " + b)

    def s_forin(m, d):
        r = m.r
        m.loop += 1
        k = r.random()
        if k < .4: h, ex = "for v in all({1,2,3}) do ", {"v": "n"}
        elif k < .7: h, ex = "for k,v in ipairs{4,5} do ", {"k": "n", "v": "n"}
        elif k < .8: h, ex = "for k,v in next,{7} do ", {"k": "n", "v": "n"}
        elif k < .9: h, ex = "for k,v in pairs({9}) do ", {"k": "n", "v": "n"}
        else: h, ex = "for v in (all({6})) do ", {"v": "n"}
        b = m.block(d, extra=ex)
        m.loop -= 1
        return m.end(h + b)

    def s_repeat(m, d):
        n = "r" + str(m.label); m.label += 1
        m.loop += 1; m.ro.add(n)
        b = m.block(d)
        m.loop -= 1
        if m.r.random() < .5: c = f"done or {n}>={m.r.randrange(1, 3)}"; pre = m.sep([b, f"{n}+=1 local done={n}>1"])
        else: c = f"{n}>={m.r.randrange(1, 3)}"; pre = m.sep([b, f"{n}+=1"])
        return f"local {n}=0 repeat " + pre + m.r.choice([" ", "\n"]) + "until " + m.par(c)

    def s_do(m, d):
        return m.end("do " + m.block(d))

    def func(m, d, params, va=False, selfp=False):
        r = m.r
        sv = (m.loop, m.label)
        m.loop = 0; m.fnlevel += 1; m.va.append(va)
        ex = {p: "n" for p in params}
        if selfp: ex["self"] = "self"
        m.scopes.append(Scope(ex))
        out = [m.stmt(d - 1) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        if r.random() < .15: out.append("if (" + m.cond() + ") return " + m.num() + "\n")
        ret = r.choice(["return " + m.expr("n", 1) + "," + m.expr("n", 1), "return " + m.expr("n", 2), "return " + m.expr("n", 1) + "," + m.multi(), "return (" + m.expr("n", 1) + ")"])
        if r.random() < .1: ret += r.choice([";", " ;"])
        out.append(ret)
        b = m.sep(out)
        m.scopes.pop()
        m.loop, _ = sv; m.fnlevel -= 1; m.va.pop()
        return b

    def params(m, n):
        ps = []
        while len(ps) < n:
            p = m.fresh()
            if p not in ps: ps.append(p)
        return ps

    def s_func(m, d):
        r = m.r
        if m.fnlevel or len(m.scopes) > 1: return m.s_lfunc(d)
        ty = r.choice(["f1", "f2", "fv"])
        n = r.choice(["upd", "calc", "go_on", "f", "g", "h", "draw_it"])
        if n in m.visible() and m.visible()[n] != ty: return m.s_print(d)
        ps = m.params({"f1": 1, "f2": 2, "fv": 0}[ty])
        h = r.choice([f"function {n}(", f"{n}=function("]) + ",".join(ps + (["..."] if ty == "fv" else [])) + ")"
        b = m.func(d, ps, ty == "fv")
        if n not in m.visible(): m.globals[n] = ty
        return m.end(h + m.r.choice([" ", "\n"]) + b)

    def s_lfunc(m, d):
        r = m.r
        ty = r.choice(["f1", "f2", "fv"])
        n = r.choice(["lf", "lg", "helper", "q"])
        ps = m.params({"f1": 1, "f2": 2, "fv": 0}[ty])
        b = m.func(d, ps, ty == "fv")
        h = r.choice([f"local function {n}(", f"local {n}=function("]) + ",".join(ps + (["..."] if ty == "fv" else [])) + ") "
        m.declare(n, ty)
        return m.end(h + b)

    def s_closure(m, d):
        r = m.r
        c = "cnt" + str(r.randrange(3))
        f = "inc" + str(r.randrange(3))
        m.declare(c, "n"); m.declare(f, "fv"); m.ro.add(c)
        t = [f"local {c}={m.num()}", f"local {f}=function(...) {c}+=1 return {c},... end"]
        if r.random() < .5: t += [f"local z1={f}()", f"local z2={c}"]; m.declare("z1", "n"); m.declare("z2", "n")
        if r.random() < .5: t += [f"z3g={f}()", f"z4g={c}", "print(z3g..' '..z4g)"]
        return m.sep(t)

    def s_goto(m, d):
        r = m.r
        m.label += 1
        l = r.choice(["skip", "cont", "a", "lbl"]) + str(m.label)
        if r.random() < .5:
            # jump over statements without declaring locals in between
            return m.end("do " + m.sep(["do " + m.end(m.sep([m.block(d), f"goto {l}"])), "tap(99)", f"::{l}::"]))
        m.loop += 1
        b = m.block(d, 1)
        m.loop -= 1
        return m.end("for i=1,3 do " + m.sep(["do " + m.end(m.sep([b, "if " + m.expr("b", 1) + f" then goto {l} end", "tap(i)"])), f"::{l}::"]))

    def s_meta(m, d):
        r = m.r
        n = "mt" + str(r.randrange(2))
        m.declare(n, "x")
        op = r.choice([("__add", "+"), ("__sub", "-"), ("__mul", "*"), ("__concat", ".."), ("__div", "/")])
        return m.sep([f"local {n}=setmetatable({{z={m.num()}}},{{{op[0]}=function(p,q) tap({m.num()}) return {m.num()} end,__index=function(p,q) return {m.num()} end,__unm=function() return 3 end,__len=function() return 5 end,__call=function(s,w) return w end}})",
                      f"print({n}{op[1]}{r.choice(['1', n, '(2)'])})", f"print({n}.zz, #{n}, -{n}, {n}(4))"])

    def s_obj(m, d):
        r = m.r
        n = "obj" + str(r.randrange(2))
        if n in m.visible(): return m.s_print(d)
        m.declare(n, "o")
        t = [f"local {n}={{val={m.num()}}}", f"function {n}:get(w) self.val+=w or 1 return self.val end", f"function {n}.add2(self,w) return self.val+w[1] end"]
        if r.random() < .5: t.append(f"{n}.sub={{val=3}} function {n}.sub:get() return self.val end print({n}.sub:get())")
        return m.sep(t)

    def s_dead(m, d):
        r = m.r
        k = r.random()
        b1, b2 = m.block(d), m.block(d)
        if k < .3: return m.end(m.end("if " + r.choice(["true", "false", "nil", "1==1", "1>2", "not true", "not nil and 3"]) + " then " + b1, "else ") + b2)
        if k < .5: return m.end("if " + r.choice(["false", "1>2"]) + " then " + b1 + " ") if not b1.endswith("\n") else m.end("if false then " + b1)
        if k < .7: return m.end(m.end(m.end("if " + m.expr("b", 1) + " then " + b1, "elseif ") + r.choice(["true", "false", "1==2"]) + " then " + b2, "else ") + m.block(d))
        if k < .8 and m.opt["shorts"]: return "if (" + r.choice(["true", "false"]) + ") " + (m.oneline(d) if not m.oneline(d).startswith("do") else "tap()") .replace("\n", " ") + "\n" if False else "if (" + r.choice(["true", "false"]) + ") tap(" + m.num() + ")\n"
        if k < .9: return m.end("while false do " + b1)
        return "tap(" + r.choice(["true and ", "false or ", "nil or ", "1 and "]) + m.expr("n", 1) + ")"

    def s_kconst(m, d):
        """locals that may be treated as constants"""
        r = m.r
        n = "K" + r.choice("abc")
        ty = r.choice("nnsb")
        e = {"n": m.num(), "s": m.lit(r.choice(STRS)), "b": r.choice(["true", "false"])}[ty]
        if r.random() < .3 and ty == "n": e = m.num() + r.choice(["+", "*", "-", "&", "|"]) + m.num()
        h = ""
        if m.opt["const_hints"] and r.random() < .6: h = "--[[$const]] "
        m.declare(n, ty)
        return f"{h}local {n}={e}"

    def s_env(m, d):
        return m.end("do local _ENV={tap=tap,print=print,q=" + m.num() + "} " + "tap(q) ")

    def program(m, n=None):
        r = m.r
        pre = "function tap(...) print(...) return ... end"
        m.globals["gn"] = "n"; m.globals["gs"] = "s"
        out = [pre, "gn,gs=" + m.num() + "," + m.lit("s")]
        m.budget = r.choice([12, 20, 30, 45])
        for _ in range(n or r.randrange(3, 10)):
            out.append(m.stmt(3))
            if m.budget <= 0: break
        tail = []
        for nme, ty in list(m.visible().items()):
            if ty in "nsbm" and len(tail) < 12: tail.append(f"print({nme})")
        out += tail
        return m.sep(out)

def program(r, **kw):
    return Gen(r, **kw).program()
