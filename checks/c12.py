"""C12: constant folding gives the values PICO-8 would compute"""
import itertools
import vf, genlua
from checks import progs

# every value of a fixed-point number that an operation may treat specially, as literals
CORNERS = ["0", "1", "-1", "0.5", "-0.5", "0x.0001", "-0x.0001", "0x7fff.ffff", "0x8000", "0x8000.0001", "2", "3", "-3", "7", "10", "-10", "-3.25", "15", "16", "31", "32", "33", "-16", "-31", "-33",
           "181.5", "-181.25", "0x5555.5555", "0xaaaa.aaaa", "255", "256", "0x7fff", "0x8001", "0x0.8", "0b101.1", "1.99999", "12345.678", "32768", "-32767.5", "0x7ffe.8", "64", "100", "0.0001", "3.1416"]
BIN = ["+", "-", "*", "/", "\\", "%", "&", "|", "^^", "~", "<<", ">>", ">>>", "<<>", ">><", "==", "!=", "~=", "<", ">", "<=", ">=", "..", "and", "or"]
UN = ["-", "~", "not ", "#", "- -", "~-", "-~", "not not ", "- - -"]
FUNS = {"abs": 1, "ceil": 1, "flr": 1, "bnot": 1, "band": 2, "bor": 2, "bxor": 2, "lshr": 2, "max": 2, "min": 2, "rotl": 2, "rotr": 2, "shl": 2, "shr": 2, "mid": 3}
STRS = ["", "a", "b", "ab", "A", "10", "1e2", " ", "\\0", "\\n", "'", "\\\"", "\\x80\\xff", "\\1272", "zz\\0z", "0", "-5", "]]", "--"]
TAP = "function tap(...) for i,v in ipairs{...} do print(type(v),tostr(v,true)) end print(select('#',...)) return ... end\n"
VERSION = 42

def expr_items(r, n, count):
    """programs of count prints each, of constant expressions of one or two levels over the corner values"""
    pool = []
    for op in BIN:
        prs = list(itertools.product(CORNERS, CORNERS))
        pool += [f"({a}) {op} ({b})" if b[0] == "-" or r.random() < .5 else f"{a} {op} {b}" for a, b in prs]
    pool += [u + (" " if v[0] == "-" else "") + v for u in UN for v in CORNERS if u.strip() != "#"]
    for f, k in FUNS.items():
        if k < 3: pool += [f"{f}({','.join(a)})" for a in itertools.product(CORNERS, repeat=k)]
        else: pool += [f"{f}({','.join(r.choice(CORNERS) for _ in range(3))})" for _ in range(300)]
    for op in ["..", "==", "<", "<=", ">", ">=", "!=", "and", "or"]:
        pool += [f'"{a}" {op} "{b}"' for a in STRS for b in STRS]
        pool += [f'"{a}" .. {b}' for a in STRS for b in CORNERS if op == ".."]
        pool += [f'{b} .. "{a}"' for a in STRS for b in CORNERS if op == ".."]
    pool += [f'#"{a}"' for a in STRS] + [f'"{a}" == {b}' for a in STRS for b in ("0", "10", "nil", "true")]
    atoms = ["nil", "true", "false", "0", '""', "f()", "va()", "g", "{}", "..."]
    pool += [f"{a} {o} {b}" for a in atoms[:-1] for o in ("and", "or", "==", "!=") for b in atoms]
    pool += [f"{a} {o} {b} {q} {c}" for a in atoms[:5] for o in ("and", "or") for b in atoms[:9] for q in ("and", "or") for c in atoms[5:]]
    r.shuffle(pool)
    return pool[:n]

PRE = TAP + "local function f() return 5 end local function va() return 7,8,9 end g=3\nlocal function main(...)\n"
POST = "\nend main(11,12)"

def nested(r, d):
    """a random constant expression tree"""
    k = r.random()
    if d <= 0 or k < .15: return r.choice(CORNERS)
    if k < .65:
        op = r.choice(BIN[:15])
        a, b = nested(r, d - 1), nested(r, d - 1)
        if r.random() < .5: a = f"({a})"
        if r.random() < .5 or b[0] in "-~": b = f"({b})"
        return f"{a} {op} {b}"
    if k < .75: return r.choice(["-", "~", "-", "- "]) + f"({nested(r, d - 1)})"
    if k < .85:
        f = r.choice(list(FUNS))
        return f"{f}({','.join(nested(r, d - 1) for _ in range(FUNS[f]))})"
    return "(" + nested(r, d - 1) + ")"

def use(r, e):
    k = r.random()
    if k < .5: return f"tap({e})"
    if k < .6: return f"tap(1,{e})"
    if k < .7: return "tap(unpack{0," + e + "})"
    if k < .8: return f"do local q={e} tap(q) end"
    if k < .85: return f"do --[[$const]] local q={e} tap(q,q) end"
    if k < .9: return f";(function(...) return tap({e},nil) end)(...)"
    if k < .95: return "do local q,w=" + e + " tap(q,w) end"
    return f"if {e} then tap(1) else tap(2) end"

def scope_items(r, n):
    """constants in variables: declared, shadowed, captured, reassigned, in loops, across functions"""
    res = []
    for _ in range(n):
        out, lv = [], []
        def val(): return r.choice([r.choice(CORNERS), r.choice(CORNERS), r.choice(["true", "false", "nil"]), '"' + r.choice(STRS[:6]) + '"'] + lv)
        names = ["ka", "kb", "kc", "kd"]
        def decl(ind=""):
            nm = r.sample(names, r.choice([1, 1, 2, 3]))
            vs = [val() if r.random() < .8 else r.choice(["f()", "va()", "g", "..."]) for _ in range(r.choice([len(nm), len(nm), len(nm), max(0, len(nm) - 1), len(nm) + 1]))]
            h = "--[[$const]] " if r.random() < .3 else ""
            if h: vs = [v if v not in ("f()", "va()", "g", "...") else "6" for v in vs]; vs = vs[:len(nm)]
            s = h + "local " + ",".join(nm) + ("=" + ",".join(vs) if vs else "")
            for x in nm:
                if x not in lv: lv.append(x)
                if h: ro.add(x)
                else: ro.discard(x)
            return s
        ro = set()
        def blk(d):
            o = []
            sv = list(lv); sr = set(ro)
            for _ in range(r.choice([2, 3, 4])):
                k = r.random()
                w = [x for x in lv if x not in ro]
                if k < .3: o.append(decl())
                elif k < .5 and lv: o.append(f"tap({','.join(r.choice(lv) for _ in range(r.choice([1, 2])))})")
                elif k < .6 and w: o.append(f"{r.choice(w)}={val()}")
                elif k < .65 and lv: o.append(f"if {r.choice(lv)} then tap(1) elseif {r.choice(lv)}=={val()} then tap(2) else tap(3) end")
                elif k < .7 and lv and d: o.append(f"if {r.choice(lv + ['true', 'false'])} then " + blk(d - 1) + " end")
                elif k < .75 and d: o.append("do " + blk(d - 1) + " end")
                elif k < .8 and d: o.append("for i=1,2 do " + blk(d - 1) + " end")
                elif k < .85 and d: o.append("local function h(" + r.choice(["...", "ka,...", "kb,kc,..."]) + ") " + blk(d - 1) + " end h(4,5)")
                elif k < .9 and d: o.append("repeat " + blk(d - 1) + " until true")
                elif k < .93 and lv: o.append(f"while {r.choice(lv)} do tap({r.choice(lv)}) break end")
                elif k < .96: o.append("if (" + r.choice(lv + ["true", "false", "nil"]) + ") tap(4)" + r.choice(["", " else tap(5)"]) + "\n")
                else: o.append("tap(6)")
            lv[:] = sv; ro.clear(); ro.update(sr)
            return r.choice(["\n", "\n", " "]).join(o)
        body = blk(2) + "\n" + blk(2)
        res.append(PRE + body + POST)
    return res

OPTS = [["--minify-consts-only"], ["--minify"], ["--minify-safe-only", "--focus-tokens"], ["--minify", "--focus-chars"], ["--minify-safe-only", "--focus-compressed"], ["--minify-safe-only", "--no-minify-tokens"]]

def const_items(r, n):
    """--const/--str-const: (program given to the tool, program PICO-8 would have to run, options)"""
    res = []
    for _ in range(n):
        names = r.sample(["DEBUG", "SPEED", "VERS", "flag", "q", "Zz_1"], r.choice([1, 2, 3]))
        opts, defs, dflt = [], [], []
        for nm in names:
            if r.random() < .35:
                s = r.choice(["v1.2", "", "it's", 'a"b', "x y", "]]", "5", "true", "#", "a\\b"])
                opts += ["--str-const", nm, s]
                defs.append(nm + "=\"" + s.replace("\\", "\\\\").replace('"', '\\"') + '"')
            else:
                v = r.choice(["true", "false", "nil", "5", "2.5", "-5", "0x10", "~3", "-1.5", "'str'", "0b11", "-32768"])
                if v == "nil" and r.random() < .7: v = "1"
                opts += ["--const", nm, v]
                defs.append(f"{nm}={v}")
            if r.random() < .4: dflt.append(f"--[[$const]] {nm}={r.choice(['0.5', 'false', 'nil', '7'])}")
        body = []
        for _ in range(r.choice([3, 5, 8])):
            nm = r.choice(names)
            body.append(r.choice([f"tap({nm})", f"if {nm} then tap(1) end", f"if ({nm}) tap({nm}) else tap(2)\n", f"tap('x'..({nm} or '???'))", f"tap({nm}=={r.choice(['5', 'true', 'nil'])})",
                                  f"do local {nm}=9 tap({nm}) end", f"local function z({nm}) tap({nm}) end z(1) z()", f"t={{{nm}={nm}}} tap(t.{nm})", f"tap({nm} and f())", f"if not {nm} then tap(3) elseif {nm}==5 then tap(4) else tap(5) end",
                                  f"tap({nm}==true and 1 or 2)", f"x={nm} tap(x)", f"local y,{nm}_2={nm},{nm} tap(y,{nm}_2)", f"for {nm}=1,2 do tap({nm}) end"]))
        r.shuffle(dflt)
        res.append((PRE + "\n".join(dflt + body) + POST, PRE.replace("\nlocal function main", "\n" + " ".join(defs) + "\nlocal function main") + "\n".join(body) + POST, opts))
    return res

def run():
    chk = vf.Check("C12", "translation_validation",
        "constant expressions over corner values for every folded operator and builtin, random trees, constants in variables (hinted, shadowed, captured, reassigned), dead branches, command line constants; "
        "the real command line's folded output and the original are run by the TLA+ semantics (all 32 bits of numbers printed) and compared; non-trivial: distinct program and options")
    r = chk.rng("consts")
    items = []
    ex = expr_items(r, chk.scale(6000, 80000), 0)
    for i in range(0, len(ex), 40):
        items.append((PRE + "\n".join(use(r, e) for e in ex[i:i+40]) + POST, VERSION, r.sample(OPTS, 2)))
    for _ in range(chk.scale(50, 600)):
        items.append((PRE + "\n".join(use(r, nested(r, 3)) for _ in range(20)) + POST, VERSION, r.sample(OPTS, 2)))
    for s in scope_items(r, chk.scale(260, 4000)): items.append((s, VERSION, r.sample(OPTS, 3)))
    for _ in range(chk.scale(80, 1200)):
        items.append((genlua.program(r, const_hints=True), VERSION, r.sample(OPTS, 2)))
    for src in progs.CORPUS: items.append((src, VERSION, OPTS))
    counts = progs.run_cases(chk, items, "folding")
    if counts["ok"] < len(items) // 2: raise vf.Machinery(f"too few programs run: {counts}")
    # the reference for command line constants is the program with the declarations written into it
    citems = [(a, VERSION, [c + o for o in r.sample(OPTS, 2)], b) for a, b, c in const_items(r, chk.scale(80, 1500))]
    c2 = progs.run_cases(chk, citems, "--const")
    if c2["ok"] < len(citems) // 2: raise vf.Machinery(f"too few programs run: {c2}")
    chk.sample(items[0][0][-300:]); chk.sample(citems[0][3][-200:])
    return chk.finish()
