"""Random programs whose scoping structure is what matters: they are never run."""
import os, re
GLYPH = ["\x80", "\x85", "\x8b", "\x99", "\x9a", "\xb0", "\xff", "\x1e", "\x1f\x1e", "a\x9a", "\x90"]
SHORT = list("abcdefghijklmnopqrstuvwxyz_") + ["A", "Z", "_0", "o1"]
BUILT = ["t", "min", "add", "sin", "print", "pairs", "all", "foo", "circfill", "mid", "time", "sub"]
SPECIAL = ["_init", "_update", "_draw", "_update60", "self", "n", "_ENV"]
MEMBERS = ["__index", "n", "x", "y", "x2", "print", "self", "_draw", "__add", "t"]
ESCAPES = [65, 200]

class Gen:
    def __init__(m, r, size=25, env=.1, hints=None):
        m.r = r
        pool = r.sample(SHORT, r.randrange(2, 7))
        pool += r.sample(BUILT, r.randrange(0, 4)) + ["v%d" % r.randrange(40) for _ in range(r.randrange(1, 12))]
        if r.random() < .25: pool += r.sample(GLYPH, 3)
        if r.random() < .5: pool += r.sample(SPECIAL[:6], 2)
        m.pool = pool
        m.mem = r.sample(pool, min(len(pool), r.randrange(2, 7))) + r.sample(MEMBERS, 3)
        m.env = env if r.random() < .4 else 0
        m.labels = list(dict.fromkeys(r.sample(pool, min(3, len(pool))) + ["continue"]))
        m.budget = size
        m.scopes = [[]]
        m.vis = [[]]
        m.fixed = None

    def ch(m, *a): return m.r.choice(a)
    def new(m):
        if m.r.random() < m.env * .5: return "_ENV"
        if m.r.random() < .3 and m.locs(): return m.r.choice(m.locs()) # shadowing
        return m.r.choice(m.pool)
    def locs(m): return [n for s in m.scopes for n in s]
    def var(m):
        l = m.locs()
        if l and m.r.random() < .55: return m.r.choice(l)
        if m.r.random() < m.env * .5: return "_ENV"
        return m.r.choice(m.pool)
    def member(m): return m.r.choice(m.mem) if m.r.random() < .8 else m.r.choice(m.pool)
    def lv(m):
        k = m.r.random()
        if k < .6: return m.var()
        if k < .9: return m.tab() + "." + m.member()
        return m.var() + "[" + m.expr(1) + "]"
    def tab(m): return "_ENV" if m.r.random() < m.env else m.var()
    def string(m):
        if m.fixed: return '"' + m.fixed + '"'
        return '"' + "".join(m.r.choice("abcdeforintx") for _ in range(m.r.randrange(0, 9))) + '"'

    def expr(m, d=0):
        k = m.r.random()
        if d > 3 or k < .45: return m.var()
        if k < .52: return m.ch("1", "0", "10", "2.5", "0x10", "true", "nil")
        if k < .58: return m.string()
        if k < .68: return m.tab() + "." + m.member()
        if k < .74: return m.var() + "(" + m.exprs(d + 1, 0) + ")"
        if k < .77: return m.var() + ":" + m.member() + "(" + m.exprs(d + 1, 0) + ")"
        if k < .87: return m.expr(d + 1) + m.ch("+", " .. ", "<", " and ", " or ", "==", "*") + m.expr(d + 1)
        if k < .89: return m.ch("not ", "-", "#") + m.var()
        if k < .95: return m.table(d)
        if m.budget > 0: return m.function("function", d)
        return "(" + m.var() + ")"
    def table(m, d):
        out = []
        for _ in range(m.r.randrange(0, 4)):
            out.append(m.ch(m.member() + "=" + m.expr(d + 2), "[" + m.expr(d + 2) + "]=" + m.expr(d + 2), m.expr(d + 2)))
        return "{" + m.ch(",", ";").join(out) + "}"
    def exprs(m, d, lo=1): return ",".join(m.expr(d + 1) for _ in range(m.r.choice([0, 1, 1, 2] if lo == 0 else [1, 1, 2, 3])))
    def function(m, head, d, selfed=False, own=None):
        if own is not None: m.scopes[-1].append(own)
        ps = [m.new() for _ in range(m.r.randrange(0, 4))]
        sv, m.vis = m.vis, []
        m.scopes.append(list(ps) + (["self"] if selfed else []))
        b = m.block(d + 1, own_scope=False, ret=True)
        m.scopes.pop()
        m.vis = sv
        return head + "(" + ",".join(ps + (["..."] if m.r.random() < .1 else [])) + ")" + b + " end"
    def block(m, d, n=None, own_scope=True, ret=False, loop=False):
        if own_scope: m.scopes.append([])
        labs = m.r.sample(m.labels, m.ch(0, 0, 0, 1, 1, 2)) if d < 5 else []
        m.vis.append(labs)
        n = n if n is not None else m.r.randrange(1, 5)
        out = [m.stat(d, loop) for _ in range(n)]
        for l in labs: out.insert(m.r.randrange(len(out) + 1), "::" + m.ch(l, " " + l) + "::")
        if ret and m.r.random() < .3: out.append("return " + m.exprs(d))
        elif loop and m.r.random() < .1: out.append("break")
        m.last = m.vis.pop()
        if own_scope: m.scopes.pop()
        return "\n" + "\n".join(out) + "\n"
    def oneline(m, f):
        b, m.budget = m.budget, 0
        try: return f()
        finally: m.budget = b
    def stat(m, d, loop=False):
        m.budget -= 1
        k = m.r.random()
        if d > 4 or m.budget < 0: k *= .5
        if k < .16: return m.lv() + "=" + m.expr()
        if k < .22: return m.lv() + "," + m.lv() + "=" + m.exprs(0)
        if k < .26: return m.lv() + m.ch("+=", "..=", "-=", "|=") + m.expr(1)
        if k < .38:
            ns = [m.new() for _ in range(m.ch(1, 1, 2, 3))]
            s = "local " + ",".join(ns) + (("=" + m.exprs(0)) if m.r.random() < .8 else "")
            m.scopes[-1] += ns
            return s
        if k < .46: return m.var() + "(" + m.exprs(1, 0) + ")"
        if k < .48: return m.var() + ":" + m.member() + "(" + m.exprs(1, 0) + ")"
        if k < .5: return m.oneline(lambda: "?" + m.exprs(1))
        if k < .56:
            vis = [l for v in m.vis for l in v]
            if vis: return "goto " + m.r.choice(vis)
            return m.var() + "()"
        if k < .63:
            n = m.new()
            if n == "_ENV": n = "f"
            return m.function("local function " + n, d, own=n)
        if k < .72:
            n = m.var()
            if m.r.random() < .5: n += "".join("." + m.member() for _ in range(m.ch(0, 1, 1, 2))); sf = False
            else: n += ":" + m.member(); sf = True
            return m.function("function " + n, d, selfed=sf)
        if k < .76: return "do" + m.block(d + 1) + "end"
        if k < .80: return "while " + m.expr(1) + " do" + m.block(d + 1, loop=True) + "end"
        if k < .84:
            m.scopes.append([]); b = m.block(d + 1, own_scope=False, loop=False); e = m.expr(1); m.scopes.pop()
            return "repeat" + b + "until " + e
        if k < .88:
            e = m.expr(2) + "," + m.expr(2) + ("," + m.expr(2) if m.r.random() < .3 else ""); n = m.new(); m.scopes.append([n]); b = m.block(d + 1, own_scope=False, loop=True); m.scopes.pop()
            return "for " + n + "=" + e + " do" + b + "end"
        if k < .93:
            e = m.exprs(1); ns = [m.new() for _ in range(m.ch(1, 2, 2, 3))]; m.scopes.append(ns); b = m.block(d + 1, own_scope=False, loop=True); m.scopes.pop()
            return "for " + ",".join(ns) + " in " + e + " do" + b + "end"
        if k < .95: return m.oneline(lambda: "if(" + m.expr(1) + ")" + m.var() + "=" + m.expr(2))
        s = "if " + m.expr(1) + " then" + m.block(d + 1)
        if m.r.random() < .3: s += "elseif " + m.expr(1) + " then" + m.block(d + 1)
        if m.r.random() < .4: s += "else" + m.block(d + 1)
        return s + "end"

def program(r, size=None):
    g = Gen(r, size or r.choice([8, 20, 40]))
    return g.block(0, n=r.randrange(3, 10), own_scope=False).strip("\n ") + "\n"

def listed(k):
    spec = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "P8Names.tla"), encoding="utf8").read()
    return re.findall('"([^"]+)"', re.search(k + r" == \{([^}]*)\}", spec)[1])
def special(r):
    """the names that mean something to PICO-8 (as P8Names.tla lists them), each as a global, a member and a key"""
    names = [n for k in ("Functions", "Callbacks", "Members", "Glyphs") for n in listed(k)]
    names = [re.sub("~(..)", lambda m: chr(int(m[1], 16)), n) for n in names]
    r.shuffle(names)
    out = []
    for k in range(0, len(names), 12):
        a = r.choice(["x", "self", "_ENV", "v1"])
        out.append("\n".join(r.choice([f"{n}(x)", f"{n}=x.{n}", f"{a}.{n}=2", f"y={{{n}=x,z=1}}", f"function x:{n}(z) {a}.{n}({n}) end",
                   f"do local {n}=x {n}(y.{n}) end", f"function {n}({n},z) return {n}.{n},z end"]) for n in names[k:k+12] for _ in range(2)) + "\n")
    return out

def many(r, n, skew, locals=True):
    """a program of n globals, members and locals, whose text makes the letters of skew the first choice for names"""
    names = ["w%d" % i for i in range(n)]
    r.shuffle(names)
    out = ['_="' + skew * 40 + '"', "print(t())"]
    k = 0
    while k < n:
        w = names[k:k + r.randrange(1, 6)]; k += len(w)
        c = r.random() * (1 if locals else .6)
        if c < .6: out.append(",".join(w) + "=" + ",".join("1" for _ in w))
        elif c < .8: out.append("q={" + ",".join(x + "=1" for x in w) + "}")
        else: out.append("do local " + ",".join(w) + " =" + ",".join(w) + " " + w[0] + "() end")
    return "\n".join(out) + "\n"
