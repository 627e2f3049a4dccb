"""Turns a parsed program into the linear sequence of scope events that spec/Names.tla steps through.  An event:
   k kind, n name, x place, and for names the hints before them: h (global/member/preserve), keys (the same), ren (a new name)
   Kinds:
     open/close   a block of statements (x: its number)          fopen/fclose  a function body (gotos do not leave it)
     decl         a new local becomes visible                    use           an identifier used as a variable
     mem          a name after '.' or ':' or a constructor key (via: the event of the variable it is a key of, 0 if it is not
                  directly one; tab: that variable's name; own: the keys hint of the constructor it is in)
     lab/goto     a label (x: its block), a jump to it
     word         an identifier within a string that a hint says holds names
     #            anything else of the program's structure (x: what it is), which renaming may not touch
   Order is scoping order: a local's initialisers come before its decl, a repeat's condition before its close."""
import re
import p8lua

HINTS = {"$global": "global", "$member": "member", "$preserve": "preserve"}
def hint(cs):
    h = keys = ren = ""
    for c in cs:
        if c in HINTS: h = HINTS[c]
        elif c.endswith("-keys") and c[:-5] in HINTS: keys = HINTS[c[:-5]]
        elif c.startswith("$rename::"): ren = p8lua.nm(c[9:])
    return h, keys, ren

def name(s): return p8lua.nm("".join(map(chr, s)))

def events(prog, marks=None, lint=False):
    """lint: the events that spec/Lint.tla steps through, which say what is assigned (asg), what is declared together (grp), how parameters
       end (par) and the functions' names instead of the hints
       marks (for the output, which holds no hints): the strings that hold names, as the input's events tell"""
    ev = []
    blk, cur = [0], []
    fns = prog["fns"]
    strs, later = [0], [0]
    def put(k, n="", x="", **kw):
        if k == "close": cur.pop()
        cs = getattr(n, "cs", ())
        h, keys, ren = hint(cs) if cs else ("", "", "")
        e = dict(k=k, n=str(n), x=x)
        if lint: e.update(pos=getattr(n, "pos", -1))
        elif k in ("decl", "use", "mem", "word"): e.update(h=h, keys=keys, ren=ren, via=0, tab="", own="", pos=getattr(n, "pos", -1))
        e.update(kw)
        ev.append(e)
        if not lint: e.pop("asg", 0); e.pop("grp", 0); e.pop("par", 0); e.pop("hint", 0)
        elif k == "#": ev.pop()
        return len(ev)
    grp = [0]
    def group(): grp[0] += 1; return grp[0]
    def op(): blk[0] += 1; cur.append(str(blk[0])); put("open", "", cur[-1])
    def string(e):
        strs[0] += 1
        h, fmt = hint(e.get("cs", ()))[0], None
        for c in e.get("cs", ()):
            if c.startswith("$language::split "): fmt = c[17:]
        if marks is not None: h, fmt = marks.get(strs[0], ("", None))
        if fmt is not None or h in ("global", "member"):
            found[strs[0]] = (h, fmt)
            text = "".join(map(chr, e["s"]))
            parts = split(text, fmt) if fmt is not None else [(w, h if re.fullmatch(IDENT, w) and w not in p8lua.KEYWORDS else "") for w in re.split("(" + WORD + ")", text)]
            for w, kind in parts:
                if kind: put("word", p8lua.nm(w), "", h=kind)
                else: put("#", "", "text " + p8lua.nm(w))
        else: put("#", "", "str " + name(e["s"]))
    found = {}
    def block(b, scoped=True):
        if scoped: op()
        for s in b: stmt(s)
        if scoped: put("close")
    def func(i, shape, name="", meth=None):
        f = fns[i - 1]
        put("#", "", f"function {shape} {len(f['p'])} {f['va']}")
        put("fopen", name if lint else "", hint=[c for c in f.get("cs", ()) if "func::" in c]); op()
        g = group()
        for j, p in enumerate(f["p"]):
            if lint and meth is not None and j == 0: q = p8lua.Name("self"); q.pos = meth.pos; put("decl", q, par="self", grp=g, asg="")
            else: put("decl", p, par="last" if j + 1 == len(f["p"]) and not f["va"] else "mid", grp=g, asg="")
        block(f["b"], False)
        put("close"); put("fclose")
    def stmt(s):
        k = s["k"]
        if k == "label": put("lab", s["n"], cur[-1]); return
        if k == "goto": put("goto", s["n"]); return
        put("#", "", "stmt " + k)
        if k == "calls": expr(s["e"])
        elif k == "assign":
            put("#", "", f"assign {len(s['t'])} {len(s['e'])}")
            at = []
            for x in s["t"]: at.append(assigned(x, "="))
            for i, x in enumerate(s["e"]): expr(x, at[i] if i < len(at) and s["t"][i]["k"] == "name" else 0, target(s["t"], i))
        elif k == "cassign": put("#", "", s["op"]); assigned(s["t"], "op"); expr(s["e"])
        elif k == "ret":
            put("#", "", f"{len(s['e'])}")
            for x in s["e"]: expr(x)
        elif k == "do": block(s["b"])
        elif k == "if":
            put("#", "", f"if {len(s['c'])} {bool(s['e'])}")
            for c in s["c"]: expr(c["c"]); block(c["b"])
            block(s["e"])
        elif k == "while": expr(s["c"]); block(s["b"])
        elif k == "repeat":
            op(); block(s["b"], False); expr(s["c"]); put("close")
        elif k == "fornum":
            expr(s["a"]); expr(s["z"]); expr(s["s"]); op(); put("decl", s["n"], grp=group(), par="", asg=""); block(s["b"], False); put("close")
        elif k == "forin":
            put("#", "", f"forin {len(s['n'])} {len(s['e'])}")
            for x in s["e"]: expr(x)
            op()
            g = group()
            for n in s["n"]: put("decl", n, grp=g, par="", asg="")
            block(s["b"], False); put("close")
        elif k == "fn":
            assigned(s["t"], "fn")
            func(s["f"], "s", s["t"]["n"] if s["t"]["k"] == "name" else "", s["t"]["i"].get("mn") if fns[s["f"] - 1]["p"] and type(fns[s["f"] - 1]["p"][0]) is str and s["t"]["k"] != "name" else None)
        elif k == "localfn": put("decl", s["n"], grp=group(), par="", asg=""); func(s["f"], "l", s["n"])
        elif k == "local":
            put("#", "", f"local {len(s['n'])} {len(s['e'])}")
            later[0] += 1000
            u = later[0]
            for i, x in enumerate(s["e"]): expr(x, -u - i if i < len(s["n"]) else 0, str(s["n"][i]) if i < len(s["n"]) else "")
            g = group()
            at = [put("decl", n, grp=g, par="", asg="") for n in s["n"]]
            for e in ev: # (the declaration comes after the constructors assigned to it)
                if -u - 1000 < e.get("via", 0) <= -u: e["via"] = at[-u - e["via"]]
        elif k != "brk": raise ValueError(k)
    def assigned(x, how):
        return put("use", x["n"], asg=how) if x["k"] == "name" else expr(x)
    def target(ts, i):
        return ts[i]["n"] if i < len(ts) and ts[i]["k"] == "name" else ""
    def expr(e, via=0, tab=""):
        """via, tab: the variable a constructor is directly assigned to"""
        k = e["k"]
        if k == "name": return put("use", e["n"], asg="")
        if k == "idx":
            put("#", "", "idx"); v = expr(e["o"])
            if e["i"].get("mn"): put("mem", e["i"]["mn"], via=v if e["o"]["k"] == "name" else 0, tab=str(e["o"]["n"]) if e["o"]["k"] == "name" else "")
            else: expr(e["i"])
            return
        if k == "meth":
            put("#", "", f"meth {len(e['a'])}"); v = expr(e["o"]); put("mem", e["m"], via=v if e["o"]["k"] == "name" else 0, tab=str(e["o"]["n"]) if e["o"]["k"] == "name" else "")
            for x in e["a"]: expr(x)
            return
        if k == "call":
            put("#", "", f"call {len(e['a'])}"); expr(e["f"])
            for x in e["a"]: expr(x)
        elif k == "num": put("#", "", f"num {e['h']} {e['l']}")
        elif k == "str": string(e)
        elif k == "fn": func(e["i"], "e")
        elif k == "tab":
            put("#", "", f"tab {len(e['items'])}")
            for it in e["items"]:
                if it["t"] == "key":
                    if it["key"].get("mn"): put("mem", it["key"]["mn"], via=via, tab=tab, own=hint(e.get("cs", ()))[1])
                    else: put("#", "", "key"); expr(it["key"])
                else: put("#", "", "pos")
                expr(it["v"])
        elif k == "par": put("#", "", "par"); expr(e["e"])
        elif k == "un": put("#", "", "un " + e["op"]); expr(e["e"])
        elif k in ("and", "or"): put("#", "", k); expr(e["l"]); expr(e["r"])
        elif k == "bin": put("#", "", "bin " + e["op"]); expr(e["l"]); expr(e["r"])
        elif k in ("nil", "true", "false", "va"): put("#", "", k)
        else: raise ValueError(k)
    op()
    block(prog["b"], False)
    put("close")
    return ev, found

IDENT = "[A-Za-z_\x1e\x1f\x80-\xff][0-9A-Za-z_\x1e\x1f\x80-\xff]*"
WORD = "[0-9A-Za-z_\x1e\x1f\x80-\xff]+"

def parse_format(f):
    """the description of a string that is split: (separator, [(kind or description, is plural)])"""
    i = 0
    def rec():
        nonlocal i
        sep, items = None, []
        while i < len(f) and f[i] != ")":
            if f[i] == "(":
                i += 1; items.append([rec(), False]); i += 1
            elif f[i].isalpha():
                j = i
                while i < len(f) and f[i].isalpha(): i += 1
                w = f[j:i]
                if w == "s": items[-1][1] = True
                else: items.append([w.rstrip("s"), w.endswith("s")])
            else:
                if f[i] == "\\":
                    i += 1
                    if f[i] == "w": i += 1
                sep = f[i]; i += 1
        return (sep, items)
    return rec()

def split(text, fmt):
    """[(piece, kind or '')], separators included"""
    def rec(t, d):
        sep, items = d
        parts = t.split(sep)
        plural = [x for x in items if x[1]]
        first = next((j for j, x in enumerate(items) if x[1]), len(items))
        last = len(items) - first - len(plural)
        kinds = []
        for j in range(len(parts)):
            if j < first: kinds.append(items[j][0] if j < len(items) else "string")
            elif not plural: kinds.append("string")
            elif j >= len(parts) - last and len(parts) >= first + last: kinds.append(items[len(items) - (len(parts) - j)][0])
            else: kinds.append(plural[(j - first) % len(plural)][0])
        out = []
        for j, (p, k) in enumerate(zip(parts, kinds)):
            if j: out.append((sep, ""))
            if isinstance(k, tuple): out += rec(p, k)
            else: out.append((p, k if k in ("member", "global") and re.fullmatch(IDENT, p) and p not in p8lua.KEYWORDS else ""))
        return out
    return rec(text, parse_format(fmt))
