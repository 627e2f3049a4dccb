"""C15: lint's warnings"""
import os, re
import vf, p8, p8lua, gennames, names as scopes
from checks import names

KINDS = [("Identifier '(.+)' not found.*", "undefined"), ("Built-in global '(.+)' assigned.*", "builtin-assigned"),
         ("Local '(.+)' has the same name as a global", "duplicate-global"), ("Local '(.+)' has the same name as a built-in global.*", "duplicate-builtin"),
         ("Local '(.+)' has the same name as a local .*top level", "duplicate-top"), ("Local '(.+)' has the same name as a local .*parent function", "duplicate-func"),
         ("Local '(.+)' has the same name as a local .* scope", "duplicate-scope"),
         ("Label '(.+)' has the same name as a label .*top level", "label-top"), ("Label '(.+)' has the same name as a label .*parent function", "label-func"),
         ("Label '(.+)' has the same name as a label .* scope", "label-scope"),
         ("Local '(.+)' is only ever assigned.*", "assigned-local"), ("Local '(.+)' isn't used", "unused-local"),
         ("Label '(.+)' isn't used", "unused-label"), ("Global '(.+)' is.*", "unused-global")]
OFF = ["unused", "unused-global", "duplicate", "duplicate-global", "undefined"]

def lint(item):
    src, opts = item[:2]
    for f in os.listdir("."): os.unlink(f)
    p8.write_p8("a.p8", [ord(c) for c in src], version=43)
    st, out, err = vf.run_cli(["a.p8", "b.p8", "--lint"] + opts, timeout=60)
    return dict(rc=st if isinstance(st, int) else -1, out=out, err=str(st) + err[-300:], written=os.path.exists("b.p8"))

def raw(name):
    """names are printed as they are stored"""
    return p8lua.nm(name) if all(ord(c) < 256 for c in name) else names.nm(name)

def read(out):
    """what was printed: [kind, name, tab, line]"""
    res = []
    for l in out.split("\n"):
        m = re.fullmatch(r".*?a\.p8:(\d+):\d+: (.*)", l) or re.fullmatch(r".*?a\.p8 \(tab ([0-9A-F]), line (\d+), col \d+\): (.*)", l)
        if not m: continue
        tab, line, msg = (0, int(m[1]), m[2]) if len(m.groups()) == 2 else (int(m[1], 16), int(m[2]), m[3])
        for rx, kind in KINDS:
            k = re.fullmatch(rx, msg)
            if k: res.append([kind, raw(k[1]), tab, line]); break
        else: res.append(["?", raw(msg), tab, line])
    return res

def record(item, o):
    src, opts, extra = item
    prog = p8lua.parse([ord(c) for c in src], 43)
    ev, _ = scopes.events(prog, lint=True)
    out = []
    for e in ev:
        x = dict(k=e["k"], n=e["n"], x=e["x"], line=1 + src.count("\n", 0, max(e["pos"], 0)))
        for k in ("asg", "grp", "par"):
            if k in e: x[k] = e[k]
        if e["k"] == "fopen": x["kind"] = "".join(re.findall(r"func::(\w+)", " ".join(e["hint"])))
        out.append(x)
    hints = [w for c in re.findall(r"--\$?lint:([^\n]*)", src) + re.findall(r"--\[\[\$lint:([^\]]*)\]\]", src) for w in re.split(r"[\s,]+", c) if w] + extra.get("globals", [])
    tabs = [1] + [i + 2 for i, l in enumerate(src.split("\n")) if l == "-->8"]
    return dict(ev=out, globals=[names.nm8(w) for w in hints if "::" not in w], used=[names.nm8(w[6:]) for w in hints if w.startswith("used::")],
                builtin=extra.get("builtin", []), notbuiltin=extra.get("notbuiltin", []), off=extra["off"], tabs=tabs, first=4,
                tabbed=extra["tabbed"], nofail=extra["nofail"], rc=o["rc"], written=o["written"], said=read(o["out"]))

class Gen(gennames.Gen):
    def function(m, head, d, **kw):
        return (m.ch("--[[$lint: func::_init]]", "--[[$lint: func::_init, used::%s]]" % m.word(), "--[[$lint: func::other]]") if m.r.random() < .12 else "") + super().function(head, d, **kw)
    def word(m): return m.r.choice([w for w in m.pool if re.fullmatch(r"\w+", w, re.A)] or ["x"])
    def new(m):
        n = super().new()
        return "q" if n in ("_init", "_ENV") else "_" if m.r.random() < .06 else n

def item(r):
    g = Gen(r, r.choice([5, 12, 25]), env=0)
    g.pool += r.sample(["_tmp", "_x", "count_up", "_init", "_update"], 2)
    g.labels = list(dict.fromkeys(g.labels + ["_", "_l"]))
    src = g.block(0, n=r.randrange(2, 8), own_scope=False).strip("\n ") + "\n"
    if r.random() < .3:
        src += r.choice(["function _init()\n", "do function _init()\n", "function _update()\n"])
        src += g.block(1, n=3).strip("\n ") + "\nend" + (" end\n" if "do function _init()\n" in src[-400:] and src.count("do function _init()") else "\n")
    if r.random() < .12: # (only a function of the program itself is PICO-8's _init)
        a, b = r.choice([("function %s()\n", "end\n"), ("local function %s()\n", "end\n"), ("%s=function()\n", "end\n"), ("for %s=1,2 do\n", "end\n"), ("function _init()\n--%s\n", "end\n")])
        src += a % r.choice(["f", "_init", g.word()]) + r.choice(["function _init()\n", "function _init()\n", "local function _init()\n", "function t._init()\n", "function t:_init()\n"]) + g.block(2, n=3).strip("\n ") + "\nend\n" + b
    for _ in range(r.choice([0, 0, 1, 2])):
        w = r.choice([", ", " ", ","]).join(r.choice(["", "", "used::"]) + g.word() for _ in range(r.randrange(1, 4)))
        src = r.choice([lambda: "--$lint: " + w + "\n" + src, lambda: src + "--lint:" + w + "\n", lambda: "--[[$lint: " + w + "]]" + src])()
    if r.random() < .5: # tabs, blank lines
        ls, out = src.rstrip("\n").split("\n"), []
        for i, l in enumerate(ls):
            out.append(l)
            if 0 < i < len(ls) - 1 and r.random() < .25 and out.count("-->8") < 12 and l.strip() and ls[i + 1].strip(): out += r.choice([["-->8"], [""], ["-- note"], ["", "-->8"], ["--[[", "two]]"]])
        src = "\n".join(out) + "\n"
    extra = dict(off=r.sample(OFF, r.choice([0, 0, 0, 1, 2])), tabbed=r.random() < .4, nofail=r.random() < .4)
    opts = ["--no-lint-" + o for o in extra["off"]] + (["--no-lint-fail"] if extra["nofail"] else []) + (["--error-format", "tabbed"] if extra["tabbed"] else r.choice([[], ["--error-format", "absolute"], ["--error-format", "common"]]))
    if r.random() < .15: extra["globals"] = [r.choice(["", "used::"]) + g.word() for _ in range(2)]; opts += ["--lint-global", ",".join(extra["globals"])]
    if r.random() < .1: extra["builtin"] = [g.word()]; opts += ["--builtin", extra["builtin"][0]]
    elif r.random() < .1: extra["notbuiltin"] = [r.choice(["sin", "t", "min", "add"])]; opts += ["--not-builtin", extra["notbuiltin"][0]]
    return src, opts, extra

def run():
    chk = vf.Check("C15", "model_checking",
        "random programs over few names (shadowing, reuse, functions in functions, labels, methods), with lint hints and options; each linted by the real command line; "
        "spec/Lint.tla steps through the program's scope events and says which warnings, exit code and written file are due; non-trivial: distinct program and options")
    r = chk.rng("lint")
    items = [item(r) for _ in range(chk.scale(3000, 60000))]
    outs = vf.pmap(lint, items, chunk=8)
    cases, recs = [], []
    for it, o in zip(items, outs):
        case = dict(program=it[0], options=" ".join(it[1]), printed=o["out"][:3000])
        chk.note(it[:2])
        try: rec = record(it, o)
        except p8lua.LuaError as ex: raise vf.Machinery(f"generated program does not parse: {ex}\n{it[0]}")
        if o["rc"] not in (0, 2):
            chk.violation(f"failed:{it[0]}", f"the tool fails: {o['err']}", dict(case=case)); continue
        recs.append(rec); cases.append(case)
    v = chk.validate("Lint", cases, recs, key=lambda c, v: v[0] if v[0] == "tabbed-header" else f"{v[0]}:{c['program']}", chunk=1000, cfg="SPECIFICATION Spec\nINVARIANTS TypeOk\nCHECK_DEADLOCK FALSE\n")
    for c, x in zip(cases, v):
        if x[0] == "uninterpretable": raise vf.Machinery(f"Lint: {x[1]}\n{c['program']}")
    chk.sample(dict(cases[0], verdict=v[0])); chk.sample(dict(cases[1], verdict=v[1]))
    chk.extra["disagreements_checked"] = len(recs)
    return chk.finish()
