"""C11: what the hints and rules say about renaming is done"""
import re, fnmatch
import vf, p8lua, gennames, names as scopes
from checks import names, progs, lexer

FORMATS = ["members,", "globals;", "member=string", "(member=string)s,", "member;global;string", "member;globals;string", "member;(global=string)s;string",
           "(global=string)s,", "(global=string)s,(global=string)", "global,members,strings", "strings,member", "(members:globals)s/string", 
           "((member=global)s,string)s;", "strings|", "preserve.member", "members\\(", "global,member"]

class Hinted(gennames.Gen):
    def word(m):
        r = m.r
        k = r.random()
        if k < .75: return r.choice(m.pool + m.mem + m.long)
        return r.choice(["", "end", "1x", "two words", " x", "nil", "circfill", "__index", "-", "x y", "_"])
    def hinted(m):
        r = m.r
        if r.random() < .4:
            s = r.choice(["", " "]) + "".join(m.word() + r.choice([",", " ", ";", "=", ", ", "+", "-"]) for _ in range(r.randrange(1, 5))) + m.word()
            h = r.choice(["member", "global", "preserve", "member"])
        else:
            f = r.choice(FORMATS)
            s = m.split(scopes.parse_format(f))
            h = "language::split " + f
        return " --[[$" + h + "]]" + '"' + s + '"'
    def split(m, d):
        r = m.r
        sep, items = d
        plural = [x for x in items if x[1]]
        first = next((j for j, x in enumerate(items) if x[1]), len(items))
        last = len(items) - first - len(plural)
        if plural: kinds = [x[0] for x in items[:first]] + [plural[j % len(plural)][0] for j in range(r.randrange(0, 5))] + [x[0] for x in items[len(items)-last:]]
        else: kinds = [x[0] for x in items][:r.choice([9, 9, 9, 1])] + ["string"] * r.choice([0, 0, 1, 2])
        seps = {sep}
        return sep.join(m.split(k) if isinstance(k, tuple) else m.plain() for k in kinds)
    def plain(m):
        while True:
            w = m.word()
            if not set(w) & set(",;=|:/q("): return w
    def string(m):
        if m.r.random() < .5 and not m.fixed: return m.hinted()
        return super().string()
    def expr(m, d=0):
        if m.r.random() < .08: return m.hinted()
        return super().expr(d)
    def table(m, d):
        return (" --[[$" + m.r.choice(["global", "member", "preserve"]) + "-keys]]" if m.r.random() < .25 else "") + super().table(d)

LONG = ["enemy", "enemy_x", "enemy_y", "player", "player_hp", "update_it", "update_all", "draw_it", "my_thing", "thing"]
LETTER = 'foo=1\nbar=2\nfoo+=1\nfoo+=1\nbar+=1\nthing(--[[$language::split globals\\wx]]"fooxthing")\n' # (a known finding)
COPIED = set(gennames.BUILT) | set(gennames.listed("Copied"))
def program(r):
    g = Hinted(r, r.choice([8, 20, 40]))
    g.long = r.sample(LONG, 5)
    g.pool = [n for n in g.pool if r.random() < .6] + g.long
    g.mem = r.sample(g.mem, min(len(g.mem), 3)) + r.sample(LONG, 4)
    return hint(r, g.block(0, n=r.randrange(3, 10), own_scope=False).strip("\n ") + "\n"), g

def hint(r, src):
    """puts hints before names"""
    ev, _ = scopes.events(p8lua.parse([ord(c) for c in src], 43))
    local = {e["n"] for e in ev if e["k"] == "decl"}
    words = {e["n"] for e in ev if e["k"] == "word"}
    fixed = set(gennames.BUILT) | set(gennames.SPECIAL) | set(gennames.MEMBERS)
    ins, keyed, renamed, fresh = {}, set(), set(), 0
    some = r.choice([.05, .15, .4])
    for e in ev:
        if e["k"] not in ("use", "decl", "mem") or e["pos"] < 0 or e["pos"] in ins or r.random() > some: continue
        n = e["n"]
        t = ""
        if r.random() < .4 and e["k"] != "mem" and n not in keyed and n != "self" and (n != "_ENV" or e["k"] == "decl" and "?" not in src):
            keyed.add(n); t += f"--[[${r.choice(['global', 'member', 'preserve'])}-keys]]"
        if r.random() < .3 and n not in renamed and n not in words and n not in fixed and r.random() < .5:
            renamed.add(n); fresh += 1; t += f"--[[$rename::{r.choice('abcxyz')}{r.choice(['', 'q'])}{fresh}_]]"
        elif r.random() < .7 and (e["k"] == "mem" or (e["k"] == "use" and n not in local and n != "_ENV")):
            t += f"--[[${r.choice(['global', 'member', 'preserve']) if e['k'] == 'mem' or n not in fixed else 'preserve'}]]"
        if t: ins[e["pos"]] = " " + t
    out = []
    for i, c in enumerate(src):
        if i in ins: out.append(ins[i])
        out.append(c)
    return "".join(out)

def rule(r, g):
    n = lambda: r.choice([x for x in g.pool + g.mem + LONG if x.isascii() and x.isprintable()])
    def pat():
        k = r.random(); w = n()
        if k < .45: return w
        if k < .6: return "*"
        if k < .75: return w[:r.randrange(1, len(w) + 1)] + "*"
        if k < .9: return "*" + w[r.randrange(max(1, len(w) - 2)):] if len(w) > 2 else w # (glyphs are written as ~ and two digits)
        return w[:1] + "*" + w[-1:].strip("0123456789abcdef")
    return r.choice(["", "", "", "!"]) + (pat() if r.random() < .45 else r.choice(["*", "*", pat(), "_ENV" if r.random() < .2 else "*"]) + "." + pat())

def item(r):
    src, g = program(r)
    rules = [rule(r, g) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
    if r.random() < .12: rules.append("*=*.*")
    if "_ENV" in src or "*=*.*" in rules: # (what PICO-8 copies to locals is not looked up there)
        rules = [x for x in rules if not (x[0] == "!" and "." not in x and any(fnmatch.fnmatchcase(w, x[1:]) for w in COPIED))]
    if "*=*.*" in rules: src = re.sub(r"--\[\[\$rename::\w+\]\]", "", src)
    o = ["--minify"] + r.choice(names.FOCUS) + names.KEEP
    if r.random() < .1: o.append("--rename-safe-only")
    k = r.random()
    if rules and k < .1 and all(x[0] == "!" for x in rules): o += ["--no-preserve=" + ",".join(x[1:] for x in rules)]
    elif rules and k < .5: o += ["--preserve=" + ",".join(rules)]
    elif rules:
        c = r.choice(["--$preserve: ", "--preserve:"]) + r.choice([", ", ","]).join(rules) + "\n"
        if k < .6: src = src + c
        elif k < .7: src = "--[[$preserve: " + ", ".join(rules) + "]]" + src
        else: src = c + src
    return src, o, rules

def run():
    chk = vf.Check("C11", "translation_validation",
        "random programs with hints at random names, variables, constructors and strings (occurrence, keys and rename hints; strings of names, strings that are split), "
        "random rules (exact names, wildcards, tables, exceptions, members as globals; in the code or on the command line), only safe renaming or not; "
        "each renamed by the real command line and stepped through with its original by the TLA+ machine, which also reads the map of the renaming; non-trivial: distinct program and options")
    r = chk.rng("hints")
    items = [item(r) for _ in range(chk.scale(2500, 40000))]
    items.append((LETTER, ["--minify"] + names.KEEP, []))
    outs = vf.pmap(names.rename, items, chunk=4)
    cases, recs = [], []
    for (src, opts, rules), o in zip(items, outs):
        o2 = [x for x in opts if x not in names.KEEP]
        chk.note((src, opts))
        case = dict(program=src, options=" ".join(o2), rules=rules)
        if "failed" in o:
            if not lexer.valid(src): raise vf.Machinery(f"generated program does not parse: {src}")
            chk.violation(f"failed:{src}", f"the tool fails under {' '.join(o2)}: {o['failed']}", dict(case=case)); continue
        case["output"] = "".join(map(chr, o["code"]))
        try: recs.append(names.record(src, o, opts, rules))
        except p8lua.LuaError as ex:
            if not lexer.valid(src): raise vf.Machinery(f"generated program does not parse: {ex}\n{src}")
            chk.violation(f"invalid:{src}", f"the renamed program is rejected by PICO-8: {ex}", dict(case=case)); continue
        cases.append(case)
    v = chk.validate("Names", cases, recs, key=lambda c, v: "split-separator-is-a-letter" if c["program"] == LETTER else f"{v[0]}:{c['program']}", chunk=1200,
                     cfg="SPECIFICATION Spec\nINVARIANTS Injective BlocksOk\nCHECK_DEADLOCK FALSE\n")
    for c, x in zip(cases, v):
        if x[0] == "uninterpretable": raise vf.Machinery(f"Names: {x[1]}\n{c['program']}")
    chk.sample(dict(cases[0], verdict=v[0])); chk.sample(dict(cases[1], verdict=v[1]))
    chk.extra["disagreements_checked"] = len(recs)
    return chk.finish()
