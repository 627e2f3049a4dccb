"""C10: renaming keeps every name bound to the same variable"""
import vf, p8lua, gennames
from checks import names, progs, lexer

def options(r):
    o = ["--minify"] + r.choice(names.FOCUS + [["--focus-chars"]]) + names.KEEP
    k = r.random()
    if k < .12: o.append("--rename-safe-only")
    elif k < .2: o[0] = "--minify-safe-only"
    if r.random() < .2: o.append(r.choice(["--no-minify-lines", "--no-minify-spaces", "--no-minify-comments"]))
    return o

def run():
    chk = vf.Check("C10", "translation_validation",
        "random programs whose names are few and shadow each other in every kind of scope (blocks, functions, methods, loops, repeat conditions, labels, _ENV), "
        "and programs with so many names, of letters made attractive by the text, that keywords and builtins come up as new names; "
        "each renamed by the real command line and stepped through together with its original by the TLA+ machine; non-trivial: distinct program and options")
    r = chk.rng("names")
    items = [(gennames.program(r), options(r)) for _ in range(chk.scale(3000, 40000))]
    items += [(s, options(r)) for s in progs.CORPUS for _ in range(2)]
    for skew in ["or", "if", "do", "in", "t", "ordoifn", "fi", "ndorit"] + chk.scale([], ["on", "to", "ni"] * 3):
        items.append((gennames.many(r, r.choice([45, 90, 160]), skew), ["--minify"] + r.choice(names.FOCUS) + names.KEEP))
    for skew in chk.scale(["absdel"], ["absdel", "maxmin", "endfor", "notnil", "sinrnd", "addsub", "allpal", "ordchr", "mapmid"]):
        items.append((gennames.many(r, 1400, skew), ["--minify"] + names.KEEP))
    for skew in chk.scale(["eeennd"], ["eeennd", "fffoor", "nnnoot", "nnniil", "aaannd"]):
        items.append((gennames.many(r, 1150, skew, False), ["--minify", "--focus-compressed"] + names.KEEP))
    items += [(s, options(r)) for _ in range(chk.scale(4, 40)) for s in gennames.special(r)]
    outs = vf.pmap(names.rename, items, chunk=4)
    cases, recs = [], []
    for (src, opts), o in zip(items, outs):
        o2 = [x for x in opts if x not in names.KEEP]
        chk.note((src, opts))
        case = dict(program=src, options=" ".join(o2))
        if "failed" in o:
            chk.violation(f"failed:{src}", f"the tool fails under {' '.join(o2)}: {o['failed']}", dict(case=case)); continue
        case["output"] = "".join(map(chr, o["code"]))
        try: recs.append(names.record(src, o, opts))
        except p8lua.LuaError as ex:
            if not lexer.valid(src): raise vf.Machinery(f"generated program does not parse: {ex}\n{src}")
            chk.violation(f"invalid:{src}", f"the renamed program is rejected by PICO-8: {ex}", dict(case=case)); continue
        cases.append(case)
    v = chk.validate("Names", cases, recs, key=lambda c, v: f"{v[0]}:{c['program']}", chunk=2000,
                     cfg="SPECIFICATION Spec\nINVARIANTS Injective BlocksOk\nCHECK_DEADLOCK FALSE\n")
    for c, x in zip(cases, v):
        if x[0] == "uninterpretable": raise vf.Machinery(f"Names: {x[1]}\n{c['program']}")
    chk.sample(dict(cases[0], verdict=v[0])); chk.sample(dict(cases[1], verdict=v[1]))
    chk.extra["globals_compared"] = sum(int(x[1].split(",")[0].strip("<> ")) for x in v if x[0] == "ok")
    chk.extra["disagreements_checked"] = len(recs)
    return chk.finish()
