"""C13: unminifying preserves the program"""
import os
import vf, p8, genlua
from checks import lexer, progs
from checks.c22 import comment

U = [["--unminify"], ["--unminify", "--unminify-indent", "tabs"], ["--unminify", "--unminify-indent", "1"], ["--unminify", "--unminify-indent", "0"]]

def again(item):
    """source, options -> (status, unminified, unminified again)"""
    src, opts = item
    p8.write_p8("a.p8", [ord(c) for c in src], version=43)
    for f in ("b.p8", "c.p8"):
        if os.path.exists(f): os.unlink(f)
    st, out, err = vf.run_cli(["a.p8", "b.p8"] + opts)
    if st != 0: return f"{st} {err[-300:]}", None, None
    st, out, err = vf.run_cli(["b.p8", "c.p8"] + opts)
    if st != 0: return f"again: {st} {err[-300:]}", p8.read_code("b.p8"), None
    return "ok", p8.read_code("b.p8"), p8.read_code("c.p8")

def run():
    chk = vf.Check("C13", "translation_validation",
        "every statement after every statement and operators between operands (enumerated by TLC from LexGen.tla), random programs in random layouts with comments, already minified programs; output compared token by token "
        "(one-line constructs written out), comments as a bag, a second run with the first, and both programs run by the TLA+ semantics; non-trivial: distinct program and options")
    r = chk.rng("unminify")
    srcs = []
    for kind, step in (("binary", chk.scale(797, 61)), ("stmts", chk.scale(29, 2))):
        sn, st = lexer.snippets(kind, r.randrange(step), step)
        chk.transitions += st.states; chk.states += st.distinct
        r.shuffle(sn)
        srcs += lexer.pack(r, sn)
    runs = []
    for _ in range(chk.scale(90, 1200)):
        s = genlua.program(r)
        runs.append(s)
        srcs.append(lexer.relayout(r, s, comment=comment, full=.08) if r.random() < .5 else lexer.relayout(r, s))
    for s in progs.CORPUS: runs.append(s); srcs += [s, lexer.relayout(r, s, comment=comment, full=.2), lexer.relayout(r, s, full=.6)]
    # programs as the minifier leaves them
    mins = vf.pmap(progs.transform, [(s, 43, [["--minify", "--no-minify-rename"] + r.choice(progs.FOCUS)]) for s in runs[:chk.scale(40, 400)]])
    for m in mins:
        if m[0]["status"] == "ok": srcs.append("".join(map(chr, m[0]["code"]))); runs.append(srcs[-1])
    srcs = [s for s in srcs if lexer.valid(s)]
    todo = [(s, r.choice(U) if r.random() < .3 else U[0]) for s in srcs]
    outs = vf.pmap(again, todo)
    cases, recs = [], []
    for (s, o), (st, b, c) in zip(todo, outs):
        chk.note((s, o))
        case = dict(program=s, options=" ".join(o), output="".join(map(chr, b or [])))
        if b is None:
            chk.violation(f"fails:{s}", f"unminify fails: {st}", dict(case=case)); continue
        a = [ord(x) for x in s]
        cases.append(case); recs.append(dict(a=a, b=b, mode="written", keep="none", version=43))
        cases.append(case); recs.append(dict(a=a, b=b, mode="comments", keep="all", version=43))
        if c is None: chk.violation(f"fails:{s}", f"unminify's own output is rejected: {st}", dict(case=case)); continue
        cases.append(dict(case, again="".join(map(chr, c)))); recs.append(dict(a=b, b=c, mode="written", keep="none", version=43))
    for i in range(0, len(recs), 300):
        verd, st = vf.tlc_verdicts("LexPair", recs[i:i+300], timeout=800)
        chk.add_stats(st)
        for c, rec, v in zip(cases[i:i+300], recs[i:i+300], verd):
            if v[0] == "ok": continue
            if v[0] in ("badinput", "uninterpretable"): raise vf.Machinery(f"LexPair cannot read the input: {v} {lexer.show(v[1])}\n{c['program']}")
            chk.violation(f"{v[0]}:{c['program']}", f"unminify: {rec['mode']}: {v[0]}: {lexer.show(v[1])}", dict(case=c, verdict=list(v)))
    progs.run_cases(chk, [(s, 43, [r.choice(U)]) for s in runs], "unminify")
    chk.sample(srcs[0][:300]); chk.sample(srcs[-1][:300])
    return chk.finish()
