"""C22: exactly the comments asked for are kept, where they were"""
import itertools
import vf, genlua
from checks import lexer, progs

N = itertools.count()
def comment(r, nl):
    """a gap between tokens with a comment; nl: the gap must (or must not) hold a line break outside of block comments"""
    k = r.random()
    t = r.choice(["a", " b", "", "x=1 ", "]", "--", "'", "\"", "e]=]", "[", "end", "keep:", "$keep:z", "[x", "  ", "//"]) + r.choice(["", "", str(r.randrange(1000))])
    pre = r.choice(["$keep:", "$keep:", "$keep:", "keep:", "", " keep:", "kept:", "$preserve: zz", "$lint: unused", "preserve:zz"])
    if not nl or k < .4:
        e = r.choice(["", "", "=", "=="])
        body = pre + t + r.choice(["", "", "\n", "\nmore\n"])
        if "]" + e + "]" in body + "]" + e or r.random() < .1: body = pre + "q"
        s = f"--[{e}[{body}]{e}]"
        return r.choice(["", " "]) + s + r.choice(["", " ", "\n" if nl else ""]) + ("\n" if nl else "")
    lead = r.choice(["--", "--", "--", "//"])
    body = pre + t
    if lead == "--" and body.startswith("["): body = "z" + body
    return r.choice([" ", "", "\n"]) + lead + body + "\n" + r.choice(["", " ", lead + pre + "y\n"])

# kept comments whose text, once the mark is gone, could be taken for something else
HARD = ["--$keep:[[x\ny=1\n", "--$keep:[==[\ny=1\n", "//$keep:[[x\ny=1\n", "--[[$keep:a]]y=1\n", "y=1--$keep:c", "y=1 --[[$keep:\n]] --$keep:\n", "if (y) f() --$keep:c\nf()\n", "if (y) --[[$keep:c\n]] f()f()\nf()\n",
        "?1--$keep:c\n?2\n", "y=1---$keep:c\n", "--[=[$keep:]]]=]y=1\n", "--$keep:$keep:keep:\n", "y=1- --$keep:c\n2\n", "y=4/ //$keep:c\n2\n", "y={--$keep:a\n1--[[$keep:b]],--$keep:c\n2}\n", "f(--$keep:a\n)f()\n",
        "local function g()--$keep:a\nend--$keep:b\n", "y=(--[[$keep:c]]1)\n", "if y then--$keep:q\nf()end\n", "if (y) then f() --$keep:q\nend\n", "do local z --$keep:q\nend\n", "return --$keep:q\n", "--$keep:--[[x\ny=1\n", "f(--[[$keep:r]]'s')f--[[$keep:s]]('s')f('s'--[[$keep:t]])\n",
        "y=1;--$keep:q\n;y=2\n", "y=1--[[$keep:r]];--[[$keep:s]]y=2\n", "local a--[[$keep:1]],b--[[$keep:2]]=1--[[$keep:3]],2\nlocal--[[$keep:4]]c=3\n", "y=y--[[$keep:1]]+1\ny=--[[$keep:2]]y+2\n", "if--[[$keep:1]](--[[$keep:2]]y--[[$keep:3]])--[[$keep:4]]then--[[$keep:5]]f()f()--[[$keep:6]]end\n",
        "while--[[$keep:1]]y--[[$keep:4]]do--[[$keep:5]]f()f()--[[$keep:6]]end\n", "if (y) then f() else--[[$keep:1]] f()f() end\n", "y={1,2,--[[$keep:l]]}\n", "y={1,2--[[$keep:l]],}\n", "y=0x10--[[$keep:l]]^2 y=-(--[[$keep:m]]1)\n", "y=a!=--[[$keep:l]]b\n"]

# The recorded finding (known_findings.txt): merging assignments writes the comments within the merged targets and values twice.
# It is told from other violations by its only fault (a comment repeated) and by being gone when nothing is reordered.
TWICE = "local b,c=1,2 local d,e=--keep:six\n1,2 f(b,c,d,e)"
def keyf(bad):
    """bad: [(case, record, verdict)] -> keys"""
    sus = [x for x in bad if x[2][0] == "comments-twice" and "--no-minify-reorder" not in x[0]["options"].split()]
    outs = vf.pmap(progs.transform, [(c["program"], c["version"], [c["options"].split() + ["--no-minify-reorder"]]) for c, _, _ in sus])
    recs = [dict(x[1], b=list(o[0]["code"] or [])) for x, o in zip(sus, outs)]
    verd = vf.tlc_verdicts("LexPair", recs, timeout=800)[0] if recs else []
    known = {id(x[0]) for x, o, v in zip(sus, outs, verd) if o[0]["status"] == "ok" and v[0] == "ok"}
    return ["merge-duplicates-comments" if id(c) in known else f"{v[0]}:{c['program']}" for c, _, v in bad]

def run():
    chk = vf.Check("C22", "translation_validation",
        "programs with comments (kept, ordinary, other hints, block and line) placed at random between all tokens, hand-written placements; layout-only options: comments must stay between the same tokens (token-by-token TLA+ lexer); "
        "full minification: the same sequence of kept comments; non-trivial: distinct program and options")
    r = chk.rng("comments")
    same = [(lexer.NOTOK, "same", "keep"), (lexer.NOTOK + ["--no-minify-lines"], "same", "keep"), (lexer.NOTOK + ["--no-minify-spaces"], "same", "keep"), (lexer.NOTOK + ["--no-minify-comments"], "same", "all"),
            (lexer.NOTOK + ["--no-minify-comments", "--no-minify-spaces"], "same", "all")]
    full = [(["--minify", "--no-minify-consts"] + x, "comments", "keep") for x in progs.FOCUS] + [(["--minify", "--no-minify-consts", "--no-minify-spaces"], "comments", "keep"),
            (["--minify-safe-only", "--no-minify-reorder", "--no-minify-consts", "--no-minify-comments"], "comments", "all")]
    items = []
    for h in HARD:
        for s in (h, "w=1 " + h, "w=1\n" + h + "f()\n"):
            if lexer.valid(s): items.append((s, 43, same + full))
    for _ in range(chk.scale(110, 1500)):
        s = genlua.program(r, const_hints=False)
        items.append((lexer.relayout(r, s, comment=comment, full=r.choice([.05, .15, .3])), 43, r.sample(same, 2) + r.sample(full, 2)))
    for s in progs.CORPUS:
        for _ in range(3): items.append((lexer.relayout(r, s, comment=comment, full=.3), 43, same + full))
    items = [it for it in items if lexer.valid(it[0])]
    items.append((TWICE, 43, full[:1]))
    lexer.compare(chk, items, "comments", keyf=keyf)
    chk.sample(items[-1][0][:400]); chk.sample(items[0][0][:200])
    return chk.finish()
