"""C06: removing whitespace, line breaks and comments never changes the tokens"""
import vf, genlua
from checks import lexer, progs

def run():
    chk = vf.Check("C06", "translation_validation",
        "every operator between every two operand forms and every statement after every statement in several separations (enumerated by TLC from LexGen.tla, a part per seed), random programs laid out at random; "
        "the real command line's output is read token by token against the input by the TLA+ lexer; non-trivial: distinct program and options")
    r = chk.rng("layout")
    variants = [(lexer.NOTOK, "same", "none"), (lexer.NOTOK + ["--no-minify-lines"], "same", "none"), (lexer.NOTOK + ["--no-minify-spaces"], "same", "none"),
                (lexer.NOTOK + ["--no-minify-comments"], "same", "all"), (lexer.NOTOK + ["--no-minify-comments", "--no-minify-spaces"], "same", "all"),
                (lexer.NOTOK + ["--no-minify-comments", "--no-minify-lines"], "same", "all"), (lexer.NOTOK + ["--focus-chars"], "same", "none"), (lexer.NOTOK + ["--focus-tokens"], "same", "none"),
                (lexer.NOTOK + ["--focus-compressed"], "same", "none")]
    items = []
    # (the steps are coprime to the sizes of the enumerated sets, so that a stride meets every class)
    for kind, step in (("binary", chk.scale(397, 31)), ("stmts", chk.scale(13, 1))):
        sn, st = lexer.snippets(kind, r.randrange(step), step)
        chk.transitions += st.states; chk.states += st.distinct
        r.shuffle(sn)
        for s in lexer.pack(r, sn): items.append((s, 43, variants[:2] + r.sample(variants[2:], 1)))
    for _ in range(chk.scale(60, 900)):
        items.append((lexer.relayout(r, genlua.program(r)), 43, variants[:1] + r.sample(variants[1:], 2)))
    for s in progs.CORPUS: items.append((s, 43, variants)); items.append((lexer.relayout(r, s, full=.6), 43, variants))
    lexer.compare(chk, items, "layout")
    chk.sample(items[0][0][:300]); chk.sample(items[-1][0][:300])
    return chk.finish()
