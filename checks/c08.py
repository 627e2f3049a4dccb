"""C08: string literals keep their contents"""
import vf
from checks import lexer

CTX = ["x=S", "f S", "x={S,S}", "x=t[ S]", "x=S..S", "x={[ S]=1}", "x=S..1", "o:m S", "x=#S", "x=S and S", "x=y==S", "t[ S]=S", "x=f S S", "x=(f or g)S", "?S,S", "x=not S", "x={ S,1, S}", "x=S==S", "x=-#S", "do local a=S end", "x=function()return S end", "x=S<S", "repeat f()f()until S", "x={\"a\",S}"]
SPECIAL = ["\\", "\"", "'", "]", "]]", "[[", "=", "]=]", "\\n", "\\0", "\\z", "\\z\t", "\\z \n\t ", "\\x41", "\\065", "7", "a", " ", "--", "\\14", "\\15", "\\*", "\\#", "\\-", "\\|", "\\+", "\\^", "\\a", "\\b", "\\t", "\\v", "\\f", "\\r", "\\\\", "\\\"", "\\'", "\\\n", "\x01", "\x0e", "\x0f", "\x7f", "\x80", "\xff", "\n"]

def literal(r):
    n = r.choice([1, 2, 3, 5, 9, 20])
    body = "".join(r.choice(SPECIAL) if r.random() < .7 else "".join(chr(r.choice([r.randrange(32, 256), r.randrange(1, 256)])) for _ in range(3)) for _ in range(n))
    body = body.replace("\r", "")
    k = r.randrange(4)
    e = "=" * r.choice([0, 0, 1, 2])
    return ['"' + body + '"', "'" + body + "'", "[" + e + "[" + body + "]" + e + "]", '"' + body.replace('"', '\\"') + '"'][k]

def ok(lit, version=43):
    import p8lua
    try:
        ts = p8lua.lex([ord(c) for c in lit])
        return len(ts) == 2 and ts[0].t == "str" and (version >= 40 or not lit.startswith("[="))
    except p8lua.LuaError: return False

def run():
    chk = vf.Check("C08", "translation_validation",
        "every sequence of up to two (thorough: three) of 37 troublesome pieces in seven forms of literal, enumerated by TLC from LexGen.tla, a stride of the longer ones, random longer contents, every single character, in 23 contexts; "
        "the real command line's literal is decoded by the TLA+ definition of string literals and compared with the original's; non-trivial: distinct program and options")
    r = chk.rng("strings")
    v1 = [(lexer.TOK, "lit", "none"), (lexer.TOK + ["--focus-chars"], "lit", "none")]
    more = v1 + [(lexer.TOK + [x], "lit", "none") for x in ("--focus-tokens", "--focus-compressed", "--no-minify-spaces")]
    lits, st = lexer.snippets("strings", 0, 1, chk.scale(9583, 354571))
    chk.transitions += st.states; chk.states += st.distinct
    step = chk.scale(997, 97)
    l2, st = lexer.snippets("strings", 9583 + r.randrange(step), step)
    chk.transitions += st.states; chk.states += st.distinct
    lits += l2
    for c in range(1, 256):
        if c != 13: lits += [f"'{chr(c)}'", f'"\\{c}"', f"'\\{c}7'", f"'a\\x{c:02x}'", f"[[{chr(c)}]]", f"[[\n{chr(c)}]]"]
    for c in (0, 0, 0, 1, 7, 10, 13, 14, 15, 27, 127, 128, 255):
        for d in "0123456789": lits += [f"'\\{c:03d}{d}\"'", f"'\\x{c:02x}{d}\"'"]
    lits += [literal(r) for _ in range(chk.scale(2500, 30000))]
    lits = [l for l in lits if ok(l)]
    chk.extra["literals"] = len(lits)
    r.shuffle(lits)
    items = []
    i = 0
    while i < len(lits):
        ls = []
        version = r.choice([43, 43, 43, 40, 39, 20])
        for _ in range(60):
            c = r.choice(CTX)
            parts = c.split("S")
            out = parts[0]
            for p in parts[1:]:
                l = lits[i % len(lits)]; i += 1
                if version < 40 and l.startswith("[="): l = "'" + l.strip("[]=")[:1].replace("'", "").replace("\\", "").replace("\n", "") + "'"
                if l.startswith("[") and out[-1:] == "[": out += " "
                out += l + p
            ls.append(out)
        items.append((r.choice(["\n", "\n", "\n\n"]).join(ls), version, v1 + r.sample(more[2:], 1) if r.random() < .3 else v1))
    items = [it for it in items if lexer.valid(it[0])]
    lexer.compare(chk, items, "strings", batch=100)
    chk.sample(items[-1][0][:400]); chk.sample(items[0][0][:200])
    return chk.finish()
