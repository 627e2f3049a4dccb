"""C07: number literals keep their value in every context"""
import vf
from checks import lexer

CTX = ["x=N", "f(N)", "x={N}", "t[N]=1", "x=N^2", "x=2^N", "x=-N", "x=- -N", "x=~N", "x=-N^2", "x=a-N", "x=a- -N", "x=a~N", "x=~N~N", "x=N-N", "x=N..a", "x=a..N", "x=N and 1", "x=1or N", "x=not N", "x=#'s'+N", "for i=N,N,N do f()f()end",
       "x=a<N", "x+=N", "x=N%N", "x=N/N", "x=N\\N", "x=N*N^N^N", "x=@N", "x=$N", "x=%N", "x=-N^-N", "x={[N]=N,N,N}", "do local a=N end", "x=a,N", "x=N==a", "x=N>>N", "x=- - -N^N", "repeat f()f()until N", "x=function()return N end", "x=a.b[N][N]", "x=N|N", "x=N&N", "x-=N"]
EDGE = [0, 1, 0xffffffff, 0x80000000, 0x80000001, 0x7fffffff, 0x8000ffff, 0x80010000, 0x7fff0000, 0xffff0000, 0xfffe0000, 0xffff8000, 0x10000, 0x8000, 0xffff, 0x18000, 0xa0000, 0xf0000, 0xff0000, 0xfffff, 0x640000, 0x27100000, 0x63e70000,
        0xffff0001, 0x0000ffff, 0xfff60000, 0xfff00000, 0xff9c0000, 0xff000000, 0x1999, 0x199a, 0x3333, 0x5555, 0xe666, 0x28f, 0x42, 0x7, 0x68db, 0x1000f, 0xfff6ffff, 0x12345678, 0xfedcba98, 0x80008000, 0x03e7ffff, 0x270fffff]

def forms(r, v):
    """spellings of the 32-bit value v"""
    i, f = v >> 16, v & 0xffff
    fx = ("%04x" % f).rstrip("0") if f else ""
    k = r.random()
    if k < .3:
        s = ("0x" if r.random() < .9 else "0X") + r.choice(["%x" % i if i or not fx else "", "%04x" % i, "%X" % i]) + (("." + fx + r.choice(["", "0", "00000", "0f", "fff"])) if fx else r.choice(["", "", ".", ".0", ".0000f"]))
        if s.lower() in ("0x", "0x."): s = "0x0"
        return s
    if k < .4:
        fb = bin(0x10000 | f)[3:].rstrip("0")
        return r.choice(["0b", "0b", "0B"]) + bin(i)[2:] + ("." + fb + r.choice(["", "0", "01"]) if fb else r.choice(["", "."]))
    # decimals: exact digits, or truncations that may denote a neighbour
    d = str(f * 10**16 // 65536).rjust(16, "0")
    frac = r.choice([d[:4], d[:5], d[:6], d if len(d.rstrip("0")) <= 9 else d[:9], d + "000", d[:3], d[:2], d[:4] + str(r.randrange(10)), str(int(d[:5]) + 1).rjust(5, "0")[-5:], d[:8]]) if f else r.choice(["", "", "0", "000"])
    s = r.choice([str(i), str(i), str(i) if i else "", "0" + str(i)]) + ("." + frac if frac or r.random() < .1 else "")
    return "0" if s in ("", ".") else s

def run():
    chk = vf.Check("C07", "translation_validation",
        "all 65536 fractions and all 65536 whole numbers, corner values and random values, spelled in hexadecimal, binary and decimal (exact, truncated, padded), in 43 contexts; "
        "the real command line's literal is evaluated by the TLA+ definition of numerals (exact digit arithmetic) and compared with the original's; non-trivial: distinct program and options")
    r = chk.rng("numbers")
    variants = [(lexer.TOK, "lit", "none")]
    more = variants + [(lexer.TOK + [x], "lit", "none") for x in ("--focus-chars", "--focus-tokens", "--focus-compressed", "--no-minify-spaces")]
    vals = []
    for i in range(65536): vals += [("0x%x.%04x" % (r.choice([0, 0, 1, 0x7fff, 0xffff, 0x8000, 0xfffe, r.randrange(65536)]), i)), r.choice([str(i), "0x%x" % i])]
    if not chk.thorough: vals = vals[0::2] + vals[1::2][r.randrange(4)::4]
    else: vals = vals + [forms(r, (i << 16) | i2) for i in range(0, 65536) for i2 in (r.randrange(65536), 0xffff, 0)]
    items = []
    for i in range(0, len(vals), 1000):
        items.append(("x={" + ",".join(vals[i:i+1000]) + "}", 43, variants))
    chk.extra["literals"] = len(vals)
    for _ in range(chk.scale(60, 800)):
        ls = []
        for _ in range(40):
            c = r.choice(CTX)
            while "N" in c:
                v = r.choice([r.choice(EDGE), r.choice(EDGE), r.getrandbits(32), r.getrandbits(16) << 16, r.getrandbits(16), (r.choice(EDGE) + r.randrange(-3, 4)) & 0xffffffff])
                c = c.replace("N", forms(r, v), 1)
                chk.extra["literals"] += 1
            ls.append(c)
        items.append((r.choice(["\n", "\n", " "]).join(ls), 43, r.sample(more, 2)))
    items = [it for it in items if lexer.valid(it[0])]
    lexer.compare(chk, items, "numbers", batch=60)
    chk.sample(items[-1][0][:400]); chk.sample(items[0][0][:200])
    return chk.finish()
