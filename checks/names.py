"""Shared by C10 and C11: programs renamed by the real command line, both sides as scope events."""
import os, re
import vf, p8, p8lua, names

KEEP = ["--no-minify-tokens", "--no-minify-reorder", "--no-minify-consts"]
FOCUS = [[], ["--focus-tokens"], ["--focus-chars"], ["--focus-compressed"]]

def rename(item):
    """(source, options) -> dict(code, map lines) or dict(failed)"""
    src, opts = item[:2]
    for f in os.listdir("."): os.unlink(f)
    p8.write_p8("a.p8", [ord(c) for c in src], version=43)
    st, out, err = vf.run_cli(["a.p8", "b.p8", "--rename-map", "m.txt"] + list(opts), timeout=120)
    if st != 0 or not os.path.exists("b.p8"): return dict(failed=f"{st}: {(err or out)[-300:]}")
    with open("m.txt", encoding="utf8") as f: lines = f.read().split("\n")
    return dict(code=p8.read_code("b.p8"), map=[l for l in lines if l])

def record(src, o, opts, rules=(), hasmap=True):
    """what spec/Names.tla reads: the events of both programs, the rules, the map"""
    a, marks = names.events(p8lua.parse([ord(c) for c in src], 43))
    b, _ = names.events(p8lua.parse(list(o["code"]), 43), marks)
    slim = lambda e: {k: e[k] for k in ("k", "n", "x")}
    lines = []
    for l in o["map"]:
        m = re.fullmatch(r"(\w+) (.+) <- (.+)", l, re.S)
        lines.append([m[1].rstrip("_"), nm(m[2]), nm(m[3])] if m else ["?", l, ""])
    rs, together = [], "--rename-members-as-globals" in opts
    for r in rules:
        neg = r.startswith("!"); r = r[neg:]
        if r == "*=*.*": together = True; continue
        t, dot, p = r.partition(".")
        rs.append(dict(neg=neg, tab="." + nm8(t) if dot else "", pat=nm8(p) if dot else nm8(t)))
    return dict(a=a, b=[slim(e) for e in b], labels=[i + 1 for i, e in enumerate(a) if e["k"] == "lab"],
                safe="--rename-safe-only" in opts or "--minify-safe-only" in opts, rules=rs, together=together, map=lines, hasmap=hasmap)

def nm(text): return p8lua.nm("".join(map(chr, p8.from_text(text))))
def nm8(chars): return p8lua.nm(chars)
