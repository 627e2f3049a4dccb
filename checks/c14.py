"""C14: counts of tokens, characters and compressed bytes"""
import os, random, re
import vf, p8, cart, genlua
from checks import lexer, progs, carts

OPERANDS = ["a", "1", '"s"', "[[s]]", "(a)", "t[1]", "t.x", "{}", "...", "nil", "true", "f()", "f{}", "function() end", "f'x'", "a.b.c", "0x1.8", "not a", "#t", "-a", "@a"]
SIGNED = ["-1", "- 1", "-\n1", "~1", "~ 1", "-.5", "-0x1", "-a", "~a", "- -1", "-~1", "~-1", "-(1)", "--[[c]]1", "-0b1", "-1.5", "-32768", "-0x8000", "-#t", "~0xffff.ffff"]
OPS = ["+", "-", "*", "/", "^", "..", "==", "~=", "<", ">=", " and ", " or ", "&", "|", "^^", "<<", ">>>", "\\", "%"]
CONTEXTS = ["x=%s", "x,y=1,%s", "f(%s)", "f(a,%s)", "t[%s]=1", "x={%s}", "x={1,%s}", "x={a=%s}", "x={a;%s}", "x={[%s]=%s}", "x={%s;%s}", "local x <const> =%s" if 0 else "local x=%s", "for i=%s,%s,%s do end", "while a<%s do end", "if(%s)x=1", "x+=%s", "x^=%s", "?%s",
            "if %s then end", "repeat until %s", "x=a==%s", "x=function() return %s end", "for k,v in f,%s do end", "goto l9", "x=a;;y=%s", "local function h() end local z=%s", "function t.a.b:c() end x=%s", "x=t[%s][%s]", "a:b(%s)", "if a then x=%s elseif %s then y=%s else z=%s end", "x=(%s)"]

def tokens_program(r, n):
    out = []
    for _ in range(n):
        def e():
            k = r.random()
            if k < .4: return r.choice(SIGNED)
            if k < .8: return r.choice(OPERANDS) + r.choice(OPS) + r.choice(["", "", " "]) + r.choice(SIGNED)
            return r.choice(OPERANDS)
        s = r.choice(CONTEXTS)
        s = re.sub("%s", lambda m: e(), s)
        if s == "goto l9": s = "do goto l9 ::l9:: end"
        s = s.replace("---", "- --").replace("--1", "- -1").replace("--a", "- -a").replace("--.", "- -.").replace("--0", "- -0").replace("--(", "- -(").replace("--#", "- -#").replace("--~", "- -~").replace("---", "- --")
        out.append("w(function(...) " + s + "\nend)")
    src = "w=1\n" + "\n".join(s for s in out if lexer.valid("w=1\n" + s))
    return src

STOPS = ["--lint: count::stop\n", "--[[lint: count::stop]]", "--lint:count::stop\n", "--$lint: unused, count::stop\n", "--lint: count::stopx\n", "-- lint: count::stop\n", "--lint: xcount::stop, a\n", "--[[lint: a,count::stop,b]]",
         "--lint: count: :stop\n", "--lint count::stop\n"]

def drive(item):
    src, fmt0, fmt, opts, seed = item
    src = src.replace("\r", "").rstrip("\n") # (how files end is not what is looked at here)
    r = random.Random(seed)
    for f in os.listdir("."): os.unlink(f)
    code = bytes(ord(ch) for ch in src)
    a = "a" + carts.EXT[fmt0]
    parts = [dict(code=list(code), compressed=-1, url=-1)]
    if fmt0 == "p8": p8.write_p8(a, code, version=43)
    elif fmt0 == "lua":
        with open(a, "w", encoding="utf8", newline="") as f: f.write(p8.to_text(code))
    else: # an image or rom made by the tool, whose own counts another case checks
        p8.write_p8("x.p8", code, version=43)
        st, o, e = vf.run_cli(["x.p8", a, "-f", fmt0] + (["--force-compression"] if r.random() < .5 else []) + (["--old-compression"] if r.random() < .3 else []), timeout=120)
        if st != 0: return dict(failed=f"making the input: {st} {e[-200:]}")
        parts[0]["compressed"] = section_size(a, fmt0)
    args = [a] + (["b" + carts.EXT[fmt], "-f", fmt] if fmt else []) + opts
    st, o, e = vf.run_cli(args, timeout=120)
    if st != 0: return dict(failed=f"{args}: {st} {e[-300:]}")
    rec = dict(icount="--input-count" in opts, count="--count" in opts, hints="--ignore-hints" not in opts,
               tokenless="--no-count-tokenize" in opts and not any(x in opts for x in ("--minify", "--minify-safe-only", "--unminify", "--lint")))
    out = dict(parts[0], compressed=-1, url=-1)
    if not fmt: # (what would have been written)
        plain = [x for x in opts if "count" not in x]
        if plain:
            st, o2, e = vf.run_cli([a, "d.p8"] + plain, timeout=120)
            if st != 0: return dict(failed=f"{plain}: {st} {e[-200:]}")
            out["code"] = list(bytes.fromhex(cart.observe("d.p8", "p8")["code"]))
        else:
            with open("d.p8", "w"): pass
    if fmt:
        ob = cart.observe("b" + carts.EXT[fmt], fmt); out["code"] = list(bytes.fromhex(ob["code"]))
        if fmt == "url":
            out["url"] = os.path.getsize("b.url") - 4 # (as PICO-8's limit is counted)
    if rec["count"]:
        if fmt in ("rom", "png", "clip", "tiny_rom"): out["compressed"] = section_size("b" + carts.EXT[fmt], fmt)
        elif fmt != "url" and "--no-count-compress" not in opts:
            src2 = "b" + carts.EXT[fmt] if fmt else "d.p8" if plain else a
            st, o2, e = vf.run_cli([src2, "c.rom", "--force-compression"] + [x for x in opts if x in ("--fast-compression", "--old-compression")], timeout=120)
            if st != 0: return dict(failed=f"compressing: {st} {e[-200:]}")
            out["compressed"] = section_size("c.rom", "rom")
    if fmt: parts.append(out)
    else: parts[0]["compressed_in"] = parts[0]["compressed"]; parts = [dict(parts[0]), out]
    rec["parts"] = [{k: v for k, v in p.items() if k != "compressed_in"} for p in parts]
    rec["lines"] = []
    for l in o.split("\n"):
        m = re.fullmatch(r"(?:(input) )?(tokens|chars|compressed|url): (\d+) (\d+)(\.\d\d)?%", l)
        if m: rec["lines"].append(dict(prefix=m[1] or "", name=m[2], size=int(m[3]), percent=int(m[4]) * 100 + (int(m[5][1:]) if m[5] else 0), decimals=bool(m[5]), limit=-1)); continue
        m = re.fullmatch(r"count:(input|None):(tokens|chars|compressed|url):(\d+):(\d+)", l)
        if m: rec["lines"].append(dict(prefix=m[1].replace("None", ""), name=m[2], size=int(m[3]), percent=-1, decimals=False, limit=int(m[4])))
        elif l.startswith("count:") or re.search(r"\d%", l): rec["lines"].append(dict(prefix="?", name="chars", size=-1, percent=0, decimals=False, limit=-1))
    return dict(rec=rec, said=o[:500])

def section_size(path, fmt):
    with open(path, "rb") as f: d = f.read()
    if fmt in ("png", "clip"):
        if fmt == "clip": d = bytes.fromhex(d.decode().strip()[6:-7])
        d = cart.png_bytes(cart.image(d)[2])
    if fmt in ("png", "clip", "rom"): d = d[0x4300:0x8000]
    if fmt == "url":
        import base64
        d = base64.b64decode(d.decode().strip().split("?c=")[1].split("&")[0].replace("_", "+").replace("-", "/"))
    if d[:4] == b"\0pxa": return d[6] * 256 + d[7]
    if d[:4] == b":c:\0": return cart.old_size(d)
    return -1

def run():
    chk = vf.Check("C14", "model_checking",
        "programs with every sign, operand and context, enumerated snippets, random programs with and without count::stop hints, counted by the real command line before and after minification in several formats and printed forms; "
        "the numbers are those of the TLA+ model on the input and the output read back; non-trivial: distinct program and options")
    r = chk.rng("count")
    srcs = [tokens_program(r, 60) for _ in range(chk.scale(60, 600))]
    for kind, step in (("binary", chk.scale(1597, 131)), ("stmts", chk.scale(53, 3))):
        sn, st = lexer.snippets(kind, r.randrange(step), step)
        chk.transitions += st.states; chk.states += st.distinct
        r.shuffle(sn); srcs += lexer.pack(r, sn)
    for _ in range(chk.scale(40, 500)): srcs.append(lexer.relayout(r, genlua.program(r)))
    srcs += progs.CORPUS
    items = []
    for s in srcs:
        stop = r.random() < .2
        if stop:
            ls = s.split("\n")
            try_s = "\n".join(ls[:1] + [x for l in ls[1:] for x in ([l, r.choice(STOPS).rstrip("\n")] if r.random() < .1 else [l])])
            if lexer.valid(try_s): s = try_s
            else: stop = False
        opts = r.choice([["--count"], ["--count", "--input-count"], ["--count", "--input-count"], ["--input-count"]])
        fmt0 = r.choice(["p8", "p8", "lua", "rom", "png"]); fmt = r.choice([None, "p8", "lua", "rom", "png", "clip", "tiny_rom", "url"])
        if fmt == "url" and len(s) > 2500: fmt = "tiny_rom"
        if fmt is None and opts == ["--input-count"]: fmt = "p8"
        minify = r.choice([[], [], ["--minify"], ["--minify-safe-only"], ["--minify", "--focus-tokens"], ["--minify", "--focus-chars"], ["--unminify"], ["--minify-safe-only", "--no-minify-tokens", "--no-minify-consts"]])
        if stop: minify = []
        opts = opts + minify + r.choice([[], [], [], ["--parsable-count"], ["--no-count-tokenize"], ["--no-count-compress"], ["--fast-compression"], ["--ignore-hints"] if not minify else []])
        items.append((s, fmt0, fmt, opts, r.randrange(1 << 30)))
    outs = vf.pmap(drive, items, chunk=2)
    cases, recs = [], []
    for it, o in zip(items, outs):
        chk.note(it[:4])
        case = dict(program=it[0], formats=[it[1], it[2]], options=" ".join(it[3]))
        if "failed" in o:
            chk.violation(f"failed:{it[0]}", o["failed"], dict(case=case)); continue
        cases.append(dict(case, said=o["said"])); recs.append(o["rec"])
    v = chk.validate("P8Count", cases, recs, key=lambda c, v: f"{v[0]}:{c['options']}:{c['program']}")
    bad = [(c, x) for c, x in zip(cases, v) if x[0] == "uninterpretable"]
    if bad: raise vf.Machinery(f"P8Count cannot read {bad[0]}")
    return chk.finish()
