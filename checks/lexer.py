"""Shared by the checks that compare token sequences (spec/P8Lex.tla, spec/LexPair.tla, spec/LexGen.tla)."""
import json, random
import vf, p8, p8lua, genlua
from checks import progs

def snippets(kind, start, step, limit=0):
    """programs enumerated by TLC (spec/LexGen.tla)"""
    r = vf.run_tlc("LexGen", env=dict(VF_KIND=kind, VF_START=str(start), VF_STEP=str(step), VF_LIMIT=str(limit)), workers=1)
    res = []
    for l in r.lines:
        if l.startswith("G [") and l != "G []":
            res.append("".join(map(chr, json.loads(l[2:]))))
        elif l.startswith('G \\"') and l != 'G \\"\\"':
            res.append(json.loads(l[2:].replace('\\\\', '\x00').replace('\\"', '"').replace('\x00', '\\')))
    if not res: raise vf.Machinery("LexGen gave nothing: " + r.out[-1500:])
    return res, r

def pack(r, snips, n=30):
    """several snippets in one program"""
    res = []
    for i in range(0, len(snips), n):
        out = []
        for s in snips[i:i+n]:
            k = r.random()
            if "goto l9" in s: s += "\n::l9::"
            if k < .5: out.append("do" + r.choice([" ", "\n", "\t", "--[[]]"]) + s + "\nend")
            elif k < .75: out.append("function w(...)" + r.choice([" ", "\n", ""]) + s + "\nend")
            elif k < .9: out.append("while w do" + r.choice([" ", "\n"]) + s + "\nend")
            else: out.append("w(function(...) " + s + "\nend)")
        # (a program must not begin with what the tool takes for a title)
        res.append("w=1\n" + r.choice(["\n", "\n", " "]).join(out).replace("\nend w(", "\nend\n;w("))
    return [s for s in res if valid(s)]

def valid(src):
    try: p8lua.parse([ord(c) for c in src], 43); return True
    except p8lua.LuaError: return False

GAPS = ["", " ", " ", "  ", "\t", "--[[c]]", " --[[ ]] ", "--[=[]]]=]"]
LINEGAPS = ["\n", "\n", "\n\n", " \n ", "--c\n", " // c\n", "\n--[[c\n]]\n", "--[[c]]\n", "\r\n", "--\n", "--[==[\n\n]==]\n", "\n\t"]

def relayout(r, src, comment=None, full=.3):
    """the same tokens, separated differently; line breaks stay line breaks"""
    b = [ord(c) for c in src]
    toks = p8lua.lex(b)
    out, pos = [], 0
    for t in toks:
        gap = src[pos:t.pos]
        if r.random() < full or comment and r.random() < .2:
            nl = "\n" in gap
            g = r.choice(LINEGAPS) if nl else r.choice(GAPS)
            if comment: g = comment(r, nl)
            if g == "" and t.t != "eof" and pos:
                x = src[prev.pos:prev.end] + src[t.pos:t.end]
                try:
                    ts = p8lua.lex([ord(c) for c in x])
                    if len(ts) != 3 or ts[0].end != prev.end - prev.pos: g = " "
                except p8lua.LuaError: g = " "
            if pos and src[pos-1:pos] == "-" and g.startswith("-"): g = " " + g
            if pos and src[pos-1:pos] in "/\\" and g.startswith("/"): g = " " + g
            gap = g
        out.append(gap); out.append(src[t.pos:t.end])
        pos, prev = t.end, t
    return "".join(out)

NOTOK = ["--minify-safe-only", "--no-minify-rename", "--no-minify-tokens", "--no-minify-reorder", "--no-minify-consts"]
TOK = ["--minify-safe-only", "--no-minify-rename", "--no-minify-reorder", "--no-minify-consts"]

def compare(chk, items, label, batch=300, keyf=None):
    """items: [(source, version, [(options, mode, keep)])] -- runs the real tool, lets LexPair compare input and output"""
    outs = vf.pmap(progs.transform, [(s, v, [o[0] for o in os]) for s, v, os in items], chunk=2)
    cases, recs = [], []
    for (src, version, os), rs in zip(items, outs):
        for (opts, mode, keep), r in zip(os, rs):
            name = " ".join(opts)
            chk.note((src, name))
            if r["status"] != "ok":
                chk.violation(f"fails:{src}", f"{label}: the tool fails under {name}: {r['status']}", dict(case=dict(program=src, options=name, version=version)))
                continue
            cases.append(dict(program=src, options=name, version=version, output="".join(map(chr, r["code"]))))
            recs.append(dict(a=[ord(c) for c in src], b=list(r["code"]), mode=mode, keep=keep, version=version))
    bad = []
    for i in range(0, len(recs), batch):
        verd, st = vf.tlc_verdicts("LexPair", recs[i:i+batch], timeout=800)
        chk.add_stats(st)
        for c, rec, v in zip(cases[i:i+batch], recs[i:i+batch], verd):
            if v[0] == "ok": continue
            if v[0] in ("badinput", "uninterpretable"):
                raise vf.Machinery(f"LexPair cannot read the input: {v} {show(v[1])}\n{c['program']}")
            bad.append((c, rec, v))
    keys = keyf(bad) if keyf else [f"{v[0]}:{c['program']}" for c, _, v in bad]
    for k, (c, rec, v) in zip(keys, bad):
        chk.violation(k, f"{label}: {v[0]} under {c['options']}: {show(v[1])}", dict(case=c, verdict=list(v)))
    return len(recs)

def show(detail):
    import re
    return re.sub(r"<<([\d, ]*)>>", lambda m: repr("".join(chr(int(x)) for x in m[1].split(",") if x.strip())), detail)
