"""C19: how a run of the command line ends (spec/CliRun.tla: CliGen makes the scenarios, CliTrace judges the runs)"""
import os, re, json, hashlib, shutil
import vf, p8, cart, genlua
from checks import carts

def scenarios(chk):
    t = vf.run_tlc("CliGen", cfg="SPECIFICATION Spec\nINVARIANTS ZeroMeansAll FaultMeansNonZero NothingBeforeChecks InOrder\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n")
    out = []
    for l in t.lines:
        if l.startswith("S "):
            s = l[2:].replace("\\\"", "\"").replace("{", "(").replace("}", ")").replace("[", "{").replace("]", "}").replace("(", "[").replace(")", "]").replace("<<", "[").replace(">>", "]")
            out.append(json.loads(re.sub(r"(\w+) \|->", r'"\1":', s).replace("TRUE", "true").replace("FALSE", "false")))
    if not out or t.error: raise vf.Machinery("CliGen: " + t.out[-2000:])
    out.sort(key=lambda s: json.dumps(s, sort_keys=True))
    chk.states += t.distinct; chk.transitions += t.states
    return out

CLEAN = ["x=1\n?x", "function _init()\n a,b=1,2\nend\nfunction _draw()\n cls()\n print(a+b)\nend", "-- a comment\nfor i=1,3 do ?i\nend", "t={k=1}\nt.k+=1\n?t.k", "s=\"abc\"\n?#s..\"x\""]
UNUSED = ["local foo=1\n?2", "function f(a) return 1 end\n?f(1)\nlocal q", "?nothing_here", "do local x=1 ?x\n do local x=2 ?x\nend end"]
SYNTAX = ["x=", "if x then ?1\n", "?1 end", "for i=1 do end", "x=1 y==2", "f(", "local 1", "::a ?1", "goto", "function (a) end", "repeat ?1\n", "t={1,,2}", "break_() then", "x=(1", "a.1=2", "local function f.x() end", "x=1,"]

def mutated(r):
    s = genlua.program(r)
    if isinstance(s, (list, tuple)): s = s[0]
    if isinstance(s, str): s = s.encode("latin1")
    toks = re.findall(rb"\w+|\s+|[^\w\s]", bytes(s))[:r.choice([30, 100, 300])]
    for _ in range(r.randrange(1, 6)):
        if not toks: break
        i = r.randrange(len(toks)); k = r.randrange(5)
        if k == 0: del toks[i]
        elif k == 1: toks.insert(i, r.choice(toks))
        elif k == 2: toks[i] = r.choice(toks)
        elif k == 3: toks.insert(i, r.choice([b"(", b")", b"end", b"\"", b"[[", b"--[[", b"]]", b"0x", b"1e5", b"..", b"...", b"=", b"{", b"}", b"\\", b"@", b"?", b"::", b"goto ", b"local ", b"function ", b"--[[$", b"$", b"\x01", b"\xf0", b"!", b"~", b"0b2", b"'", b"--$preserve: ", b"--[==[", b"((((((((((((((((((((", b"return ", b"#include", b" + - - ~ not "]))
        else: j = r.randrange(len(toks)); toks[i], toks[j] = toks[j], toks[i]
    s = b"".join(toks).rstrip(b"\n") # (a raw .lua loses its last line break)
    return s if not any(l.startswith(b"__") for l in s.split(b"\n")) and b"#include" not in s and b"\r" not in s and b"\0" not in s else b"x=)"

def state(p):
    if not os.path.lexists(p): return "none"
    if os.path.isdir(p): return "folder:" + ",".join(f"{q}={state(os.path.join(p, q))}" for q in sorted(os.listdir(p)))
    with open(p, "rb") as f: return hashlib.sha1(f.read()).hexdigest()[:16]

def damage(r, d, fmt):
    k = r.randrange(5)
    if k == 0: return d[:r.randrange(len(d))]
    if k == 1: return b""
    if k == 2: i = r.randrange(len(d)); return d[:i] + bytes(r.randrange(256) for _ in range(r.randrange(1, 9))) + d[i:]
    if k == 3: return bytes(r.randrange(256) for _ in range(r.choice([1, 10, 500, 0x8000])))
    b = bytearray(d)
    for _ in range(r.choice([1, 1, 3, 30])): b[r.randrange(len(b))] = r.randrange(256)
    return bytes(b)

def drive(item):
    r = vf.random.Random(item["seed"]); sc = item["sc"]
    for f in os.listdir("."): shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
    place = [o for o in sc["outs"] if o["to"] == "input"]
    fmt = (r.choice(["png", "rom"]) if place[0]["bin"] else r.choice(["p8", "lua"])) if place else r.choice(["p8", "p8", "lua"]) if sc["prog"] in ("noinclude", "selfinclude") else r.choice(["p8", "p8", "lua", "png", "rom"])
    main = "in" + carts.EXT[fmt]
    code = dict(clean=CLEAN, unused=UNUSED, syntax=SYNTAX, noinclude=CLEAN, selfinclude=CLEAN).get(sc["prog"])
    code = mutated(r) if code is None else r.choice(code).encode()
    if sc["prog"] == "syntax" and r.random() < .5: code = r.choice(CLEAN).encode() + b"\n" + code
    inputs, held = [main], code
    if sc["big"]:
        code += b"\nbig=\"" + bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz0123456789!#$%&()*+,-./:;<=>?@^_{|}~ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(24000)) + b"\"\n?#big"
        if fmt in ("png", "rom"): fmt = "p8"; main = inputs[0] = "in.p8"
        if place and place[0]["bin"]: return None
        held = code
    if sc["prog"] == "noinclude": code += b"\n#include nosuch.lua"
    if sc["prog"] == "selfinclude":
        if r.random() < .5: code += b"\n#include " + main.encode()
        else:
            code += b"\n#include one.lua"
            for a, b in ("one", "two"), ("two", "one"): open(a + ".lua", "wb").write(b"?1\n#include %s.lua\n" % b.encode())
            inputs += ["one.lua", "two.lua"]
    if fmt in ("p8", "lua") and sc["prog"] in ("clean", "unused") and sc["read"] == "ok" and r.random() < .3:
        open("inc.lua", "wb").write(b"?12\n?13"); inputs.append("inc.lua")
        held = code + b"\n?12\n?13"; code += b"\n#include inc.lua"
    mem = carts.some_memory(r, True)
    if fmt == "p8": p8.write_p8(main, code, cart.text_sections(mem, None), 41)
    elif fmt == "lua":
        mem = cart.default_memory()
        with open(main, "w", encoding="utf8", newline="") as f: f.write(p8.to_text(code))
    else:
        rom = cart.make_rom(mem, code, (41, (0, 2, 5, 6), "l", False) if fmt == "png" else None) if fmt == "png" else cart.make_rom(mem, code)
        with open(main, "wb") as f: f.write(cart.make_png(rom, [0] * 16384, lambda: r.randrange(1 << 24)) if fmt == "png" else rom)
    if sc["read"] == "missing": os.unlink(main)
    if sc["read"] == "damaged":
        d = damage(r, open(main, "rb").read(), fmt)
        with open(main, "wb") as f: f.write(d)
    args = [main]
    paths, fmts = [], []
    for n, o in enumerate(sc["outs"]):
        f = r.choice(["png", "rom"]) if o["bin"] else r.choice(["p8", "p8", "lua"])
        if o["to"] == "input": f = fmt
        p = {"noparent": "nodir/", "input": main}.get(o["to"], "") if o["to"] != "input" else main
        if o["to"] != "input": p += f"out{n}" + carts.EXT[f]
        if o["to"] == "old":
            with open(p, "wb") as h: h.write(r.choice([b"", b"something old", b"x" * 40000]))
        if o["to"] == "folder":
            os.mkdir(p)
            with open(os.path.join(p, "x"), "wb") as h: h.write(b"kept")
        if n == 0: args += [p] + (["-f", f] if r.random() < .4 else [])
        else: args += ["--extra-output", p] + ([f] if r.random() < .4 else [])
        paths.append(p); fmts.append(f)
    x = sc["extra"]
    if x == "merge":
        p8.write_p8("m.p8", b"?99", cart.text_sections(carts.some_memory(r, True), None), 41); inputs.append("m.p8"); args += ["--merge", "m.p8", r.choice(["gfx", "sfx,map", "gff"])]
    elif x == "nofile": args += r.choice([["--merge", "nosuch.p8", "gfx"], ["--label", "nosuch.png"], ["--merge", "nosuch.png", "gfx", "png"]])
    elif x == "nosection":
        p8.write_p8("m.p8", b"?99", cart.text_sections(carts.some_memory(r, True), None), 41); inputs.append("m.p8"); args += ["--merge", "m.p8", r.choice(["nothing", "gfx,gfy", "GFX"])]
    elif x == "badlabel":
        with open("label.png", "wb") as h: h.write(r.choice([b"", b"not a png", b"\x89PNG\r\n\x1a\n", cart.make_image(40, 40, [(0, 0, 0, 255)] * 1600)]))
        inputs.append("label.png"); args += ["--label", "label.png"]
    opts = dict(lint=["--lint"], nofail=["--no-lint-fail"], minify=["--minify"], unminify=["--unminify"], count=["--count"], map=["--rename-map", "map.txt"])
    for a in sc["act"]: args += opts[a]
    if "minify" in sc["act"] and r.random() < .3: args.append(r.choice(["--minify-safe-only", "--no-minify-rename", "--focus-compressed"]))
    before, inb = [state(p) for p in paths], {p: state(p) for p in inputs if p not in paths}
    everything = set(os.listdir("."))
    st, o, e = vf.run_cli(args, timeout=60)
    rec = dict(sc=sc, rc=st if isinstance(st, int) else 1 if st != "hang" else 99, crash=not isinstance(st, int), note=f"{st} {e[-300:]}", inputs_same=all(state(p) == s for p, s in inb.items()),
               strays=sorted(set(os.listdir(".")) - everything - set(paths) - {"map.txt"}) + (["nodir"] if os.path.exists("nodir") else []), outs=[], code=list(held), mem=[] if x == "merge" else [hashlib.sha1(mem).hexdigest()[:12]])
    for p, f, b in zip(paths, fmts, before):
        a = dict(before=b, after=state(p), readable=False, code=[], mem=rec["mem"])
        if os.path.isfile(p):
            try:
                ob = cart.observe(p, f)
                a["readable"] = True; a["code"] = list(bytes.fromhex(ob["code"]))
                if f != "lua": a["mem"] = [hashlib.sha1(carts.mem_of(ob)).hexdigest()[:12]] if x != "merge" else []
            except Exception as ex: a["code"] = [ord(ch) for ch in f"{type(ex).__name__} {ex}"[:80]]
        rec["outs"].append(a)
    if place and rec["outs"]: pass
    return dict(rec=rec, args=" ".join(args), code=code[:300].decode("latin1"), said=(o[-300:], e[-300:]))

def run():
    chk = vf.Check("C19", "model_checking",
        "scenarios of a run (what is wrong with inputs, program and output places; options) enumerated by TLC from CliGen and checked there (ends; what has been written at each way of ending), "
        "a sample of them carried out with the real command line on generated carts, damaged files and mutated programs; each recorded run is judged by CliTrace; non-trivial: distinct scenario and seed")
    r = chk.rng("runs")
    all_ = scenarios(chk)
    groups = {}
    for s in all_: groups.setdefault((s["read"], s["extra"], s["prog"], s["big"], tuple(o["to"] for o in s["outs"])), []).append(s)
    pick = [r.choice(g) for k, g in sorted(groups.items()) for _ in range(chk.scale(1, 6))]
    pick += r.sample(all_, chk.scale(400, 4000))
    pick += [s for s in r.choices([s for s in all_ if s["prog"] == "random" and s["act"]], k=chk.scale(300, 4000))]
    pick += [s for s in r.choices([s for s in all_ if s["read"] == "damaged" and s["extra"] == "none"], k=chk.scale(200, 3000))]
    items = [dict(sc=s, seed=r.randrange(1 << 30)) for s in pick]
    outs = vf.pmap(drive, items, chunk=4)
    cases, recs = [], []
    for it, o in zip(items, outs):
        if o is None: continue
        chk.note([it["sc"], it["seed"]])
        cases.append(dict(seed=it["seed"], scenario=it["sc"], command=o["args"], program=o["code"], said=o["said"])); recs.append(o["rec"])
    v = chk.validate("CliTrace", cases, recs, key=lambda c, v: f"{v[0]}:{c['scenario']['prog']}:{c['scenario']['read']}:{c['scenario']['extra']}:{c['said'][1][-60:]}", chunk=200, cfg="SPECIFICATION Spec\nINVARIANTS OutcomeOk\nCHECK_DEADLOCK FALSE\n")
    chk.sample(dict(cases[0], verdict=v[0])); chk.sample(dict(cases[-1], verdict=v[-1]))
    chk.extra["disagreements_checked"] = len(recs); chk.extra["scenarios"] = len(all_)
    return chk.finish()
