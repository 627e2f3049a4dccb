"""Histories of runs of the command line on carts, generated by CartGen.tla, replayed in the real code and checked by CartTrace.tla"""
import os, json
import vf, p8, cart

FMT = ["p8", "png", "rom", "clip", "url", "tiny_rom", "lua", "label", "spritesheet"]
EXT = dict(p8=".p8", png=".png", rom=".rom", clip=".clip", url=".url", tiny_rom=".rom", lua=".lua", label=".png", spritesheet=".png")
SECS = [["lua"], ["gfx"], ["map"], ["gff"], ["music"], ["sfx"], ["label"], ["meta:foo"], ["meta:title"], ["lua", "label"], ["gfx", "sfx"],
        ["music", "gff", "map"], ["sfx", "meta:foo"], ["lua", "nothing"], ["gfx", "Lua"]]

def histories(chk, depth, ops, sims=0):
    cfg = f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth={depth} WithOps={'TRUE' if ops else 'FALSE'}\n"
    if sims: r = vf.run_tlc("CartGen", cfg=cfg, workers=1, simulate=f"num={sims}", extra=["-seed", str(chk.seed), "-depth", str(depth + 1)])
    else: r = vf.run_tlc("CartGen", cfg=cfg)
    hs = [json.loads(l[2:].replace("<<", "[").replace(">>", "]")) for l in r.lines if l.startswith("H ")]
    if sims: # (TLC prints every last step it could have taken)
        chk.rng("sims").shuffle(hs); hs = hs[:sims]
    if not hs: raise vf.Machinery("CartGen: " + r.out[-2000:])
    chk.states += r.distinct; chk.transitions += r.states
    return hs

def some_memory(r, small):
    m = cart.default_memory()
    for a, b in cart.PARTS.values():
        if small:
            for _ in range(r.randrange(1, 6)): m[r.randrange(a, b)] = r.randrange(256)
        else:
            m[a:b] = bytes(r.randrange(256) for _ in range(b - a)) if r.random() < .7 else bytes((i * 5 + i // 64) & 255 for i in range(b - a))
    return bytes(m)

def some_code(r, small):
    ok = [b for b in range(1, 256) if b not in (13, 10)]
    k = r.random()
    if small or k < .3: s = b"-- " + bytes(r.choice(b"abcdefgh ") for _ in range(r.randrange(1, 30))) + b"\n--" + bytes(r.choice(ok) for _ in range(r.randrange(1, 20))) + b"\nx=%d" % r.randrange(9999)
    elif k < .6: s = b"\n".join(b"--" + bytes(r.choice(ok) for _ in range(r.randrange(60))) for _ in range(r.randrange(1, 60))) + b"\nx=1"
    elif k < .8: s = b"\n".join(b"x=%d y=\"%s\"" % (r.randrange(99), bytes(r.choice(b"abcdefghij") for _ in range(40))) for _ in range(420)) # (has to be compressed)
    else: s = b"?1"
    if any(l.startswith(b"__") for l in s.split(b"\n")) or b"#include" in s: return some_code(r, small)
    return s

def some_label(r):
    if r.random() < .3: return [(x // 4 + y) % 32 for y in range(128) for x in range(128)]
    return [r.randrange(32) for _ in range(128 * 128)]

def some_cart(r, small=False):
    """the contents of a cart (strings as cart.observe gives them)"""
    o = cart.parts(some_memory(r, small))
    o.update(code=some_code(r, small).hex(), label=cart.label_str(some_label(r)), version=r.choice([28, 31, 35, 38, 41, 42, 43]),
             title="\n".join("".join(r.choice("abc dé♥-") for _ in range(r.randrange(1, 20))).strip() or "t" for _ in range(r.randrange(1, 3))), foo="some %d\n__x\n  y " % r.randrange(99), platform="l")
    return o

def mem_of(o): return bytes.fromhex("".join(o[n] for n in cart.PARTS))
def label_of(o): return ["0123456789abcdefghijklmnopqrstuv".index(ch) for ch in o["label"]] or [0] * 16384

TUPLES = {28: (0,2,0,0), 31: (0,2,2,1), 35: (0,2,4,1), 38: (0,2,5,2), 41: (0,2,5,6), 42: (0,2,6,1), 43: (0,2,7,0)}
def tuple_number(t): return ((t[0] * 64 + t[1]) * 256 + t[2]) * 256 + t[3]

def write_start(o, fmt, path, r, corrupt=False):
    """a cart file made by the harness, and what it holds"""
    if fmt != "p8" and len(o["code"]) >= 0x7a00: o["code"] = b"--short".hex()
    mem, code, label = mem_of(o), bytes.fromhex(o["code"]), label_of(o)
    if fmt == "p8":
        secs = cart.text_sections(mem, label if any(label) else None)
        if o["title"]: secs.append(("meta:title", o["title"].split("\n")))
        if o["foo"]: secs.append(("meta:foo", o["foo"].split("\n")))
        p8.write_p8(path, code, secs, o["version"])
        held = o
    elif fmt == "rom":
        with open(path, "wb") as f: f.write(cart.make_rom(mem, code))
        held = dict(cart.DEFAULT, version=42, platform="l", **cart.parts(mem)); held["code"] = o["code"]
    else:
        o["platform"] = r.choice("lwxmjr")
        t = TUPLES[o["version"]] if r.random() < .5 else (r.randrange(2), r.randrange(4), r.randrange(250), r.randrange(250))
        rom = cart.make_rom(mem, code, (o["version"], t, o["platform"], corrupt or r.random() < .5))
        if corrupt: i = r.choice([r.randrange(0x4300), 0x4300 + r.randrange(0x3d00), 0x7fff, 0x8006 + r.randrange(20)]); rom = rom[:i] + bytes([rom[i] ^ 1 << r.randrange(8)]) + rom[i + 1:]
        d = cart.make_png(rom, label, lambda: r.randrange(1 << 24))
        with open(path, "wb") as f: f.write(d)
        held = dict(o, title="", foo="", tuple=tuple_number(t))
        return held
    held["tuple"] = tuple_number(TUPLES[held["version"]])
    return held

def version_said(st, o):
    import re
    ls = [l for l in o.split("\n") if l]
    if st != 0: return dict(name="exit %r" % st, id=-2, platform=0)
    if ls == ["no version info"]: return dict(name="none", id=-1, platform=0)
    m = re.fullmatch(r"version: (\S+)\nraw version: (\d+) \([\d.]+\)(?:\nplatform: (.*))?", "\n".join(ls))
    if not m: return dict(name="?" + o[:60], id=-2, platform=0)
    p = re.search(r"\[(.)\]", m[3], re.S) if m[3] else None
    return dict(name=m[1], id=int(m[2]), platform=ord(p[1]) if p else 0)

def drive(item):
    """item: dict(start, fmt0, srcs, steps=[dict(...)], seed) -> the recorded history"""
    import random
    r = random.Random(item["seed"])
    for f in os.listdir("."): os.unlink(f)
    ids = {}
    def iid(part, val):
        if part in ("version", "tuple"): return val
        if part == "platform": return ord(val)
        if val == cart.DEFAULT[part]: return 0
        return ids.setdefault((part, val), len(ids) + 1)
    def abstract(o): return {p: iid(p, v) for p, v in o.items()}
    small = item["small"]
    init = abstract(write_start(some_cart(r, small), item["fmt0"], "a0" + EXT[item["fmt0"]], r, item.get("corrupt", False)))
    srcs = []
    for i, fmt in enumerate(item["srcs"]):
        sc = some_cart(r, small)
        for n in ("label", "title", "foo", "code", *cart.PARTS):
            if r.random() < item.get("absent", 0): sc[n] = cart.DEFAULT[n]
        srcs.append(abstract(write_start(sc, fmt, f"m{i}" + EXT[fmt], r)))
    lab = some_label(r)
    with open("label.png", "wb") as f: f.write(cart.label_png(lab))
    labid = iid("label", cart.label_str(lab))
    prev, prevf = "a0" + EXT[item["fmt0"]], item["fmt0"]
    steps = []
    for n, s in enumerate(item["steps"]):
        out = f"a{n + 1}" + EXT[s["fmt"]]
        args = [prev, out, "-f", s["fmt"].replace("_", "-")]
        if prevf in ("label", "spritesheet", "tiny_rom"): args += ["-F", prevf.replace("_", "-")]
        for i, secs, how in s["merges"]:
            args += ["--merge", f"m{i}" + EXT[item["srcs"][i]], {0: ",", 1: " ", 2: ", "}[how].join(secs)]
            if how == 1: args.append(item["srcs"][i])
        if s["label"]: args += ["--label", "label.png"]
        for t in s["title"] or (): args += ["--title", t]
        args += s["ver"]["args"]
        if s["outsecs"]: args += ["--output-sections", ",".join(s["outsecs"])]
        args += s["args"]
        st, o, e = vf.run_cli(args, timeout=120)
        rec = dict(fmt=s["fmt"], merges=[dict(src=i + 1, secs=secs) for i, secs, how in s["merges"]], label=labid if s["label"] else -1,
                   title=iid("title", "\n".join(s["title"])) if s["title"] else -1, ver={k: v for k, v in s["ver"].items() if k != "args"}, outsecs=s["outsecs"],
                   status=st if isinstance(st, int) else 99, written=os.path.exists(out), obs={}, said={})
        if rec["written"] and r.random() < .3:
            st2, o2, e2 = vf.run_cli([out, "--version"] + (["-F", s["fmt"].replace("_", "-")] if s["fmt"] in ("label", "spritesheet", "tiny_rom") else []), timeout=60)
            rec["said"] = version_said(st2, o2)
        if rec["written"]:
            try: rec["obs"] = abstract(cart.observe(out, s["fmt"]))
            except Exception as ex: rec["status"] = 98; e = f"{type(ex).__name__}: {ex}"
        steps.append(rec)
        s["ran"] = " ".join(args); s["said"] = f"{st} {e[-300:]}"
        if rec["status"] == 0: prev, prevf = out, s["fmt"]
        elif os.path.exists(out): os.unlink(out)
    return dict(rec=dict(corrupt=item.get("corrupt", False), init=init, srcs=srcs, steps=steps), ran=[(s["ran"], s["said"]) for s in item["steps"]])

def plain(fmt, **kw):
    return dict(dict(fmt=fmt, merges=[], label=False, title=None, ver=dict(kind="none", args=[]), outsecs=[], args=[]), **kw)

def version(r, k):
    if k == 0: i = r.choice([28, 30, 33, 36, 39, 41, 43]); return dict(kind="id", id=i, args=["--output-version", str(i)])
    if k == 1: return dict(kind="latest", args=["--update-version"])
    t = r.choice([(0,2,4,2), (0,2,5,2), (0,2,5,1), (0,2,5,3), (0,2,4,3), (0,2,0,5), (0,2,1,0), (0,2,3,0), (0,2,6,0), (0,2,7,0), (0,2,6,2)] if k == 2 else [(0,2,7,1), (0,2,8,0), (0,1,12,0), (1,3,0,0)])
    return dict(kind="name", tuple=list(t), args=["--output-version", "v%d.%d.%d%s" % (*t[:3], "abcdefghij"[t[3]] if t[3] else "")])

def step(r, op, fmt):
    """the concrete options of an operation number"""
    s = plain(fmt)
    n = len(SECS)
    how = r.randrange(3)
    if 1 <= op <= n: s["merges"] = [(r.randrange(2), SECS[op - 1], how)]
    elif op == n + 1: s["label"] = True
    elif op == n + 2: s["title"] = ["some title"]
    elif op == n + 3: s["title"] = ["first é♥", "second"]
    elif op in (n + 4, n + 5, n + 6, n + 7): s["ver"] = version(r, op - n - 4)
    elif op == n + 8: s["merges"] = [(0, ["gfx", "lua"], how), (1, ["gfx", "label"], how)]
    elif op == n + 9: s["merges"] = [(0, ["label"], how)]; s["label"] = True
    elif op == n + 10: s["outsecs"] = r.choice([["lua"], ["gfx", "label"], ["sfx", "music"], ["map", "gff", "meta:foo"], ["meta:title"]])
    elif op == n + 11: s["merges"] = [(0, ["sfx"], how)]; s["ver"] = version(r, 0); s["title"] = ["tt"]
    elif op == n + 12: s["args"] = ["--keep-compression"]; s["merges"] = [(1, ["lua"], how)]
    return s

def check(chk, items, label):
    outs = vf.pmap(drive, items, chunk=1)
    cases = []
    for it, o in zip(items, outs):
        chk.note(dict(it, steps=[{k: v for k, v in s.items() if k not in ("ran", "said")} for s in it["steps"]]))
        cases.append(dict({k: v for k, v in it.items() if k != "steps"}, runs=o["ran"]))
    chk.validate("CartTrace", cases, [o["rec"] for o in outs], key=lambda c, v: f"{label}:{v[0]}:{v[1]}")


def hi(p): return (p[0] >> 2) << 18 | (p[1] >> 2) << 12 | (p[2] >> 2) << 6 | p[3] >> 2
def lo(p): return (p[0] & 3) << 6 | (p[1] & 3) << 4 | (p[2] & 3) << 2 | p[3] & 3

def drive_image(item):
    """writes a cart image (or clipboard text) of a cart made by the harness; its raw pixels"""
    import random, hashlib
    r = random.Random(item["seed"])
    for f in os.listdir("."): os.unlink(f)
    o = some_cart(r, r.random() < .5)
    k = item["title"]
    text = lambda n: bytes(r.choice([ch for ch in range(16, 256) if ch not in (10, 13)]) if r.random() < .3 else r.choice(b"abcXYZ 019-") for _ in range(n))
    lines = [text(r.choice([0, 1, 5, 14, 15, 16, 30, 31, 32, 40])) for _ in range(r.randrange(1, 4))]
    if k == 0: o["title"] = ""
    elif k == 1: o["title"] = ""; o["code"] = (b"\n".join(r.choice([b"--", b"-- ", b"-- ", b"x=1 -- ", b""]) + t for t in lines) + b"\nx=2").hex()
    else: o["title"] = "\n".join(p8.to_text(t) for t in lines)
    if b"\n__" in b"\n" + bytes.fromhex(o["code"]) or b"#include" in bytes.fromhex(o["code"]): o["code"] = b"x=1".hex()
    if r.random() < .25: o["label"] = ""
    elif r.random() < .3: o["label"] = cart.label_str([0 if (x + y) % 3 else (x * y) % 32 for y in range(128) for x in range(128)])
    fmt0 = item["fmt0"]; foreign = fmt0 == "png"
    held = write_start(o, fmt0, "a" + EXT[fmt0], r)
    args = ["a" + EXT[fmt0], "b" + EXT[item["fmt"]], "-f", item["fmt"]] + item["args"]
    titled = bool(held["title"])
    title = [b for b in b"\n".join(lines)] if titled else []
    if item["set_title"]: args += ["--title", "given ti\u2665tle"]; titled = True; title = list(p8.from_text("given ti\u2665tle"))
    st, so, se = vf.run_cli(args, timeout=120)
    out = "b" + EXT[item["fmt"]]
    if st != 0 or not os.path.exists(out): return dict(failed=True, said=f"{args} {st} {se[-300:]}")
    d = open(out, "rb").read()
    try:
        if item["fmt"] == "clip": d = bytes.fromhex(d.decode()[6:-7])
        w, h, px = cart.image(d)
    except Exception as ex: return dict(failed=True, said=f"{args} unreadable: {ex}")
    lows = [lo(p) for p in px]
    rom = cart.png_bytes(px)
    t = held["tuple"]
    rec = dict(px=lows, hi=[hi(p) for p in px], mem=list(mem_of(held)), version=held["version"], tuple=[t >> 22, t >> 16 & 63, t >> 8 & 255, t & 255],
               platform=ord(held.get("platform", "l")), sha=list(hashlib.sha1(rom[:0x8000]).digest()), label=label_of(held) if held.get("label") else [], titled=titled, title=title, code=list(bytes.fromhex(held["code"])))
    return dict(failed=False, rec=rec, said=str(args))

def check_images(chk, items):
    w, h, px = cart.image(open("/repo/template.png", "rb").read())
    fw, fh, fpx = cart.image(open("/repo/font.png", "rb").read())
    if (w, h, fw, fh) != (160, 205, 128, 96): raise vf.Machinery("template or font of another size")
    common = dict(template=[hi(p) for p in px], font=[hi(p) if p[3] else -1 for p in fpx], palette=[hi(cart.rgba(i)) for i in range(32)])
    outs = vf.pmap(drive_image, items, chunk=1)
    cases, recs = [], []
    for it, o in zip(items, outs):
        chk.note(it)
        if o["failed"]: chk.violation(f"image:failed:{it['fmt']}", it, o["said"]); continue
        cases.append(dict(it, ran=o["said"])); recs.append(o["rec"])
    chk.validate("CartLayout", cases, recs, key=lambda c, v: f"image:{v[0]}", base=common)
