"""Picotron carts: files made by the harness, histories of runs of the real command line, and what the written files hold (for spec/PtCart.tla)"""
import os, json, random, shutil, struct, io
import vf

FMT = ["p64", "rom", "png", "dir", "lua", "tiny", "list", "extract"]
EXT = dict(p64=".p64", rom=".rom", png=".png", dir="", lua=".lua", tiny=".rom", list="", extract="")
NOPS = 17
FOLDER = [-1]

def b64(b): import base64; return base64.b64encode(b, b"_-")

def lz4(r, data):
    """a valid LZ4 block for the data, with copies wherever the dice say so"""
    out, i, lit = bytearray(), 0, bytearray()
    def num(n):
        while n >= 255: out.append(255); n -= 255
        out.append(n)
    def block(off, n):
        out.append(min(len(lit), 15) << 4 | (min(n - 4, 15) if off else 0))
        if len(lit) >= 15: num(len(lit) - 15)
        out.extend(lit); lit.clear()
        if off:
            out.extend(struct.pack("<H", off))
            if n - 4 >= 15: num(n - 4 - 15)
    lazy = r.choice([0, .3, .9])
    while i < len(data):
        best = (0, 0)
        if i < len(data) - 12 and r.random() >= lazy:
            for j in (range(max(0, i - 300), i) if r.random() < .9 else range(max(0, i - 9), i)):
                n = 0
                while i + n < len(data) - 5 and data[j + n] == data[i + n]: n += 1
                if n >= 4 and n > best[0]: best = (n, i - j)
        if best[0]:
            n = best[0] if r.random() < .8 else r.randrange(4, best[0] + 1)
            block(best[1], n); i += n
        else: lit.append(data[i]); i += 1
    block(0, 0)
    return bytes(out)

def write_rom(r, files, path):
    body = b""
    for p, d in files:
        body += p.encode("latin1") + b"\0"
        if d is not None:
            n = len(d)
            body += (bytes([n]) if n < 255 and r.random() < .95 else b"\xff" + struct.pack("<I", n)) + d
    z = lz4(r, body)
    with open(path, "wb") as f: f.write(b"p64\2" + struct.pack("<I", len(z)) + z)

def write_p64(r, files, path):
    nl = b"\r\n" if r.random() < .15 and all(d is None or plain(d) for p, d in files) else b"\n"
    ls = [b"picotron cartridge // www.picotron.net", b"version 2", b""]
    for p, d in files:
        ls.append(b":: " + p.encode("latin1"))
        if d is None: continue
        if plain(d) and r.random() < .8: ls += d.split(b"\n")
        else:
            e = b"b64$" + b64(d); w = r.choice([76, 20, 1000])
            ls += [e[i:i + w] for i in range(0, len(e), w)]
    ls.append(b":: [eoc]")
    with open(path, "wb") as f: f.write(nl.join(ls) + (nl if r.random() < .8 else b""))

def plain(d): return b"\r" not in d and not d.startswith(b"b64$") and not any(l.startswith(b":: ") for l in d.split(b"\n")) and b"\0" not in d

def some_meta(r):
    pod = r.random() < .4
    keys = r.sample(["runtime", "created", "title", "author", "icon2", "run", "x", "runtime_x"], r.randrange(0, 4))
    m = [("pod", None) if pod else ("pod_format", '"raw"')] + [(k, r.choice(['"%s"' % r.choice(["a", "b c", "2024-01-02 x", ""]), str(r.randrange(99))]) if k != "runtime" else str(r.randrange(6, 30))) for k in keys]
    return ("--[[" + ",".join(k if v is None else f"{k}={v}" for k, v in m) + "]]").encode(), pod

def some_data(r, name):
    k = r.random()
    if name.endswith(".lua"):
        d = r.choice([b"", b"x=1", b"x=1\n", b"\nprint(1)\n\n", b"-- a\nfunction f()\n\treturn 1\nend", b"?\"caf\xe9\"", b":: x\ny=1", b"b64$abc", b"a\r\nb=2", b"z=1\r", b"--[[x]]\n", b"\n", b"y=\"" + b"ab" * r.randrange(1, 400) + b"\""])
    elif k < .1: d = b""
    elif k < .3: d = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 20, 75, 76, 77, 254, 255, 256, 300])))
    elif k < .55: d = bytes(r.choice(b"abc\n :") for _ in range(r.randrange(1, 120)))
    elif k < .65: d = bytes(r.choice(b"abcdefgh") for _ in range(r.choice([1, 4, 9]))) * r.choice([2, 5, 40, 100])
    elif k < .75: d = r.choice([b":: main.lua\nzz", b"b64$", b"b64$YWJj", b"b64:YWJj", b"lz4\0", b"pxu\0", b"a\r\nb\rc", b"\r", b"\n", b"\n\n", b":: ", b"a\n:: [eoc]\nb", b"picotron cartridge", b"version 7\n", b"\x0b\x0c", b"a\x85b\x1cc", b"\xff\xfe", b"a\n", b"[eoc]"])
    else: d = b"".join(r.choice([b"hello", b"world ", b"\t", b"\n", b"12", b"\x80", b"--", b"]]"]) for _ in range(r.randrange(1, 60)))
    if r.random() < .25:
        m, pod = some_meta(r)
        d = m + (r.choice([b"{1,2,a=\"x\"}", b"{}", b"7", b"\"s\""]) if pod else d)
    return d

FILES = ["main.lua", "util.lua", ".info.pod", "data.bin", "0.gfx", "1.sfx", "2.sfx", "a.txt", "two words.txt", "readme", "0.map", "x.pod", "a-b_c.lua"]
DIRS = ["", "", "gfx/", "sfx/", "src/", "src/deep/", "src/deep/er/", "g/", ".hidden/", "gfx/sub dir/"]

def label_png(r):
    from PIL import Image
    h = r.choice([9, 30, 54, 135]) # (bars, so that what is written is short; rows and columns differ at the edges)
    cols = [bytes(r.randrange(256) for _ in range(3)) for _ in range(270 // h + 1)]
    px = b"".join(cols[y // h] * (479 if y == 0 else 480) + (b"\x00\x80\xff" if y == 0 else b"") for y in range(270))
    im = Image.frombytes("RGB", (480, 270), px)
    f = io.BytesIO(); im.save(f, "PNG"); return f.getvalue()

def to_qoi(png):
    """the same picture, in runs and plain pixels"""
    from PIL import Image
    with Image.open(io.BytesIO(png)) as im: px = im.convert("RGB").tobytes()
    out, last, run = bytearray(b"qoif" + struct.pack(">IIBB", 480, 270, 3, 0)), b"\0\0\0", 0
    for i in range(0, len(px), 3):
        p = px[i:i + 3]
        if p == last and run < 62: run += 1; continue
        if run: out.append(0xbf + run); run = 0
        if p == last: run = 1
        else: out += b"\xfe" + p
        last = p
    if run: out.append(0xbf + run)
    return bytes(out + bytes(7) + b"\1")

def pixels(d):
    """(of the labels above and of those the tool makes)"""
    from PIL import Image
    with Image.open(io.BytesIO(d)) as im: return im.convert("RGBA").tobytes()

def some_files(r, n, label=False, main=True, folders=True):
    ps = {}
    if main and r.random() < .85: ps["main.lua"] = some_data(r, "main.lua")
    if r.random() < .4:
        m, pod = some_meta(r)
        ps[".info.pod"] = m + (b"{}" if pod else b"")
    for _ in range(n):
        p = r.choice(DIRS) + r.choice(FILES)
        if p == ".info.pod": continue
        ps[p] = some_data(r, p)
    if label: ps["label.png"] = label_png(r)
    out = dict(ps)
    for p in ps:
        comps = p.split("/")[:-1]
        if folders or r.random() < .5:
            for i in range(len(comps)): out["/".join(comps[:i + 1]) + "/"] = None
    if r.random() < .2: out["empty/"] = None
    fs = list(out.items()); r.shuffle(fs)
    return fs

def spec_files(fs): return [dict(p=[ord(c) for c in p], d=FOLDER if d is None else list(d)) for p, d in fs]
def S(s): return [ord(c) for c in s]

def patterns(r):
    k = r.random()
    one = lambda: r.choice(["*", "*.lua", "sfx/*", "gfx/*", "src/*", "*.sfx", "main.lua", "?.txt", "*/*", "src/deep/*", "*e*", "*.p*", "nothing", "g*", "sfx/1.sfx", "src/deep/er/*", "*x", "*.???", ".*"])
    ps = [one() for _ in range(r.choice([1, 1, 2, 3]))]
    if k < .45: ps = ["*"] * (r.random() < .6) + ps + ["!" + one() for _ in range(r.choice([1, 2]))]
    if r.random() < .2: r.shuffle(ps)
    return ps

def show(path):
    """files under path, as the spec sees them"""
    if os.path.isfile(path): return [(os.path.basename(path), open(path, "rb").read())]
    out = []
    for d, ds, fs in os.walk(path):
        rel = os.path.relpath(d, path)
        rel = "" if rel == "." else rel + "/"
        out += [(rel + x + "/", None) for x in ds] + [(rel + x, open(os.path.join(d, x), "rb").read()) for x in fs]
    return [(os.fsencode(p).decode("utf8", "surrogateescape"), d) for p, d in out]

def png_words(path, n=None):
    from PIL import Image
    with Image.open(path) as im: im = im.convert("RGBA"); px = im.tobytes()
    if len(px) != 512 * 384 * 4: return [], None
    words = []
    size = None
    bits = nb = 0
    total = 60
    i = 0
    while i < min(total, len(px) // 4):
        q = px[4 * i:4 * i + 4]
        words.append((q[0] & 7) | (q[1] & 7) << 3 | (q[2] & 7) << 6 | (q[3] & 3) << 9)
        i += 1
        if i == 20: # (enough for the header)
            v = 0
            for j, w in enumerate(words): v |= w << (11 * j)
            size = (v >> 32) & 0xffffffff
            total = min((8 + size) * 8 // 11 + 2, 40000)
    return words, px

def p64_file(path, name):
    import base64
    ls, cur, got = open(path, "rb").read().split(b"\n"), None, None
    for l in ls:
        if l.startswith(b":: "): cur = l[3:].decode("latin1"); 
        elif cur == name: got = (got or []) + [l]
    if got is None: return None
    d = b"\n".join(got)
    return base64.b64decode(d[4:], b"_-") if d.startswith(b"b64$") else d

def clear():
    for f in os.listdir("."):
        shutil.rmtree(f) if os.path.isdir(f) and not os.path.islink(f) else os.unlink(f)

def tron(args, timeout=60):
    return vf.run_cli(args, lang="picotron", timeout=timeout)

def drive(item):
    """item: dict(seed, hist=[[op, fmt]..], fmt0) -> the recorded history (what spec/PtCart.tla reads)"""
    from PIL import Image
    r = random.Random(item["seed"])
    clear()
    here = os.getcwd()
    uses_png = any(FMT[f - 1] == "png" for _, f in item["hist"])
    start = some_files(r, r.randrange(0, 9), label=uses_png and r.random() < .6 or r.random() < .05, folders=r.random() < .8)
    if item.get("evil"):
        start.append((r.choice(["../evil", "../../evil.txt", "src/../../evil", "gfx/../evil", here + "/evil", "../evil/"]), b"evil"))
        if start[-1][0].endswith("/"): start[-1] = (start[-1][0], None)
        item["fmt0"] = r.choice(["p64", "rom"])
    prev = "a0" + EXT[item["fmt0"]]
    if item["fmt0"] == "p64": write_p64(r, start, prev)
    elif item["fmt0"] == "rom": write_rom(r, start, prev)
    else:
        os.mkdir(prev)
        for p, d in sorted(start, key=lambda x: x[0]):
            if d is None: os.makedirs(os.path.join(prev, p), exist_ok=True)
            else:
                os.makedirs(os.path.dirname(os.path.join(prev, p)), exist_ok=True)
                with open(os.path.join(prev, p), "wb") as f: f.write(d)
        start = show(prev)
    rec = dict(start=spec_files(start), runs=[])
    cmds, label = [], dict(start).get("label.png")
    has_png_label = False
    for n, (op, fmt) in enumerate(item["hist"]):
        fmt = FMT[fmt - 1]
        args, ops, known = [prev], [], {prev}
        def source():
            fs = some_files(r, r.randrange(1, 6), main=r.random() < .3)
            name = f"m{n}" + r.choice([".p64", ".rom", ".p64"])
            (write_p64 if name.endswith("p64") else write_rom)(r, fs, name); known.add(name)
            return fs, name
        def onefile():
            name = f"i{n}" + r.choice([".bin", ".lua", ".txt"])
            d = some_data(r, name)
            with open(name, "wb") as f: f.write(d)
            known.add(name); return name, d
        def folder():
            name = f"d{n}"; fs = [(p, d) for p, d in some_files(r, r.randrange(0, 5), main=False)]
            os.mkdir(name)
            for p, d in sorted(fs, key=lambda x: x[0]):
                q = os.path.join(name, p)
                if d is None: os.makedirs(q, exist_ok=True)
                else:
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    with open(q, "wb") as f: f.write(d)
            known.add(name); return name, show(name)
        todo = [op] if op else []
        if item.get("two") and r.random() < .5: todo.append(r.randrange(2, NOPS))
        # (the tool's own order: insertions, merges, label, version, filter, metadata, label's deletion)
        rank = {5: 0, 6: 0, 7: 0, 8: 0, 9: 0, 10: 0, 3: 1, 4: 1, 14: 2, 16: 3, 2: 4, 13: 4, 11: 5, 12: 5, 1: 6, 15: 6}
        if fmt == "list": todo = [o for o in todo if rank[o] <= 2] # (a list is of the cart as it was put together)
        todo = sorted({rank[o]: o for o in todo}.values(), key=lambda o: rank[o])
        deleted = False
        for o in todo:
            if o == 1: args.append("--delete-label"); ops.append(dict(op="dellabel")); deleted = True
            elif o in (2, 13):
                ps = patterns(r)
                args += ["--filter", ",".join(ps)] if r.random() < .8 else [x for p in ps for x in ("--filter", p)]
                ops.append(dict(op="filter", pats=[S(p) for p in ps]))
            elif o == 3:
                fs, name = source(); ps = patterns(r)
                args += ["--merge", name, ",".join(ps)] + ([name[-3:]] if r.random() < .3 else [])
                ops.append(dict(op="merge", files=spec_files(fs), pats=[S(p) for p in ps]))
            elif o == 4:
                fs, name = source(); args += ["--merge", name]; ops.append(dict(op="merge", files=spec_files(fs), pats=[S("*")]))
            elif o in (5, 6, 7):
                name, d = onefile(); at = "" if o == 5 else r.choice(["new.bin", "q/new.txt", "gfx/", "src/deep/more/", "p/q/r/s.lua", "main.lua", "src/"])
                ps = patterns(r) if o == 7 else []
                args += ["--insert", name] + ([at] if at else []) + ([",".join(ps)] if ps else [])
                ops.append(dict(op="insert", name=S(name), at=S(at), data=list(d), pats=[S(p) for p in ps]))
            elif o in (8, 9, 10):
                name, fs = folder(); at = "" if o == 8 else r.choice(["new", "q/r", "gfx", "src/deep/", "/", "."])
                ps = patterns(r) if o == 10 else []
                args += ["--insert", name] + ([at] if at else []) + ([",".join(ps)] if ps else [])
                ops.append(dict(op="insertdir", files=spec_files(fs), at=S(at or name), pats=[S(p) for p in ps]))
            elif o in (11, 12):
                ps = patterns(r); keep = ["runtime"] if o == 11 else r.choice([["title", "run*"], ["*"], ["*", "!created"], ["nothing"]])
                args += ["--delete-meta", ",".join(ps)] + (["--keep-meta-keys", ",".join(keep)] if o == 12 else [])
                ops.append(dict(op="delmeta", pats=[S(p) for p in ps], keep=[S(k) for k in keep]))
            elif o == 14:
                d = label_png(r); q = r.random() < .4; name = f"label{n}" + (".qoi" if q else ".png")
                if q: d = to_qoi(d)
                with open(name, "wb") as f: f.write(d)
                known.add(name)
                args += ["--label", name]; ops.append(dict(op="label", data=list(d), file=S("label.qoi" if q else "label.png"))); label = d
            elif o == 15: args.append("--keep-label"); ops.append(dict(op="keeplabel"))
            elif o == 16:
                v = r.randrange(6, 30); args += ["--output-version", str(v)]; ops.append(dict(op="runtime", val=S(str(v))))
        if True: args.append("--keep-pod-compression")
        out = f"a{n + 1}" + EXT[fmt]
        run = dict(ops=ops, fmt=fmt, at=[], obs={}, label=[], added=[], version=S("version 2"), verid=2, strays=[], keeplabel="--keep-label" in args)
        before = {}
        for d, ds, fs in os.walk("."):
            for f in fs: before[os.path.join(d, f)] = open(os.path.join(d, f), "rb").read()
        if fmt == "list": args.append("--list")
        elif fmt == "extract":
            names = [p for p, d in start] + [p.rstrip("/") for p, d in start if d is None] + ["nosuch", "src", "gfx/"]
            at = r.choice(names) or "main.lua"
            if at.startswith("/") or ".." in at: at = "main.lua"
            run["at"] = S(at); args += ["--extract", at]
            out = f"a{n + 1}x" if r.random() < .6 else at.rstrip("/").split("/")[-1]
            if out == f"a{n + 1}x": args.append(out)
            if out in known or os.path.exists(out): out = f"a{n + 1}x"; args.append(out)
        else:
            args += [out] + (["-f", "dir"] if fmt == "dir" else ["-f", "tiny-rom"] if fmt == "tiny" else ["-f", fmt] if r.random() < .3 else [])
        if fmt == "p64" and r.random() < .3: args.append("--avoid-base64")
        if fmt == "dir" and r.random() < .3:
            os.mkdir(out)
            if r.random() < .5:
                with open(os.path.join(out, "old.txt"), "wb") as f: f.write(b"old")
            args.append("--clean-output-dir")
        st, o, e = tron(args)
        cmds.append(" ".join(args))
        if not isinstance(st, int): return dict(crash=f"{st} {e[-400:]}", cmds=cmds, start=start)
        run["rc"] = st
        for d, ds, fs in os.walk("."):
            for f in fs:
                q = os.path.join(d, f)
                inside = q == "./" + out or q.startswith("./" + out + "/")
                if inside: continue
                if q not in before or before[q] != open(q, "rb").read(): run["strays"].append(q)
        for q in before:
            if not os.path.exists(q) and not q.startswith("./" + out + "/"): run["strays"].append("lost " + q)
        if st == 0:
            if fmt == "list":
                ls = o.split("\n")
                run["obs"] = dict(files=[dict(p=S(l), d=FOLDER) for l in ls if l])
            elif not os.path.exists(out): return dict(crash="nothing written " + o[-200:] + e[-200:], cmds=cmds, start=start)
            elif fmt in ("dir", "extract"): run["obs"] = dict(files=spec_files([(at.split("/")[-1], open(out, "rb").read())] if fmt == "extract" and os.path.isfile(out) else show(out)))
            elif fmt == "lua": run["obs"] = dict(files=spec_files([("main.lua", open(out, "rb").read())]))
            elif fmt == "tiny":
                b = open(out, "rb").read(); back = []
                if b.startswith(b"\0pxa"):
                    s2, o2, e2 = tron([out, "back.lua", "-F", "tiny-rom"])
                    if s2 != 0: return dict(crash=f"reading a tiny rom: {s2} {e2[-300:]}", cmds=cmds, start=start)
                    back = list(open("back.lua", "rb").read())
                run["obs"] = dict(bytes=list(b), back=back)
            elif fmt == "rom": run["obs"] = dict(bytes=list(open(out, "rb").read()))
            elif fmt == "p64": run["obs"] = dict(lines=[list(l) for l in open(out, "rb").read().split(b"\n")])
            elif fmt == "png":
                words, px = png_words(out)
                run["obs"] = dict(px=words)
                if n + 1 < len(item["hist"]) or r.random() < .3:
                    s2, o2, e2 = tron([out, "back.p64", "--keep-pod-compression"])
                    if s2 != 0: return dict(crash=f"reading a png: {s2} {e2[-300:]}", cmds=cmds, start=start)
                    for ln in ("label.qoi", "label.png"):
                        d = p64_file("back.p64", ln)
                        if d is not None:
                            run["added"].append(dict(p=S(ln), d=list(d)))
                            with open("back." + ln[-3:], "wb") as f: f.write(d)
                            with Image.open("back." + ln[-3:]) as im: im = im.convert("RGBA"); lp = im.tobytes()
                            for _ in range(150):
                                x, y, ch = r.randrange(480), r.randrange(270), r.randrange(3)
                                run["label"].append([lp[4 * (y * 480 + x) + ch], px[4 * ((y + 38) * 512 + x + 16) + ch]])
                else: run["added"] = None
                if label and not run["keeplabel"] and (any(x["op"] == "label" for x in ops) and not any(x["op"] == "filter" for x in ops) or item.get("labelkept", True) and n == 0 and not any(x["op"] in ("filter", "merge", "insertdir", "insert") for x in ops)):
                    lp = pixels(label)
                    for _ in range(150):
                        x, y, ch = r.randrange(480), r.randrange(270), r.randrange(3)
                        run["label"].append([lp[4 * (y * 480 + x) + ch], px[4 * ((y + 38) * 512 + x + 16) + ch]])
            if fmt not in ("list", "extract"): prev = out
        if run["added"] is None: run["added"] = []; run["last"] = True
        else: run["last"] = False
        rec["runs"].append(run)
        if st != 0 and n == len(item["hist"]) - 1: break
    return dict(rec=rec, cmds=cmds, start=start)

def histories(chk, depth, sims=0):
    cfg = f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth={depth} NOps={NOPS - 1}\n"
    if sims: t = vf.run_tlc("PtGen", cfg=cfg, workers=1, simulate=f"num={sims}", extra=["-seed", str(chk.seed), "-depth", str(depth + 1)])
    else: t = vf.run_tlc("PtGen", cfg=cfg)
    hs = [json.loads(l[2:].replace("<<", "[").replace(">>", "]")) for l in t.lines if l.startswith("H ")]
    if sims: chk.rng("sims").shuffle(hs); hs = hs[:sims]
    if not hs: raise vf.Machinery("PtGen: " + t.out[-2000:])
    chk.states += t.distinct; chk.transitions += t.states
    return hs

def check(chk, items):
    outs = vf.pmap(drive, items, chunk=2)
    cases, recs = [], []
    for it, o in zip(items, outs):
        case = dict(seed=it["seed"], commands=o["cmds"], start=[(p, None if d is None else d[:80].decode("latin1")) for p, d in o["start"]])
        chk.note([it["hist"], it["seed"]])
        if "crash" in o: chk.violation("crash:" + o["crash"][-80:], "the tool crashes: " + o["crash"], dict(case=case)); continue
        cases.append(case); recs.append(o["rec"])
    v = chk.validate("PtCart", cases, recs, base=dict(b64=[95, 45]), key=lambda c, v: f"{v[0]}:{c['commands'][-1]}", chunk=120, cfg="SPECIFICATION Spec\nVIEW Seen\nINVARIANTS InBounds\nCHECK_DEADLOCK FALSE\n")
    if cases: chk.sample(dict(commands=cases[0]["commands"], verdict=v[0])); chk.sample(dict(commands=cases[-1]["commands"], verdict=v[-1]))
    chk.extra["disagreements_checked"] = len(recs)
