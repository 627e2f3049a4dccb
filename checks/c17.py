"""C17: exported games hold exactly the carts put into them (spec/ExpOps.tla: ExpGen makes the histories, ExpTrace judges the runs)"""
import os, re, json, hashlib, shutil, struct
import vf, p8, cart
from checks import carts, pt

CFG = "SPECIFICATION Spec\nCONSTANTS Depth = %d\nINVARIANTS Distinct\nPROPERTIES Keeps Order\nCHECK_DEADLOCK FALSE\n"

def histories(chk, depth):
    t = vf.run_tlc("ExpGen", cfg=CFG % depth)
    out = []
    for l in t.lines:
        if l.startswith("H "):
            s = l[2:].replace("<<", "(").replace(">>", ")").replace("[", "{").replace("]", "}").replace("(", "[").replace(")", "]").replace("\\\"", "\"")
            out.append(json.loads(re.sub(r"(\w+) \|->", r'"\1":', s)))
    if not out or t.error: raise vf.Machinery("ExpGen: " + t.out[-2000:])
    out.sort(key=lambda s: json.dumps(s, sort_keys=True))
    chk.states += t.distinct; chk.transitions += t.states
    return out

def digest(mem, code): return hashlib.sha1(bytes(mem) + b"|" + bytes(code)).hexdigest()[:16]
def rom_id(d):
    if len(d) != 0x8000: return f"size {len(d)}"
    return digest(d[:0x4300], cart.uncompress(bytes(d[0x4300:])))

# --- the containers, as PICO-8 writes them
def unlz4(d):
    out, i = bytearray(), 0
    while i < len(d):
        t = d[i]; i += 1; n = t >> 4
        if n == 15:
            while True:
                n += d[i]; i += 1
                if d[i - 1] != 255: break
        out += d[i:i + n]; i += n
        if i >= len(d): break
        o = d[i] | d[i + 1] << 8; i += 2; n = t & 15
        if n == 15:
            while True:
                n += d[i]; i += 1
                if d[i - 1] != 255: break
        for _ in range(n + 4): out.append(out[-o])
    return bytes(out)

def make_js(r, entries):
    q = r.choice("`'\"")
    sep = r.choice([", ", ",", " , ", ",\n"])
    data = b"".join(d for n, d in entries)
    nums = r.choice([",", ", ", ",\n"]).join(map(str, data))
    head, mid, tail = r.choice(["", "// made by\n", "var _cartnames=1;\n"]), r.choice([";\nvar _cdpos=0; var iii=0; var ciii=0;\n", "\nvar x=[1,2];\n"]), r.choice([";\n", ";\n\nvar pico8_state=[];\nfunction f(){return [1,2,3];}\n", "\nvar s=\"_cartdat\";/*\xe9\u30ab*/"])
    return (head + r.choice(["var _cartname=[", "var  _cartname = ["]) + sep.join(q + n + q for n, d in entries) + "]" + mid + r.choice(["var _cartdat=[", "var _cartdat = [\n"]) + nums + r.choice(["", "\n", " "]) + "]" + tail).encode("utf8")

def make_pod(r, entries):
    d = b"CPOD" + struct.pack("<II", 0x44, 1) + r.choice([b"", b"a name"]).ljust(32, b"\0") + struct.pack("<I", len(entries)) + bytes(28)
    for n, e in entries:
        if n is None:
            k = r.randrange(3)
            if k == 0: d += b"CPAL" + struct.pack("<I", 768) + bytes(r.randrange(256) for _ in range(768))
            else:
                bpp = r.choice([8, 32]); w, h = r.randrange(1, 9), r.randrange(1, 9); b = bytes(r.randrange(256) for _ in range(w * h * bpp // 8))
                z = pt.lz4(r, b)
                d += (b"CBMP" if k == 1 else b"cBMP") + struct.pack("<IIIIII", len(b) + 0x14, w, h, bpp, 0, 0) + (b if k == 1 else struct.pack("<I", len(z)) + z)
        elif r.random() < .3 and n:
            z = pt.lz4(r, e)
            d += b"cFIL" + struct.pack("<II", 0, len(e)) + n.encode().ljust(64, b"\0") + struct.pack("<I", len(z)) + z
        else: d += b"CFIL" + struct.pack("<II", 0, len(e)) + n.encode().ljust(64, b"\0") + e
    return d

def parse(d, fmt):
    """(entries, everything else)"""
    if fmt == "js":
        t = d.decode("utf8")
        a = re.search(r"var\s+_cartname\s*=\s*\[(.*?)\]", t, re.S); b = re.search(r"var\s+_cartdat\s*=\s*\[(.*?)\]", t, re.S)
        names = [n.strip() for n in a[1].split(",")] if a[1].strip() else []
        if any(len(n) < 2 or n[0] not in "`'\"" or n[-1] != n[0] for n in names): raise ValueError("names " + a[1][:80])
        nums = bytes(int(x) for x in b[1].split(",")) if b[1].strip() else b""
        if len(nums) != 0x8000 * len(names): raise ValueError(f"{len(nums)} bytes for {len(names)} carts")
        return [dict(n=n[1:-1], d=rom_id(nums[i * 0x8000:(i + 1) * 0x8000])) for i, n in enumerate(names)], t[:a.start(1)] + "|" + t[a.end(1):b.start(1)] + "|" + t[b.end(1):]
    if d[:12] != b"CPOD" + struct.pack("<II", 0x44, 1): raise ValueError("pod header")
    n, = struct.unpack_from("<I", d, 44); i = 0x4c; out = []
    for _ in range(n):
        k = d[i:i + 4]
        if k in (b"CFIL", b"cFIL"):
            zero, size = struct.unpack_from("<II", d, i + 4)
            if zero: raise ValueError("CFIL")
            name = d[i + 12:i + 76].split(b"\0")[0].decode(); i += 76
            if k == b"cFIL": z, = struct.unpack_from("<I", d, i); b = unlz4(d[i + 4:i + 4 + z]); i += 4 + z
            else: b = d[i:i + size]; i += size
            if len(b) != size: raise ValueError("size")
            out.append(dict(n=name, d=rom_id(b) if name else hashlib.sha1(b).hexdigest()))
        elif k in (b"CPAL", b"CBMP", b"cBMP"):
            j = i
            size, = struct.unpack_from("<I", d, i + 4)
            if k == b"cBMP": z, = struct.unpack_from("<I", d, i + 28); i += 32 + z
            else: i += 8 + size
            out.append(dict(n="", d=hashlib.sha1(d[j:i]).hexdigest()))
        else: raise ValueError(f"entry {k}")
    if i != len(d): raise ValueError(f"{len(d) - i} bytes after the entries")
    return out, d[:44].hex() + d[48:0x4c].hex()

NAMES = ["main.p8", "a", "b.p8", "second.p8.png", "my cart.p8", "A.P8", "x-1_y", "b", "main", "0", "game (1).p8", "z" * 63, "main.p8.p8", "a.lua", "-x.p8".strip("-")]

def fil(n, e, r=None):
    if r and r.random() < .5: z = pt.lz4(r, e); return b"cFIL" + struct.pack("<II", 0, len(e)) + n.encode().ljust(64, b"\0") + struct.pack("<I", len(z)) + z
    return b"CFIL" + struct.pack("<II", 0, len(e)) + n.encode().ljust(64, b"\0") + e
def bmp(w, h, bpp, b): return b"CBMP" + struct.pack("<IIIIII", len(b) + 0x14, w, h, bpp, 0, 0) + b
def pod(*es): return b"CPOD" + struct.pack("<II", 0x44, 1) + bytes(32) + struct.pack("<I", len(es)) + bytes(28) + b"".join(es)
JS = "/* the player */ function run(){return [1,2];}\n"
def make_dat(r):
    """a stand-in for PICO-8's pico8.dat, with the entries exports are made from"""
    boot = b"pico-8 cartridge // http://www.pico-8.com\nversion 41\n__lua__\n?1\n"
    gfx = pod(*([b"CPAL" + struct.pack("<I", 768) + bytes(768)] + [bmp(2, 2, 8, bytes(range(4)))] * 3 + [bmp(128, 2, 8, bytes(256)), bmp(3, 1, 32, bytes(12)), bmp(128, 128, 32, bytes(65536))]))
    html = pod(fil("src/pico8_wasm.js", b"wasm"), fil("src/pico8.js", JS.encode(), r))
    return pod(fil("pod/pico8_boot.p8", boot, r), fil("pod/gfx1.pod", gfx, r), fil("pod/f_pico8.pod", pod(fil("x", b"y"))), fil("pod/f_html5.pod", html))

def create(r, p, fmt, nm, start):
    """an export made by the tool: what the carts given were, and the command"""
    with open("pico8.dat", "wb") as f: f.write(make_dat(r))
    news, args, files = [], [], {}
    if start and r.random() < .4: # from another export
        es = [(n, some_rom(r)[2]) for n in [nm[n] for n in start] + r.sample([n for n in NAMES if n not in nm.values()], r.randrange(3))]; f2 = r.choice(["js", "pod"])
        with open("other." + f2, "wb") as f: f.write(make_js(r, es) if f2 == "js" else make_pod(r, es))
        return [dict(n=n, d=rom_id(e)) for n, e in es], ["other." + f2, p, "--pico8-dat", "pico8.dat"]
    for j in range(r.randrange(1, 4)):
        mem, code, rom = some_rom(r)
        f = f"m{j}" + r.choice([".p8", ".rom"]); name = f
        if f.endswith("p8"): p8.write_p8(f, code, cart.text_sections(mem, carts.some_label(r) if r.random() < .3 else None), 41)
        else: open(f, "wb").write(rom)
        if j == 0:
            args += [f, p]
            if r.random() < .3: name = "renamed.p8"; args += ["--output-cart", name]
        elif r.random() < .5: name = r.choice(NAMES[:3]) + str(j); args += ["--extra-input", f, f.rsplit(".")[-1], name]
        else: args += ["--extra-input", f]
        news.append(dict(n=name, d=digest(mem, code)))
    return news, args + ["--pico8-dat", "pico8.dat"]

def some_rom(r):
    code = carts.some_code(r, True)
    mem = carts.some_memory(r, True)
    return mem, code, cart.make_rom(mem, code)

def look(r, p, s):
    """what the tool says the export holds"""
    st, o, e = vf.run_cli([p, "--list"], timeout=60)
    s["list"] = o.splitlines() if st == 0 else [f"{st} {e[-100:]}"]
    shutil.rmtree("d", ignore_errors=True)
    df = r.choice(["rom", "p8"])
    st, o, e = vf.run_cli([p, "--dump", "d", "--format", df], timeout=60)
    if st != 0: s["dump"] = [dict(n=f"{st}", d=e[-100:])]
    else:
        back = {n.replace("/", "_").replace(":", "_"): n for n in [q["n"] for q in s["entries"]]} # (characters no file name has)
        for f in sorted(os.listdir("d")):
            if not f.endswith(".png") or f in back:
                try: ob = cart.observe("d/" + f, df); i = digest(carts.mem_of(ob), bytes.fromhex(ob["code"]))
                except Exception as ex: i = f"{type(ex).__name__} {ex}"[:80]
                s["dump"].append(dict(n=back.get(f, f), d=i))
    n = r.choice(["-"] + [q["n"] for q in s["entries"] if q["n"]] + ["nosuch.p8"])
    if os.path.exists("r.p8"): os.unlink("r.p8")
    st, o, e = vf.run_cli([p, "r.p8"] + (["--cart", n] if n != "-" else []), timeout=60)
    s["read"] = dict(n=n, rc=st if isinstance(st, int) else 1, d="")
    if not isinstance(st, int): s["crash"] = f"read: {st} {e[-200:]}"; return True
    if st == 0:
        ob = cart.observe("r.p8", "p8"); s["read"]["d"] = digest(carts.mem_of(ob), bytes.fromhex(ob["code"]))

def drive(item):
    r = vf.random.Random(item["seed"]); fmt = item["fmt"]; start, ops = item["h"]
    for f in os.listdir("."): shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
    three = r.sample(NAMES, 3)
    nm = dict(zip("abc", three)); nm["-"] = "-"
    nm["c"] = "c.p8" if any(o["k"] == "insert" and o["a"] == "-" for o in ops) else nm["c"] # the input's own name
    entries = [(nm[n], some_rom(r)[2]) for n in start]
    if fmt == "pod":
        for _ in range(r.randrange(3)): entries.insert(r.randrange(len(entries) + 1), (None, b""))
        if r.random() < .7: entries.insert(0, ("", b"pico-8 cartridge"))
    p = "game." + fmt
    steps, cmds = [], []
    created = r.random() < .3
    if created:
        news, args = create(r, p, fmt, nm, start)
        st, o, e = vf.run_cli(args, timeout=60)
        s = dict(op=dict(k="create", a="-", b="-"), new=dict(n="", d=""), news=news, rc=st if isinstance(st, int) else 1, crash="" if isinstance(st, int) else f"{st} {e[-200:]}",
                 same=False, bad="", entries=[], rest="", list=[], dump=[], read=dict(n="-", rc=0, d=""))
        cmds.append(" ".join(args)); steps.append(s)
        rest = ""
        if s["rc"] == 0 and not s["crash"]:
            try:
                s["entries"], s["rest"] = parse(open(p, "rb").read(), fmt)
                if fmt == "js" and not s["rest"].endswith(JS): s["bad"] = "the player is not in the js"
            except Exception as ex: s["bad"] = f"{type(ex).__name__} {ex}"
            rest = s["rest"]
            ns = [n["n"] for n in news]
            nm.update(zip("ab" if nm["c"] == "c.p8" else "abc", ns))
            if len(set(nm.values())) < 4: ops = []
            if not s["bad"]: look(r, p, s)
        else: ops = []
        if s["bad"]: ops = []
        x0 = []
    if not created:
        with open(p, "wb") as f: f.write(make_js(r, entries) if fmt == "js" else make_pod(r, entries))
        x0, rest = parse(open(p, "rb").read(), fmt)
    for op in ops:
        mem, code, rom = some_rom(r)
        main = "c.p8" if nm["c"] == "c.p8" else r.choice(["in.p8", "in.rom"])
        if main.endswith("p8"): p8.write_p8(main, code, cart.text_sections(mem, None), 41)
        else: open(main, "wb").write(rom)
        a, b = nm[op["a"]], nm[op["b"]]
        names = [n for n in (a, b) if n != "-"]
        if op["k"] == "insert":
            if a == "-" and b != "-": a = main; names = [a, b] # (BEFORE needs a NAME)
            args = [main, p, "--insert-cart"] + names
        elif op["k"] == "replace": args = [main, p, "--replace-cart"] + names
        elif op["k"] == "delete": args = [p, "--delete-cart", a]
        else: args = [p, "--rename-cart", a, b]
        before = open(p, "rb").read()
        st, o, e = vf.run_cli(args, timeout=60)
        after = open(p, "rb").read()
        s = dict(op=dict(k=op["k"], a=a, b=b), new=dict(n=main, d=digest(mem, code)), rc=st if isinstance(st, int) else 1, crash="" if isinstance(st, int) else f"{st} {e[-200:]}",
                 news=[], same=before == after, bad="", entries=[], rest=rest, list=[], dump=[], read=dict(n="-", rc=0, d=""))
        cmds.append(" ".join(args)); steps.append(s)
        if s["crash"]: break
        try: s["entries"], s["rest"] = parse(after, fmt)
        except Exception as ex: s["bad"] = f"{type(ex).__name__} {ex}"; break
        if look(r, p, s): break
    return dict(rec=dict(start=x0, rest=rest, steps=steps), cmds=cmds)

def run():
    chk = vf.Check("C17", "model_checking",
        "histories of insertions, replacements, deletions and renamings of carts enumerated by TLC from ExpGen (with what must hold of each step checked there), a sample carried out on js and pod exports "
        "made by the harness; after each run ExpTrace compares the file, --list, --dump and a cart read; non-trivial: distinct history, format and seed")
    r = chk.rng("exp")
    one, two = histories(chk, 1), histories(chk, 2)
    items = [dict(h=h, fmt=f, seed=r.randrange(1 << 30)) for h in one for f in ("js", "pod") for _ in range(chk.scale(1, 5)) if chk.scale(r.random() < .6, True)]
    items += [dict(h=h, fmt=r.choice(["js", "pod"]), seed=r.randrange(1 << 30)) for h in r.sample(two, chk.scale(150, 3000))]
    if chk.scale(0, 1): items += [dict(h=h, fmt=r.choice(["js", "pod"]), seed=r.randrange(1 << 30)) for h in r.sample(histories(chk, 3), 1500)]
    outs = vf.pmap(drive, items, chunk=4)
    for it in items: chk.note([it["h"], it["fmt"], it["seed"]])
    cases = [dict(it, commands=o["cmds"]) for it, o in zip(items, outs)]
    recs = [o["rec"] for o in outs]
    v = chk.validate("ExpTrace", cases, recs, key=lambda c, v: f"{v[0]}:{c['fmt']}:{c['commands'][-1][:60]}", chunk=200, cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
    chk.sample(dict(cases[0], verdict=v[0])); chk.sample(dict(cases[-1], verdict=v[-1]))
    chk.extra["histories"] = len(one) + len(two); chk.extra["disagreements_checked"] = sum(len(q["steps"]) for q in recs)
    return chk.finish()
