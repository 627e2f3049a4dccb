"""C04: the text sections of a .p8 file and the cart memory"""
import os
import vf, p8

LINES = dict(gfx=(128, 128), map=(64, 256), gff=(2, 256), sfx=(64, 168), music=(64, 11), label=(128, 128))
SIZES = [("gfx", 0, 0x2000, 0x40), ("map", 0x2000, 0x1000, 0x80), ("gff", 0x3000, 0x100, 0x80), ("music", 0x3100, 0x100, 4), ("sfx", 0x3200, 0x1100, 0x44)]

def secs_of(path):
    return [dict(n=n, l=[[ord(c) for c in l] for l in ls]) for n, ls in p8.read_p8(path)["sections"] if n in LINES]

def drive(item):
    """item: dict(secs=[(name, lines)] or mem=bytes, nl) -> what the real command line makes of it"""
    for f in os.listdir("."): os.unlink(f)
    def step(a, b):
        st, out, err = vf.run_cli([a, b], timeout=60)
        if st != 0 or not os.path.exists(b): raise RuntimeError(f"{a} to {b}: {st} {err[-200:]}")
    try:
        if item.get("secs") is not None:
            t = f"{p8.HEADER}\nversion 42\n__lua__\nx=1\n" + "".join(f"__{n}__{pad}\n" + "".join(l + "\n" for l in ls) for n, ls, pad in item["secs"])
            with open("a.p8", "w", encoding="utf8", newline="") as f: f.write(t.replace("\n", item["nl"]))
            step("a.p8", "a.rom")
            step("a.p8", "d.p8")
            step("a.rom", "c.p8")
            mem = open("a.rom", "rb").read()[:0x4300]
            ins = [dict(n=n, l=[[ord(c) for c in l] for l in ls]) for n, ls, pad in item["secs"]]
            return dict(status="ok", rec=dict(read=True, ins=ins, mem=list(mem), outs=[secs_of("d.p8"), secs_of("c.p8")], label=[True, False]))
        with open("a.rom", "wb") as f: f.write(bytes(item["mem"]) + b"x=1".ljust(0x3d00, b"\0"))
        step("a.rom", "c.p8")
        return dict(status="ok", rec=dict(read=False, ins=[], mem=list(item["mem"]), outs=[secs_of("c.p8")], label=[True]))
    except RuntimeError as ex:
        return dict(status=str(ex))

def default(r=None):
    m = bytearray(0x4300)
    for i in range(64):
        m[0x3200 + i * 68 + 65] = 1 if i == 0 else 16
        for ch in range(4): m[0x3100 + i * 4 + ch] = 0x41 + ch
    return m

def some_text(r):
    secs = []
    names = list(LINES); r.shuffle(names)
    for n in names:
        if r.random() < .25: continue
        h, w = LINES[n]
        full = r.random() < .5
        k = h if r.random() < .4 else r.randrange(h + 1)
        if n == "map" and r.random() < .6: k = min(k, 32)
        ls = []
        zero = r.choice([0, 0, .5, .95])
        for _ in range(k):
            dig = "0123456789abcdef" + ("ghijklmnopqrstuv" if n == "label" else "")
            if n == "sfx": body = "".join(r.choice("0123456789abcdef") for _ in range(8)) + "".join(r.choice("0123") + r.choice(dig) + r.choice(dig) + r.choice("01234567") + r.choice("01234567") for _ in range(32))
            elif n == "music": body = "%02x " % r.randrange(16) + "".join("%02x" % r.randrange(128) for _ in range(4))
            else: body = "".join(r.choice(dig) for _ in range(w))
            if r.random() < zero: body = "00000000" + "0" * (len(body) - 8) if n != "music" else "00 41424344"
            if not full and r.random() < .3:
                cut = r.randrange(1, w + 1)
                if n == "music": cut = r.choice([11, 11, 9, 7, 5, 2])
                body = body[:cut]
            if r.random() < .05 and n != "label": body = body.upper()
            if r.random() < .05: body += r.choice([" ", "\t", "  "])
            ls.append(body)
        if r.random() < .3: ls.append("")
        secs.append((n, ls, r.choice(["", "", "", " "])))
    return dict(secs=secs, nl=r.choice(["\n", "\n", "\n", "\r\n"]))

def some_memory(r):
    m = default()
    for name, start, size, row in SIZES:
        k = r.random()
        if k < .25: continue
        lo, hi = sorted((r.randrange(size + 1), r.randrange(size + 1))) if r.random() < .5 else (0, size)
        mode = r.randrange(4)
        for i in range(lo, hi):
            m[start + i] = r.randrange(256) if mode == 0 else 255 if mode == 1 else (i * 7 + i // 64) & 255 if mode == 2 else (r.randrange(256) if r.random() < .02 else m[start + i])
    return bytes(m)

def run():
    chk = vf.Check("C04", "model_checking",
        "memories with one changed byte in every row of every section, random and patterned memories, texts with any sections missing, lines missing or cut anywhere, other line ends, any order of sections; each converted by the real command line (p8 to rom, p8 to p8, rom to p8) "
        "and every byte, bit and label pixel compared with the layout in P8Mem.tla; non-trivial: distinct contents")
    r = chk.rng("mem")
    items = []
    for name, start, size, row in SIZES:
        rows = size // row
        for y in range(rows):
            if not chk.thorough and y % 8 != r.randrange(8) and y not in (0, rows // 2 - 1, rows // 2, rows - 1): continue
            m = default(); at = start + y * row + r.choice([0, row - 1, r.randrange(row)])
            m[at] = (m[at] + r.choice([1, 16, 64, 128, 255])) & 255 if r.random() < .7 else m[at] ^ (1 << r.randrange(8))
            items.append(dict(mem=bytes(m)))
    for _ in range(chk.scale(5, 40)): # (one byte in every row)
        m = default()
        for name, start, size, row in SIZES:
            for y in range(size // row): m[start + y * row + r.randrange(row)] ^= 1 << r.randrange(8)
        items.append(dict(mem=bytes(m)))
    for _ in range(chk.scale(24, 400)): items.append(dict(mem=some_memory(r)))
    for _ in range(chk.scale(90, 1000)): items.append(some_text(r))
    items += [dict(mem=bytes(default())), dict(mem=bytes(0x4300)), dict(mem=b"\xff" * 0x4300), dict(secs=[], nl="\n")]
    outs = vf.pmap(drive, items, chunk=2)
    cases, recs = [], []
    for it, o in zip(items, outs):
        case = dict(mem=it["mem"].hex()) if it.get("mem") else it
        chk.note(case)
        if o["status"] != "ok": chk.violation("fails:" + o["status"][:40], o["status"], dict(case=case))
        else: cases.append(case); recs.append(o["rec"])
    for i in range(0, len(recs), 120):
        chk.validate("P8Mem", cases[i:i+120], recs[i:i+120], key=lambda c, v: f"{v[0]}:{v[1]}")
    chk.sample(dict(sections=[(n, len(l)) for n, l, _ in items[-6]["secs"]])); chk.sample(dict(memory=items[0]["mem"].hex()[:60]))
    return chk.finish()
