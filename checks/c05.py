"""C05: code characters between text and bytes"""
import os
import vf, p8

OKB = [b for b in range(1, 256) if b != 13]  # (a carriage return or NUL is not a character of code)

def lua_lines(data):
    """the bytes of the code lines of a written p8 file (the code's own line breaks stay)"""
    i = data.index(b"__lua__\n") + 8
    j = data.find(b"\n__", i)
    return data[i:] if j < 0 else data[i:j]

def drive(item):
    for f in os.listdir("."): os.unlink(f)
    def step(*a):
        st, out, err = vf.run_cli(list(a), timeout=60)
        if st != 0 or not os.path.exists(a[1]): raise RuntimeError(f"{' '.join(a)}: {st} {err[-200:]}")
        return open(a[1], "rb").read()
    try:
        recs = []
        if item["kind"] == "write":
            code = bytes(item["code"])
            with open("a.rom", "wb") as f: f.write(bytes(0x4300) + code.ljust(0x3d00, b"\0"))
            d = step("a.rom", "b.p8")
            recs.append(dict(kind="write", caps=False, code=list(code), text=list(lua_lines(d))))
            u = lua_lines(step("a.rom", "c.p8", "-u"))
            recs.append(dict(kind="write", caps=True, code=list(code), text=list(u)))
            recs.append(dict(kind="write", caps=False, code=list(code), text=list(step("a.rom", "d.lua"))))
            recs.append(dict(kind="write", caps=True, code=list(code), text=list(step("a.rom", "e.lua", "--unicode-caps"))))
            recs.append(dict(kind="read", text=list(lua_lines(d)), code=back(step("b.p8", "f.rom"))))
            recs.append(dict(kind="read", text=list(u), code=back(step("c.p8", "g.rom"))))
            recs.append(dict(kind="read", text=list(lua_lines(d)), code=back(step("d.lua", "h.rom"))))
        else:
            t = bytes(item["text"])
            with open("a.p8", "wb") as f: f.write(p8.HEADER.encode() + b"\nversion 41\n__lua__\n" + t + b"\n__gfx__\n" + b"00" * 64 + b"\n")
            with open("b.lua", "wb") as f: f.write(t)
            recs.append(dict(kind="read", text=list(t), code=back(step("a.p8", "a.rom"))))
            recs.append(dict(kind="read", text=list(t), code=back(step("b.lua", "b.rom"))))
        return dict(status="ok", recs=recs)
    except RuntimeError as ex:
        return dict(status=str(ex))

def back(rom):
    return list(rom[0x4300:].split(b"\0")[0])

def wrap(s):
    """(a leading and a trailing plain character, so that no file ends in a line break)"""
    return b"--" + s + b"z"

def fine(s):
    lines = s.split(b"\n")
    return not any(l.startswith(b"__") or b"#include" in l for l in lines)

def run():
    chk = vf.Check("C05", "model_checking",
        "every two of the 254 characters after one another, as code written to every text format (with and without -u) and read back; texts of forms of characters, parts of forms, italics, "
        "other characters, broken UTF-8; every byte compared by the TLA+ transducer P8Chars.tla; non-trivial: distinct contents")
    r = chk.rng("chars")
    pairs = [(a, b) for a in OKB for b in OKB]
    r.shuffle(pairs)
    size = 360
    items = []
    if not chk.thorough: pairs = [p for p in pairs if p[0] > 126 or p[0] < 32][:len(pairs) // 3] # (the transducer's choices depend on the first of the two)
    for i in range(0, len(pairs), size // 2):
        s = wrap(bytes(x for p in pairs[i:i + size // 2] for x in p))
        if fine(s): items.append(dict(kind="write", code=list(s)))
    for k in range(4): # (in order too)
        o = OKB[:]; r.shuffle(o)
        items.append(dict(kind="write", code=list(wrap(bytes(o)))))
    pieces = [c for c in p8.CHARSET if c not in "\0\r"]
    special = [c for c in pieces if len(c) > 1]
    parts = ["\ufe0f", "⬇", "⬅", "🅾", "➡", "⬆", "🐱\ufe0f", "♥\ufe0f", "\ufe0e", "⬇\ufe0e"] + [chr(0x1d622 + i) for i in range(26)] + ["𝘈", "𝘼", "𝐚"]
    other = ["é", "ß", "Ж", "中", "가", "🙂", "\u0080", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff", "\u2028", "\u0085", "\x0b", "\x0c", "\x1c", "\x7f", "⁰", "ⁿ"]
    raw = [bytes([b]) for b in (0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xe2, 0xed, 0xf0, 0xf5, 0xff)] + [b"\xe2\x96", b"\xed\xa0\x80", b"\xf0\x9f\x85", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xe0\x80\x80"]
    lists = [[x.encode() for x in l] for l in (pieces, special, parts, other)] + [raw]
    for _ in range(chk.scale(60, 700)):
        w = r.choice([(6, 2, 2, 1, 0), (1, 3, 3, 1, 0), (2, 2, 2, 2, 2), (4, 2, 1, 0, 0)])
        s = wrap(b"".join(r.choice(r.choices(lists, w)[0]) for _ in range(r.choice([3, 20, 80, 150]))))
        if fine(s): items.append(dict(kind="read", text=list(s)))
    for a in special + parts:
        for b in special[:3] + ["\ufe0f", "x"]:
            items.append(dict(kind="read", text=list(wrap((a + b).encode()))))
    outs = vf.pmap(drive, items)
    cases, recs = [], []
    for it, o in zip(items, outs):
        chk.note(it)
        if o["status"] != "ok": chk.violation("fails:" + o["status"][:60], o["status"], dict(case=it))
        else:
            for i, x in enumerate(o["recs"]): cases.append(dict(it, output=i)); recs.append(x)
    for i in range(0, len(recs), 400):
        chk.validate("P8Chars", cases[i:i+400], recs[i:i+400], key=lambda c, v: f"{v[0]}:{v[1]}")
    chk.sample(dict(code=bytes(items[0]["code"][:40]).hex())); chk.sample(dict(text=bytes(items[-1]["text"]).decode("utf8", "replace")))
    return chk.finish()
