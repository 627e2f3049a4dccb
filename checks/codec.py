"""texts for the compression checks"""
import random

LUA = ["function ", "local ", "end\n", "if ", " then ", "return ", "x", "y", "player", "=", "+", "-", "*", "(", ")", "[", "]", "{", "}", "1", "0x7fff.ffff",
       "\n", " ", "\"hello\"", "for i=1,", " do ", "spr(", "print(", ",", "enemies", "--", "~=", "self.", ":update()", "\t", "#"]
OLD = "\n 0123456789abcdefghijklmnopqrstuvwxyz!#%(){}[]<>+=/*:;.,~_"

def luaish(r, n):
    out = ""
    while len(out) < n:
        if out and r.random() < .35:
            k = r.randrange(len(out)); out += out[k:k + r.choice([3, 4, 5, 8, 10, 11, 17, 18, 24, 25, 31, 60])]
        else:
            out += r.choice(LUA)
    return out[:n]

def noise(r, n, lo=1, hi=255):
    return "".join(chr(r.randint(lo, hi)) for _ in range(n))

def alpha(r, n, k):
    a = [chr(r.randint(1, 255)) for _ in range(k)]
    return "".join(r.choice(a) for _ in range(n))

def far(r, gap):
    w = noise(r, r.choice([3, 4, 9, 20]), 97, 122)
    fill = "".join(chr(33 + (i * 7 + (i >> 5)) % 60) for i in range(gap - len(w)))
    return w + fill + w + noise(r, 3, 97, 122) + w

def densefar(r, gap):
    """a triple that occurs often enough for the second index, nothing of it for a while, then it and something new again"""
    dense = "".join("abc" + r.choice("defgh") for _ in range(r.choice([205, 260])))
    fill = "".join(chr(48 + (i * 7 + (i >> 5)) % 10) if r.random() < .9 else r.choice("QRSTUVW") for i in range(gap))
    return dense + fill + "".join("abc" + c + fill[j * 9:j * 9 + 9] for j, c in enumerate("zyxd"))

def runs(r):
    out = ""
    for _ in range(r.randint(1, 6)):
        out += noise(r, r.randint(1, 4), 1, 255) * 1
        out += chr(r.randint(1, 255)) * r.choice([2, 3, 4, 5, 9, 10, 11, 12, 16, 17, 18, 19, 24, 25, 31, 32, 33, 66, 100])
        p = noise(r, r.randint(2, 5), 97, 100)
        out += p * r.choice([2, 3, 5, 9, 20])
    return out

def mixed(r):
    out = ""
    for _ in range(r.randint(1, 5)):
        out += luaish(r, r.randint(5, 120)); out += noise(r, r.choice([8, 24, 31, 32, 33, 40, 64, 90]), 1, 255)
    return out

def clean(s):
    """what a .p8 text can carry as is: no NUL or carriage return, and no line that looks like a section header"""
    s = s.replace("\0", "\1").replace("\r", "\2")
    return "\n".join(("x" + l if l.startswith("__") or l.startswith("#include") else l) for l in s.split("\n"))

def corpus(r, n, big=0):
    """yields (kind, text)"""
    res = [("empty", "")] + [("tiny", t) for t in ("a", "\x01", "\xff", "aaa", "aaaa", "ab" * 3, "\xe0\xe1\xe2", "\n", "\n\n", " ", ":c:", "abcabcabd")]
    # every character, alone and moved to the front again and again
    res.append(("all", "".join(chr(i) for i in range(1, 256))))
    res.append(("all-twice", "".join(chr(i) + chr(256 - i) for i in range(1, 256))))
    for k in (1, 2, 3, 4, 7):
        res.append(("run", "x" * (3 + 7 * k) + "y" + "x" * (2 + 7 * k) + "z" + "x" * (4 + 7 * k)))
    kinds = [lambda: ("lua", luaish(r, r.randint(10, 600))), lambda: ("noise", noise(r, r.randint(1, 300))),
             lambda: ("alpha", alpha(r, r.randint(4, 300), r.randint(1, 6))), lambda: ("runs", runs(r)), lambda: ("mixed", mixed(r)),
             lambda: ("far", far(r, r.choice([16, 30, 31, 32, 33, 34, 35, 64, 1000, 1022, 1023, 1024, 1025, 1026, 1027]))),
             lambda: ("old", alpha(r, r.randint(4, 200), 3) + "".join(r.choice(OLD) for _ in range(r.randint(5, 100)))),
             lambda: ("oldfar", far(r, r.choice([0xc3c, 0xc3d, 0xc3e, 0xc3f, 0xc40, 0xc41]))),
             lambda: ("rep", (alpha(r, r.randint(1, 9), 3) * 300)[:r.randint(200, 1500)] + noise(r, 3, 97, 99) + "q" * r.randint(1, 9))]
    while len(res) < n:
        res.append(kinds[len(res) % len(kinds)]())
    # heavily repetitive, with more than the number of equal triples that switch the match finder to its second index
    for _ in range(big):
        k = r.randrange(8)
        if k == 0: res.append(("dense", "".join(r.choice(["aaa", "aab", "aaab", "b", "aaaa", "abc"]) for _ in range(1200))))
        elif k == 1: res.append(("dense2", "".join("for " + r.choice("abcdefgh") + r.choice("=+") + r.choice("012345") for _ in range(500))))
        elif k == 2: res.append(("far2", far(r, r.choice([5000, 9000]))))
        elif k == 5:
            # after the second index is in use: repeats that overlap themselves, each followed by something new
            u = r.choice(["aaab", "aaabc", "aaaaab", "aaa\n", "ababx", "xyzxyzq"])
            pre = r.choice(["zxy", "a", "aaa", ""]); core = r.choice([u[:3] * 2, u[0] * 4, u[0] * 5, u[:2] * 3])
            res.append(("dense4", u * r.choice([205, 230, 300]) + "0123456789!!##%%" + "".join(pre + core + c for c in r.sample("defghijklmnop+-*/", 14))))
        elif k in (6, 7): res.append(("densefar", densefar(r, r.choice([0xc3f - 4, 0xc3f, 0xc40, 3200, 3600]))))
        elif k == 3: res.append(("long", luaish(r, r.choice([3000, 6000]))))
        else: res.append(("dense3", ("aaa" + "b" * 1) * 230 + "".join(r.choice(["aaab", "aaaa", "aaac", "aaa"]) for _ in range(300))))
    return [(k, clean(t)) for k, t in res]

# ---- streams written by the specification's own writer

def pack(bits):
    """(value, width) items, least significant bit first -> bytes"""
    acc = nb = 0
    out = bytearray()
    for v, w in bits:
        acc |= v << nb; nb += w
        while nb >= 8:
            out.append(acc & 255); acc >>= 8; nb -= 8
    if nb: out.append(acc)
    return bytes(out)

def section(fmt, out, bits, extra_nul=False):
    data = pack(bits)
    if fmt == "pxa":
        return b"\0pxa" + len(out).to_bytes(2, "big") + (len(data) + 8).to_bytes(2, "big") + data
    return b":c:\0" + (len(out) + extra_nul).to_bytes(2, "big") + b"\0\0" + data + b"\0\0"

def drive_stream(item):
    """one section through the real reader: rom -> p8"""
    import os, vf, p8
    fmt, sec, tiny = item
    if os.path.exists("b.p8"): os.unlink("b.p8")
    with open("a.rom", "wb") as f:
        f.write(sec if tiny else bytes(0x4300) + sec.ljust(0x3d00, b"\0"))
    st, out, err = vf.run_cli(["a.rom", "b.p8"], timeout=60)
    if st != 0 or not os.path.exists("b.p8"):
        return dict(status="read:" + str(st) + " " + err[-300:])
    return dict(status="ok", back=p8.read_code("b.p8"))

def generate(chk, fmt, depth, sims, simdepth):
    """streams from the specification: all those of `depth` items over the small alphabet, and random long ones"""
    import json, vf
    res = []
    base = f'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Format="{fmt}"\n'
    r = vf.run_tlc("CodeSectionGen", cfg=base + f"CONSTANTS Depth={depth} Random=FALSE\nPROPERTY CopyMeaning\n")
    if r.error: raise vf.Machinery("CodeSectionGen: " + r.out[-2000:])
    chk.states += r.distinct; chk.transitions += r.states
    lines = [("exhaustive", l) for l in r.lines]
    r = vf.run_tlc("CodeSectionGen", cfg=base + f"CONSTANTS Depth={simdepth} Random=TRUE\n", workers=1,
                   simulate=f"num={sims}", extra=["-seed", str(chk.seed), "-depth", str(simdepth + 1)])
    lines += [("random", l) for l in r.lines]
    for kind, l in lines:
        if l.startswith("G "):
            d = json.loads(l[2:].replace('\\"', '"'))
            res.append((kind, d["out"], d["bits"]))
    if not res: raise vf.Machinery("CodeSectionGen generated nothing: " + r.out[-2000:])
    return res

def validate_streams(chk, fmt, gen):
    import vf
    items = []
    for i, (kind, out, bits) in enumerate(gen):
        sec = section(fmt, out, bits, extra_nul=fmt == "old" and i % 3 == 0)
        if len(sec) <= 0x3d00 and len(out) < 0xfff0:
            items.append((kind, out, sec, i % 5 == 0))
    recs = vf.pmap(drive_stream, [(fmt, s, t) for _, _, s, t in items], chunk=32)
    cases, good = [], []
    for (kind, out, sec, tiny), r in zip(items, recs):
        case = dict(stream=sec.hex(), tiny=tiny)
        chk.note(case, len(out) > 1)
        if r["status"] != "ok":
            chk.violation(f"stream:{r['status'].split()[0]}", f"valid stream not read: {r['status']}", dict(case=case, expected=out))
        else:
            cases.append(case)
            good.append(dict(code=out, rom=list(sec) + [0, 0], back=r["back"], comp=True, raw=False, full=True))
    chk.validate("CodeSection", cases, good, key=lambda c, v: "stream:" + v[0])
