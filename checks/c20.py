"""C20: Picotron's stored values (pods), read and written by the real command line; spec/PtPod.tla takes both sides apart"""
import os, re, struct
import vf
from checks import pt

KEY = re.compile(rb"[a-zA-Z_][a-zA-Z_0-9]*$")
WORDS = {b"and", b"break", b"do", b"else", b"elseif", b"end", b"false", b"for", b"function", b"goto", b"if", b"in", b"local", b"nil", b"not", b"or", b"repeat", b"return", b"then", b"true", b"until", b"while"}

class Gen:
    def __init__(m, r): m.r = r; m.pxu = r.random() < .5
    def ws(m): return m.r.choice([b"", b"", b"", b"", b"", b" ", b"\n", b"  "])
    def number(m):
        r = m.r
        k = r.random()
        sign = b"-" if r.random() < .25 else b""
        if k < .35: t = str(r.choice([0, 1, 2, 7, 10, 99, 255, 256, 1000, 65535, 32768, r.randrange(1 << 31), r.randrange(1 << 62)]))
        elif k < .5: t = r.choice(["0x%x", "0x%X"]) % r.choice([0, 1, 10, 255, 0xabcd, 1 << 31, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, r.randrange(1 << 64)])
        elif k < .9:
            t = r.choice(["0.5", "1.25", "3.14159", "0.1", ".5", "5.", "100.0", "1e3", "1e20", "2.5e-7", "1e-5", "0.00001", "123456.789", "1E+2", "0.0", "9007199254740993.5", "1e100", "1.5e300", "2e-300", "0.30000000000000004", "1e15", "1e16", "1e17", "123456789012345680000.0"] + ["%d.%d" % (r.randrange(1000), r.randrange(10000)), "%de%d" % (r.randrange(1, 9999), r.randrange(-40, 40))])
            if t == "9007199254740993.5": t = "2251799813685249.5"
        else: t = r.choice(["9223372036854775807", "9223372036854775808", "1e999", "18446744073709551616", "1e308"])
        if t in ("0.0", "0") or re.fullmatch("0x0", t): sign = b""
        return sign + t.encode()
    def string(m):
        r = m.r
        out, q = b"", r.choice([b'"', b'"', b"'"])
        for _ in range(r.choice([0, 1, 3, 3, 8, 20])):
            k = r.random()
            if k < .5: out += bytes([r.choice(b"abcXYZ019 _-{}[],=:;#\\".replace(b"\\", b""))])
            elif k < .6: out += r.choice([b"\\n", b"\\t", b"\\r", b"\\0", b"\\\\", b"\\\"", b"\\'", b"\\a", b"\\v", b"\\f", b"\\b"])
            elif k < .68: out += b"\\" + str(r.randrange(256)).encode() + r.choice([b"x", b" ", b"'" if q == b'"' else b'"'])
            elif k < .74: out += b"\\%03d" % r.randrange(256) + r.choice([b"0", b"9", b"a"])
            elif k < .8: out += b"\\x%02x" % r.randrange(256) + r.choice([b"", b"1", b"f"])
            elif k < .86: out += bytes([r.randrange(128, 256)])
            elif k < .92: out += r.choice([b"]]", b"--", b"\xc3\xa9", b"\xe2\x99\xa5", b"\x7f", b"\x01", b"\x0b", b"\x1f", b"\t", b"userdata()", b"lz4", b"pxu", b"b64:", b"nil", b"'" if q == b'"' else b'"'])
            else: out += r.choice([b"hello ", b"world", b"abcabcabc"]) * r.choice([1, 1, 6])
        return q + out + q
    def data(m, n, w):
        r = m.r
        out, last = [], [r.randrange(16 ** w) for _ in range(r.choice([1, 3, 14, 15, 16, 17, 30]))]
        while len(out) < n:
            out += [r.choice(last) if r.random() < .8 else r.randrange(16 ** w)] * r.choice([1, 1, 1, 2, 3, 15, 16, 17, 30, 255, 256, 257, 270, 271, 272, 300])
        return out[:n]
    def userdata(m):
        r = m.r
        t, w = r.choice([("u8", 2), ("u8", 2), ("i16", 4), ("i16", 4), ("i32", 8), ("f64", 16), ("i64", 16)])
        one = r.random() < .4
        wd, ht = r.choice([1, 2, 3, 16, 40, 255, 256, 257, 300]) if one else r.choice([1, 2, 4, 8, 16, 31]), 0 if one else r.choice([1, 2, 5, 8, 16, 20])
        if not one and r.random() < .05: wd, ht = r.choice([(256, 1), (1, 256), (2, 300)])
        if w > 4 and r.random() < .9: wd, ht = min(wd, 5), min(ht, 4)
        vals = m.data(wd * max(ht, 1), w)
        if m.pxu and t in ("u8", "i16") and r.random() < .6: return m.binary(t, wd, ht, vals)
        return b'userdata("%s",%d%s,"%s")' % (t.encode(), wd, b"" if one else b",%d" % ht, b"".join((b"%0*x" if r.random() < .97 else b"%0*X") % (w, v) for v in vals))
    def binary(m, t, wd, ht, vals):
        r = m.r
        comp, bits = r.choice([(1, 0), (2, 4), (2, 4), (8, 0)])
        long = wd > 255 or ht > 255 or r.random() < .1
        f = (3 if t == "u8" else 12) | (0x40 if ht else 0) | (0x800 if long else 0) | comp << 12
        out = b"pxu\0" + struct.pack("<H", f) + struct.pack("<I" if long else "<B", wd) + (struct.pack("<I" if long else "<B", ht) if ht else b"")
        item = lambda v: struct.pack("<B" if t == "u8" else "<H", v)
        if comp == 1: return out + b"".join(item(v) for v in vals)
        out += bytes([bits])
        mask, full = (1 << bits) - 1, 1 << (8 - bits)
        known, order = list(range(mask)), list(range(mask))
        i = 0
        while i < len(vals):
            n = 1
            while i + n < len(vals) and vals[i + n] == vals[i]: n += 1
            if r.random() < .1: n = r.randrange(1, n + 1)
            hits = [j for j in range(mask) if known[j] == vals[i]]
            if hits and r.random() < .95:
                j = r.choice(hits); order.remove(j); order.insert(0, j)
            else:
                j = mask
                if mask: known[order[-1]] = vals[i]
            out += bytes([j | (min(n, full) - 1) << bits]) + (item(vals[i]) if j == mask else b"")
            if n >= full:
                k = n - full
                while k >= 255: out += b"\xff"; k -= 255
                out += bytes([k])
            i += n
        return out
    def value(m, d=0):
        r = m.r
        k = r.random()
        if d < 4 and k < (.9 if d == 0 else .3): return m.table(d)
        if k < .45: return m.string()
        if k < .75: return m.number()
        if k < .88: return m.userdata()
        return r.choice([b"true", b"false", b"nil" if d else b"true"])
    def table(m, d):
        r = m.r
        out, seen, n, index = b"{" + m.ws(), set(), r.choice([0, 1, 2, 3, 6]), 0
        parts = []
        for _ in range(n):
            k = r.random()
            if k < .45:
                index += 1
                if index in seen: index -= 1; continue
                parts.append(m.value(d + 1)); seen.add(index)
            elif k < .75:
                w = r.choice([b"a", b"b", b"x1", b"_", b"name", b"end", b"goto", b"a b", b"nil", b"1", b"Key", b"", b"data", b"\\xe9", b"\\0"])
                if w in seen: continue
                seen.add(w)
                v = m.value(d + 1)
                parts.append((w + m.ws() + b"=" + m.ws() if KEY.match(w) and w not in WORDS and r.random() < .7 else b"[" + r.choice([b'"%s"', b"'%s'"]) % w + b"]=") + v)
            else:
                t = r.choice([b"1", b"2", b"3", b"-1", b"0", b"10", b"0.5", b"true", b"false", b"-2.25", b"0x10", b"100000000000"])
                same = {b"true": b"1", b"1": b"true", b"false": b"0", b"0": b"false"}.get(t) # (a known finding)
                if t in seen or same in seen or (t.isdigit() and int(t) <= 6 and index): continue
                if t == b"true" and 1 in seen: continue
                seen.add(t)
                if t.isdigit(): seen.add(int(t))
                if t == b"true": seen.add(1)
                parts.append(b"[" + t + b"]=" + m.value(d + 1))
        sep = lambda: r.choice([b",", b",", b",", b";"]) + m.ws()
        for j, p in enumerate(parts): out += p + m.ws() + (sep() if j + 1 < len(parts) or r.random() < .1 else b"")
        return out + b"}"
    def pod(m):
        r = m.r
        d = m.value()
        if r.random() < .3:
            z = pt.lz4(r, d)
            d = b"lz4\0" + struct.pack("<II", len(z), len(d)) + z
        if r.random() < .2: d = b"b64:" + pt.b64(d)
        return d

def meta(r): return r.choice([b"--[[pod]]", b"--[[pod]]", b"--[[pod,created=\"2024-01-02\"]]", b'--[[pod_type="image"]]', b'--[[pod,a={1,2},x="y\\93]"]]'])

def split(d):
    i = d.find(b"]]")
    return (d[:i + 2], d[i + 2:]) if d.startswith(b"--[[pod") and i >= 0 else (b"", d)

def real(item):
    pods, src, dst, opts = item["pods"], item["src"], item["dst"], item["opts"]
    pt.clear()
    files = [("main.lua", b"x=1")] + [("%d.pod" % i, d) for i, d in enumerate(pods)]
    r = vf.random.Random(item["seed"])
    a = "a" + pt.EXT.get(src, ".pod")
    if src == "p64": pt.write_p64(r, files, a)
    elif src == "rom": pt.write_rom(r, files, a)
    elif src == "pod":
        a = "a.pod"
        with open(a, "wb") as f: f.write(pods[0])
    else:
        os.mkdir(a)
        for p, d in files:
            with open(os.path.join(a, p), "wb") as f: f.write(d)
    out = "b" + (".pod" if dst == "pod" else pt.EXT[dst])
    st, o, e = pt.tron([a, out] + (["-f", "dir"] if dst == "dir" else []) + opts)
    if st != 0: return dict(crash=f"{st} {o[-200:]} {e[-300:]}", out=o)
    got = []
    if dst == "pod": got = [open(out, "rb").read()]
    else:
        if dst != "dir":
            s2, o2, e2 = pt.tron([out, "back", "-f", "dir", "--keep-pod-compression"])
            if s2 != 0: return dict(crash=f"reading: {s2} {e2[-300:]}", out=o2)
            out = "back"
        for i in range(len(pods)):
            p = os.path.join(out, "%d.pod" % i)
            got.append(open(p, "rb").read() if os.path.exists(p) else None)
    return dict(got=got)

def run():
    chk = vf.Check("C20", "model_checking",
        "random values (tables, strings in every escape, numbers, numeric arrays) in random encodings (text, binary arrays with random splits of runs, LZ4 with random copies, base64), "
        "stored in carts and converted by the real command line with and without --uncompress-pods and --base64-pods; both sides are taken apart by spec/PtPod.tla; non-trivial: distinct encoding")
    r = chk.rng("pods")
    items = []
    for _ in range(chk.scale(int(os.environ.get("N20", "220")), 3500)):
        src, dst = r.choice([("p64", "p64"), ("rom", "dir"), ("dir", "rom"), ("p64", "dir"), ("rom", "p64"), ("dir", "p64"), ("rom", "png"), ("pod", "pod")])
        opts = r.choice([[], [], ["--uncompress-pods"], ["-u"], ["--base64-pods"], ["-u", "--base64-pods"]])
        g = Gen(r)
        items.append(dict(seed=r.randrange(1 << 30), src=src, dst=dst, opts=opts, pods=[meta(r) + g.pod() for _ in range(1 if dst == "pod" else 6)]))
    items.append(dict(seed=1, src="dir", dst="dir", opts=["-u"], pods=[BOOLKEY]))
    outs = vf.pmap(real, items, chunk=2)
    cases, recs = [], []
    for it, o in zip(items, outs):
        case = dict(source=it["src"], format=it["dst"], options=it["opts"], pods=[d.decode("latin1") for d in it["pods"]])
        chk.note([case["pods"], it["opts"], it["dst"]])
        if "crash" in o: chk.violation("crash:" + o["crash"][:80], "the tool fails: " + o["crash"], dict(case=case)); continue
        plain = [x for x in it["opts"] if x in ("-u", "--uncompress-pods")]
        for d, b in zip(it["pods"], o["got"]):
            one = dict(case, pods=[d.decode("latin1")], written=None if b is None else b.decode("latin1"))
            if b is None: chk.violation("lost", "a file is missing", dict(case=one)); continue
            (ma, a), (mb, b) = split(d), split(b)
            if it["dst"] == "pod": ma = mb = b"" # (a pod file keeps no metadata)
            cases.append(one)
            recs.append(dict(a=list(a), b=list(b), ma=list(ma), mb=list(mb), want="plain" if plain else "nolz4" if it["dst"] in ("rom", "png") else "any", b64="--base64-pods" in it["opts"]))
    v = chk.validate("PtPod", cases, recs, base=dict(b64=[95, 45]), key=key, chunk=150, cfg="SPECIFICATION Spec\nVIEW Seen\nINVARIANTS OrderOk\nCHECK_DEADLOCK FALSE\n")
    chk.sample(dict(cases[0], verdict=v[0])); chk.sample(dict(cases[1], verdict=v[1]))
    chk.extra["disagreements_checked"] = len(recs)
    return chk.finish()

BOOLKEY = b"--[[pod]]{[true]=2,[1]=3}" # (a known finding)
def key(c, v):
    return "boolean-and-number-keys" if c["pods"][0].encode("latin1") == BOOLKEY and v[0] == "value-changed" else f"{v[0]}:{c['pods'][0][:200]}"
