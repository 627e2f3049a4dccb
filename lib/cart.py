"""Independent readers and writers of the PICO-8 containers (what a cart file holds), used to feed and observe the real code."""
import base64, hashlib, io
import p8

PALETTE = [int(x, 16) for x in ("000000 1d2b53 7e2553 008751 ab5236 5f574f c2c3c7 fff1e8 ff004d ffa300 ffec27 00e436 29adff 83769c ff77a8 ffccaa "
  "291814 111d35 422136 125359 742f29 49333b a28879 f3ef7d be1250 ff6c24 a8e72e 00b543 065ab5 754665 ff6e59 ff9d81").split()]
PAL = {c & 0xfcfcfc: i for i, c in enumerate(PALETTE)}
assert len(PAL) == 32

OLD = "?\n 0123456789abcdefghijklmnopqrstuvwxyz!#%(){}[]<>+=/*:;.,~_"

def uncompress(d):
    """the code a code section (or tiny rom) holds"""
    if d[:4] == b"\0pxa":
        size, comp = d[4] * 256 + d[5], d[6] * 256 + d[7]
        pos = 64
        def bit():
            nonlocal pos
            pos += 1
            return d[(pos - 1) >> 3] >> ((pos - 1) & 7) & 1
        def bits(n): return sum(bit() << i for i in range(n))
        mtf = list(range(256)); out = bytearray()
        while len(out) < size:
            if bit():
                n = 4
                while bit(): n += 1
                i = bits(n) + (1 << n) - 16
                b = mtf.pop(i); mtf.insert(0, b); out.append(b)
            else:
                w = (5 if bit() else 10) if bit() else 15
                o = bits(w) + 1
                if o == 1 and w == 10:
                    while True:
                        b = bits(8)
                        if b == 0: break
                        out.append(b)
                else:
                    n = 3
                    while True:
                        k = bits(3); n += k
                        if k != 7: break
                    for _ in range(n): out.append(out[-o])
        return bytes(out)
    if d[:4] == b":c:\0": return old(d)[0]
    return d.split(b"\0")[0]

def old_size(d): return old(d)[1]
def old(d):
        size = d[4] * 256 + d[5]; i = 8; out = bytearray()
        while len(out) < size and i < len(d):
            b = d[i]; i += 1
            if b == 0:
                if d[i] == 0: break
                out.append(d[i]); i += 1
            elif b < 0x3c: out.append(ord(OLD[b]))
            else:
                c = d[i]; i += 1
                o, n = (b - 0x3c) * 16 + (c & 15), (c >> 4) + 2
                for _ in range(n): out.append(out[-o])
        return bytes(out), i

def image(data):
    """-> (width, height, list of rgba)"""
    from PIL import Image
    im = Image.open(io.BytesIO(data)).convert("RGBA")
    return im.width, im.height, list(im.getdata())

def png_bytes(px):
    return bytes((b & 3) | (g & 3) << 2 | (r & 3) << 4 | (a & 3) << 6 for r, g, b, a in px)

def png_label(px):
    return [PAL.get((px[(24 + y) * 160 + 16 + x][0] & 252) << 16 | (px[(24 + y) * 160 + 16 + x][1] & 252) << 8 | px[(24 + y) * 160 + 16 + x][2] & 252, -1) for y in range(128) for x in range(128)]

def make_image(w, h, px):
    from PIL import Image
    im = Image.new("RGBA", (w, h)); im.putdata(px)
    b = io.BytesIO(); im.save(b, "png"); return b.getvalue()

def rgba(i): return (PALETTE[i] >> 16, PALETTE[i] >> 8 & 255, PALETTE[i] & 255, 255)
def label_png(label): return make_image(128, 128, [rgba(i) for i in label])

def make_rom(mem, code, trailer=None):
    d = bytes(mem) + bytes(code).ljust(0x3d00, b"\0")
    if trailer:
        v, t, plat, good = trailer
        d += bytes([v, t[0], t[1], t[2], ord(plat), t[3]]) + (hashlib.sha1(d).digest() if good else bytes(20)) + bytes(6)
    return d

def make_png(rom, label, noise=lambda: 0):
    """a cart image made from scratch: rom with trailer (0x8020 bytes), label, anything for the other high bits"""
    px = []
    for i in range(160 * 205):
        x, y = i % 160, i // 160
        n = noise()
        r, g, b, a = (n & 255, n >> 8 & 255, n >> 16 & 255, 255)
        if 16 <= x < 144 and 24 <= y < 152: r, g, b, a = rgba(label[(y - 24) * 128 + x - 16])
        k = rom[i] if i < len(rom) else 0
        px.append((r & 252 | k >> 4 & 3, g & 252 | k >> 2 & 3, b & 252 | k & 3, a & 252 | k >> 6))
    return make_image(160, 205, px)

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-"
def url_gfx(g):
    out = []; i = 0
    while i < len(g):
        v = B64.index(g[i]); i += 1
        n = (v >> 4) + 1
        if n == 4: n += B64.index(g[i]); i += 1
        out += [v & 15] * n
    assert len(out) <= 16384
    out += [0] * (16384 - len(out))
    return bytes(out[2 * k] | out[2 * k + 1] << 4 for k in range(8192))

def default_memory():
    m = bytearray(0x4300)
    for i in range(64):
        m[0x3200 + i * 68 + 65] = 1 if i == 0 else 16
        for c in range(4): m[0x3100 + i * 4 + c] = 0x41 + c
    return m

def text_memory(secs):
    """the memory the text sections of a p8 file stand for (full lines only; the exact layout is C04's business)"""
    m = default_memory()
    d = {n: [l.strip() for l in ls if l.strip()] for n, ls in secs}
    for y, l in enumerate(d.get("map", [])[:64]):
        a = 0x2000 + y * 128 if y < 32 else 0x1000 + (y - 32) * 128
        m[a:a + len(l) // 2] = bytes.fromhex(l)
    for y, l in enumerate(d.get("gfx", [])):
        m[y * 64:y * 64 + len(l) // 2] = bytes(int(l[i + 1] + l[i], 16) for i in range(0, len(l), 2))
    for y, l in enumerate(d.get("gff", [])): m[0x3000 + y * 128:0x3000 + y * 128 + len(l) // 2] = bytes.fromhex(l)
    for y, l in enumerate(d.get("music", [])):
        f = int(l[:2], 16)
        for c in range(4): m[0x3100 + 4 * y + c] = int(l[3 + 2 * c:5 + 2 * c], 16) | (f >> c & 1) << 7
    for y, l in enumerate(d.get("sfx", [])):
        a = 0x3200 + 68 * y
        m[a + 64:a + 68] = bytes.fromhex(l[:8])
        for i in range(32):
            p, q, w, v, e = (int(ch, 16) for ch in l[8 + 5 * i:13 + 5 * i])
            n = q | (p & 3) << 4 | (w & 7) << 6 | (v & 7) << 9 | (e & 7) << 12 | (w & 8) << 12
            m[a + 2 * i] = n & 255; m[a + 2 * i + 1] = n >> 8
    return bytes(m)

def ext(ch): return int(ch, 36)
def text_sections(mem, label=None):
    """p8 text sections for a memory"""
    s = [("gfx", ["".join("%x%x" % (b & 15, b >> 4) for b in mem[y * 64:y * 64 + 64]) for y in range(128)]),
         ("gff", [mem[0x3000 + y * 128:0x3080 + y * 128].hex() for y in range(2)]),
         ("map", [mem[0x2000 + y * 128:0x2080 + y * 128].hex() for y in range(32)])]
    sfx = []
    for y in range(64):
        a = 0x3200 + 68 * y; l = bytes(mem[a + 64:a + 68]).hex()
        for i in range(32):
            n = mem[a + 2 * i] | mem[a + 2 * i + 1] << 8
            l += "%x%x%x%x%x" % (n >> 4 & 3, n & 15, n >> 6 & 7 | n >> 12 & 8, n >> 9 & 7, n >> 12 & 7)
        sfx.append(l)
    s.append(("sfx", sfx))
    s.append(("music", ["%02x " % sum((mem[0x3100 + 4 * y + c] >> 7) << c for c in range(4)) + "".join("%02x" % (mem[0x3100 + 4 * y + c] & 127) for c in range(4)) for y in range(64)]))
    if label: s.append(("label", ["".join("0123456789abcdefghijklmnopqrstuv"[i] for i in label[y * 128:y * 128 + 128]) for y in range(128)]))
    return s

PARTS = dict(gfx=(0, 0x1000), shared=(0x1000, 0x2000), map=(0x2000, 0x3000), gff=(0x3000, 0x3100), music=(0x3100, 0x3200), sfx=(0x3200, 0x4300))
DEFAULT = {n: default_memory()[a:b].hex() for n, (a, b) in PARTS.items()}
DEFAULT.update(code="", label="", title="", foo="")

def parts(mem): return {n: bytes(mem[a:b]).hex() for n, (a, b) in PARTS.items()}
def label_str(l): return "" if not l or not any(l) else "".join("?0123456789abcdefghijklmnopqrstuv"[i + 1] for i in l)

def observe(path, fmt):
    """what the file holds: the fields of the format, each as a string (code as hex) or number"""
    with open(path, "rb") as f: d = f.read()
    if fmt == "p8":
        t = p8.parse_p8(d.decode("utf8", "surrogateescape"))
        o = parts(text_memory([s for s in t["sections"] if s[0] in ("gfx", "map", "gff", "sfx", "music")]))
        lab = dict(t["sections"]).get("label")
        o["label"] = label_str([ext(ch) for l in lab for ch in l.strip()]) if lab else ""
        o["code"] = bytes(t["code"] or b"").hex()
        o["version"] = t["version"]
        for n in ("title", "foo"): o[n] = "\n".join(dict(t["sections"]).get("meta:" + n, []))
        return o
    if fmt == "lua": return dict(code=bytes(p8.from_text(d.decode("utf8", "surrogateescape"))).hex())
    if fmt == "tiny_rom": return dict(code=uncompress(d).hex())
    if fmt == "rom":
        if len(d) != 0x8000: raise ValueError("rom size %d" % len(d))
        return dict(parts(d[:0x4300]), code=uncompress(d[0x4300:]).hex())
    if fmt == "url":
        q = d.decode().strip()
        pre = "https://www.pico-8-edu.com/?c="
        if not q.startswith(pre): raise ValueError("url")
        ps = q[len(pre):].split("&g=")
        c = base64.b64decode(ps[0].replace("_", "+").replace("-", "/"), validate=True)
        g = url_gfx(ps[1] if len(ps) > 1 else "")
        return dict(code=uncompress(c).hex(), gfx=g[:0x1000].hex(), shared=g[0x1000:].hex())
    if fmt == "clip":
        t = d.decode().strip()
        if not (t.startswith("[cart]") and t.endswith("[/cart]")): raise ValueError("clip tag")
        d = bytes.fromhex(t[6:-7]); fmt = "png"
    if fmt == "png":
        w, h, px = image(d)
        if (w, h) != (160, 205): raise ValueError("png size")
        b = png_bytes(px)
        return dict(parts(b[:0x4300]), code=uncompress(b[0x4300:0x8000]).hex(), label=label_str(png_label(px)), version=b[0x8000], platform=chr(b[0x8004]), tuple=((b[0x8001] * 64 + b[0x8002]) * 256 + b[0x8003]) * 256 + b[0x8005])
    if fmt == "label":
        w, h, px = image(d)
        return dict(label=label_str([PAL.get((r & 252) << 16 | (g & 252) << 8 | b & 252, -1) if a else 0 for r, g, b, a in px]))
    if fmt == "spritesheet":
        w, h, px = image(d)
        g = [PAL.get((r & 252) << 16 | (g & 252) << 8 | b & 252, -1) for r, g, b, a in px]
        m = bytes(g[2 * k] | g[2 * k + 1] << 4 for k in range(8192))
        return dict(gfx=m[:0x1000].hex(), shared=m[0x1000:].hex())
    raise ValueError(fmt)
