"""C01: the \\0pxa compression"""
import os, random
import vf, p8
from checks import codec

MODES = {"normal": ["--force-compression"], "fast": ["--force-compression", "--fast-compression"], "plain": [],
         "old": ["--force-compression", "--old-compression"], "oldfast": ["--force-compression", "--old-compression", "--fast-compression"]}

def drive(item):
    """one text through the real command line: p8 -> rom -> p8"""
    kind, mode, text = item
    code = [ord(c) for c in text]
    p8.write_p8("a.p8", code)
    for f in ("a.rom", "b.p8"):
        if os.path.exists(f): os.unlink(f)
    st, out, err = vf.run_cli(["a.p8", "a.rom"] + MODES[mode], timeout=120)
    if st != 0 or not os.path.exists("a.rom"):
        return dict(status="write:" + str(st) + " " + err[-300:])
    data = open("a.rom", "rb").read()
    st2, out, err = vf.run_cli(["a.rom", "b.p8"], timeout=60)
    if st2 != 0 or not os.path.exists("b.p8"):
        return dict(status="read:" + str(st2) + " " + err[-300:])
    rom = data[0x4300:]
    # the zero padding is not sent to TLC one by one (its length is)
    end = len(rom.rstrip(b"\0")) + 4
    return dict(status="ok", rom=list(rom[:end]) if len(rom) == 0x3d00 else list(rom) + [1] * 20000, back=p8.read_code("b.p8"))

def validate(chk, items, label, timeout=800):
    recs = vf.pmap(drive, items, chunk=1)
    cases, good = [], []
    for (kind, mode, text), r in zip(items, recs):
        chk.note((mode, text), len(text) > 3)
        if r["status"] != "ok":
            chk.violation(f"{mode}:{r['status'].split()[0]}", f"{label}: {r['status']}", dict(case=dict(mode=mode, kind=kind, text=text)))
        else:
            cases.append(dict(mode=mode, kind=kind, text=text))
            good.append(dict(code=[ord(c) for c in text], rom=r["rom"], back=r["back"], comp=mode != "plain" or len(text) >= 0x3d00, raw=mode == "plain" and len(text) < 0x3d00, full=True))
    chk.validate("CodeSection", cases, good, key=lambda c, v: f"{c['mode']}:{v[0]}", timeout=timeout)
    return good

def run():
    chk = vf.Check("C01", "model_checking",
        "texts (all characters, runs around the count-chunk sizes, repeats around every offset width, incompressible stretches, text long enough for the "
        "second match index) compressed by the real command line and decoded item by item by the specification's reader; non-trivial: longer than 3 characters")
    r = chk.rng("corpus")
    texts = codec.corpus(r, chk.scale(900, 8000), big=chk.scale(30, 300))
    items = []
    for i, (k, t) in enumerate(texts):
        items.append((k, "normal", t))
        if i % 2 == 0: items.append((k, "fast", t))
        if i % 4 == 1: items.append((k, "plain", t))
    # the sizes around the point where text no longer fits uncompressed, and the widest offsets
    base = codec.clean(codec.luaish(r, 16000))
    for n in (15614, 15615, 15616, 15617):
        items.append(("limit", "plain", base[:n].rstrip("\n") + "x" * (n - len(base[:n].rstrip("\n")))))
    w = "qwertyuiopasdfghjkl"
    for gap in (32766, 32767, 32768) if chk.thorough else (32767,):
        items.append(("farthest", "fast", codec.clean(w + ("abc" * 12000)[:gap - len(w)] + w + "!" + w)))
    for gap in (32768 - 6, 32768 + 1) if chk.thorough else (32768 + 1,):
        t = codec.densefar(r, gap)
        items.append(("farthest", "fast", t)); items.append(("farthest", "normal", t))
    if chk.thorough:
        items.append(("farthest", "normal", codec.clean(w + ("abcdefgh" * 5000)[:32767 - len(w)] + w + "!" + w)))
    items.sort(key=lambda x: -len(x[2]))
    validate(chk, items, "compress")
    codec.validate_streams(chk, "pxa", codec.generate(chk, "pxa", chk.scale(3, 4), chk.scale(60, 600), 30))
    chk.sample(dict(mode=items[-30][1], text=items[-30][2][:80]))
    chk.sample(dict(mode=items[5][1], kind=items[5][0], length=len(items[5][2])))
    return chk.finish()
