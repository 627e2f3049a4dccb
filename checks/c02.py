"""C02: the old ":c:" compression"""
import vf
from checks import codec, c01

def run():
    chk = vf.Check("C02", "model_checking",
        "texts compressed by the real command line into the old format and decoded item by item by the specification's reader, and streams "
        "written by the specification's writer (every stream of a few items, random long ones) read by the real reader; non-trivial: longer than 3 characters")
    r = chk.rng("corpus")
    texts = codec.corpus(r, chk.scale(900, 8000), big=chk.scale(40, 400))
    items = []
    for i, (k, t) in enumerate(texts):
        if len(t) < 7000:
            items.append((k, "old", t))
            if i % 2 == 0: items.append((k, "oldfast", t))
    # repeats too dense for the first match index, with the repeated text overlapping itself
    for i in range(chk.scale(12, 60)):
        ch = chr(r.choice([97, 200])); k = r.choice([1, 2, 3, 4])
        unit = "".join(r.choice("abc") for _ in range(k))
        items.append(("selfoverlap", "old", codec.clean("".join(unit * r.choice([1, 2, 3, 5, 9]) + r.choice(["", "x", "y", ch]) for _ in range(500)))))
        items.append(("selfoverlap", "oldfast", items[-1][2]))
    # code that fills the section to its last bytes (no three characters repeat; each takes two bytes, but a last one)
    for n in (0x3d00, 0x3d00 - 1, 0x3d00 - 2, 0x3d00 - 3):
        t, seen = "--", set()
        while len(t) < 2 + (n - 8 - 4) // 2:
            ch = chr(r.randrange(130, 256))
            if t[-2:] + ch not in seen: seen.add(t[-2:] + ch); t += ch
        items.append(("full", r.choice(["old", "oldfast"]), t + "z" * (n % 2)))
    items.sort(key=lambda x: -len(x[2]))
    c01.validate(chk, items, "old compression")
    codec.validate_streams(chk, "old", codec.generate(chk, "old", chk.scale(4, 5), chk.scale(60, 600), 40))
    chk.sample(dict(mode=items[-40][1], text=items[-40][2][:80]))
    chk.sample(dict(mode=items[5][1], kind=items[5][0], length=len(items[5][2])))
    return chk.finish()
