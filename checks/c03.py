"""C03: conversions between cart formats"""
import vf
from checks import carts

def run():
    chk = vf.Check("C03", "model_checking",
        "all chains of formats of length 3 that CartGen.tla generates (quick: a sample) and random longer ones, from p8, png and rom files made by the harness, replayed by the real command line; after every run the "
        "file is taken apart by independent readers and every part compared with the model; non-trivial: distinct chain and cart")
    r = chk.rng("chains")
    hs = carts.histories(chk, 3, False)
    r.shuffle(hs)
    if not chk.thorough: hs = hs[:110]
    hs += carts.histories(chk, 6, False, sims=chk.scale(30, 300))
    items = []
    for h in hs:
        fs = [carts.FMT[f - 1] for _, f in h]
        items.append(dict(start=None, fmt0=r.choice(["p8", "p8", "png", "rom"]), srcs=[], small="url" in fs, seed=r.randrange(1 << 30),
                          steps=[carts.plain(f, args=["--keep-compression"] if r.random() < .15 else r.choice([[], [], ["--force-compression", "--fast-compression"], ["--optimize-png-compression"]]) if r.random() < .3 else []) for f in fs]))
    for i in range(chk.scale(8, 60)): # (files whose checksum does not fit are refused)
        items.append(dict(start=None, fmt0="png", corrupt=True, srcs=[], small=True, seed=r.randrange(1 << 30), steps=[carts.plain(r.choice(["p8", "png", "rom"]))]))
    carts.check(chk, items, "chain")
    carts.check_images(chk, [dict(fmt0=r.choice(["p8", "p8", "png", "rom"]), fmt=r.choice(["png", "png", "clip"]), title=r.randrange(3), set_title=r.random() < .15, seed=r.randrange(1 << 30),
                                  args=r.choice([[], [], ["--optimize-png-compression"], ["--force-compression"]])) for _ in range(chk.scale(24, 160))])
    return chk.finish()
