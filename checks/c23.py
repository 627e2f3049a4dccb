"""C23: Picotron carts through all their formats"""
import vf
from checks import pt

def run():
    chk = vf.Check("C23", "model_checking",
        "chains of formats (PtGen.tla; no operations) of length 3 and random longer ones, from p64, rom and folder carts made by the harness (with its own LZ4 blocks), replayed by the real command line; each written "
        "file is decoded by the specification and compared with the model's cart; non-trivial: distinct chain and cart")
    r = chk.rng("chains")
    hs = [h for h in pt.histories(chk, 3) if all(op in (0, 1, 15) for op, f in h)]
    r.shuffle(hs)
    hs = hs[:chk.scale(260, 3000)] + [[x for x in h] for h in pt.histories(chk, 6, sims=chk.scale(60, 500)) if all(op in (0, 1, 15) for op, f in h)]
    items = [dict(seed=r.randrange(1 << 30), hist=h, fmt0=r.choice(["p64", "rom", "dir"])) for h in hs]
    pt.check(chk, items)
    return chk.finish()
