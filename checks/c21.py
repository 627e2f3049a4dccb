"""C21: operations on the files of Picotron carts, replayed histories (spec/PtGen.tla generates, spec/PtCart.tla decides)"""
import vf
from checks import pt

def run():
    chk = vf.Check("C21", "model_checking",
        "histories of up to three runs generated by TLC from PtGen (operation and format of each run; some with a second operation) replayed through the real command line "
        "on random trees of files, some with paths that lead out of the folder written to; each written file is decoded by the specification and compared with what "
        "the operations make of the model's cart; non-trivial: distinct history and cart")
    r = chk.rng("ops")
    hs = pt.histories(chk, 1) + [h for h in pt.histories(chk, 2) if r.random() < chk.scale(.1, .5)]
    hs += r.sample(pt.histories(chk, 3), chk.scale(160, 2000))
    items = [dict(seed=r.randrange(1 << 30), hist=h, fmt0=r.choice(["p64", "rom", "dir"]), two=True) for h in hs]
    for f in ([4, 8, 1, 4] if not chk.thorough else [4, 8, 1, 2, 3, 4, 8]) * chk.scale(5, 30): # (a folder, an extraction, a p64)
        items.append(dict(seed=r.randrange(1 << 30), hist=[[r.choice([0, 0, 2, 4, 11]), f]], fmt0="p64", evil=True))
    pt.check(chk, items)
    return chk.finish()
