"""C18: merging, labels, titles, versions"""
import vf
from checks import carts

def run():
    chk = vf.Check("C18", "model_checking",
        "all histories of two runs with an operation each (merging sections, label, title, version, output sections; CartGen.tla) and random longer ones, on carts all of whose parts are given, replayed by the real "
        "command line; after every run the file is taken apart by independent readers and every part compared with the model; non-trivial: distinct history and carts")
    r = chk.rng("ops")
    one = carts.histories(chk, 1, True); two = carts.histories(chk, 2, True)
    r.shuffle(two)
    hs = one + two[:chk.scale(180, 900)] + carts.histories(chk, 4, True, sims=chk.scale(20, 200))
    items = []
    for h in hs:
        items.append(dict(start=None, fmt0=r.choice(["p8", "p8", "p8", "png"]), srcs=[r.choice(["p8", "p8", "png", "rom"]) for _ in range(2)], small=r.random() < .7, absent=r.choice([0, .5]), seed=r.randrange(1 << 30),
                          steps=[carts.step(r, op, carts.FMT[f - 1]) for op, f in h]))
    carts.check(chk, items, "ops")
    return chk.finish()
