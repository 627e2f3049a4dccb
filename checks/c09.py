"""C09: minified programs behave as the original"""
import vf, genlua
from checks import progs, lexer

# a program of the recorded finding (known_findings.txt): only this one's violation is matched with it
MERGE = "local function f() return 1,2 end\nlocal a=f()\nlocal b\nb=b or 7\nprint(a)print(b)"

BASIC = [["--minify"], ["--minify-safe-only"], ["--minify", "--focus-tokens"], ["--minify", "--focus-chars"], ["--minify", "--focus-compressed"]]

# (the enumerated assignments use t.a and t["a"] at once, so table keys must keep their names)
ASSIGN = [["--minify", "--no-minify-rename", "--focus-tokens"], ["--minify", "--rename-safe-only"], ["--minify-safe-only", "--focus-tokens"]]

def run():
    chk = vf.Check("C09", "translation_validation",
        "generated programs (each statement kind the minifier rewrites) minified by the real command line under fixed and random options; original and outputs run by "
        "the TLA+ semantics and their observations compared; non-trivial: distinct program and options")
    r = chk.rng("programs")
    items = []
    for i in range(chk.scale(420, 4000)):
        src = genlua.program(r)
        v = r.sample(BASIC, 2) + [progs.minify_options(r) for _ in range(2)]
        items.append((src, r.choice([41, 41, 42, 43, 36]), v))
    for src in progs.CORPUS: items.append((src, 42, BASIC))
    groups, st = lexer.snippets("groups", 0, 1)
    chk.transitions += st.states; chk.states += st.distinct
    for src in progs.group_programs(r, groups) + (progs.group_programs(r, groups) if chk.thorough else []): items.append((src, 43, [["--minify"], ["--minify-safe-only", "--focus-tokens"]]))
    step = chk.scale(61, 5)
    pairs, st = lexer.snippets("assign", r.randrange(step), step)
    chk.transitions += st.states; chk.states += st.distinct
    for src in progs.assign_programs(r, [p for p in pairs if "_ENV" not in p]): items.append((src, 43, ASSIGN))
    for src in progs.assign_programs(r, [p for p in pairs if "_ENV" in p]): items.append((src, 43, ASSIGN[2:]))
    chk.extra["pairs_of_assignments"] = len(pairs); chk.extra["groups_of_operators"] = len(groups)
    items.append((MERGE, 42, [["--minify-safe-only"]]))
    counts = progs.run_cases(chk, items, "minify", keyf=lambda src, name: "merge-local-after-call" if src == MERGE else f"{name}:{src}")
    if counts["ok"] < len(items) // 2: raise vf.Machinery(f"too few programs run: {counts}")
    chk.sample(items[0][0][:300])
    return chk.finish()
