"""C16: includes and the places of errors"""
import os, re, shutil
import vf, p8
from checks import lexer

NAMES = ["b.lua", "c.lua", "d.p8", "e.p8", "sub/f.lua", "sub/g.p8", "two words.lua", "sub/deep/h.lua"]
KINDS = {".lua": ("lua", 1), ".p8": ("p8", 4), ".png": ("png", 1)}
def kind(n): return KINDS[os.path.splitext(n)[1]]

class Gen:
    def __init__(m, r):
        m.r, m.n, m.files = r, 0, {}
    def q(m): m.n += 1; return f"q{m.n}"
    def piece(m, name, targets, breaks, depth):
        """some lines of a file"""
        r = m.r
        inc = lambda: "#include " + (os.path.relpath(r.choice(targets), os.path.dirname(name) or ".") if targets else "b.lua")
        eq = "=" * r.choice([0, 0, 1, 2])
        k = r.randrange(22)
        if k < 5 and targets or k == 0 and not depth:
            t = r.choice(targets) if targets and (depth or r.random() < .93) else "missing.lua"
            p = os.path.relpath(t, os.path.dirname(name) or ".")
            if r.random() < .15 and "/" in p: p = p.replace("/", "\\")
            tab = -1
            if t.endswith(".p8") and r.random() < .5:
                have = m.files[t]["text"].count("\n-->8\n")
                tab = min(15, max(0, r.choice([0, have, r.randrange(have + 1), have + 1 if r.random() < .1 else 0])))
                p += ":" + r.choice("%x %X".split()) % tab
            return [("dir", r.choice(["", "", "  ", "\t"]) + r.choice(["#include ", "#include ", "#include   "]) + p, t, tab)]
        if k < 7: return [f"{m.q()}()"] * 1
        if k == 7: return [f"{m.q()}() {m.q()}()"]
        if k == 8: return [r.choice(["--", "// "]) + r.choice([" it's ", ' "', " [[", " " + inc(), f" {m.q()}()", "[ [", "[=x"])]
        if k == 9: return [f"--[{eq}[ it's {m.q()}()", inc(), f"]{eq}] {m.q()}()"]
        if k == 10: return [f"x=[{eq}[ \" {m.q()}", inc(), "", f"]{eq}] {m.q()}()"]
        if k == 11: return [f"x=[{eq}[it's]{eq}] {m.q()}()"]
        if k == 12: return [r.choice(["x=\"a'b--\"", "x='\\'[['", 'x="\\\\"', "x='#include b.lua'", 'x="//"', "x='\\\"'"]) + f" {m.q()}()"]
        if k == 13: return ['x="abc\\', inc() + f' {m.q()}\\', f'" {m.q()}()'] if r.random() < .7 else ["x='\\z", "   " + inc() + "'"]
        if k == 14: return ["x=y+", f"#{m.q()}"]
        if k == 15: return r.choice([[""], ["  "], ["\t"]])
        if k == 16 and breaks: return [("break",)]
        if k == 17: return [f"a[b[1]]={m.q()} {m.q()}()"]
        if k == 18: return [f"if ({m.q()}) {m.q()}()"]
        if k == 19: return [f'?"it\'s #"..{m.q()}']
        if k == 20: return ["x=y", f"--[{eq}[]{eq}]" + r.choice(["", f"{m.q()}()"])]
        return ["f(", f" {m.q()},", f"  #{m.q()})"]
    def file(m, name, targets, depth):
        r = m.r
        breaks = name.endswith(".p8") and (depth > 0 and not any("-->8" in m.files[t]["text"] for t in targets) or depth == 0) or depth == 0 or r.random() < .3
        out = []
        for _ in range(r.randrange(1, 7 if depth else 10)):
            for l in m.piece(name, targets, breaks, depth):
                if l == ("break",):
                    if out and out[-1] != ("-->8",): out.append(("-->8",))
                else: out.append(l)
        while out and out[-1] == ("-->8",): out.pop()
        if not out: out = [f"{m.q()}()"]
        if m.bad and r.random() < .25:
            out.insert(len(out), m.bad.replace("q0", "q0")); m.bad = ""
        lines = []
        for l in out:
            if isinstance(l, tuple) and l[0] == "dir": lines.append(dict(t=l[1], at=l[1].index("#") + 1, to=l[2], tab=l[3]))
            else: lines.append(dict(t=l if isinstance(l, str) else l[0], at=0, to="", tab=-1))
        if name.endswith(".p8") or r.random() < .7: lines.append(dict(t="", at=0, to="", tab=-1))
        for l in lines: # (lines that look like directives but are not ones: the machine tells)
            i = l["t"].find("#include")
            if not l["at"] and re.match(r"#include\s+\S", l["t"][i:] if i >= 0 else ""): l.update(at=i + 1, to="missing.lua")
        m.files[name] = dict(lines=lines, text="\n".join(l["t"] for l in lines))
    def build(m):
        r = m.r
        m.bad = r.choice(["x=q0+)", "x={q0 2}", "q0(1 2)", "goto q0", "for q0 do end", "local function q0.b() end", "x=q0 end", "x=-q0)", "q0(", "x=q0..]"]) if r.random() < .15 else ""
        if m.bad == "q0(": m.bad = "x=q0(]"
        m.isbad = bool(m.bad)
        names = r.sample(NAMES, r.randrange(0, 5))
        names.sort(key=lambda n: n == "two words.lua")
        done = []
        for n in names:
            m.file(n, [t for t in done if m.files[t]["flat"] and r.random() < .7] if r.random() < .3 else [], 1)
            m.files[n]["flat"] = not any(l["at"] and l["to"] in m.files for l in m.files[n]["lines"])
            done.append(n)
        if r.random() < .06 and any(n.endswith(".p8") for n in done):
            n = next(n for n in done if n.endswith(".p8"))
            if not m.isbad and not any(l["at"] for l in m.files[n]["lines"]):
                m.files[n[:-3] + ".p8.png"] = dict(lines=m.files[n]["lines"], text=m.files[n]["text"], png=n); done.append(n[:-3] + ".p8.png")
        m.file("a.p8", done, 0)
        return m.files

def write(files):
    for n, f in files.items():
        if os.path.dirname(n): os.makedirs(os.path.dirname(n), exist_ok=True)
        if f.get("png"): continue
        if n.endswith(".p8"): p8.write_p8(n, [ord(c) for c in f["text"]], version=43)
        else:
            with open(n, "w", newline="") as w: w.write(f["text"])

def real(item):
    files, opts = item[:2]
    for f in os.listdir("."):
        shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
    write(files)
    for n, f in files.items():
        if f.get("png"): vf.run_cli([f["png"], n])
    st, out, err = vf.run_cli(["a.p8", "z.p8", "--lint", "--no-lint-fail", "--no-lint-unused", "--no-lint-duplicate"] + opts, timeout=60)
    here = os.getcwd()
    kept = all(p8.read_p8(n)["code"] is not None for n in files if n.endswith(".p8"))
    return dict(rc=st if isinstance(st, int) else -1, out=out.replace(here + "/", ""), err=str(st) + " " + err[-300:], code=p8.read_code("z.p8") if os.path.exists("z.p8") else None, kept=kept)

def places(out, ids):
    said, errors = [], []
    for l in out.split("\n"):
        m = re.fullmatch(r"(.*):(\d+):\d+: (.*)", l)
        if m: path, tab, line, msg = m[1], 0, int(m[2]), m[3]
        else:
            m = re.fullmatch(r"(.*) \(tab ([0-9A-F]), line (\d+), col \d+\): (.*)", l)
            if not m: continue
            path, tab, line, msg = m[1], int(m[2], 16), int(m[3]), m[4]
        f = ids.get(os.path.normpath(path), 0)
        k = re.fullmatch(r"Identifier '(q\d+)' not found", msg)
        if k: said.append([k[1], f, tab, line])
        else: errors.append([f, tab, line])
    return said, errors

def record(item, o):
    files, opts, isbad = item
    order = ["a.p8"] + [n for n in files if n != "a.p8"]
    ids = {n: i + 1 for i, n in enumerate(order)}
    fs = []
    for n in order:
        ls = [dict(s=[ord(c) for c in l["t"]], at=l["at"], file=ids.get(l["to"], 0), tab=l["tab"],
                   names=[dict(n=x[0], col=x.start() + 1) for x in re.finditer(r"q\d+", l["t"])]) for l in files[n]["lines"]]
        fs.append(dict(kind=kind(n)[0], first=kind(n)[1], lines=ls))
    said, errors = places(o["out"], ids)
    return dict(files=fs, tabbed="tabbed" in opts, bad="q0" if isbad else "", rc=o["rc"], written=o["code"] is not None, out=list(o["code"] or []), said=said, errors=errors)

def case_of(item, o):
    return dict(files={n: f["text"] for n, f in item[0].items()}, options=" ".join(item[1]), printed=o["out"][:2000], err=o["err"][-200:])

NOEFFECT = "x=1\nq0\ny=2\n" # (a known finding)
def key(c, v):
    if v[0] == "error-place" and c["files"] == {"a.p8": NOEFFECT}: return "no-side-effect-place"
    return v[0] if v[0] == "tabbed-header" else f"{v[0]}:{c['files']['a.p8']}"

def run():
    chk = vf.Check("C16", "model_checking",
        "random trees of files (Lua files and carts with tabs, in folders) whose lines mix directives, comments, strings that look like them and marker calls; "
        "each read by the real command line with lint; spec/Include.tla composes the code and says where every marker is; non-trivial: distinct files and options")
    r = chk.rng("include")
    items = []
    for _ in range(chk.scale(1500, 25000)):
        g = Gen(r)
        fs = g.build()
        items.append((fs, r.choice([[], [], ["--error-format", "tabbed"], ["--error-format", "absolute"]]), g.isbad))
    items.append(({"a.p8": dict(text=NOEFFECT, lines=[dict(t=l, at=0, to="", tab=-1) for l in NOEFFECT.split("\n")])}, [], True))
    outs = vf.pmap(real, items, chunk=8)
    cases, recs = [], []
    for it, o in zip(items, outs):
        case = case_of(it, o)
        chk.note([case["files"], it[1]])
        if o["rc"] == -1:
            chk.violation("crash:" + o["err"][:80], "the tool crashes: " + o["err"], dict(case=case)); continue
        cases.append(case); recs.append(record(it, o))
    v = chk.validate("Include", cases, recs, key=key, chunk=400, cfg="SPECIFICATION Spec\nINVARIANTS StackOk\nCHECK_DEADLOCK FALSE\n")
    for c, x in zip(cases, v):
        if x[0] == "uninterpretable": raise vf.Machinery(f"Include: {x[1]}\n{c['files']}")
    chk.sample(dict(cases[0], verdict=v[0])); chk.sample(dict(cases[1], verdict=v[1]))
    chk.extra["disagreements_checked"] = len(recs)
    return chk.finish()
