"""Shared by the checks that run programs: transforms generated programs with the real command line and lets
   spec/LuaSem.tla run the original and every variant and compare what they do."""
import random
import vf, p8, p8lua, luasem, genlua

def transform(item):
    """item: (source text, version, list of option lists) -> list of dict(status, code)"""
    src, version, variants = item[:3]
    res = []
    p8.write_p8("a.p8", [ord(c) for c in src], version=version)
    import os
    for opts in variants:
        if os.path.exists("b.p8"): os.unlink("b.p8")
        st, out, err = vf.run_cli(["a.p8", "b.p8"] + list(opts), timeout=60)
        if st != 0 or not os.path.exists("b.p8"):
            res.append(dict(status=f"{st}: {(err or out)[-300:]}", code=None))
        else:
            res.append(dict(status="ok", code=p8.read_code("b.p8"), out=out))
    return res

def run_cases(chk, items, label, keyf=None, batch=400, parse_versions=True):
    """items: [(src, version, variants[, reference source])]"""
    outs = vf.pmap(transform, items, chunk=2)
    cases, recs = [], []
    counts = dict(skip=0, ok=0)
    for it, rs in zip(items, outs):
        src, version, variants = it[:3]
        code = [ord(c) for c in (it[3] if len(it) > 3 else src)]
        try: orig = p8lua.parse(code, version)
        except p8lua.LuaError as ex:
            raise vf.Machinery(f"generated program does not parse: {src}\n{ex}")
        progs, names = [orig], ["original"]
        for opts, r in zip(variants, rs):
            name = " ".join(opts)
            chk.note((src, name))
            if r["status"] != "ok":
                chk.violation(keyf(src, name) if keyf else f"fails:{src}", f"{label}: the tool fails under {name}: {r['status']}", dict(case=dict(program=src, options=name, version=version)))
                continue
            try: progs.append(p8lua.parse(r["code"], version)); names.append(name)
            except p8lua.LuaError as ex:
                chk.violation(keyf(src, name) if keyf else f"invalid:{src}", f"{label}: {name} gives code PICO-8 rejects: {ex}",
                              dict(case=dict(program=src, options=name, version=version, output="".join(map(chr, r["code"])))))
        if len(progs) > 1:
            cases.append(dict(program=src, version=version, options=names[1:], outputs={" ".join(o): "".join(map(chr, r["code"] or [])) for o, r in zip(variants, rs)}))
            recs.append(dict(progs=progs, names=names))
    base = luasem.base()
    for i in range(0, len(recs), batch):
        cs, rc = cases[i:i+batch], recs[i:i+batch]
        verd, st = vf.tlc_verdicts("LuaSem", rc, base=base, timeout=800)
        chk.add_stats(st)
        for c, r, v in zip(cs, rc, verd):
            if v[0] == "ok": counts["ok"] += 1
            elif v[0] == "skip": counts["skip"] += 1
            else:
                name = v[1].split(":")[0]
                key = keyf(c["program"], name) if keyf else f"{v[0]}:{c['program']}"
                if v[0] == "uninterpretable":
                    raise vf.Machinery(f"LuaSem cannot run: {v[1][:500]}\n{c['program']}")
                out = c["outputs"].get(name, "")
                chk.violation(key, f"{label}: {v[1][:300]}", dict(case=dict(program=c["program"], options=name, version=c["version"], output=out)))
    chk.extra.setdefault("programs_compared", 0); chk.extra["programs_compared"] += counts["ok"]
    chk.extra.setdefault("programs_not_modelled", 0); chk.extra["programs_not_modelled"] += counts["skip"]
    chk.extra["disagreements_checked"] = chk.extra["programs_compared"]
    return counts

FOCUS = [[], ["--focus-tokens"], ["--focus-chars"], ["--focus-compressed"], ["--focus-tokens", "--focus-chars"], ["--focus-tokens", "--focus-compressed"]]
NOMIN = ["--no-minify-rename", "--no-minify-spaces", "--no-minify-lines", "--no-minify-comments", "--no-minify-tokens", "--no-minify-reorder", "--no-minify-consts"]

def minify_options(r):
    o = [r.choice(["--minify", "--minify", "--minify-safe-only"])]
    o += r.choice(FOCUS)
    if r.random() < .5: o += r.sample(NOMIN, r.choice([1, 1, 2, 3]))
    if r.random() < .15: o.append(r.choice(["--rename-safe-only", "--reorder-safe-only", "--builtins-safe-only"]))
    return o

# ---- programs made of what LexGen enumerates
REC = "".join(f"M.__{n}=function(a,b)return P(a,'{o}',b)end " for n, o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"), ("idiv", "I"), ("mod", "%"), ("pow", "^"), ("concat", "C")))
GROUPHEAD = "local M={}local function P(a,o,b)return setmetatable({s='('..a.s..o..b.s..')'},M)end " + REC + "M.__unm=function(a)return setmetatable({s='~'..a.s},M)end\n"
def group_programs(r, exprs, n=24):
    """exprs: N.. (numbers) or R.. (objects that record the operations on them)"""
    res = []
    for kind, vals in (("N", [("0x.0003", "0x.8", "300"), ("-7.5", "3", "2.25"), ("0x7fff.ffff", "-0x.4", "5"), ("-32768", "0x.0001", "17")]), ("R", [("setmetatable({s='x'},M)", "setmetatable({s='y'},M)", "setmetatable({s='z'},M)")])):
        es = [e[1:] for e in exprs if e[0] == kind]
        r.shuffle(es)
        for i in range(0, len(es), n):
            v = r.choice(vals)
            out = (GROUPHEAD if kind == "R" else "") + f"local x,y,z={v[0]},{v[1]},{v[2]}\n"
            for e in es[i:i+n]:
                c = r.choice(["W=E", "W=(E)", "local W=E", "W={E}W=W[1]", "W=q[E]or E", "W=E==nil or E"]) if kind == "N" else r.choice(["W=E", "W=(E)", "local W=E"])
                w = r.choice(["w", "v"])
                pr = f"print(type({w})=='table'and {w}.s or {w})" if kind == "R" else f"print(tostr({w},true))"
                out += "do " + c.replace("W", w).replace("E", e) + " " + pr + "end\n"
            res.append(out.replace("q[", "({})["))
    return res

def assign_programs(r, pairs, n=8, third=.3):
    res = []
    pairs = list(pairs); r.shuffle(pairs)
    for i in range(0, len(pairs), n):
        out = "function f()g+=1 return g end function m(s)return s.a end\n"
        for p in pairs[i:i+n]:
            if r.random() < third and '"b"' not in p and "nil" not in p and "k=" not in p:
                q = r.choice(pairs)
                if "k=" not in q: p = p + r.choice(["\n", " ", "\n\n"]) + q.split("\n")[0]
            out += "do g=20 local l,k=3,\"a\" t={4,a=6,b=8,m=m} u=t " + ("u={a=11,b=12,m=m}" if r.random() < .5 else "") + "\nprint(g)\n" + p + "\nprint(l)print(g)print(k)print(t.a)print(t.b)print(u.a)print(#t)print(t[1])print(t[2])end\n"
        res.append(out)
    return res

# hand-written programs: constructs that have gone wrong, or that random programs seldom hold
CORPUS = ["""
local function f() print("f") return f end
local t={f=f,g=function(s,x) print(x) return s end}
if (t) f()
(t.f or f)()
?1,f()~=nil
(t.f)()
if (not t) f() else f()
(f)()
local n=0
while (n<2) n+=1 f()
("x"):len()
if (t) if (n==2) f()
(f)()
""".replace('("x"):len()', '(f)()'), """
local a={[ [[x]] ]=1,[1]=2;3}print(a[ [[x]] ])print(a[1])print(- -a[1])print(-(-a[1]))
local b=a[1]- -1 print(b)print(~ ~b)print(not not b)
print(b..1 ..2)print(1 ..b)print(0x1 ..b)print(#a.. -1)
""", """
local a,b=1 b=b or 5
local c=a;(print)(c)
do local a=2 print(a)end print(a)
goto x
print("skipped")
::x:: print("there")
for i=1,3 do if i==2 then goto continue end print(i) ::continue:: end
do goto x2 end
::x2::
do ::x:: print"inner" end
""", """
if false then print(1) end (print)(2)
if true then print(3) end (print)(4)
if true then local q=5 print(q) end
if false then else print(6) end
if false then elseif false then else (print)(7) end
if (false) print(8)
if (true) print(9)
if (false) print(10) else print(11)
while (false) print(12)
local x=1 if x==1 then --[[]] end print(x)
if (x==1) if (x==2) print(13)
print(14)
repeat local z=x x+=1 until z==3 print(x)
""".replace("if (x==1) if (x==2) print(13)", "if (x==1) print(13)"), """
local s="a\\n\\"b'\\z
  c\\x41\\065\\0651"print(s)print('a"b')print([[
x]])print([==[a]]b]==])print(#"\\0\\0001")
?"q",s
?#s
""", """
t={a=1,b={c=2}}t.a+=1 t.b.c*=3 t["a b"]=7 t["a b"]-=5 print(t["a b"]) print(t.a)print(t.b.c)
t.d=function(self,x)return self.a+x end print(t:d(4))print(t.d(t,5))
local m={}m.x,m.y=1,2,3 print(m.x,m.y)
local function v(...) local a,b=... print(select("#",...),a,b) return ... end
print(v(1,2,3),v())print((v(1,2,3)))
x,y=y,x
a=a and b or c print(a)
"""]
