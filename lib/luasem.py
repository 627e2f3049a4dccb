"""Runs Lua programs in spec/LuaSem.tla."""
import p8lua, vf

BUILTINS = """print flr ceil abs sgn min max mid band bor bxor bnot shl shr lshr rotl rotr type tostr tonum sub ord chr rawget rawset rawequal rawlen
 setmetatable getmetatable next pairs ipairs all add del deli count unpack pack select""".split()
API = "spr circfill rectfill btn cls map sfx music pset line mset camera pal btnp rect circ fset".split()
PRELUDE = "function foreach(c,f) for x in all(c) do f(x) end end"

def base():
    nb = lambda n: [n, [ord(c) for c in n]]
    return dict(builtins=[nb(n) for n in BUILTINS], api=[nb(n) for n in API], prelude=p8lua.parse([ord(c) for c in PRELUDE]))

def case(srcs, names):
    """srcs: list of code bytes; raises p8lua.LuaError (index of the program in .prog)"""
    progs = []
    for i, s in enumerate(srcs):
        try: progs.append(p8lua.parse(s))
        except p8lua.LuaError as ex:
            ex.prog = i; raise
    return dict(progs=progs, names=list(names))

_rt = None
def native(src):
    """the same observations by running lupaz8 (only used by tools/calibrate.py): list of events, error flag"""
    from lupaz8 import luaz8
    rt = luaz8.LuaRuntime(encoding="latin1", source_encoding="latin1", overflow_handler=True, unpack_returned_tuples=True)
    g = rt.globals()
    out = []
    rt.execute("""
local _tostr,_type,_sel,_pack,_pr=tostr,type,select,pack,pyrec
function __ts(v) local t=_type(v) if t=='nil' then return '[nil]' elseif t=='table' then return '[table]' elseif t=='function' then return '[func]' elseif t=='userdata' then return '[func]' end return _tostr(v) end
""")
    ts = g["__ts"]
    g["print"] = lambda *a: out.append(("print",) + tuple(ts(x) for x in a))
    fix = rt.execute("return function(n) return n end")
    for n in API:
        def f(*a, n=n):
            out.append(("api", n) + tuple(ts(x) for x in a))
            return (len(out) - 1) % 4
        g[n] = f
    err = None
    try: rt.execute(bytes(src).decode("latin1"))
    except Exception as ex: err = str(ex).split("\n")[0]
    return out, err
