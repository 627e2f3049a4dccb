"""An independent lexer and parser of PICO-8 Lua (strict: what PICO-8 rejects, it rejects), written from the
   language's description, not from the code under test.  Works on p8 characters (ints 0..255).
   Produces the AST that spec/LuaSem.tla executes."""

class LuaError(Exception):
    pass

KEYWORDS = set("and break do else elseif end false for function goto if in local nil not or repeat return then true until while".split())
PUNCT = [">>>=", "<<>=", ">><=", "...", "..=", "<<>", ">>>", ">><", "^^=", "<<=", ">>=", "::", "..", "==", "~=", "!=", "<=", ">=",
         "+=", "-=", "*=", "/=", "\\=", "%=", "^=", "|=", "&=", "^^", "<<", ">>",
         "+", "-", "*", "/", "%", "^", "#", "&", "|", "~", "<", ">", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", ".", "\\", "?", "@", "$"]
COMPOUND = {"+=", "-=", "*=", "/=", "\\=", "%=", "^=", "|=", "&=", "^^=", "<<=", ">>=", ">>>=", "<<>=", ">><=", "..="}
DIG = set(b"0123456789"); HEX = set(b"0123456789abcdefABCDEF")
IDS = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_\x1e\x1f") | set(range(0x80, 0x100))
IDC = IDS | DIG
WS = set(b" \t\n\r")
SIMPLE_ESC = {ord('a'): 7, ord('b'): 8, ord('t'): 9, ord('n'): 10, ord('v'): 11, ord('f'): 12, ord('r'): 13, ord('"'): 34, ord("'"): 39, ord('\\'): 92, 10: 10,
              ord('*'): 1, ord('#'): 2, ord('-'): 3, ord('|'): 4, ord('+'): 5, ord('^'): 6}

class Tok:
    __slots__ = ("t", "v", "line", "pos", "end", "nl", "cs")  # cs: the comments before it; line: counts only the line breaks between tokens (what ends a shorthand)
    def __init__(m, t, v, line, pos, end, nl):
        m.t, m.v, m.line, m.pos, m.end, m.nl = t, v, line, pos, end, nl
        m.cs = ()
    def __repr__(m): return f"{m.t}:{m.v}"

def parse_number(s):
    """text of a numeral -> 32-bit pattern (unsigned), digits beyond the precision dropped"""
    t = s.lower()
    base = 10
    if t.startswith("0x"): base, t = 16, t[2:]
    elif t.startswith("0b"): base, t = 2, t[2:]
    if t.count(".") > 1 or t in ("", "."): raise LuaError("malformed number " + s)
    ip, _, fp = t.partition(".")
    try:
        i = int(ip, base) if ip else 0
        num, den = (int(fp, base), base ** len(fp)) if fp else (0, 1)
    except ValueError:
        raise LuaError("malformed number " + s)
    return ((i << 16) + (num * 65536) // den) & 0xffffffff

class Name(str):
    """an identifier that knows where it stands and which block comments are before it"""
    pos, cs = -1, ()

def named(v, tok):
    s = Name(v); s.pos, s.cs = tok.pos, tok.cs
    return s

def lex(src):
    """src: list of ints"""
    cs = []
    toks = lex_tokens(src, cs)
    j = 0
    for t in toks: # (each comment belongs to the token after it)
        k = j
        while j < len(cs) and cs[j][0] < t.pos: j += 1
        if j > k: t.cs = tuple(c[1] for c in cs[k:j])
    return toks

def lex_tokens(src, comments):
    src = bytes(src)
    toks = []
    i, n, line = 0, len(src), 1
    nl = True
    while True:
        while i < n:
            c = src[i]
            if c == 10: line += 1; nl = True; i += 1
            elif c in WS: i += 1
            elif src.startswith(b"--", i) or src.startswith(b"//", i):
                isdash = c == 45
                i += 2
                if isdash and i < n and src[i] == 91:
                    j = i + 1
                    while j < n and src[j] == 61: j += 1
                    if j < n and src[j] == 91:
                        end = src.find(b"]" + b"=" * (j - i - 1) + b"]", j + 1)
                        if end < 0: raise LuaError("unfinished long comment")
                        comments.append((i - 2, src[j+1:end].decode("latin1")))
                        i = end + (j - i - 1) + 2
                        continue
                while i < n and src[i] != 10: i += 1
            else: break
        if i >= n:
            toks.append(Tok("eof", None, line, n, n, nl)); return toks
        st, c = i, src[i]
        if c in IDS:
            while i < n and src[i] in IDC: i += 1
            w = src[st:i].decode("latin1")
            toks.append(Tok("kw" if w in KEYWORDS else "id", w, line, st, i, nl))
        elif c in DIG or (c == 46 and i + 1 < n and src[i+1] in DIG):
            if src[i:i+2].lower() == b"0x":
                i += 2
                while i < n and (src[i] in HEX or src[i] == 46): i += 1
            elif src[i:i+2].lower() == b"0b":
                i += 2
                while i < n and (src[i] in DIG or src[i] == 46): i += 1
            else:
                while i < n and (src[i] in DIG or src[i] == 46): i += 1
            toks.append(Tok("num", parse_number(src[st:i].decode("latin1")), line, st, i, nl))
        elif c in (34, 39):
            q = c; i += 1; out = []
            l0 = line
            while True:
                if i >= n or src[i] == 10: raise LuaError("unfinished string")
                ch = src[i]
                if ch == q: i += 1; break
                if ch != 92: out.append(ch); i += 1; continue
                i += 1
                if i >= n: raise LuaError("unfinished string")
                ch = src[i]
                if ch in DIG:
                    j = i
                    while j < n and j < i + 3 and src[j] in DIG: j += 1
                    v = int(src[i:j]); i = j
                    if v > 255: raise LuaError("decimal escape too large")
                    out.append(v)
                elif ch == 120:
                    h = src[i+1:i+3]
                    if len(h) < 2 or any(x not in HEX for x in h): raise LuaError("hexadecimal digit expected")
                    out.append(int(h, 16)); i += 3
                elif ch == 122:
                    i += 1
                    while i < n and src[i] in b" \t\n\r\v\f": i += 1
                elif ch in SIMPLE_ESC:
                    out.append(SIMPLE_ESC[ch]); i += 1
                else: raise LuaError("invalid escape sequence")
            toks.append(Tok("str", out, l0, st, i, nl))
        elif c == 91 and i + 1 < n and src[i+1] in (91, 61):
            j = i + 1
            while j < n and src[j] == 61: j += 1
            if j < n and src[j] == 91:
                lv = j - i - 1
                end = src.find(b"]" + b"=" * lv + b"]", j + 1)
                if end < 0: raise LuaError("unfinished long string")
                body = src[j+1:end]
                l0 = line
                body = body.replace(b"\r\n", b"\n")
                if body[:1] == b"\n": body = body[1:]
                i = end + lv + 2
                toks.append(Tok("str", list(body), l0, st, i, nl))
            elif j > i + 1: raise LuaError("invalid long string delimiter")
            else: toks.append(Tok("p", "[", line, st, i + 1, nl)); i += 1
        else:
            for p in PUNCT:
                if src.startswith(p.encode(), i):
                    i += len(p); break
            else: raise LuaError(f"unexpected character {c}")
            toks.append(Tok("p", p, line, st, i, nl))
        nl = False

BINPRI = {"or": (1, 1), "and": (2, 2), "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3), "~=": (3, 3), "!=": (3, 3), "==": (3, 3),
          "|": (4, 4), "^^": (5, 5), "~": (5, 5), "&": (6, 6), "<<": (7, 7), ">>": (7, 7), ">>>": (7, 7), "<<>": (7, 7), ">><": (7, 7),
          "..": (9, 8), "+": (10, 10), "-": (10, 10), "*": (11, 11), "/": (11, 11), "\\": (11, 11), "%": (11, 11), "^": (14, 13)}
UNPRI = 12
UNOPS = {"-", "not", "#", "~", "@", "%", "$"}

def nm(s):
    """an identifier as a JSON-safe ascii key"""
    t = "".join(c if 32 < ord(c) < 127 else "~%02x" % ord(c) for c in s)
    if isinstance(s, Name):
        t = Name(t); t.pos, t.cs = s.pos, s.cs
    return t
def by(s):
    return [ord(c) for c in s]

class Parser:
    def __init__(m, src, version=43):
        m.src = src
        m.version = version     # what PICO-8 versions before it do not support is rejected
        m.shorts = 0
        m.toks = lex(src)
        m.i = 0
        m.fns = []
        m.eol = None    # inside a one-line shorthand: the line it must end on
        m.hard = None   # the same, also within brackets and blocks nested in the shorthand (nothing there may be on another line)
        m.vararg = [True]
        m.loops = [0]
        m.names = []    # identifier occurrences in order, for the renaming checks
        m.parens = 0

    @property
    def tok(m): return m.toks[m.i]
    def prev_end_line(m): return m.toks[m.i-1].line
    def err(m, what="syntax error"):
        t = m.tok
        raise LuaError(f"{what} near {t.t}:{t.v} line {t.line}")
    def next(m):
        t = m.tok; m.onto(); m.i += 1; return t
    def onto(m):
        if m.hard is not None and m.tok.line != m.hard: m.err("line break inside a one-line construct")
    def is_(m, v): return m.tok.v == v and m.tok.t in ("p", "kw")
    def at_eol(m):
        """inside a shorthand, the next token is on another line"""
        return m.eol is not None and (m.tok.t == "eof" or m.tok.line != m.eol)
    def accept(m, v):
        if m.is_(v): m.onto(); m.i += 1; return True
        return False
    def expect(m, v):
        if not m.accept(v): m.err(f"'{v}' expected")
    def ident(m):
        if m.tok.t != "id": m.err("name expected")
        t = m.next()
        return named(t.v, t)

    # blocks
    def block(m, ends):
        body = []
        while True:
            if m.at_eol(): break
            t = m.tok
            if t.t == "eof" or (t.t == "kw" and t.v in ends): break
            if t.t == "kw" and t.v == "return":
                body.append(m.ret(ends)); break
            s = m.stmt()
            if s: body.append(s)
        m.check_labels(body)
        return body

    def check_labels(m, body):
        seen = set()
        for s in body:
            if s["k"] == "label":
                if s["n"] in seen: raise LuaError("label defined twice")
                seen.add(s["n"])

    def ret(m, ends):
        m.next()
        es = []
        t = m.tok
        if not (t.t == "eof" or (t.t == "kw" and t.v in ("end", "else", "elseif", "until")) or m.is_(";") or m.at_eol()):
            es = m.exprlist()
        m.accept(";")
        t = m.tok
        if not (t.t == "eof" or (t.t == "kw" and t.v in ends) or m.at_eol()): m.err("'return' must be last")
        return dict(k="ret", e=es)

    def body(m, ends, end="end"):
        """a block nested in a statement; inside a shorthand it must stay on its line or be complete"""
        b = m.block(ends)
        return b

    def full_block(m, ends):
        """the block of a normal (multi-line) construct: shorthand line rules are suspended"""
        sv, m.eol = m.eol, None
        ss, m.shorts = m.shorts, 0
        try: return m.block(ends)
        finally: m.eol = sv; m.shorts = ss

    def short_block(m, line):
        if m.shorts and m.version < 42: m.err("nested shorthand")
        sv, m.eol = m.eol, line
        sh, m.hard = m.hard, line
        m.shorts += 1
        try: return m.block({"else", "end", "elseif", "until"})
        finally: m.eol = sv; m.hard = sh; m.shorts -= 1

    def stmt(m):
        t = m.tok
        if m.accept(";"): return None
        if t.t == "kw":
            f = getattr(m, "s_" + t.v, None)
            if not f: m.err("unexpected keyword")
            return f()
        if t.t == "p" and t.v == "::":
            m.next(); n = m.ident(); m.expect("::")
            return dict(k="label", n=nm(n))
        if t.t == "p" and t.v == "?":
            m.next()
            line = t.line
            sv, m.eol = m.eol, line
            if m.at_eol(): args = []
            else:
                sh, m.hard = m.hard, line
                args = m.exprlist(); m.hard = sh
            m.eol = sv
            if m.tok.t != "eof" and m.tok.line == line:
                m.err("<eol> expected after ?")
            return dict(k="calls", e=dict(k="call", f=dict(k="name", n="print", s=by("print")), a=args), q=True)
        return m.exprstat()

    def exprstat(m):
        e = m.suffixed()
        if m.is_("=") or m.is_(","):
            targets = [e]
            while m.accept(","): targets.append(m.suffixed())
            m.expect("=")
            for x in targets:
                if x["k"] not in ("name", "idx"): m.err("cannot assign")
            return dict(k="assign", t=targets, e=m.exprlist())
        if m.tok.t == "p" and m.tok.v in COMPOUND:
            if e["k"] not in ("name", "idx"): m.err("cannot assign")
            op = m.next().v[:-1]
            return dict(k="cassign", t=e, op=op, e=m.expr())
        if e["k"] not in ("call", "meth"): m.err("syntax error")
        return dict(k="calls", e=e)

    def s_do(m):
        m.next(); b = m.full_block({"end"}); m.expect("end")
        return dict(k="do", b=b)

    def then(m):
        if m.is_("do") and m.version >= 42: m.next()
        else: m.expect("then")

    def s_if(m):
        m.next()
        # (a condition like "(a) (b)" or "(a) + 1" belongs to the longhand only if 'then' follows)
        c, line = m.try_cond("if")
        if line is not None:
            b = m.short_block(line)
            els = []
            if m.tok.line == line and m.is_("else"):
                m.next(); els = m.short_block(line)
            if not m.at_line_end(line): m.err("unexpected token in shorthand if")
            return dict(k="if", c=[dict(c=c, b=b)], e=els, short=True)
        m.then()
        cl = [dict(c=c, b=m.full_block({"else", "elseif", "end"}))]
        els = []
        while True:
            if m.accept("elseif"):
                c = m.sus_expr(); m.then()
                cl.append(dict(c=c, b=m.full_block({"else", "elseif", "end"})))
            elif m.accept("else"):
                els = m.full_block({"end"}); m.expect("end"); break
            else:
                m.expect("end"); break
        return dict(k="if", c=cl, e=els)

    def at_line_end(m, line):
        return m.tok.t == "eof" or m.tok.line != line or m.is_("end") or m.is_("until") or m.is_("elseif") or (m.is_("else") and m.eol is not None)

    def sus_expr(m):
        sv, m.eol = m.eol, None
        try: return m.expr()
        finally: m.eol = sv

    def try_cond(m, kw):
        st, nf, nn = m.i, len(m.fns), len(m.names)
        kwd = "then" if kw == "if" else "do"
        sv, m.eol = m.eol, None
        try:
            e = m.expr()
            if m.is_(kwd) or (kw == "if" and m.is_("do") and m.version >= 42): m.eol = sv; return e, None
        except LuaError:
            if m.toks[st].v != "(": raise
        m.eol = sv
        if m.toks[st].v != "(" or m.toks[st].t != "p":
            m.err(f"'{kwd}' expected")
        m.i = st; del m.fns[nf:]; del m.names[nn:]
        m.next()
        m.eol = None
        try: e = m.expr(); m.expect(")")
        finally: m.eol = sv
        line = m.toks[m.i-1].line
        # (what continues the condition's expression is not the start of a body)
        if m.tok.t == "eof" or m.tok.line != line or m.is_("("): m.err(f"'{kwd}' expected")
        return e, line

    def s_while(m):
        m.next()
        c, line = m.try_cond("while")
        m.loops[-1] += 1
        if line is not None:
            b = m.short_block(line)
            if not m.at_line_end(line): m.err("unexpected token in shorthand while")
        else:
            m.expect("do"); b = m.full_block({"end"}); m.expect("end")
        m.loops[-1] -= 1
        return dict(k="while", c=c, b=b)

    def s_repeat(m):
        m.next(); m.loops[-1] += 1
        b = m.full_block({"until"}); m.loops[-1] -= 1
        m.expect("until")
        return dict(k="repeat", b=b, c=m.sus_expr())

    def s_for(m):
        m.next()
        n = m.ident()
        if m.accept("="):
            a = m.sus_expr(); m.expect(","); b = m.sus_expr()
            s = m.sus_expr() if m.accept(",") else dict(k="num", h=1, l=0)
            m.expect("do"); m.loops[-1] += 1
            body = m.full_block({"end"}); m.loops[-1] -= 1
            m.expect("end")
            return dict(k="fornum", n=nm(n), a=a, z=b, s=s, b=body)
        ns = [n]
        while m.accept(","): ns.append(m.ident())
        m.expect("in")
        sv, m.eol = m.eol, None
        es = m.exprlist(); m.eol = sv
        m.expect("do"); m.loops[-1] += 1
        body = m.full_block({"end"}); m.loops[-1] -= 1
        m.expect("end")
        return dict(k="forin", n=[nm(x) for x in ns], e=es, b=body)

    def s_function(m):
        cs = m.next().cs
        n = m.ident()
        t = dict(k="name", n=nm(n), s=by(n))
        meth = False
        while m.is_(".") or m.is_(":"):
            meth = m.next().v == ":"
            f = m.ident()
            t = dict(k="idx", o=t, i=dict(k="str", s=by(f), mn=nm(f)))
            if meth: break
        f = m.funcbody(meth, cs)
        return dict(k="fn", t=t, f=f)

    def s_local(m):
        cs = m.next().cs
        if m.accept("function"):
            n = m.ident()
            return dict(k="localfn", n=nm(n), f=m.funcbody(False, cs))
        ns = [m.ident()]
        while m.accept(","): ns.append(m.ident())
        es = m.exprlist() if m.accept("=") else []
        return dict(k="local", n=[nm(x) for x in ns], e=es)

    def s_break(m):
        m.next()
        if not m.loops[-1]: m.err("break outside a loop")
        return dict(k="brk")
    def s_goto(m):
        m.next(); return dict(k="goto", n=nm(m.ident()))

    def funcbody(m, meth, cs=()):
        i = len(m.fns); m.fns.append(None)
        ps = ["self"] if meth else []
        va = False
        sv, m.eol = m.eol, None
        m.expect("(")
        if not m.is_(")"):
            while True:
                if m.accept("..."): va = True; break
                ps.append(nm(m.ident()))
                if not m.accept(","): break
        m.expect(")")
        m.vararg.append(va); m.loops.append(0)
        b = m.block({"end"})
        m.vararg.pop(); m.loops.pop()
        m.expect("end")
        m.eol = sv
        m.fns[i] = dict(p=ps, va=va, b=b, **(dict(cs=list(cs)) if cs else {}))
        return i + 1

    # expressions
    def exprlist(m):
        es = [m.expr()]
        while not m.at_eol() and m.accept(","): es.append(m.expr())
        return es

    def expr(m, limit=0):
        t = m.tok
        if m.at_eol(): m.err("unexpected end of line")
        if t.t in ("p", "kw") and t.v in UNOPS:
            m.next()
            e = dict(k="un", op=t.v, e=m.expr(UNPRI))
        else:
            e = m.simple()
        while not m.at_eol():
            t = m.tok
            if t.t not in ("p", "kw") or t.v not in BINPRI: break
            l, r = BINPRI[t.v]
            if l <= limit: break
            if t.v == "~" and m.version < 37: m.err("binary ~")
            m.next()
            rhs = m.expr(r)
            op = "~=" if t.v == "!=" else "^^" if t.v == "~" else t.v
            e = dict(k=op, l=e, r=rhs) if op in ("and", "or") else dict(k="bin", op=op, l=e, r=rhs)
        return e

    def simple(m):
        t = m.tok
        if t.t == "num":
            m.next(); v = t.v
            return dict(k="num", h=(v >> 16) - (65536 if v >> 31 else 0), l=v & 0xffff)
        if t.t == "str": m.next(); return dict(k="str", s=t.v, **m.hinted(t))
        if t.t == "kw":
            if t.v in ("nil", "true", "false"): m.next(); return dict(k=t.v)
            if t.v == "function": return dict(k="fn", i=m.funcbody(False, m.next().cs))
        if m.is_("..."):
            if not m.vararg[-1]: m.err("cannot use '...' outside a vararg function")
            m.next(); return dict(k="va")
        if m.is_("{"): return m.table()
        return m.suffixed()

    def hinted(m, t): return dict(pos=t.pos, cs=list(t.cs)) if t.cs else {}

    def table(m):
        sv, m.eol = m.eol, None
        h = m.hinted(m.tok)
        m.expect("{")
        items = []
        while not m.is_("}"):
            if m.is_("["):
                m.next(); k = m.expr(); m.expect("]"); m.expect("=")
                items.append(dict(t="key", key=k, v=m.expr()))
            elif m.tok.t == "id" and m.toks[m.i+1].t == "p" and m.toks[m.i+1].v == "=":
                n = m.ident(); m.next()
                items.append(dict(t="key", key=dict(k="str", s=by(n), mn=nm(n)), v=m.expr()))
            else: items.append(dict(t="pos", v=m.expr()))
            if not (m.accept(",") or m.accept(";")): break
        m.expect("}")
        m.eol = sv
        return dict(k="tab", items=items, **h)

    def suffixed(m):
        t = m.tok
        if m.is_("("):
            m.next()
            sv, m.eol = m.eol, None
            e = m.expr(); m.expect(")")
            m.eol = sv
            e = dict(k="par", e=e)
        elif t.t == "id":
            m.next(); e = dict(k="name", n=nm(named(t.v, t)), s=by(t.v))
        else: m.err("unexpected symbol")
        while not m.at_eol():
            t = m.tok
            if m.is_("."):
                m.next(); n = m.ident(); e = dict(k="idx", o=e, i=dict(k="str", s=by(n), mn=nm(n)))
            elif m.is_("["):
                m.next()
                sv, m.eol = m.eol, None
                i = m.expr(); m.expect("]")
                m.eol = sv
                e = dict(k="idx", o=e, i=i)
            elif m.is_(":"):
                m.next(); n = m.ident(); e = dict(k="meth", o=e, s=by(n), m=nm(n), a=m.args())
            elif m.is_("(") or m.is_("{") or t.t == "str":
                e = dict(k="call", f=e, a=m.args())
            else: break
        return e

    def args(m):
        t = m.tok
        if t.t == "str": m.next(); return [dict(k="str", s=t.v, **m.hinted(t))]
        if m.is_("{"): return [m.table()]
        if not m.is_("("): m.err("function arguments expected")
        m.next()
        sv, m.eol = m.eol, None
        a = [] if m.is_(")") else m.exprlist()
        m.expect(")")
        m.eol = sv
        return a

    def program(m):
        b = m.block(())
        if m.tok.t != "eof": m.err("unexpected token")
        return dict(b=b, fns=m.fns)

def parse(src, version=43):
    """src: list of p8 characters -> dict(b=statements, fns=[...]); raises LuaError"""
    import sys
    if sys.getrecursionlimit() < 5000: sys.setrecursionlimit(5000)
    return Parser(src, version).program()
