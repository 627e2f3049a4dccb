"""An independent reader/writer of the .p8 text format and of ROM/PNG images, used to feed and observe the real code."""
import io, struct, hashlib

CHARSET = ['\0','¹','²','³','⁴','⁵','⁶','⁷','⁸','\t','\n','ᵇ','ᶜ','\r','ᵉ','ᶠ',
 '▮','■','□','⁙','⁘','‖','◀','▶','「','」','¥','•','、','。','゛','゜'] + [chr(i) for i in range(0x20, 0x7f)] + [
 '○','█','▒','🐱','⬇\ufe0f','░','✽','●','♥','☉','웃','⌂','⬅\ufe0f','😐','♪','🅾\ufe0f','◆','…','➡\ufe0f','★','⧗','⬆\ufe0f','ˇ','∧','❎','▤','▥'] + list(
 'あいうえおかきくけこさしすせそたちつてとなにぬねのはひふへほまみむめもやゆよらりるれろわをんっゃゅょ'
 'アイウエオカキクケコサシスセソタチツテトナニヌネノハヒフヘホマミムメモヤユヨラリルレロワヲンッャュョ◜◝')
assert len(CHARSET) == 256
_dec = {}
for _i, _c in enumerate(CHARSET):
    _dec[_c] = _i

def to_text(code):
    return "".join(CHARSET[b] for b in code)

def from_text(text):
    """unicode p8 text -> list of bytes (only for text the charset can express)"""
    out, i = [], 0
    while i < len(text):
        if text[i:i+2] in _dec and len(text[i:i+2]) == 2:
            out.append(_dec[text[i:i+2]]); i += 2
        elif text[i] in _dec:
            out.append(_dec[text[i]]); i += 1
        else:
            out.extend(text[i].encode("utf8", "surrogateescape")); i += 1
    return out

HEADER = "pico-8 cartridge // http://www.pico-8.com"

def make_p8(code, sections=None, version=41):
    """code: bytes/list of p8 characters; sections: list of (name, [lines])"""
    t = f"{HEADER}\nversion {version}\n__lua__\n" + to_text(code) + "\n"
    for name, lines in sections or ():
        t += f"__{name}__\n" + "".join(l + "\n" for l in lines)
    return t

def write_p8(path, code, sections=None, version=41):
    with open(path, "w", encoding="utf8", newline="", errors="surrogateescape") as f:
        f.write(make_p8(code, sections, version))

def read_p8(path):
    """-> dict(header, version, code (list of bytes) or None, sections: ordered list of (name, lines))"""
    with open(path, encoding="utf8", newline="", errors="surrogateescape") as f:
        text = f.read()
    return parse_p8(text)

def parse_p8(text):
    lines = text.split("\n")
    res = dict(header=lines[0], version=None, code=None, sections=[])
    cur = None
    for i, l in enumerate(lines):
        if l.startswith("__") and l.rstrip().endswith("__") and len(l.rstrip()) > 4:
            cur = (l.rstrip()[2:-2], [])
            res["sections"].append(cur)
        elif cur is None:
            if l.startswith("version "): res["version"] = int(l.split()[1])
        else:
            cur[1].append(l)
    # the file's final newline does not begin another line
    if res["sections"] and res["sections"][-1][1] and res["sections"][-1][1][-1] == "":
        res["sections"][-1][1].pop()
    for n, ls in res["sections"]:
        if n == "lua":
            res["code"] = from_text("\n".join(ls))
    return res

def read_code(path):
    c = read_p8(path)["code"]
    return [] if c is None else c
