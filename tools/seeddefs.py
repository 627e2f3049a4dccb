"""The planted changes: id, property, edits [(file, old, new)], demo (python, see seedlib/u.py), needs, breaks"""
SEEDS = []
def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

seed("c01-longmatch", "C01",
 [("pico_compress.py", """                        count += part
                        if part != 7:
                            break
""", """                        count += part
                        if part != 7 or count > 0x400:
                            break
""")],
 r'''
code = "-- a\n--\nx=1--" + "ab" * 900 + "cd\n"
put("a.lua", code)
rc, o, e = tool("a.lua", "b.rom", "--force-compression")
expect(rc == 0, "write " + e)
rc, o, e = tool("b.rom", "c.lua")
expect(rc == 0, "read " + e[-200:])
expect(get("c.lua").decode().strip() == code.strip(), "code differs")
''', "a copied run of more than a thousand characters in pxa compressed code", "the count of a long match is cut, so the rest of the stream is misread")

seed("c02-farthest", "C02",
 [("pico_compress.py", "            if max_o != None and j < i - max_o:\n                break\n", "            if max_o != None and j + 1 < i - max_o:\n                break\n")],
 r"""
import random
r = random.Random(5)
word = "abcdabcxyzw"
code = "--" + word + "".join(r.choice("0123456789 +-*/") for _ in range(3136 - len(word))) + word + "0\n"
put("a.lua", code)
rc, o, e = tool("a.lua", "b.rom", "--force-compression", "--old-compression")
expect(rc == 0, "write " + e[-300:])
rc, o, e = tool("b.rom", "c.lua")
expect(rc == 0, "read " + e[-200:])
expect(get("c.lua").decode().strip() == code.strip(), "code differs")
""", "text that repeats at a distance of exactly 3136 characters", "the match is one character farther than the old format can express")

seed("c06-punct-string", "C06",
 [("pico_output.py", """    combined = prev.value + next.value
    ct, ce = tokenize""", """    if prev.type == TokenType.punct and next.type == TokenType.string: # (strings are never a part of an operator)
        return False

    combined = prev.value + next.value
    ct, ce = tokenize"""),
  ("pico_output.py", "from pico_tokenize import tokenize, parse_fixnum\n", "from pico_tokenize import tokenize, parse_fixnum, TokenType\n")],
 r'''
same("local t={k=5}\nprint(t[ [[k]] ])\nprint(t[ \"k\"])\n", "--minify-safe-only", "--no-minify-rename", "--no-minify-tokens", "--no-minify-reorder", "--no-minify-consts")
''', "an index written as a long string", "a bracket and a long string after it merge into another token")

seed("c09-group-right", "C09",
 [("pico_minify.py", """                            (outer_prec == k_unary_ops_prec or is_right_assoc(outer) == (outer.right == node)))
""", """                            (outer_prec == k_unary_ops_prec or is_right_assoc(outer) == (outer.right == node) or inner.op == outer.op == "*"))
""")],
 r'''
same("local a,b,c=0x.0003,0x.8,300\nprint(a*(b*c)==a*b*c)\nprint(a*(b*c))\n", "--minify", "--no-minify-consts")
''', "a product in parentheses on the right of a product, with values whose truncation depends on the order", "fixed-point multiplication is not associative: the result changes")

seed("c13-comment-minus", "C13",
 [("pico_unminify.py", "                if prev_tight and prev_token.value not in k_tight_prefix_tokens:\n", "                if prev_tight and prev_token.value not in k_tight_prefix_tokens and prev_token.value not in (\"-\", \"(\"):\n")],
 r'''
same("local a,b=5,3\nprint(a- --[[five]]b)\nprint(a)", "--unminify")
''', "a block comment right after a minus", "the minus and the comment merge into a line comment")


seed("c08-long-newline", "C08",
 [("pico_output.py", """            newline = "\\n" if value.startswith("\\n") else ""
""", """            newline = "\\n" if value.startswith("\\n") and not eqs else ""
""")],
 r"""
src = "local a,b=[=[\n\n]]]=],[[\n\nz]]\nprint(#a) print(#b)print(a)"
same(src, "--minify-safe-only", "--no-minify-rename", "--no-minify-consts", "--focus-chars")
same(src, "--minify-safe-only", "--no-minify-rename", "--no-minify-consts")
""", "a string starting with a line break that needs brackets with equal signs", "its first line break is dropped")

seed("c09-member-index", "C09",
 [("pico_minify.py", """            require_trivial = True
            allow_index = False # TODO: could rely on rename's preserve logic
        elif""", """            require_trivial = True
        elif""")],
 r"""
same("t={a=1}\nk=sub('xa',2)\nt.a=5\ny=t[k]\nprint(y)", "--minify", "--focus-tokens", "--no-minify-rename")
""", "a member assignment followed by reading the same slot through an index expression", "the two are merged, so the old value is read")

seed("c12-vararg-nil", "C12",
 [("pico_constfold.py", """                elif not (node.sources and is_vararg_expr(node.sources[-1])):
                    constval = k_lua_nil
""", """                elif not (node.sources and node.sources[-1].type == NodeType.call):
                    constval = k_lua_nil
""")],
 r"""
same("local function f(...)\n local a,b=...\n print(a)print(b)\n if b==nil then print'none' else print'some' end\nend\nf(1,2)", "--minify")
""", "locals that receive further values of ...", "the later locals are taken for constant nil")


seed("c07-fraction-digits", "C07",
 [("pico_tokenize.py", """            dotvalue = (dotvalue * base) + digits.index(str[0])
            dotdigits += 1
""", """            if dotdigits < 8: # (more can't make a difference)
                dotvalue = (dotvalue * base) + digits.index(str[0])
                dotdigits += 1
""")],
 r"""
same("print(0b0.0000000011==0x.00c)print(0b101.11111111111)print(0b.000000000000001*0x4000)", "--minify-safe-only", "--no-minify-consts", "--no-minify-rename", "--no-minify-tokens")
same("x=0b1.000000001 print(x==0x1.008)", "--minify-safe-only", "--no-minify-consts")
""", "a binary number with more than eight digits in its fraction", "the digits after the eighth are ignored")

seed("c22-merge-comment", "C22",
 [("pico_minify.py", "        if not count:\n            return\n\n        need_end_comma = False\n", "        if not count:\n            return\n\n        for elem in src_arr[src_arr_i + 1:]:\n            if elem.first_token() is not elem.last_token():\n                elem.first_token().remove_comments()\n\n        need_end_comma = False\n")],
 r"""
b = lua("x=1\ny,z=2--keep:zero\n,--keep:one\nx+--keep:two\n3 print(x)", "--minify", "--focus-tokens", "--no-minify-consts")
for w in ("zero", "one", "two"): expect(b.count(w) >= 1, "comment lost: " + w + "\n" + b)
b = lua("u,w=4--keep:three\n,--keep:four\nx+7 print(x)u=1 v,w=4--keep:five\n,--keep:six\ny+7", "--minify", "--focus-tokens", "--no-minify-consts")
for w in ("three", "four", "five", "six"): expect(b.count(w) >= 1, "comment lost: " + w + "\n" + b)
""", "a kept comment before the second value of a multiple assignment that gets merged into the one before it", "the comment disappears")

seed("c04-fourth-channel", "C04",
 [("pico_cart.py", "get_needed_lines(0x40, lambda y: mem_music_addr(y, 0), 0x4)", "get_needed_lines(0x40, lambda y: mem_music_addr(y, 0), 0x3)")],
 r"""
m = bytearray(0x4300)
for i in range(64):
    m[0x3200 + i * 68 + 65] = 1 if i == 0 else 16
    for c in range(4): m[0x3100 + i * 4 + c] = 0x41 + c
m[0x3100 + 20 * 4 + 3] = 0x05
put("a.rom", bytes(m) + b"x=1".ljust(0x3d00, b"\0"))
rc, o, e = tool("a.rom", "b.p8"); expect(rc == 0, e)
rc, o, e = tool("b.p8", "c.rom"); expect(rc == 0, e)
expect(get("c.rom")[:0x4300] == bytes(m), "the memory changed")
""", "a song whose last patterns use only the fourth channel", "these patterns are left out of the p8 file")

seed("c04-cut-note", "C04",
 [("pico_cart.py", "yield nybbles(line[i:i+n].ljust(n, \"0\"))", "yield nybbles(line[i:i+n].rjust(n, \"0\"))")],
 r"""
put("a.p8", "pico-8 cartridge // http://www.pico-8.com\nversion 41\n__lua__\nx=1\n__sfx__\n001000001e3502" + "\n")
rc, o, e = tool("a.p8", "b.rom"); expect(rc == 0, e)
m = get("b.rom")
a = 0x3200
expect(m[a:a+2] == bytes([0x1e | (3 << 6) & 0xff, (5 << 1)]), "first note")
expect(m[a+2:a+4] == bytes([0x20, 0]), "the cut note: " + m[a+2:a+4].hex())
""", "a line of a sound that is cut in the middle of a note", "the digits that are there are taken for others")

seed("c05-linebreaks", "C05",
 [("pico_cart.py", """        split = re.split("\\r?\\n", str)
        if split and not split[-1]:
            split.pop()
        return split
""", """        split = re.split("\\r?\\n|[\\u0085\\u2028\\u2029]", str) # (unicode line breaks too)
        if split and not split[-1]:
            split.pop()
        return split
""")],
 r"""
t = "x=\"a\u2028b\u0085e\"y=2"
put("a.p8", "pico-8 cartridge // http://www.pico-8.com\nversion 41\n__lua__\n" + t + "\n")
rc, o, e = tool("a.p8", "b.rom"); expect(rc == 0, e)
got = get("b.rom")[0x4300:].split(b"\0")[0]
expect(got == t.encode(), "characters changed: " + repr(got))
""", "code that holds one of unicode's line separators", "they become line breaks")

seed("c03-release", "C03",
 [("pico_cart.py", "cart.version_tuple = (*version, r.u8())", "cart.version_tuple = (*version, r.u8() & 0x1f)")],
 r"""
import zlib
from PIL import Image
put("a.p8", "pico-8 cartridge // http://www.pico-8.com\nversion 41\n__lua__\nx=1\n")
rc, o, e = tool("a.p8", "b.png"); expect(rc == 0, e)
im = Image.open(path("b.png")).convert("RGBA")
at = 0x8005 # the last part of the release, a later one
r, g, b, a = im.getpixel((at % 160, at // 160)); k = 0x2a
im.putpixel((at % 160, at // 160), (r & 252 | k >> 4 & 3, g & 252 | k >> 2 & 3, b & 252 | k & 3, a & 252 | k >> 6))
im.save(path("c.png"))
rc, o, e = tool("c.png", "d.png"); expect(rc == 0, e)
r, g, b, a = Image.open(path("d.png")).convert("RGBA").getpixel((at % 160, at // 160))
expect((b & 3 | (g & 3) << 2 | (r & 3) << 4 | (a & 3) << 6) == k, "another release was written")
""", "an image of a cart made by a release with a high last number", "the release changes when the image is converted")

seed("c18-label-less", "C18",
 [("pico_cart.py", """            dest.label = src.label
""", """            if src.label:
                dest.label = src.label
""")],
 r"""
lab = "\n".join("12345670" * 16 for _ in range(128))
put("a.p8", "pico-8 cartridge // http://www.pico-8.com\nversion 41\n__lua__\nx=1\n__label__\n" + lab + "\n")
put("m.p8", "pico-8 cartridge // http://www.pico-8.com\nversion 41\n__lua__\nx=2\n")
rc, o, e = tool("a.p8", "b.p8", "--merge", "m.p8", "label"); expect(rc == 0, e)
expect("__label__" not in get("b.p8").decode(), "the label stayed")
""", "merging the label of a cart that has none", "the label is not replaced")

seed("c18-music-end", "C18",
 [("pico_cart.py", "dest.rom.copyfrom8(k_mem_music_addr, k_mem_sfx_addr - k_mem_music_addr, src.rom)", "dest.rom.copyfrom8(k_mem_music_addr, k_mem_sfx_addr - k_mem_music_addr + 1, src.rom)")],
 r"""
def rom(x): return bytes([x]) * 0x4300 + b"x=1".ljust(0x3d00, b"\0")
put("a.rom", rom(1)); put("m.rom", rom(2))
rc, o, e = tool("a.rom", "b.rom", "--merge", "m.rom", "music"); expect(rc == 0, e)
d = get("b.rom")
expect(d[:0x4300] == bytes([1]) * 0x3100 + bytes([2]) * 0x100 + bytes([1]) * 0x1100, "the memory is wrong")
""", "merging only the music of a cart whose first sound begins otherwise", "a byte of the sounds is replaced too")

seed("c14-semicolon-sign", "C14",
 [("pico_tokenize.py", """tokens[i-1].value not in (")", "]", "}", ";", "end")):""", """tokens[i-1].value not in (")", "]", "}", "end")):""")],
 r"""
put("a.lua", "x={1;-2}")
rc, o, e = tool("a.lua", "--count", "--parsable-count"); expect(rc == 0, e)
expect("tokens:6:" in o, o) # x = { 1 - 2
""", "a negative number after a ';' in a table", "the sign is no longer counted")

seed("c14-stop-block", "C14",
 [("pico_tokenize.py", """                if comment.hint == CommentHint.lint and "count::stop" in comment.hintdata:""", """                if comment.hint == CommentHint.lint and comment.hintdata[-1:] == ["count::stop"]:""")],
 r"""
put("a.lua", "x=1\n--lint: count::stop, unused\ny=2")
rc, o, e = tool("a.lua", "--count", "--parsable-count"); expect(rc == 0, e)
expect("tokens:3:" in o, o)
""", "the hint that stops the count, named before another", "the hint is not seen")

seed("c14-input-percent", "C14",
 [("pico_compress.py", """    print_size("chars", size, 0xffff, **kwargs)""", """    print_size("chars", size, 0x10000, **kwargs)""")],
 r"""
put("a.lua", "x=1\n" + "--" + "a" * 62500)
rc, o, e = tool("a.lua", "--count", "--no-count-compress", "--parsable-count"); expect(rc == 0, e)
expect("chars:62506:65535" in o, o)
""", "reading the limit of characters that is printed", "it is one too high")

RUNLUA = r"""
def outs(src, *opts):
    put("a.p8", "pico-8 cartridge // http://www.pico-8.com\nversion 43\n__lua__\n" + src)
    rc, o, e = tool("a.p8", "b.p8", *opts); expect(rc == 0, e)
    return get("b.p8").decode().split("__lua__\n")[1].split("__gfx__")[0]
"""
seed("c10-self-param", "C10",
 [("pico_parse.py", """        for param in params:
            if param.type == NodeType.var:""", """        for param in sorted(params, key=lambda param: param is self_param):
            if param.type == NodeType.var:""")],
 RUNLUA + r"""
import re
o = outs("function foo:bar(self)\nreturn self\nend\n", "--minify", "--no-minify-tokens", "--no-minify-reorder")
m = re.match(r"function \w+:\w+\((\w+)\)\s*return (\w+)", o)
expect(m and m[1] == m[2], o)
""", "a method with a parameter of its own named self", "the name means the implicit parameter")

seed("c10-metamethod", "C10",
 [("pico_process.py", """"__add", "__sub", "__mul", "__div", "__idiv", "__mod",""", """"__add", "__sub", "__mul", "__div", "__mod",""")],
 RUNLUA + r"""
o = outs("setmetatable(foo,{__idiv=foo})\n", "--minify")
expect("__idiv" in o, o)
""", "a metatable that defines division by backslash", "the metamethod is renamed")

seed("c10-keyword", "C10",
 [("pico_rename.py", """            if next_ident not in keywords:""", """            if len(next_ident) > 2 or next_ident not in keywords:""")],
 RUNLUA + r"""
import re
n = 1200
src = "for end_end=1,end_end do end\n" * 3 + "\n".join("v%d=%d" % (i, i) for i in range(n)) + "\nx='" + "end" * 3000 + "eeeeeeeeeeeeeeeennnnnnnnn'\n"
o = outs(src, "--minify", "--focus-compressed", "--no-minify-lines", "--no-minify-tokens", "--no-minify-reorder")
names = re.findall(r"(?m)(?<![\w'])(\w+) ?=\d+", o)
bad = set(names) & {"end", "for", "nil", "not", "and"}
expect(not bad, bad)
expect(len(names) >= 1200, len(names))
""", "a program of over a thousand names", "a variable is named end")

seed("c11-wild-exception", "C11",
 [("pico_rename.py", """            for regex, re_value in m.regexs:
                if regex.match(key):
                    value = re_value""", """            for regex, re_value in m.regexs:
                if value is not True and regex.match(key):
                    value = re_value""")],
 RUNLUA + r"""
o = outs("function circfully() end\ncircfully()\n--$preserve: circ*\n--$preserve: !*fully\n", "--minify")
expect("circfully" not in o, o)
""", "a wildcard exception after a wildcard that keeps the same name", "the exception is ignored and the name kept")

seed("c11-split-short", "C11",
 [("scripts/split.py", """                types = types[:len(parts)]
        
        return types""", """                types = types[:len(parts) - 1] + types[len(types) - 1:]
        
        return types""")],
 RUNLUA + r"""
import re
o = outs("my_glob=1\nfoo.my_memb=2\nfoo.my_memb+=1\nprint(--[[$language::split global,string,member]]\"my_glob,my_memb\")\n", "--minify")
expect('my_memb"' in o, o)
""", "a split string with fewer parts than its description", "the last part takes the last description")

seed("c11-keys-of-later", "C11",
 [("pico_rename.py", """                    target_node = list_get(table_node.parent.targets, assign_i)
                    if""", """                    target_node = list_get(table_node.parent.targets, min(assign_i, len(table_node.parent.targets) - 1))
                    if""")],
 RUNLUA + r"""
o = outs("--$preserve: bar.*\nfoo,bar=1,{my_a=1},{my_b=2}\n", "--minify")
expect("my_a" in o and "my_b" not in o, o)
""", "more values than targets in an assignment, the last target's keys kept by a rule", "the keys of a value without a target are kept as well")

seed("c15-nested-init", "C15",
 [("pico_lint.py", """or (func.kind is None and func.name == "_init" and func.find_parent(NodeType.function) == None)):""", """or (func.kind is None and func.name == "_init")):""")],
 r'''
put("a.lua", "do\n function f()\n  function _init() foo=1 end\n end\nend\nf(foo)\n")
rc, o, e = tool("a.lua", "--lint")
expect("'foo' not found" in o, o)
''', "a function _init within another function, that assigns a global", "the inner function is taken for PICO-8's callback, so its globals need no warning")

seed("c16-comment-level", "C16",
 [("pico_preprocess.py", r"""re.compile(r"\[(=*)\[(.*?)\]\1\]", re.S)""", r"""re.compile(r"\[(=?)\[(.*?)\]\1\]", re.S)""")],
 r'''
put("b.lua", "y=2\n")
put("a.lua", "x=1--[==[\n#include b.lua\n]==]\n")
rc, o, e = tool("a.lua", "c.lua")
expect(rc == 0 and "#include b.lua" in get("c.lua").decode(), str(rc) + get("c.lua").decode())
''', "a directive within a long comment with two or more equal signs", "it is expanded")

seed("c16-nested-header", "C16",
 [("pico_preprocess.py", "map.src_code, map.src_idx, map.src_line))\n    else:", "map.src_code, map.src_idx, map.src_line if map.src_path == inc_path else 0))\n    else:")],
 r'''
put("c.p8", "pico-8 cartridge // http://www.pico-8.com\nversion 41\n__lua__\nx=1\nfoo(1)\n")
put("b.lua", "y=2\n#include c.p8\n")
put("a.lua", "z=3\n#include b.lua\n")
rc, o, e = tool("a.lua", "--lint", "--no-lint-unused")
expect("c.p8:5:" in o, o)
''', "a warning in a p8 cart that is included by an included file", "the line does not count the lines of the cart before its code")

seed("c16-tab-escape", "C16",
 [("pico_preprocess.py", "                i += 2 if code[i] == '\\\\' else 1\n", "                i += 2 if code[i] == '\\\\' and list_get(code, i + 1) != '\\\\' else 1\n")],
 r'''
put("b.lua", "y=2\n")
put("a.lua", "x=\"\\\\\"\n#include b.lua\nz=\"\"\n")
rc, o, e = tool("a.lua", "c.lua")
expect(rc == 0 and "y=2" in get("c.lua").decode(), str(rc))
''', "a string that ends with an escaped backslash, before a directive", "the string seems to go on, so the directive is not expanded")

seed("c15-assigned-builtin", "C15",
 [("pico_lint.py", "elif node.name in used_globals or node.name in assigned_globals:", "elif node.name in used_globals:")],
 r'''
put("a.lua", "do local min=1 ?min\nend\nlocal function f() min=2 end\nf()\n")
rc, o, e = tool("a.lua", "--lint")
expect("Local 'min' has the same name" in o, o)
''', "a local named like a builtin that the cart elsewhere only assigns", "the duplicate is not reported")

TRON = r'''
import os
def tron(*args): return tool(*args, script="shrinkotron.py")
def folder(name, files):
    for p, d in files.items():
        os.makedirs(os.path.dirname(path(name + "/" + p)), exist_ok=True)
        put(name + "/" + p, d)
'''

seed("c20-pxu-run", "C20",
 [("picotron_fs.py", """                while count >= 0xff:
                    w.u8(0xff)
""", """                while count > 0xff:
                    w.u8(0xff)
""")],
 TRON + r'''
for n in (270, 271, 272, 300, 526):
    data = b"07" * n + b"0a0b0c"
    pod = b'--[[pod]]{a=userdata("u8",%d,"%s")}' % (n + 3, data)
    folder("c%d" % n, {"main.lua": b"x=1", "a.pod": pod})
    rc, o, e = tron("c%d" % n, "c%d.p64.rom" % n)
    expect(rc == 0, o + e)
    rc, o, e = tron("c%d.p64.rom" % n, "d%d" % n, "-f", "dir", "--uncompress-pods")
    expect(rc == 0, o + e)
    expect(data in get("d%d/a.pod" % n), (n, get("d%d/a.pod" % n)[:200]))
''', "an array whose run of equal values has exactly 271 (or 271+255*k) of them", "the length is written without its last byte, so what follows is misread")

seed("c20-int-edge", "C20",
 [("pico_defs.py", "    return -0x8000000000000000 <= value <= 0x7fffffffffffffff\n", "    return -0x8000000000000000 <= value <= 0x8000000000000000\n")],
 TRON + r'''
folder("c", {"main.lua": b"x=1", "a.pod": b'--[[pod]]{a=9223372036854775808,b=9223372036854775807}'})
rc, o, e = tron("c", "d", "-f", "dir", "--uncompress-pods")
expect(rc == 0, o + e)
t = get("d/a.pod").decode()
v = t[t.index("a=") + 2:t.index(",b")]
expect(not v.startswith("0x") and float(v) == 9223372036854775808.0 and ("." in v or "e" in v or int(v) > 2 ** 63 - 1) and not v.startswith("-"), t)
''', "the number 9223372036854775808 in a stored value, one more than fits an integer", "it becomes the lowest integer instead of a float")

seed("c21-glob-again", "C21",
 [("picotron_defs.py", """                if not result:
                    return False
""", "")],
 TRON + r'''
folder("c", {"main.lua": b"x=1", "a.txt": b"1", "b.txt": b"2"})
rc, o, e = tron("c", "d", "-f", "dir", "--filter", "!a.txt,*")
expect(rc == 0, o + e)
expect(sorted(os.listdir(path("d"))) == ["b.txt", "main.lua"], sorted(os.listdir(path("d"))))
''', "patterns in which an exclusion is followed by one that includes the file", "the excluded file is included again")

seed("c21-meta-folder", "C21",
 [("picotron_cart.py", """            if not new_meta and str_after_last(path, "/") == ".info.pod": # contains meta only""", """            if not new_meta and path == k_info_file: # contains meta only""")],
 TRON + r'''
folder("c", {"main.lua": b"x=1", ".info.pod": b"--[[pod,title=\"t\"]]nil", "s/.info.pod": b"--[[pod,title=\"t\"]]nil", "s/a.txt": b"1"})
rc, o, e = tron("c", "d", "-f", "dir", "--delete-meta", "*")
expect(rc == 0, o + e)
expect(not os.path.exists(path("d/.info.pod")), "root info")
expect(not os.path.exists(path("d/s/.info.pod")) and get("d/s/a.txt") == b"1", sorted(os.listdir(path("d/s"))))
''', "metadata files within folders of the cart, when deleting metadata", "they are kept though they hold nothing else")

seed("c23-rom-255", "C23",
 [("picotron_cart.py", "                if len(data) < 0xff:\n", "                if len(data) <= 0xff:\n")],
 TRON + r'''
for n in (253, 254, 255, 256):
    d = b"--" + b"abc" * 100
    folder("c%d" % n, {"main.lua": d[:n], "x.txt": b"hello", "z/a.lua": d[:n]})
    rc, o, e = tron("c%d" % n, "c.p64.rom")
    expect(rc == 0, o + e)
    rc, o, e = tron("c.p64.rom", "d%d" % n, "-f", "dir")
    expect(rc == 0, o + e)
    expect(get("d%d/main.lua" % n) == d[:n] and get("d%d/x.txt" % n) == b"hello" and get("d%d/z/a.lua" % n) == d[:n], n)
''', "a file of exactly 255 bytes", "its length is read as the mark of a longer length, so the files are lost")

seed("c19-open-first", "C19",
 [("pico_cart.py", """    elif format == CartFormat.rom:
        file_write(path, write_cart_to_rom(cart, **opts))
""", """    elif format == CartFormat.rom:
        with file_create(path) as f:
            f.write(write_cart_to_rom(cart, **opts))
""")],
 r'''
import random
r = random.Random(1)
put("a.p8", "pico-8 cartridge // http://www.pico-8.com\nversion 41\n__lua__\nx=\"" + "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789!#$%&()*+,-./:;<=>?@^_{|}~") for _ in range(30000)) + "\"\n")
put("b.rom", b"precious")
rc, o, e = tool("a.p8", "b.rom")
expect(rc != 0, "the cart does not fit")
expect(get("b.rom") == b"precious", f"the file was lost though the run failed: {len(get('b.rom'))} bytes")
''', "an existing .rom to be replaced by a cart that does not fit", "the run fails as it should, but the existing file is emptied")

seed("c19-lint-count", "C19",
 [("run_shrinko.py", "                    if not ok or (args.lint and not args.no_lint_fail):\n", "                    if not ok or (args.lint and not args.no_lint_fail and not args.rename_map):\n")],
 r'''
put("a.lua", "local foo=1\n?2\n")
rc, o, e = tool("a.lua", "b.lua", "--lint", "--minify", "--rename-map", "map.txt")
expect(rc == 2, f"exit code {rc}")
expect(not os.path.exists(path("b.lua")), "written in spite of warnings")
''', "--lint with warnings in a run that also writes a rename map", "the run goes on, writes the output and ends with 0")

seed("c19-extra-output", "C19",
 [("run_shrinko.py", """            except OSError as err:
                throw(f"cannot write cart: {err}")
""", """            except OSError as err:
                if output != args.output:
                    eprint(f"WARNING: cannot write cart: {err}")
                    continue
                throw(f"cannot write cart: {err}")
""")],
 r'''
put("a.lua", "?2\n")
rc, o, e = tool("a.lua", "b.lua", "--extra-output", "nosuch/c.p8")
expect(rc != 0, f"exit code {rc}, though an output was not written")
''', "an --extra-output that cannot be written", "only a warning is printed, and the run ends with 0")

seed("c17-insert-first", "C17",
 [("pico_export.py", """        i = default(i, len(m.cartnames))
        m.cartdata[m.slice(i, i)] = write_cart_to_rom(cart, **opts)
        m.cartnames.insert(i, name)
""", """        i = i or len(m.cartnames)
        m.cartdata[m.slice(i, i)] = write_cart_to_rom(cart, **opts)
        m.cartnames.insert(i, name)
""")],
 r'''
put("a.lua", "?1\n"); put("b.lua", "?2\n")
tool("a.lua", "a.rom"); tool("b.lua", "b.rom")
put("g.js", "var _cartname=[`a.p8`,`b.p8`];\nvar _cartdat=[" + ",".join(str(x) for x in get("a.rom") + get("b.rom")) + "];\n")
rc, o, e = tool("b.lua", "g.js", "--insert-cart", "first.p8", "a.p8")
expect(rc == 0, e)
rc, o, e = tool("g.js", "--list")
expect(o.split() == ["first.p8", "a.p8", "b.p8"], o)
''', "inserting a cart before the main cart of a js export", "the cart goes to the end")

seed("c17-compressed-entry", "C17",
 [("pico_export.py", """        if e.header == m.k_file_header and isinstance(content, bytes) and len(content) == len(e.content):
""", """        if isinstance(content, bytes) and len(content) == len(e.content):
""")],
 r'''
import struct
put("a.lua", "?1\n"); put("b.lua", "?2\n")
tool("a.lua", "a.rom")
d = get("a.rom")
z, n = b"", len(d) - 15 # one block of literals
z = b"\xf0"
while n >= 255: z += b"\xff"; n -= 255
z += bytes([n]) + d
put("g.pod", b"CPOD" + struct.pack("<II", 0x44, 1) + bytes(32) + struct.pack("<I", 1) + bytes(28)
    + b"cFIL" + struct.pack("<II", 0, len(d)) + b"a.p8".ljust(64, b"\0") + struct.pack("<I", len(z)) + z)
rc, o, e = tool("g.pod", "x.lua")
expect(rc == 0 and get("x.lua").strip() == b"?1", e)
rc, o, e = tool("b.lua", "g.pod", "--replace-cart")
expect(rc == 0, e)
rc, o, e = tool("g.pod", "y.lua")
expect(rc == 0 and get("y.lua").strip() == b"?2", f"{rc} {e[-200:]}")
''', "replacing a cart that is stored compressed in a pod export", "the compressed entry is overwritten with plain bytes and the export cannot be read any more")

seed("c17-create-order", "C17",
 [("pico_export.py", """            if main_cart:
                extra_carts.append(export.read_cart(cart, **opts))
""", """            if main_cart:
                extra_carts.insert(0, export.read_cart(cart, **opts))
""")],
 r'''
import struct
js = "// player\n"
def fil(n, e): return b"CFIL" + struct.pack("<II", 0, len(e)) + n.encode().ljust(64, b"\0") + e
def pod(*es): return b"CPOD" + struct.pack("<II", 0x44, 1) + bytes(32) + struct.pack("<I", len(es)) + bytes(28) + b"".join(es)
put("p.dat", pod(fil("pod/f_html5.pod", pod(fil("src/pico8.js", js.encode())))))
d = b""
for k in "123":
    put(k + ".lua", "?%s\n" % k); tool(k + ".lua", k + ".rom"); d += get(k + ".rom")
put("g.js", "var _cartname=[`1.p8`,`2.p8`,`3.p8`];\nvar _cartdat=[" + ",".join(map(str, d)) + "];\n")
rc, o, e = tool("g.js", "h.js", "--pico8-dat", "p.dat")
expect(rc == 0, e)
rc, o, e = tool("h.js", "--list")
expect(o.split() == ["1.p8", "2.p8", "3.p8"], o)
''', "making an export out of another with three or more carts", "the carts after the first come out in the reverse order")
