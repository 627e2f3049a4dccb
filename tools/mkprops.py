#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, level=None, technique=None, note=None, na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
                  observe=observe, level=level, technique=technique, note=note, na=na, state=state))

prop("C01", "Compressed code is restored exactly (pxa format)",
 "Whatever code a cart holds, the compressed code section the tool writes (in every compression mode) is a valid stream of PICO-8's pxa format that decodes to exactly that code, with correct declared sizes, and code that fits is stored raw unless compression is requested. Conversely the tool reads every valid pxa stream as the code it stands for.",
 ["inputs", "configurations"], "every text of PICO-8 characters that fits a cart, both compression efforts; every valid stream of the format",
 "Tests compress a few fixed carts and read them back with the same tool; match offset widths, count chunks, literal blocks and the match finder's second index depend on rare texts.",
 ["pico_compress.py", "pico_cart.py", "utils.py"], [("bit-level writer and reader", "pico_compress.py compress_code/uncompress_code"), ("match search", "pico_compress.py get_lz77"), ("bit IO", "utils.py BinaryBitReader/BinaryBitWriter")],
 ["bytes 0x4300-0x7fff of a written rom", "code of a cart read back"],
 "model_checking", "TLA+ decoder of the code section validating recorded output item by item; TLC-generated streams replayed into the reader",
 "Exhaustive over all streams of up to 3-4 items of a small alphabet (reader); sampled, boundary-directed texts (writer). Trusts the format description transcribed in CodeSection.tla.")

prop("C02", "Compressed code is restored exactly (old :c: format)",
 "Whatever code a cart holds, the code section written under the old compression option is a valid stream of PICO-8's old format (matches of 2-17 characters that never overlap themselves and reach back at most 3135 characters) that decodes to exactly that code. Conversely the tool reads every valid old-format stream as the code it stands for.",
 ["inputs", "configurations"], "every text of PICO-8 characters that fits a cart, both compression efforts; every valid stream of the format",
 "Tests compress one or two carts with the old format; overlapping repeats, the farthest offset and the longest match need specific texts.",
 ["pico_compress.py", "pico_cart.py"], [("old writer/reader", "pico_compress.py compress_code/uncompress_code"), ("non-overlapping matches", "pico_compress.py get_lz77 no_repeat")],
 ["bytes 0x4300-0x7fff of a written rom", "code of a cart read back"],
 "model_checking", "TLA+ decoder of the code section validating recorded output item by item; TLC-generated streams replayed into the reader",
 "Exhaustive over all streams of up to 4-5 items of a small alphabet (reader); sampled, boundary-directed texts (writer).")
exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) else None

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]], observe_at=p["observe"], hook_needed=None)
            if p["state"]: anchors["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                    quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=anchors), ensure_ascii=False) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    checks, na = [], []
    for p in P:
        done = os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))
        if p["na"] or not done:
            na.append(dict(property=p["id"], reason=p["na"] or "the check is not built yet"))
        else:
            cmd = "/opt/venv/bin/python check.py " + p["id"]
            checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd=cmd, technique=p["technique"], level=p["level"], level_note=p["note"]))
    man = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup_check.py", checks=checks, not_applicable=na,
               notes="TLA+ checked with TLC. Checks import and run /repo's working tree directly (nothing is built); no hooks in /repo are needed.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
main()
