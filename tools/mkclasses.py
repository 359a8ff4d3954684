"""Tabulates the character classes of the real `regex` module (run with /opt/venv/bin/python)."""
import json, regex, os
MAX = 0x2FFFF
out = {}
for n, p in (("word", r"\w"), ("space", r"\s"), ("digit", r"\d")):
    r = regex.compile(p)
    rs = []
    for i in range(MAX + 1):
        if 0xD800 <= i <= 0xDFFF:
            continue
        if r.match(chr(i)):
            if rs and rs[-1][1] == i - 1:
                rs[-1][1] = i
            else:
                rs.append([i, i])
    out[n] = rs
rs = []
for i in range(MAX + 1):
    if chr(i).isspace():
        if rs and rs[-1][1] == i - 1:
            rs[-1][1] = i
        else:
            rs.append([i, i])
out["strip"] = rs
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "pyvc", "charclasses.json"), "w"))
print({k: len(v) for k, v in out.items()}, out["space"], out["strip"])
