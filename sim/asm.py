"""A deterministic stand-in for the AVM assembler.

Not the real instruction set: a fixed injective encoding of the TEAL text with
a version-3 source map in the format algod and goal produce.  What matters to
the properties is that different TEAL gives different bytecode and that the map
belongs to the bytecode.
"""
import hashlib

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def vlq(n):
    v = (abs(n) << 1) | (n < 0)
    out = ""
    while True:
        d = v & 31
        v >>= 5
        if v:
            d |= 32
        out += B64[d]
        if not v:
            return out


def unvlq(s):
    out, v, sh = [], 0, 0
    for c in s:
        d = B64.index(c)
        v |= (d & 31) << sh
        sh += 5
        if not d & 32:
            out.append(-(v >> 1) if v & 1 else v >> 1)
            v, sh = 0, 0
    return out


def assemble(teal):
    """-> (bytecode, source map dict)."""
    code = bytearray(b"\x08")
    maps = [""]
    last = 0
    for n, line in enumerate(teal.split("\n")):
        t = line.strip()
        if not t or t.startswith("//") or t.startswith("#") or t.split("//")[0].strip().endswith(":"):
            continue
        h = hashlib.sha256(t.encode("utf-8")).digest()
        size = 1 + h[0] % 4
        first = True
        for b in h[1:1 + size]:
            code.append(b)
            if first:
                maps.append("AA" + vlq(n - last) + "A")
                last = n
                first = False
            else:
                maps.append("")
    code += hashlib.sha256(teal.encode("utf-8")).digest()[:8]
    maps.extend([""] * 8)
    return bytes(code), {"version": 3, "sources": ["<body>"], "names": [], "mapping": "", "mappings": ";".join(maps)}


def decode_map(sm):
    """pc -> line, decoded independently of the SDK (same convention: a pc
    without its own entry belongs to the last mapped line)."""
    out = {}
    line = 0
    for pc, m in enumerate(sm["mappings"].split(";")):
        f = unvlq(m)
        if len(f) > 2:
            line += f[2]
        out[pc] = line
    return out
