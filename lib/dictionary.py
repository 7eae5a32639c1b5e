"""Numbers and strings that occur in the code under test: input generation only, no verdict depends on them."""
import os, re
from vp import REPO

_TOKEN = re.compile(r'//[^\n]*|/\*.*?\*/|b?r(#*)"(.*?)"\1|b?"((?:\\.|[^"\\])*)"|b?\'(\\.[^\']*|[^\'\\])\'|\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)', re.S)
_cache = None


def _unescape(s):
    s = re.sub(r"\\\n\s*", "", s)
    s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m[1], 16)), s)
    s = re.sub(r"\\x([0-9a-fA-F]{2})", lambda m: chr(int(m[1], 16)), s)
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m[1], m[1]), s, flags=re.S)


def _scan():
    global _cache
    if _cache:
        return _cache
    ints, strs = set(), set()
    for top in ("src", "uwuhi-async/src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if not f.endswith(".rs"):
                    continue
                text, last = open(os.path.join(d, f), errors="replace").read(), None
                for m in _TOKEN.finditer(text):
                    if m[5]:
                        # simple expressions: 1 << 10, 20 * 60, 1500 - 12
                        op = last and re.sub(r"[a-z]\w*|\s|[()]", "", text[last[1]:m.start()])
                        t = m[5].replace("_", "")
                        try:
                            v = int(t, 0) if t[:2].lower() in ("0x", "0b", "0o") else int(t)
                        except ValueError:
                            continue
                        ints.add(v)
                        if last and op:
                            ints |= {x for x in ([last[0] << v] if op == "<<" and v < 40 else [last[0] * v] if op == "*" else
                                                 [last[0] + v] if op == "+" else [abs(last[0] - v)] if op == "-" else [])}
                        last = (v, m.end())
                    elif m[4]:
                        strs.add(_unescape(m[4]))
                    elif m[2] is not None or m[3] is not None:
                        s = m[2] if m[2] is not None else _unescape(m[3])
                        for p in {s, *re.findall(r"[\w-]+", s)}:
                            strs.add(p)
    _cache = sorted(ints), sorted(s.encode() for s in strs if s)
    return _cache


def ints(lo, hi, around=(-1, 0, 1)):
    """Every literal of the source and its neighbours, within [lo, hi]."""
    return sorted({c + d for c in _scan()[0] for d in around if lo <= c + d <= hi})


def strings(longest=63):
    """Strings of the source and their words."""
    return [list(s) for s in _scan()[1] if len(s) <= longest]
