"""C27: inputs that fail, in every way they can."""
import dec, enc, net, query, text
from wire import *


def some(rng, x, n):
    return x if len(x) <= n else rng.sample(x, n)


def valid(t):
    p = bytes(t).split(b".")
    if p[-1] == b"":
        p.pop()
    return bytes(t) in (b"", b".") or all(1 <= len(x) <= 63 for x in p)


def dec_sessions(rng, tier):
    n = 700 if tier == "quick" else 6000
    small = lambda x: [s for s in x if len(s["b"]) <= 600]
    out = some(rng, small(dec.c01_sessions(rng, tier)), n) + some(rng, small(dec.c02_sessions(rng, tier)), n) + \
        some(rng, small(dec.c04_sessions(rng, tier)), 2 * n)
    # every cut of messages with every kind of record; every byte in the place of a length
    for t in SUPPORTED + [99]:
        for comp in (0.0, 0.9):
            m = Msg(rng, comp, 1, 0x8400).q(nm("a.b"), t)
            m.rr(1, nm("a.b"), t, rd=dec.rdata(rng, t, [nm("a.b"), nm("c.b")])).rr(1, nm("b"), A, rd=[[9, 8, 7, 6]])
            f = m.bytes()
            for k in range(len(f) + 1):
                out.append(dec.s(f[:k], ["I", "g1", "I"] if k % 2 else ["g1", "n", "g3"]))
            for i in range(12, len(f)):
                for v in rng.sample([64, 127, 128, 191, 192, 193, 255, 63, 0, 12, i], 4):
                    out.append(dec.s(f[:i] + [v & 255] + f[i + 1:], ["I", "g1", "I"] if i % 2 else ["g2"]))
    return out


def conv_sessions():
    return [{"k": "conv"}]


def pure_sessions(rng, tier):
    n = 700 if tier == "quick" else 5000
    out = conv_sessions()
    out += some(rng, text.c08_sessions(rng, tier), n) + some(rng, text.c20_sessions(rng, tier), n)
    out += some(rng, [s for s in enc.c06_sessions(rng, tier) if s["cap"] <= 700], n)
    # every length of a single label, alone, first, in the middle, last; with an empty one elsewhere
    for l in [0, 1, 62, 63, 64, 65, 127, 128, 191, 192, 255, 256, 300]:
        x = "x" * l
        for t in (x, x + ".", x + ".a", "a." + x + ".b", "a." + x, "." + x, x + "..a", "a.." + x, x + "." + "y" * 64, "é" * (l // 2)):
            out.append(text.name_s({"o": "parse", "b": b(t)}, {"o": "label", "b": b(x)}))
    return out


def query_sessions(rng, tier):
    # buffers of every size below and above what is needed
    n = rng.choice([nm("a"), nm("host.local"), nm("x.y.z"), []])
    out = [{"k": "query", "ops": [{"o": "rq", "n": n, "cap": c}, {"o": "dq", "n": n, "ts": [12, 33][:1 + c % 2], "cap": c}]} for c in range(12, 80)]
    return out + some(rng, query.c24_sessions(rng, tier), 300 if tier == "quick" else 3000)


def host_sessions(rng, tier):
    return [s for s in net.c15_sessions(rng, tier) if any("h" in c and not valid(c["h"]) for c in s["calls"])]
