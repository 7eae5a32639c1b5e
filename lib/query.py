"""C24: sessions of the query and answer helpers."""
import dictionary
import dec, net
from wire import *


def wire_len(n):
    return 1 + sum(1 + len(l) for l in n)


def any_name(rng):
    k = rng.random()
    if k < 0.1:
        return many_labels(rng)
    if k < 0.25:
        return [[rng.randrange(256) for _ in range(rng.choice([1, 2, 62, 63]))] for _ in range(rng.choice([1, 2, 4, 5, 12]))]
    return rand_name(rng)


def types_of(rng):
    n = rng.choice([0, 1, 1, 2, 2, 3, 8, 40])
    return [rng.choice(SUPPORTED + [255, 252, 0, 65535, 41, rng.randrange(65536)]) for _ in range(n)]


def ask(rng, o=None, n=None, ts=None, cap=None):
    o = o or rng.choice(["rq", "dq"])
    n = any_name(rng) if n is None else n
    ts = types_of(rng) if ts is None else ts
    size = 12 + (2 if o == "rq" else len(ts)) * (wire_len(n) + 4)
    if cap is None:
        cap = max(12, rng.choice([size, size, size - 1, size + 1, 1500, 512, 12, 13, rng.randrange(12, size + 40)]))
    r = {"o": o, "n": n, "cap": cap, "fill": rng.choice([0, 0, 255, 7])}
    if o == "dq":
        r["ts"] = ts
    return r


def packet(rng, own):
    k = rng.random()
    if k < 0.45:
        return net.answer(rng, own)[0]
    if k < 0.6:
        return net.disc_packet(rng, {"o": "load", "i": b("i"), "s": b("_s"), "t": 0}, [b("d")])
    y = dec.rand_msg(rng)
    y = y if isinstance(y, list) else y.bytes()
    if rng.random() < 0.7 and len(y) > 2:
        y[2] |= 0x80
    return y


OWN = [b("i"), b("_s"), b("_tcp"), b("d")]


def collect(rng, own):
    return {"o": "ra", "b": packet(rng, own), "clear": 1 if rng.random() < 0.3 else 0}


def tell(rng, own):
    r = {"o": "da", "b": packet(rng, own), "stop": rng.choice([0, 0, 0, 1, 1, 2, 3, 5])}
    if rng.random() < 0.6:
        r["own"] = net.case_variant(rng, rng.choice([own, own, OWN, OWN, own[1:], own + [b("x")], rand_name(rng)]))
    return r


def inst(rng):
    s = rng.choice([b("_a"), b("_A"), b("_ab"), b("_b"), b("_"), [95, 0xe9], [95, 0xc9], [95, 64], [95, 96], b("_[{"), b("_{[")])
    return [rng.choice([b("i"), b("_a"), b("I")]), s, rng.randrange(2)]


def s(*ops):
    return {"k": "query", "ops": list(ops)}


def c24_sessions(rng, tier):
    out = []
    quick = tier == "quick"
    for _ in range(2500 if quick else 25000):
        own = rng.choice([[b("a"), b("local")], rand_name(rng), OWN])
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            k = rng.random()
            ops.append(ask(rng) if k < 0.3 else collect(rng, own) if k < 0.6 else tell(rng, own) if k < 0.9 else
                       {"o": "is", "i": inst(rng), "s": inst(rng)[1:]})
        out.append(s(*ops))
    # every buffer size around the size of a query
    for n in [[], [b("a")], [b("host"), b("local")], [[120] * 63] * 4, [[120] * 63] * 11 + [[1] * 31], [b("a")] * 128]:
        for o, ts in [("rq", []), ("dq", [12]), ("dq", [33, 16]), ("dq", [])]:
            size = 12 + (2 if o == "rq" else len(ts)) * (wire_len(n) + 4)
            caps = list(range(12, size + 3)) if size < 120 else [12, 13, 17, size // 2] + list(range(size - 6, size + 3)) + [1500, 512]
            for i in range(0, len(caps), 8):
                out.append(s(*[ask(rng, o, n, ts, max(12, c)) for c in caps[i:i + 8]]))
    # every count of answers, every stop
    for n in [0, 1, 2, 3, 7, 20, 90] + ([] if quick else dictionary.ints(1, 2000)):
        m = Msg(rng, 1, flags=0x8000)
        for j in range(n):
            m.a(1, [b("a")], [10, 1, j // 256, j % 256]) if j % 3 else m.txt(1, [b("A")], [b("k")])
        y = m.bytes()
        for stop in sorted({0, 1, 2, 3, n - 1, n, n + 1, n // 2} - {-1}):
            out.append(s({"o": "da", "b": y, "stop": stop}, {"o": "da", "b": y, "stop": stop, "own": [b("A")]}, {"o": "ra", "b": y, "clear": 0},
                         {"o": "ra", "b": y, "clear": stop % 2}))
    # numbers and strings of the source
    ints = dictionary.ints(0, 2**32 - 1)
    for v in ints if not quick else rng.sample(ints, min(len(ints), 150)):
        w = v & 65535
        m = Msg(rng, 1, id=w, flags=0x8000 | (w & 0x07ff)).q([b("a")], w, w).rr(1, [b("a")], w, c=w, ttl=v, rd=[[1, 2, 3, 4]])
        m.a(1, [b("a")], [10, v & 255, v >> 8 & 255, 7], c=w, ttl=v).a(1, [b("b")], rand_ip(rng)).rr(3, [], 41, c=w, ttl=v)
        m2 = Msg(rng, 1, flags=w).a(1, [b("a")], [1, 2, 3, 4])
        out.append(s({"o": "ra", "b": m.bytes(), "clear": 0}, {"o": "ra", "b": m2.bytes(), "clear": 0}, {"o": "da", "b": m.bytes(), "stop": 0},
                     {"o": "da", "b": m2.bytes(), "stop": 0, "own": [b("A")]}, ask(rng, "dq", [b("a")], [w, 1, w], 100)))
        if 12 <= v <= 70000:
            out.append(s(ask(rng, "rq", cap=v), ask(rng, "dq", cap=v), ask(rng, "dq", any_name(rng), [1] * min(v // 8, 300), v)))
    strs = dictionary.strings()
    for l in strs if not quick else rng.sample(strs, min(len(strs), 150)):
        m = Msg(rng, 1, flags=0x8000).a(1, [l, LOCAL], rand_ip(rng)).ptr(1, [l], [l, l, LOCAL]).txt(1, [l, LOCAL], [l])
        own = net.case_variant(rng, [l, LOCAL])
        out.append(s(ask(rng, "rq", [l, LOCAL]), ask(rng, "dq", [l, l], [12]), {"o": "ra", "b": m.bytes(), "clear": 0},
                     {"o": "da", "b": m.bytes(), "stop": 0, "own": own}, {"o": "da", "b": m.bytes(), "stop": 2}))
        if l[0] == 95:
            out.append(s({"o": "is", "i": [l, net.case_variant(rng, [l])[0], 0], "s": [l, 0]}, {"o": "is", "i": [l, l, 1], "s": [l, 0]},
                         {"o": "is", "i": [l, l, 0], "s": [l[:-1] or [95], 0]}))
    # names and services that merely resemble one another
    for x, y in net.PAIRS:
        for u, v in ((x, y), (y, x), (b("_a") + x, b("_a") + y)):
            m = Msg(rng, 1, flags=0x8000).a(1, [u, LOCAL], [1, 2, 3, 4]).a(1, [v, LOCAL], [1, 2, 3, 5]).txt(1, [LOCAL, u], [u]).txt(1, [LOCAL, v], [v])
            y_ = m.bytes()
            out.append(s(*[{"o": "da", "b": y_, "stop": 0, "own": n} for n in ([u, LOCAL], [v, LOCAL], [LOCAL, u], [LOCAL, v])],
                         *[{"o": "is", "i": [b("i"), [95] + p, 0], "s": [[95] + q, 0]} for p in (u, v) for q in (u, v)]))
    # ids run through all values; a list that keeps growing
    out.append(s(*[ask(rng, "rq", [b("a")], cap=60) for _ in range(3000 if quick else 66000)]))
    y = Msg(rng, 0, flags=0x8000).a(1, [b("a")], [1, 2, 3, 4]).bytes()
    out.append(s(*[{"o": "ra", "b": y, "clear": 0} for _ in range(300)]))
    return out


LOCAL = b("local")
