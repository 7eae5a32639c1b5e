"""C05-C07: message encoder and header."""
import dictionary
from wire import *

KINDS = {A: "A", NS: "NS", CNAME: "CNAME", SOA: "SOA", PTR: "PTR", MX: "MX", TXT: "TXT", AAAA: "AAAA", SRV: "SRV"}


def rec(k, i=(), n=(), x=()):
    return {"k": k, "i": list(i), "n": [list(map(list, v)) for v in n], "x": [list(v) for v in x]}


def rand_rec(rng, names, k=None, big=False):
    k = k or rng.choice(list(KINDS.values()))
    r = lambda n, hi=65536: [rng.choice([0, 1, 255, 256, hi - 1, rng.randrange(hi)]) % hi for _ in range(n)]
    nm_ = lambda: rng.choice(names)
    if k == "A":
        return rec(k, rand_ip4(rng) if rng.random() < 0.5 else r(4, 256))
    if k == "AAAA":
        return rec(k, rand_ip6(rng) if rng.random() < 0.5 else r(16, 256))
    if k in ("NS", "CNAME", "PTR"):
        return rec(k, n=[nm_()])
    if k == "MX":
        return rec(k, r(1), [nm_()])
    if k == "SRV":
        return rec(k, r(3), [nm_()])
    if k == "SOA":
        return rec(k, r(10), [nm_(), nm_()])
    return rec(k, x=[r(rng.choice([0, 0, 1, 2, 7] + ([254, 255] if big else [])), 256) for _ in range(rng.choice([1, 1, 2, 4]))])


def any_name(rng, big=False):
    """Labels of arbitrary bytes and lengths up to the limit."""
    out = []
    if rng.random() < 0.02:
        return many_labels(rng)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        l = rng.choice([1, 1, 2, 3, 8] + ([62, 63] if big else []))
        out.append([rng.choice([97, 65, 46, 0, 255, 192, 32, 92, rng.randrange(256)]) for _ in range(l)])
    return out


def rand_ops(rng, maxn=6, big=False):
    names = [any_name(rng, big) for _ in range(3)]
    names.append(names[0][1:])
    ops, sec = [], 0
    hdr = lambda: {"o": "hdr", "b": [rng.randrange(256) for _ in range(12)]}
    if rng.random() < 0.7:
        ops.append(hdr())
    v16 = lambda: rng.choice([0, 1, 255, 256, 65535, rng.randrange(65536)])
    for _ in range(rng.randrange(0, maxn + 1)):
        x = rng.random()
        if x < 0.3 and sec < 3:
            sec += 1
            ops.append({"o": "sec"})
        elif x < 0.36:
            ops.append(hdr())
        elif sec == 0:
            ops.append({"o": "q", "n": rng.choice(names), "t": v16(), "c": v16() % 32768})
        else:
            t = rng.choice([0, 1, 120, 65535, 65536, 2**31, 2**32 - 1, rng.randrange(2**32)])
            ops.append({"o": "rr", "n": rng.choice(names), "c": rng.choice([1, 1, v16() % 32768]), "ttl": [t >> 16, t & 65535],
                        "rec": rand_rec(rng, names, big=big)})
    return ops


def name_len(n):
    return 1 + sum(1 + len(l) for l in n)


def op_len(o):
    """Uncompressed size: only steers the choice of buffer sizes."""
    if o["o"] == "q":
        return name_len(o["n"]) + 4
    if o["o"] == "rr":
        r = o["rec"]
        k = r["k"]
        ints = len(r["i"]) if k in ("A", "AAAA") else 2 * len(r["i"])
        return name_len(o["n"]) + 10 + ints + sum(map(name_len, r["n"])) + sum(1 + len(x) for x in r["x"])
    return 0


def s(ops, cap, fin="fin", fill=0):
    return {"k": "enc", "cap": cap, "fill": fill, "ops": ops + [{"o": fin}]}


def sized(rng, ops, slack):
    return 12 + sum(map(op_len, ops)) + slack


def big_message(rng, total):
    """Questions, then records with repeated and related names up to about `total` bytes; returns also the size."""
    names = [any_name(rng) for _ in range(3)] + [nm("host.example.org"), nm("example.org"), nm("a.host.example.org"), []]
    ops, at, sec = [{"o": "hdr", "b": [rng.randrange(256) for _ in range(12)]}], 12, 0
    pads = [0] if total < 1000 else [0, 1]
    while at < total:
        if sec < 3 and at > total * (sec + 1) // 5 and rng.random() < 0.5:
            sec += 1
            ops.append({"o": "sec"})
            continue
        if sec == 0:
            o = {"o": "q", "n": rng.choice(names), "t": rng.randrange(65536), "c": rng.randrange(32768)}
        elif rng.choice(pads) and rng.random() < 0.6:
            o = {"o": "rr", "n": rng.choice(names), "c": 1, "ttl": [0, 120], "rec": rec("TXT", x=[[120] * rng.choice([255, 200])] * rng.choice([1, 2, 4]))}
        else:
            o = {"o": "rr", "n": rng.choice(names), "c": 1, "ttl": [1, 7], "rec": rand_rec(rng, names)}
        ops.append(o)
        at += op_len(o)
    for n in names:
        o = {"o": "rr", "n": n, "c": 1, "ttl": [0, 120], "rec": rand_rec(rng, names, "PTR")}
        if sec > 0:
            ops.append(o)
            at += op_len(o)
    return ops, at


def rr(n, k, c=1, ttl=120):
    return {"o": "rr", "n": n, "c": c, "ttl": [ttl >> 16, ttl & 65535], "rec": k}


def case_flip(rng, n):
    return [[c ^ 32 if (65 <= c <= 90 or 97 <= c <= 122) and rng.random() < 0.5 else c for c in l] for l in n]


def size_ops(rng, tier):
    """Messages whose counts, lengths and positions are the numbers of the source, and one more or less."""
    quick = tier == "quick"
    out = []
    a = lambda n: rr(n, rec("A", [1, 2, 3, 4]))
    sec = {"o": "sec"}
    for c in dictionary.ints(1, 1100 if quick else 3000):
        k = rng.randrange(4)
        if k == 0:
            out.append([{"o": "q", "n": [], "t": i & 65535, "c": 1} for i in range(c)] + [sec, a(nm("e"))])
        else:
            out.append([sec] * k + [rr([], rec("A", [1, 2, i >> 8 & 255, i & 255])) for i in range(c)] + [a(nm("e"))])
    for c in dictionary.ints(0, 255):
        x = [rng.randrange(256) for _ in range(c)]
        out.append([sec, rr(nm("t"), rec("TXT", x=[x, [], x])), a(nm("t"))])
        out.append([sec, rr(nm("t"), rec("TXT", x=[[97] * c, b("k=v"), x, x])), a(nm("t"))])
    for c in dictionary.ints(1, 2000):
        # record data of c bytes, c strings
        x, left = [], c
        while left > 0:
            k = min(255, left - 1)
            x.append([rng.randrange(256) for _ in range(k)])
            left -= k + 1
        out.append([sec, rr(nm("t"), rec("TXT", x=x)), a(nm("t"))])
        out.append([sec, rr(nm("t"), rec("TXT", x=[[j & 255] * (j % 2) for j in range(c)])), a(nm("t"))])
    for c in dictionary.ints(1, 63):
        l = [rng.randrange(256) for _ in range(c)]
        out.append([{"o": "q", "n": [l], "t": 1, "c": 1}, {"o": "q", "n": [l, l], "t": 1, "c": 1}, sec, rr([b("x"), l], rec("PTR", n=[[l, l]])), rr([l], rec("MX", [c], [[b("y"), l]]))])
    for c in dictionary.ints(1, 600 if quick else 2000):
        n = [[97 + j % 26] * (1 + j % 3) for j in range(c)]
        out.append([{"o": "q", "n": n, "t": 1, "c": 1}, sec, rr(n[1:], rec("PTR", n=[n])), a(n[c // 2:])])
    for c in dictionary.ints(2, 2100):
        n, left = [], c - 1
        while left > 1:
            k = min(63, left - 1) if left != 65 else 62
            n.append([97 + len(n) % 26] * k)
            left -= k + 1
        out.append([{"o": "q", "n": n, "t": 1, "c": 1}, {"o": "q", "n": n, "t": 1, "c": 1}, sec, rr(n, rec("CNAME", n=[n]))])
    for c in dictionary.ints(0, 2**32 - 1):
        v = c & 65535
        ops = [{"o": "hdr", "b": e16(v) + e16(v) + e16(c & 255) * 4}, {"o": "q", "n": nm("q"), "t": v, "c": v & 32767}, sec]
        for k in KINDS.values():
            r = rand_rec(rng, [nm("a.b"), nm("b"), []], k)
            if k not in ("A", "AAAA"):
                r["i"] = [rng.choice([v, v, c >> 16, r_]) & 65535 for r_ in r["i"]]
            ops.append(rr(nm("a.b"), r, v & 32767, c % 2**32))
        out.append(ops)
    pool = dictionary.strings()
    for i in range(0, len(pool), 4):
        ops = [{"o": "q", "n": [l, b("local")], "t": 255, "c": 1} for l in pool[i:i + 4]] + [sec]
        for l in pool[i:i + 4]:
            o = rng.choice(pool)
            ops += [rr([l], rec("PTR", n=[[o, l]])), rr([o, l], rec("TXT", x=[l, o, l + [61] + o])), rr([l, b("local")], rec("SRV", [1, 2, 3], [[o, b("local")]]))]
        out.append(ops)
    # names that differ in letter case, in one label, in one byte, or share only some labels
    for _ in range(150 if quick else 1500):
        base = [[rng.choice(b("abAB-\xc1")) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.randrange(1, 5))]
        names = [base]
        for _ in range(5):
            n = [list(l) for l in rng.choice(names)]
            k = rng.randrange(7)
            i = rng.randrange(len(n)) if n else 0
            if k < 2:
                n = case_flip(rng, n)
            elif k == 2 and n:
                n[i][-1] ^= rng.choice([1, 32, 128])
            elif k == 3:
                n = n[1:]
            elif k == 4:
                n = [[rng.choice(b("abAB"))]] + n
            elif k == 5 and n:
                n = n[:i] + n[i + 1:]
            elif n:
                n[i:i + 1] = [n[i][:1], n[i][1:]] if len(n[i]) > 1 else [n[i]]
            names.append(n)
        ops = [{"o": "q", "n": rng.choice(names), "t": 1, "c": 1} for _ in range(3)] + [sec]
        ops += [rr(rng.choice(names), rand_rec(rng, names)) for _ in range(6)]
        out.append(ops)
    # related names on both sides of every position up to the end of the pointer range
    for c in sorted(set(dictionary.ints(60, 17000)) | {4096, 8192, 12288, 16300, 16370, 16380, 16384, 16390}):
        ops, at = [sec], 12
        n = [rng.choice([b("host"), b("h")]), b("example"), b("org")]
        ops.append(rr(nm("x.org"), rec("A", [1, 2, 3, 4])))
        at += op_len(ops[-1])
        while at + 280 < c:
            ops.append(rr([], rec("TXT", x=[[120] * (255 if at + 600 < c else 9)])))
            at += op_len(ops[-1])
        if c - at >= 13:
            ops.append(rr([], rec("TXT", x=[[121] * min(255, c - at - 12)])))
        ops += [rr(n, rec("A", [1, 2, 3, 4])), rr(n, rec("PTR", n=[n[1:]])), rr([b("y")] + n[1:], rec("PTR", n=[n])), rr(n[1:], rec("MX", [9], [n])), a(n[2:]), a(n)]
        out.append(ops)
    return out


def c05_sessions(rng, tier):
    out = []
    for ops in size_ops(rng, tier):
        out.append(s(ops, sized(rng, ops, rng.choice([0, 0, 7])), rng.choice(["fin", "drop"]), rng.choice([0, 255])))
    for i in range(1500 if tier == "quick" else 15000):
        ops = rand_ops(rng, rng.choice([2, 6, 12]), big=i % 5 == 0)
        out.append(s(ops, sized(rng, ops, rng.choice([0, 0, 1, 5, 200])), rng.choice(["fin", "fin", "drop"]), rng.choice([0, 255, 1])))
    # many entries in one section, every record type in every section
    for k in KINDS.values():
        for sec in (1, 2, 3):
            ops = [{"o": "sec"}] * sec
            for _ in range(3):
                ops = ops + [{"o": "rr", "n": any_name(rng), "c": 1, "ttl": [1, 2], "rec": rand_rec(rng, [any_name(rng), []], k, True)}]
            out.append(s(ops, sized(rng, ops, 40)))
    for n in ([255, 256, 300] if tier == "quick" else [255, 256, 257, 1000, 3000]):
        ops = [{"o": "q", "n": [], "t": i, "c": 1} for i in range(n)]
        out.append(s(ops, sized(rng, ops, 0)))
        ops = [{"o": "sec"}, {"o": "sec"}] + [{"o": "rr", "n": [], "c": 1, "ttl": [0, i], "rec": rec("A", [1, 2, 3, 4])} for i in range(n)]
        out.append(s(ops, sized(rng, ops, 3), "drop"))
    # long record data
    for tot in ([2, 20] if tier == "quick" else [2, 20, 200, 255]):
        ops = [{"o": "sec"}, {"o": "rr", "n": nm("t"), "c": 1, "ttl": [0, 1], "rec": rec("TXT", x=[[7] * 255] * tot)},
               {"o": "rr", "n": nm("u"), "c": 1, "ttl": [0, 1], "rec": rec("A", [1, 2, 3, 4])}]
        out.append(s(ops, sized(rng, ops, 0)))
    # long messages with names that occur before and behind every offset of interest
    for total in ([600, 2000, 17500] if tier == "quick" else [300, 600, 1600, 4200, 8300, 16300, 16384, 17500, 33000]):
        for _ in range(2 if tier == "quick" else 4):
            ops, at = big_message(rng, total)
            out.append(s(ops, at + rng.choice([0, 1, 100]), rng.choice(["fin", "drop"]), rng.choice([0, 255])))
    # documented limits of the format (see known-findings.json)
    for x in ([[97] * 256], [[7] * 255] * 257):
        out.append(s([{"o": "sec"}, {"o": "rr", "n": nm("t"), "c": 1, "ttl": [0, 1], "rec": rec("TXT", x=x)}], 66000 if len(x) > 1 else 400))
    return out


def c06_sessions(rng, tier):
    out = []
    # buffers whose sizes are the numbers of the source; entries that end just before, at and behind them
    for c in dictionary.ints(12, 4000 if tier == "quick" else 17000):
        for _ in range(2):
            ops, at = big_message(rng, c)
            out.append(s(ops, max(12, c + rng.choice([-1, 0, 1])), rng.choice(["fin", "drop"]), rng.choice([0, 255])))
    for ops in size_ops(rng, tier)[::3]:
        full = sized(rng, ops, 0)
        if full < 6000 and len(ops) < 300:
            for cap in {full - 1, full - rng.randrange(1, 40), rng.randrange(12, full)}:
                out.append(s(ops, max(12, cap), rng.choice(["fin", "drop"]), rng.choice([0, 255])))
    # every buffer size for random messages
    for i in range(25 if tier == "quick" else 250):
        while True:
            ops = rand_ops(rng, rng.choice([2, 4, 8]))
            full = sized(rng, ops, 0)
            if full < (160 if tier == "quick" else 300):
                break
        for cap in range(12, full + 3):
            out.append(s(ops, cap, rng.choice(["fin", "fin", "drop"]), rng.choice([0, 255, 170])))
    # very long messages, cut at a few places
    for total in ([700, 1700] if tier == "quick" else [700, 1700, 8300, 17500]):
        ops, at = big_message(rng, total)
        for cap in {at - 1, at, at + 1, 512, 513, 1499, 1500, 1501, rng.randrange(12, at), rng.randrange(12, at), 255, 256}:
            out.append(s(ops, max(12, cap), rng.choice(["fin", "drop"]), rng.choice([0, 255])))
    # entries that do not fit are followed by ones that would
    for _ in range(150 if tier == "quick" else 1500):
        n = rng.choice([2, 3, 5])
        ops = [{"o": "q", "n": [], "t": 1, "c": 1}] * rng.randrange(0, 3) + [{"o": "sec"}]
        room = 12 + sum(map(op_len, ops)) + rng.randrange(0, 40)
        for _ in range(n):
            big = rng.random() < 0.5
            ops.append({"o": "rr", "n": any_name(rng) if big else [], "c": 1, "ttl": [0, 1],
                        "rec": rec("TXT", x=[[1] * 60]) if big else rec("A", [1, 2, 3, 4])})
            if rng.random() < 0.3:
                ops.append({"o": "sec"})
        if rng.random() < 0.3:
            ops.append({"o": "hdr", "b": [rng.randrange(256) for _ in range(12)]})
        out.append(s(ops, room, rng.choice(["fin", "drop"]), 255))
    # long messages, sizes around each entry
    for i in range(15 if tier == "quick" else 150):
        ops = rand_ops(rng, 14, True)
        at = 12
        caps = {12}
        for o in ops:
            at += op_len(o)
            caps |= {at - 1, at, at + 1, at + 2, max(12, at - 5)}
        for cap in sorted(caps):
            if cap >= 12:
                out.append(s(ops, cap, rng.choice(["fin", "fin", "drop"]), rng.choice([0, 255])))
    return out


OPS = ["id", "qr", "op", "aa", "tc", "rd", "ra", "rc"]


def op_values(o):
    return {"id": sorted({0, 1, 255, 256, 4660, 65535} | set(dictionary.ints(0, 65535, (0,)))), "op": list(range(16)) + [16, 31, 128, 255],
            "rc": list(range(16)) + [16, 31, 128, 255]}.get(o, [0, 1])


def rand_hop(rng):
    o = rng.choice(OPS)
    return [o, rng.randrange(65536) if o == "id" and rng.random() < 0.5 else rng.choice(op_values(o))]


def c07_sessions(rng, tier):
    out = []
    fl = {0, 65535} | {1 << i for i in range(16)} | {65535 ^ 1 << i for i in range(16)} | {rng.randrange(65536) for _ in range(16)}
    if tier == "thorough":
        fl |= set(range(0, 65536, 37))
    for f in sorted(fl):
        rest = [rng.choice([0, 255, rng.randrange(256)]) for _ in range(10)]
        b_ = rest[:2] + e16(f) + rest[2:]
        for o in OPS:
            for v in (op_values(o) if tier == "quick" else op_values(o)[:1] + rng.sample(op_values(o), 1)):
                out.append({"k": "hdr", "b": b_, "ops": [[o, v]]})
    for _ in range(400 if tier == "quick" else 5000):
        out.append({"k": "hdr", "b": [rng.randrange(256) for _ in range(12)], "ops": [rand_hop(rng) for _ in range(rng.randrange(0, 12))]})
    return out
