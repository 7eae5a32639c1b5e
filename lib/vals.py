"""C26: values of every kind that differ in nothing, or in as little as possible."""
import dictionary
from wire import *

KINDS = ["label", "name", "svc", "inst", "tr", "rec", "type", "qtype", "class", "qclass", "opcode", "rcode"]
ORDERED = ["label", "svc", "inst", "tr"]
LENS = [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 62, 63]


def sess(ty, vals, how, ops=()):
    return {"k": "val", "ty": ty, "vals": vals, "how": how, "ops": [list(o) for o in ops]}


def label(rng):
    x = rng.random()
    if x < 0.15:
        ds = [d for d in dictionary.strings() if d]
        if ds:
            return list(rng.choice(ds))
    if x < 0.55:
        return [rng.choice(b"abAB_-0") for _ in range(rng.choice(LENS))]
    return [rng.randrange(256) for _ in range(rng.choice(LENS))]


def near_label(rng, l):
    """A label that differs as little as possible."""
    l, k = list(l), rng.randrange(11)
    i = rng.choice([0, len(l) - 1, rng.randrange(len(l))])
    if k == 0:
        l[i] ^= 0x20
    elif k == 1:
        l[i] ^= 1 << rng.randrange(8)
    elif k == 2:
        l[i] = (l[i] + rng.choice([1, 127, 128, 255])) % 256
    elif k == 3 and len(l) < 63:
        l.append(rng.choice([0, 32, 46, l[-1], 255]))
    elif k == 4 and len(l) > 1:
        l.pop()
    elif k == 5 and len(l) > 1:
        l = l[1:]
    elif k == 6 and len(l) < 63:
        l.insert(0, rng.choice([0, l[0], 95]))
    elif k == 7:
        j = rng.randrange(len(l))
        l[i], l[j] = l[j], l[i]
    elif k == 8:
        l = bytes(l).swapcase()
    elif k == 9:
        l.reverse()
    elif k == 10 and len(l) > 2:
        l = l[:len(l) // 2]
    return list(l)


def near_labels(rng, n):
    """A name that differs as little as possible."""
    n, k = [list(l) for l in n], rng.randrange(9)
    if not n:
        return [label(rng)]
    i = rng.choice([0, len(n) - 1, rng.randrange(len(n))])
    if k <= 2:
        n[i] = near_label(rng, n[i])
    elif k == 3 and i + 1 < len(n):   # the same bytes, another boundary
        if len(n[i]) > 1 and len(n[i + 1]) < 63:
            n[i + 1].insert(0, n[i].pop())
    elif k == 4 and len(n) > 1 and len(n[0]) + len(n[1]) <= 62:
        n[:2] = [n[0] + rng.choice([[], [46]]) + n[1]]
    elif k == 5:
        n.append(list(rng.choice(n)))
    elif k == 6:
        n.pop(i)
    elif k == 7:
        j = rng.randrange(len(n))
        n[i], n[j] = n[j], n[i]
    else:
        n.insert(i, label(rng))
    return n if sum(map(len, n)) + len(n) < 250 else n[:3]


def name_(rng):
    return [label(rng)[:30] for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8]))]


def num(rng, bits):
    ds = dictionary.ints(0, (1 << bits) - 1)
    return rng.choice(ds) if ds and rng.random() < 0.3 else rng.choice([0, 1, 2, (1 << bits) - 1, rng.randrange(1 << bits), 1 << rng.randrange(bits)])


def near_num(rng, v, bits):
    k = rng.randrange(4)
    return [v ^ 1 << rng.randrange(bits), (v + 1) % (1 << bits), (v >> 8 | v << 8) % (1 << bits), v ^ 1 << bits - 1][k]


def rec(rng):
    k = rng.choice(["A", "AAAA", "CNAME", "MX", "NS", "PTR", "TXT", "SRV", "SOA"])
    i, n, x = [], [], []
    if k == "A":
        i = [rng.randrange(256) for _ in range(4)]
    elif k == "AAAA":
        i = [rng.choice([0, 255, rng.randrange(256)]) for _ in range(16)]
    elif k == "TXT":
        x = [[rng.choice(b"ab=A\x00") for _ in range(rng.choice([0, 1, 2, 3, 17]))] for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    else:
        i = [num(rng, 16) for _ in range({"MX": 1, "SRV": 3, "SOA": 10}.get(k, 0))]
        n = [name_(rng) for _ in range(2 if k == "SOA" else 1)]
    return {"k": k, "i": i, "n": n, "x": x, "e": ""}


def near_rec(rng, r):
    r = {"k": r["k"], "i": list(r["i"]), "n": [list(n) for n in r["n"]], "x": [list(x) for x in r["x"]], "e": ""}
    i, n, x, c = r["i"], r["n"], r["x"], rng.random()
    if r["k"] in ("CNAME", "NS", "PTR") and c < 0.3:
        r["k"] = rng.choice(["CNAME", "NS", "PTR"])
    elif n and (not i or c < 0.4):
        j = rng.randrange(len(n))
        if len(n) > 1 and c < 0.1:
            n.reverse()
        else:
            n[j] = near_labels(rng, n[j])
    elif i:
        j = rng.randrange(len(i))
        if c < 0.8:
            i[j] = near_num(rng, i[j], 8 if r["k"] in ("A", "AAAA") else 16)
        else:
            h = rng.randrange(len(i))
            i[j], i[h] = i[h], i[j]
    elif x:
        j = rng.randrange(len(x))
        k = rng.randrange(7)
        if k == 0 and j + 1 < len(x):
            x[j:j + 2] = [x[j] + x[j + 1]]
        elif k == 1:
            x.append([])
        elif k == 2:
            x.insert(0, [])
        elif k == 3 and x[j]:
            x[j] = near_label(rng, x[j])
        elif k == 4 and len(x[j]) > 1:
            x[j:j + 1] = [x[j][:1], x[j][1:]]
        elif k == 5:
            h = rng.randrange(len(x))
            x[j], x[h] = x[h], x[j]
        else:
            x.append(list(x[j]))
    return r


BITS = {"type": 16, "qtype": 16, "class": 16, "qclass": 16, "opcode": 4, "rcode": 4}


def value(rng, ty):
    if ty == "label":
        return label(rng)
    if ty == "name":
        return name_(rng)
    if ty in ("svc", "inst"):
        s = [[95] + label(rng)[:62], rng.randrange(2)]
        if ty == "inst" and rng.random() < 0.4:
            return [[rng.choice(b"ab_") for _ in range(rng.randrange(1, 5))], [95] + [rng.choice(b"ab_") for _ in range(rng.randrange(1, 5))], s[1]]
        return s if ty == "svc" else [label(rng)] + s
    if ty == "tr":
        return rng.randrange(2)
    if ty == "rec":
        return rec(rng)
    return num(rng, BITS[ty])


def near(rng, ty, v):
    if ty == "label":
        return near_label(rng, v)
    if ty == "name":
        return near_labels(rng, v)
    if ty in ("svc", "inst"):
        v, k = list(v), rng.randrange(5)
        if k == 0:
            v[-1] = 1 - v[-1]
        elif k == 1 and ty == "inst":   # the same bytes, another boundary
            j = v[0] + v[1]
            cuts = [i for i in range(1, len(j) - 1) if j[i] == 95 and i <= 63 and len(j) - i <= 63] or [len(v[0])]
            i = rng.choice(cuts)
            v = [j[:i], j[i:], v[2]]
        elif k <= 2 and ty == "inst":
            v[0] = near_label(rng, v[0])
        else:
            v[-2] = [95] + near_label(rng, v[-2][1:] or [97])[:62]
        return v
    if ty == "tr":
        return 1 - v
    if ty == "rec":
        return near_rec(rng, v)
    return near_num(rng, v, BITS[ty])


def family(rng, ty, n):
    """Related values, some of them twice."""
    vs = [value(rng, ty)]
    while len(vs) < n:
        x = rng.random()
        v = rng.choice(vs)
        vs.append(near(rng, ty, v) if x < 0.6 else v if x < 0.85 else value(rng, ty))
    rng.shuffle(vs)
    return vs


def model_sessions(rng, scripts):
    """Scripts over five objects with the contents 1 2 3 1 2, for every kind of value."""
    out = []
    for i, g in enumerate(scripts):
        ty = ORDERED[i % 4]
        a = value(rng, ty)
        vs = [a]
        for _ in range(40):
            v = near(rng, ty, rng.choice(vs))
            if v not in vs:
                vs.append(v)
            if len(vs) == 3:
                break
        while len(vs) < 3:   # there are only two transports
            vs.append(vs[0])
        out.append(sess(ty, vs + vs[:2], [rng.randrange(4) for _ in range(5)], g["ops"]))
    return out


def c26_sessions(rng, tier):
    out = []
    for ty in KINDS:
        few = ty in BITS or ty == "tr"
        for i in range({"quick": 120 if few else 400, "thorough": 1000 if few else 5000}[tier]):
            vs = family(rng, ty, rng.choice([2, 3, 5, 8]))
            ops = [[rng.choice(["ins", "ins", "has", "del"]), rng.randrange(len(vs)) + 1] for _ in range(rng.choice([4, 12, 30]))] if ty in ORDERED else []
            out.append(sess(ty, vs, [rng.randrange(4) for _ in vs], ops))
    # every byte against its neighbours, its other case and its sign-flipped twin, at several places
    for pre, post in (([], []), ([97], [98]), ([97] * 20, []), ([97] * 62, []), ([], [97] * 23)):
        for c in range(256):
            vs = [pre + [x % 256] + post for x in (c, c + 1, c ^ 0x20, c ^ 0x80)]
            out.append(sess("label", vs, [0, 2, 3, 1], [["ins", 1], ["ins", 2], ["has", 3], ["ins", 3], ["del", 1], ["has", 4], ["has", 1]]))
            if c % 8 == 0 or tier != "quick":
                out.append(sess("name", [[[120], v] for v in vs] + [[v, [120]] for v in vs[:1]], [0, 2, 3, 1, 2]))
    # labels of every length, and their prefixes
    for n in range(1, 64):
        vs = [[97] * n, [97] * max(1, n - 1), [97] * min(63, n + 1), [97] * (n - 1) + [98], [98] + [97] * (n - 1), [97] * n]
        out.append(sess("label", vs, [0, 0, 2, 1, 3, 2], [["ins", k] for k in range(1, 7)] + [["del", 6], ["has", 1]]))
    # names of many labels
    for n in (2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 33, 64, 100, 120):
        m = [[97 + j % 26] for j in range(n)]
        vs = [m, m[:-1], m[1:], m + [[97]], m[:-1] + [[65]], [[65]] + m[1:], m]
        for k in (n // 2, n - 2):
            vs.append(m[:k] + [[48]] + m[k + 1:])
        out.append(sess("name", vs, [3, 2, 0, 1, 2, 3, 2, 0, 3]))
    # the numbers next to each other
    for ty, bits in BITS.items():
        for v in sorted({0, 1 << bits - 1, (1 << bits) - 8, *range(0, min(1 << bits, 272), 8)}):
            out.append(sess(ty, [(v + d) % (1 << bits) for d in range(8)], [0, 1] * 4))
    return out
