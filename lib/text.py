"""C08, C09, C19, C20: names, matching, TXT metadata, service names."""
import dictionary
from wire import *


def name_s(*ops):
    return {"k": "name", "ops": list(ops)}


def utf8(rng, n, extra=""):
    pool = "abzAZ09-_ ..é語😀\\\"'\t\n\x00\x7f" + extra
    return list("".join(rng.choice(pool) for _ in range(n)).encode())


def is_utf8(k):
    try:
        bytes(k).decode()
        return True
    except ValueError:
        return False


def c08_sessions(rng, tier):
    out = []
    for l in list(range(0, 70)) + [127, 128, 200, 255, 256, 300, 1000]:
        for c in (97, 0, 255):
            out.append(name_s({"o": "label", "b": [c] * l}))
        out.append(name_s({"o": "parse", "b": [97] * l}))
        out.append(name_s({"o": "parse", "b": [97, 46] + [98] * l + [46]}))
        out.append(name_s({"o": "parse", "b": list(("é" * (l // 2)).encode()) + [46, 98]}))
        out.append(name_s({"o": "parse", "b": [98] * l + [46] + [97] * (l + 1)}))
    for c in range(256):
        out.append(name_s({"o": "label", "b": [c]}, {"o": "push", "b": [97, c, 98]}, {"o": "push", "b": [c]}))
        if c < 128:
            out.append(name_s({"o": "parse", "b": [97, c, 98]}))
    for i in range(1200 if tier == "quick" else 15000):
        ops = []
        for _ in range(rng.randrange(1, 8)):
            x = rng.random()
            lab = lambda: [rng.randrange(256) if rng.random() < 0.3 else rng.choice(b("abAB-_09 ")) for _ in range(rng.choice([1, 1, 2, 5, 63]))]
            nm_ = lambda: [lab() for _ in range(rng.choice([0, 1, 2, 4, 4, 8, 9, 17, 65, 130]))]
            if x < 0.35:
                t = utf8(rng, rng.choice([0, 1, 3, 8, 20, 70]))
                if rng.random() < 0.5:
                    t = [c for p in range(rng.randrange(1, 6)) for c in [97 + p] * rng.choice([1, 2, 63, 64, 0, 1, 1]) + [46]]
                    t = t[:-1] if rng.random() < 0.5 else t
                ops.append({"o": "parse", "b": t})
            elif x < 0.5:
                ops.append({"o": "push", "b": lab()})
            elif x < 0.65:
                ops.append({"o": "ext", "ns": nm_(), "ref": rng.randrange(2)})
            elif x < 0.8:
                ops.append({"o": "collect", "ns": nm_(), "ref": rng.randrange(2)})
            elif x < 0.9:
                ops.append({"o": "label", "b": [rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 63, 64]))]})
            else:
                ops.append({"o": "cmp", "ns": nm_()})
        out.append(name_s(*ops))
    # names of any number of labels
    for n in list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 140, 255, 256, 257]:
        ls = [[97 + j % 26] * (1 + j % 3) for j in range(n)]
        t = sum((x + [46] for x in ls), [])
        for pre in ([], [b("x")], [b("x"), b("y")]):
            p = {"o": "collect", "ns": pre, "ref": 0}
            out.append(name_s(p, {"o": "ext", "ns": ls, "ref": 0}, {"o": "ext", "ns": ls[:9], "ref": 1}, {"o": "cmp", "ns": pre + ls + ls[:9]}))
            out.append(name_s(p, {"o": "ext", "ns": ls, "ref": 1}, {"o": "push", "b": b("z")}, {"o": "cmp", "ns": ls}))
        out.append(name_s({"o": "collect", "ns": ls, "ref": 1}, {"o": "parse", "b": t}, {"o": "push", "b": b("q")}, {"o": "parse", "b": t[:-1]}))
    # comparison of a name with itself and with close relatives
    for _ in range(100):
        n = [[rng.choice([97, 98]) for _ in range(rng.choice([1, 2]))] for _ in range(rng.randrange(0, 4))]
        m = [list(l) for l in n]
        k = rng.randrange(4)
        if k == 1 and m:
            m[rng.randrange(len(m))].append(97)
        if k == 2:
            m = m + [[97]]
        if k == 3 and m:
            m = m[1:]
        out.append(name_s({"o": "collect", "ns": n, "ref": 0}, {"o": "cmp", "ns": m}, {"o": "cmp", "ns": n}))
    # strings of the source, and lengths of the source: of labels, of names, of numbers of labels
    pool = dictionary.strings(255)
    for t in pool:
        o = rng.choice(pool)
        if is_utf8(t) and is_utf8(o):
            out.append(name_s(*({"o": "parse", "b": x} for x in (t, t + [46], t + [46] + o, [97, 46] + t, t + o, o + [46] + t + [46] + o))))
        if len(t) <= 63 and len(o) <= 63:
            out.append(name_s({"o": "label", "b": t}, {"o": "push", "b": t}, {"o": "ext", "ns": [o, t, t], "ref": 1}, {"o": "cmp", "ns": [t, o, t, t]}, {"o": "cmp", "ns": [t, o, t, [c ^ 32 if 97 <= c <= 122 else c for c in t]]}))
    for c in dictionary.ints(1, 3000):
        l = rng.choice([1, 2, 3, 20, 62, 63])
        t, left = [], c
        while left > 0:
            k = min(l, left)
            t += [rng.choice(b("abc-_9"))] * k + [46]
            left -= k + 1
        out.append(name_s({"o": "parse", "b": t}, {"o": "push", "b": b("x")}, {"o": "parse", "b": t[:-1]}, {"o": "parse", "b": [46] + t}, {"o": "parse", "b": t + [46]},
                          {"o": "parse", "b": t + [97] * 63}, {"o": "parse", "b": t + [97] * 64}))
        if c <= 1100:
            ls = [[97 + j % 26] for j in range(c)]
            out.append(name_s({"o": "collect", "ns": ls, "ref": c % 2}, {"o": "push", "b": [rng.randrange(256)]}, {"o": "cmp", "ns": ls}))
        out.append(name_s({"o": "label", "b": [rng.randrange(256)] * c}, {"o": "label", "b": b("a" * c)}, {"o": "label", "b": list(("é" * c).encode())[:c]}))
    # every pair of bytes around characters that mean something elsewhere
    for x in b("\\.@*\"'()$;#% \t\n\0") + [127]:
        for y in range(0, 128, 1):
            out.append(name_s({"o": "parse", "b": [97, x, y, 98]}, {"o": "parse", "b": [x, y]}, {"o": "parse", "b": [y, x]}, {"o": "push", "b": [x, y]}))
    return out


def c09_sessions(rng, tier):
    out = [{"k": "matchall", "w": w, "lo": i * 1024, "hi": i * 1024 + 1023} for i in range(64) for w in "ct"]
    return out


def c09_points(rng, tier):
    pts = sorted({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 28, 33, 41, 249, 250, 251, 252, 253, 254, 255, 256, 257,
                  0x7fff, 0x8000, 0x80ff, 0xff00, 0xffff} | {rng.randrange(65536) for _ in range(20)})
    return [{"k": "match", "w": w, "q": [q], "t": pts} for w in "tc" for q in pts]


def c19_sessions(rng, tier):
    out = []
    keys = [b("k"), b("K"), b("key"), b("KeY"), b("é"), b("É"), b("a b"), [], [0], [255], b("kk"), b("z" * 255), b("longer-key-9"),
            list("größe".encode()), list("GrÖße".encode()), list("キーкл".encode()), list("😀😀-Z".encode()), b("k.e y"), [0, 1, 127], b("é")[:1] + b("x")]

    def entry():
        k = rng.choice(keys)
        x = rng.random()
        if x < 0.3:
            return k
        v = [rng.choice([61, 0, 255, 97, 65, rng.randrange(256)]) for _ in range(rng.choice([0, 0, 1, 3, 10]))]
        return k + [61] + v

    for _ in range(1500 if tier == "quick" else 20000):
        ops = []
        if rng.random() < 0.8:
            ops.append({"o": "from", "x": [entry() for _ in range(rng.choice([1, 1, 2, 3, 6]))]})
        for _ in range(rng.randrange(0, 6)):
            k = rng.choice([k for k in keys if is_utf8(k)])
            if rng.random() < 0.2:
                k = [c ^ 32 if 65 <= c & 223 <= 90 and c < 128 else c for c in k]
            if k == [] and rng.random() < 0.9:
                k = b("K")
            if rng.random() < 0.4 and k:
                ops.append({"o": "flag", "b": k})
            else:
                ops.append({"o": "get", "b": k})
        if rng.random() < 0.1:
            ops.append({"o": "from", "x": [entry()]})
        out.append({"k": "txt", "ops": ops or [{"o": "get", "b": b("k")}]})
    # many keys, long keys and values
    for n in (20, 100, 300):
        x = [b(f"key{j % (n - 3)}=") + [rng.randrange(256) for _ in range(rng.choice([0, 1, 40]))] for j in range(n)]
        out.append({"k": "txt", "ops": [{"o": "from", "x": x}, {"o": "get", "b": b("KEY0")}, {"o": "get", "b": b(f"Key{n - 4}")}, {"o": "flag", "b": b("kEY1")}, {"o": "get", "b": b("key1")}]})
    for l in (1, 9, 10, 63, 64, 127, 128, 200, 253, 254, 255):
        for v in range(0, 255 - l, 50):
            k = [rng.choice(b("abXY")) for _ in range(l)]
            out.append({"k": "txt", "ops": [{"o": "from", "x": [k + ([61] + [rng.randrange(256) for _ in range(v)] if v else []), k + [61, 1]]},
                                            {"o": "get", "b": [c ^ 32 for c in k]}]})
    # keys that are related: equal but for one character, in front, at the end, by order of their characters, by length
    pool = [k for k in dictionary.strings(120) if 61 not in k and is_utf8(k)]
    lens = dictionary.ints(1, 120)
    for i in range(300 if tier == "quick" else 3000):
        base = rng.choice(pool) if rng.random() < 0.3 else [rng.choice(b("abcXY-.9")) for _ in range(rng.choice(lens) if rng.random() < 0.7 else rng.randrange(1, 120))]
        rel = [base, base[::-1], base + base, base + b("s"), base[:-1], base[1:], base[:-1] + b("q"), b("q") + base[1:], base[1:] + base[:1], base[:len(base) // 2] + b("-") + base[len(base) // 2 + 1:],
               base + [0], base + b(" "), b(" ") + base, [c ^ 32 if 65 <= c & 223 <= 90 and c < 128 else c for c in base], base[:len(base) // 2], base + list("é".encode()), [(c + 1) % 128 if c != 60 else 59 for c in base]]
        rel = [k for k in rel if k and 61 not in k and is_utf8(k)]
        ks = rng.sample(rel, min(len(rel), rng.choice([2, 3, 5])))
        x = [k + ([61] + v if (v := rng.choice([None, [], [0], [1, 0], [0, 0, 0], [32], b("x "), b("=1"), [rng.randrange(256) for _ in range(rng.choice([1, 8, 100]))]])) is not None else []) for k in ks]
        ops = [{"o": "from", "x": x}] + [{"o": rng.choice(["get", "get", "get", "flag"]), "b": k} for k in rng.sample(rel, min(len(rel), 4))] + [{"o": "get", "b": k} for k in ks]
        out.append({"k": "txt", "ops": ops})
    for c in dictionary.ints(1, 1100):
        x = [b(f"k{j}") + ([61, j & 255] if j % 3 else []) for j in range(c)]
        ops = [{"o": "from", "x": x}, {"o": "get", "b": b("K0")}, {"o": "get", "b": b(f"K{c - 1}")}, {"o": "get", "b": b(f"k{c}")}, {"o": "flag", "b": b("new")}, {"o": "get", "b": b("NEW")}]
        out.append({"k": "txt", "ops": ops if c < 600 else ops[:3]})
    for c in dictionary.ints(0, 255):
        for k in (b("k"), b("Key")):
            for v in ([0] * c, [rng.randrange(256) for _ in range(c)], list(("é語" * c).encode())[:c]):
                v = v[:254 - len(k)]
                out.append({"k": "txt", "ops": [{"o": "from", "x": [k + [61] + v, k, k + [61]]}, {"o": "get", "b": k}]})
                out.append({"k": "txt", "ops": [{"o": "from", "x": [[], k, k + [61] + v]}, {"o": "get", "b": k}]})
    for c in range(256):
        out.append({"k": "txt", "ops": [{"o": "from", "x": [[c], [c, 61, c], [107, 61, c], [c, c]]}, {"o": "get", "b": [c] if c < 128 else b("k")}]})
    return out


def c20_sessions(rng, tier):
    out = []
    pool = [b("_tcp"), b("_udp"), b("_http"), b("_"), b("x"), b("tcp"), b("_sctp"), b("_tc"), b("_tcpx"), b("local"), b("_x.y"), [255], [95, 0], b("h_")]

    def lab():
        return rng.choice(pool) if rng.random() < 0.9 else [rng.randrange(256) for _ in range(rng.choice([1, 2, 63]))]

    for _ in range(800 if tier == "quick" else 10000):
        n = [lab() for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 4, 5, 6]))]
        if rng.random() < 0.5 and len(n) > 2:
            n[rng.choice([1, 2])] = rng.choice([b("_tcp"), b("_udp")])
        if rng.random() < 0.1:
            n = [[c ^ 32 if 65 <= c & 223 <= 90 and rng.random() < 0.3 else c for c in l] for l in n]
        out.append({"k": "svc", "ops": [{"o": "ptr", "n": n}]})
    for _ in range(300):
        out.append({"k": "svc", "ops": [{"o": "new", "i": lab(), "s": lab(), "t": rng.randrange(2)}]})
    # service names of every length, and related ones
    for l in range(1, 64):
        for base in ([95] + [rng.choice(b("abcXY-9")) for _ in range(l - 1)], b("x" * l), [95] * l, [95] + [rng.randrange(256) for _ in range(l - 1)]):
            t = rng.randrange(2)
            i = [rng.randrange(256) for _ in range(rng.choice([1, l, 63]))]
            out.append({"k": "svc", "ops": [{"o": "new", "i": i, "s": base, "t": t}, {"o": "ptr", "n": [base, b("_tcp"), b("local")]}, {"o": "ptr", "n": [i, base, b("_udp"), b("local")]},
                                            {"o": "ptr", "n": [base, base, b("_udp"), b("local")]}, {"o": "ptr", "n": [base, b("_tcp"), base, b("local")]}]})
            if base[0] == 95:
                for _ in range(4):
                    s2 = list(base)
                    i2 = list(i)
                    k = rng.randrange(7)
                    if k == 0 and l > 1:
                        s2[-1] ^= 1
                    elif k == 1 and l > 1:
                        s2[1 + rng.randrange(l - 1)] ^= 32
                    elif k == 2:
                        s2 = s2[:-1] or [95]
                    elif k == 3:
                        i2[-1] ^= 1
                    elif k == 4:
                        i2 = i2[:-1] or [1]
                    elif k == 5:
                        i2[rng.randrange(len(i2))] ^= 32
                    out.append({"k": "svc", "ops": [{"o": "cmp", "a": {"i": i, "s": base, "t": t}, "b": {"i": i2, "s": s2, "t": t ^ (rng.random() < 0.3)}}]})
    pool = dictionary.strings()
    for t in pool:
        o = rng.choice(pool)
        u = [95] + t[:62]
        out.append({"k": "svc", "ops": [{"o": "new", "i": t, "s": u, "t": 0}, {"o": "new", "i": t, "s": t, "t": 1}, {"o": "ptr", "n": [t, u, b("_tcp"), o]}, {"o": "ptr", "n": [u, b("_udp"), t, o]},
                                        {"o": "ptr", "n": [t, o, b("_tcp"), b("local")]}, {"o": "ptr", "n": [t, b("_tcp"), b("local")]}, {"o": "ptr", "n": [o, u, t, b("local")]},
                                        {"o": "cmp", "a": {"i": t, "s": u, "t": 0}, "b": {"i": o, "s": u, "t": 0}}, {"o": "cmp", "a": {"i": t, "s": u, "t": 0}, "b": {"i": t, "s": [95] + o[:62], "t": 0}}]})
        if is_utf8(t):
            out.append({"k": "svc", "ops": [{"o": "tr", "b": t}, {"o": "tr", "b": u}]})
    for c in dictionary.ints(1, 600):
        out.append({"k": "svc", "ops": [{"o": "ptr", "n": [b("i"), b("_a"), b("_tcp")] + [[97 + j % 26] for j in range(c)]}, {"o": "ptr", "n": [b("_a"), b("_udp")] + [b("d")] * c}]})
    for c in range(256):
        out.append({"k": "svc", "ops": [{"o": "new", "i": [c], "s": [c, 95], "t": 0}, {"o": "ptr", "n": [[c], [c, 97], b("_udp"), b("d")]}]})
    sv = [b("_a"), b("_b"), b("_A"), b("_ab")]
    ins = [b("i"), b("j"), b("I"), b("_a")]
    for _ in range(400):
        mk = lambda: {"i": rng.choice(ins), "s": rng.choice(sv), "t": rng.randrange(2)}
        a = mk()
        c = dict(a) if rng.random() < 0.3 else mk()
        if rng.random() < 0.5:
            c = dict(a, **{k: v for k, v in c.items() if k == rng.choice("ist")})
        out.append({"k": "svc", "ops": [{"o": "cmp", "a": a, "b": c}]})
    for t in ["_tcp", "_udp", "", "_", "tcp", "_tcp.", "_tcp ", "_sctp", "_tc", "_udpx", "é", "_udp\0", "_TCP", "_Udp", "_uDP", "_tCp"]:
        out.append({"k": "svc", "ops": [{"o": "tr", "b": b(t)}]})
    return out
