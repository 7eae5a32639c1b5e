"""C25: sessions about the sockets behind the objects."""
from wire import *

RES = ["res", "resm4", "resm6", "ares", "aresm4", "aresm6"]
DIS = ["dis", "dism4", "adis", "adism4"]
LIS = ["adv", "aadv", "raw", "tap"]
# errors socket operations have, all of different kinds or of no particular kind
ERR = [1, 12, 13, 19, 22, 23, 24, 97, 98, 99, 101, 105]
SRV = [[10, 0, 0, 1, 0, 53], [224, 0, 0, 251, 20, 233], [127, 0, 0, 1, 255, 255], [0] * 15 + [1, 0, 53], [255, 2] + [0] * 13 + [251, 20, 233]]


def mk(rng, w=None, f=0):
    w = w or rng.choice(RES + DIS + LIS + LIS + ["plain"])
    o = {"o": "mk", "w": w, "f": f, "e": rng.choice(ERR), "of": 0}
    if w in ("res", "ares", "dis", "adis"):
        o["srv"] = rng.choice(SRV)
    return o


def session(rng, n):
    ops, kinds, other = [], [], 0
    while len(ops) < n:
        live = [i for i, w in enumerate(kinds) if w]
        k = rng.random()
        f = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7])
        if k < 0.4 or not live:
            o = mk(rng, None, f)
            plain = [i for i in live if kinds[i] == "plain"]
            o["of"] = rng.choice(plain) if plain else 0
            kinds.append(o["w"])
        elif k < 0.5:
            i = rng.choice(live)
            kinds[i] = None
            o = {"o": "drop", "i": i}
        elif k < 0.65:
            i = rng.choice(live)
            if kinds[i] == "tap":
                kinds[i] = None
            o = {"o": "listen", "i": i, "f": f, "e": rng.choice(ERR)}
        elif k < 0.8:
            c = [i for i in live if kinds[i] in RES + DIS]
            if not c:
                continue
            i = rng.choice(c)
            what = "to" if kinds[i] in RES else rng.choice(["rto", "dto"])
            v = rng.choice([1, 7, 50, 299, 300, 301, 999, 1000, 2500])
            if what == "rto":
                v = max(v, 50)
            if kinds[i] in ("res", "resm4", "resm6") and rng.random() < 0.15:
                v = 0
            o = {"o": "set", "i": i, "what": what, "v": v, "f": rng.choice([0, 0, 1, 2]), "e": rng.choice(ERR)}
        elif k < 0.95:
            o = {"o": "call", "i": rng.choice(live), "f": rng.choice([0, 0, 0, 1, 2, 3]), "e": rng.choice(ERR)}
        else:
            other = rng.choice([0, 1, 1, 2])
            if other == 2 and any(w in ("aadv", "raw", "tap") for w in kinds):
                continue
            o = {"o": "foreign", "x": other}
        ops.append(o)
    return {"k": "socks", "ops": ops}


def c25_sessions(rng, tier):
    out = []
    # every kind of object, every step, several errors
    for w in RES + DIS + LIS:
        for f in range(0, 9):
            for _ in range(2 if tier == "quick" else 8):
                ops = [mk(rng, rng.choice(LIS + RES)), mk(rng, w, f), mk(rng, w)]
                ops[0]["w"] = ops[0]["w"] if ops[0]["w"] not in ("res", "ares") else "resm4"
                ops += [{"o": "listen", "i": 2, "f": rng.choice([0, f])}, {"o": "call", "i": 2}, {"o": "drop", "i": rng.choice([0, 2])}]
                for o in ops:
                    o.setdefault("e", rng.choice(ERR))
                out.append({"k": "socks", "ops": ops})
    # settings made and refused, in between the calls they are for
    for w in RES + DIS:
        for _ in range(12 if tier == "quick" else 200):
            ops = [mk(rng, w)]
            for _ in range(rng.choice([2, 4, 8])):
                what = "to" if w in RES else rng.choice(["rto", "rto", "dto"])
                v = rng.choice([50, 99, 150, 299, 300, 301, 999, 1000, 2500] + ([70000] if w[0] != "a" else []))
                if w[0] != "a" and what != "dto" and rng.random() < 0.2:
                    v = 0
                ops.append({"o": "set", "i": 0, "what": what, "v": v, "f": rng.choice([0, 1, 1]), "e": rng.choice(ERR)})
                if rng.random() < 0.6:
                    ops.append({"o": "call", "i": 0, "f": rng.choice([0, 0, 0, 1, 2]), "e": rng.choice(ERR)})
            out.append({"k": "socks", "ops": ops + [{"o": "call", "i": 0}]})
    for _ in range(600 if tier == "quick" else 12000):
        out.append(session(rng, rng.choice([4, 8, 12, 20, 40])))
    return out
