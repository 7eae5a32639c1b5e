"""Builders for DNS messages (input generation only: no verdict depends on this code)."""
A, NS, CNAME, SOA, PTR, MX, TXT, AAAA, SRV, ANY = 1, 2, 5, 6, 12, 15, 16, 28, 33, 255
SUPPORTED = [A, NS, CNAME, SOA, PTR, MX, TXT, AAAA, SRV]


def b(s):
    return list(s.encode()) if isinstance(s, str) else list(s)


def nm(s):
    """'a.b' to a list of labels."""
    return [b(x) for x in s.split(".") if x]


def e16(v):
    return [v >> 8 & 255, v & 255]


def e32(v):
    return e16(v >> 16) + e16(v & 0xffff)


class Msg:
    """Message builder; compresses names with probability `comp`."""

    def __init__(self, rng=None, comp=0.0, id=12345, flags=0, counts=None):
        self.rng, self.comp, self.id, self.flags = rng, comp, id, flags
        self.o = [0] * 12
        self.n = [0, 0, 0, 0]
        self.offs = {}
        self.counts = counts

    def name(self, n):
        n = [tuple(l) for l in n]
        for i in range(len(n)):
            suf = tuple(n[i:])
            if suf in self.offs and self.rng and self.rng.random() < self.comp:
                p = self.offs[suf]
                self.o += [0xC0 | p >> 8, p & 255]
                return
            if len(self.o) < 0x3fff and suf not in self.offs:
                self.offs[suf] = len(self.o)
            self.o += [len(n[i])] + list(n[i])
        self.o.append(0)

    def q(self, n, t, c=1):
        self.name(n)
        self.o += e16(t) + e16(c)
        self.n[0] += 1
        return self

    def rr(self, sec, n, t, c=1, ttl=120, rd=(), rdlen=None):
        """rd: list of byte lists and ('n', name) parts"""
        self.name(n)
        self.o += e16(t) + e16(c) + e32(ttl)
        p = len(self.o)
        self.o += [0, 0]
        for part in rd:
            if isinstance(part, tuple):
                self.name(part[1])
            else:
                self.o += part
        ln = len(self.o) - p - 2 if rdlen is None else rdlen
        self.o[p:p + 2] = e16(ln)
        self.n[sec] += 1
        return self

    def a(self, sec, n, ip, **k):
        return self.rr(sec, n, A if len(ip) == 4 else AAAA, rd=[list(ip)], **k)

    def ptr(self, sec, n, t, **k):
        return self.rr(sec, n, PTR, rd=[("n", t)], **k)

    def srv(self, sec, n, prio, weight, port, host, **k):
        return self.rr(sec, n, SRV, rd=[e16(prio) + e16(weight) + e16(port), ("n", host)], **k)

    def txt(self, sec, n, xs, **k):
        return self.rr(sec, n, TXT, rd=[sum(([len(x)] + list(x) for x in xs), [])], **k)

    def bytes(self):
        cs = self.counts or self.n
        self.o[:12] = e16(self.id) + e16(self.flags) + sum((e16(c) for c in cs), [])
        return list(self.o)


SPECIAL4 = [[0] * 4, [255] * 4, [127, 0, 0, 1], [169, 254, 1, 1], [224, 0, 0, 251], [192, 0, 2, 1], [10, 0, 0, 0], [1, 2, 3, 255]]
SPECIAL6 = [[0] * 16, [0] * 15 + [1], [0] * 10 + [255, 255, 192, 168, 0, 7], [0] * 10 + [255, 255, 0, 0, 0, 0], [0] * 12 + [192, 168, 0, 7],
            [254, 128] + [0] * 13 + [1], [254, 128] + [0] * 6 + [2, 0, 94, 255, 254, 0, 83, 1], [255, 2] + [0] * 13 + [251],
            [0, 100, 255, 155] + [0] * 8 + [1, 2, 3, 4], [32, 2, 192, 168, 0, 7] + [0] * 10, [32, 1, 13, 184] + [0] * 11 + [1], [255] * 16,
            [253] + [0] * 14 + [1]]


def rand_ip4(rng):
    return list(rng.choice(SPECIAL4)) if rng.random() < 0.3 else [rng.randrange(256) for _ in range(4)]


def rand_ip6(rng):
    return list(rng.choice(SPECIAL6)) if rng.random() < 0.5 else [rng.randrange(256) for _ in range(16)]


def rand_ip(rng, six=0.5):
    return rand_ip6(rng) if rng.random() < six else rand_ip4(rng)


def rdata(rng, t, names):
    """Random parts of record data of type t."""
    n = lambda: ("n", rng.choice(names))
    r8 = lambda k: [rng.randrange(256) for _ in range(k)]
    if t == A:
        return [rand_ip4(rng)]
    if t == AAAA:
        return [rand_ip6(rng)]
    if t in (NS, CNAME, PTR):
        return [n()]
    if t == MX:
        return [r8(2), n()]
    if t == SRV:
        return [r8(6), n()]
    if t == SOA:
        return [n(), n(), r8(20)]
    if t == TXT:
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            l = rng.choice([0, 1, 2, 5])
            out += [l] + r8(l)
        return [out]
    return [r8(rng.randrange(6))]


def many_labels(rng):
    return [[rng.choice(b("ab-Z")) for _ in range(rng.choice([1, 1, 1, 2]))]
            for _ in range(rng.choice([6, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 66, 80, 100, 126, 127, 128, 129, 140, 200, 255, 256, 257, 300]))]


def rand_name(rng, maxl=4):
    if rng.random() < 0.01:
        return many_labels(rng)
    return [[rng.choice(b("ab_-Z09")) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.randrange(maxl + 1))]
