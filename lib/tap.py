"""C22: tap sessions."""
from wire import *
import adv, dictionary
from net import ERRNOS

NAMES = [[b("a"), b("local")], [], [b("My Printer"), b("_ipp"), b("_tcp"), b("local")], [b("a.b\\c"), b("'q\"")], [[0, 9, 10, 13, 127, 128, 255]],
         [[33] * 63, b("x")]]


def ip6(rng):
    """Addresses with zero runs, mapped addresses, and others."""
    k = rng.randrange(8)
    g = [rng.choice([0, 0, 0, 1, 0xff, 0x100, 0xffff, rng.randrange(65536)]) for _ in range(8)]
    if k == 0:
        g[:6] = [0, 0, 0, 0, 0, 0xffff]
    elif k == 1:
        g[:6] = [0] * 6
    elif k == 2:
        g = [0] * 8
        g[rng.randrange(8)] = 1
    return sum((e16(x) for x in g), [])


def entry(rng, m, sec):
    n = rng.choice(NAMES) if rng.random() < 0.8 else rand_name(rng)
    cls = rng.choice([1, 1, 0x8001, 2, 3, 4, 5, 0, 255, 254, 0x7fff, 0xffff])
    t = rng.choice(SUPPORTED + [99, 0, 41, 255, 65535, 256, 257, 249, 251, 252, 253, rng.randrange(300)])
    if sec == 0:
        return m.q(n, t, cls)
    ttl = rng.choice([0, 1, 9, 10, 120, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, rng.randrange(2**32)])
    if rng.random() < 0.07 and t in SUPPORTED:
        rd = [[rng.choice([0, 1, 5, 64, 192])] * rng.choice([1, 2, 3])]
    elif t == AAAA:
        rd = [ip6(rng)]
    else:
        rd = rdata(rng, t, NAMES)
    m.rr(sec, n, t, cls, ttl, rd)


def message(rng, size=None):
    m = Msg(rng, rng.choice([0, 0.5, 1]), id=rng.choice([0, 9, 10, 65535, rng.randrange(65536)]), flags=rng.choice([0, 0x8400, rng.randrange(65536)]))
    for sec in range(4):
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4]) if size is None else size):
            if len(m.o) < 1100:
                entry(rng, m, sec)
    k = rng.random()
    if k < 0.15:
        m.counts = [max(0, c + rng.choice([0, 0, 1, -1, 7])) for c in m.n]
    y = m.bytes()
    if 0.15 < k < 0.25:
        y = adv.mutate(rng, y)
    elif k < 0.32:
        y = y[:rng.randrange(len(y) + 1)]
    return y[:1500]


def c22_sessions(rng, tier):
    out = []

    def session(pk, err=None):
        at, net = 0, []
        for p in pk:
            at += rng.choice([0, 0, 1, 1000])
            net.append({"at": at, "b": p, "from": [rng.randrange(256) for _ in range(4)] + [20, 233]})
        net.append({"at": at + 1, "err": err or rng.choice(ERRNOS)})
        out.append({"k": "tap", "net": net})
    for _ in range(500 if tier == "quick" else 8000):
        session([message(rng) for _ in range(rng.choice([0, 1, 1, 2, 4]))])
    # every code that is printed
    for v in range(0, 272, 8):
        m = Msg(rng, 0.5)
        for t in range(v, v + 8):
            m.q([b("q")], t, t)
            m.rr(1 if v < 128 else 2, [b("r")], t if t not in SUPPORTED else 600 + t, t, t * 65537, [[t & 255]])
        session([m.bytes()])
    for f in range(0, 65536, 1 << 11):
        session([Msg(rng, flags=f | x << 7 | r).bytes() for x in range(0, 16, 5) for r in range(16)])
    for x in range(16):
        session([Msg(rng, flags=x << 7).bytes()])
    # runs of malformed packets, then a good one
    good = Msg(rng, 1, flags=0x8400).a(1, NAMES[0], [10, 0, 0, 7]).bytes()
    for bad in ([], [0] * 11, [0] * 4 + [255] * 8, good[:-1], good[:12] + [192, 12] + good[12:], [255] * 300, [192] * 1500, [0] * 1500,
                [0, 0, 0, 0, 255, 255] + [0] * 6 + [0, 0, 1, 0, 1] * 290, [0, 0, 132, 0, 0, 0, 255, 255, 0, 0, 0, 0] + good[12:] * 40):
        session([bad[:1500]] * 5 + [good])
    # a full buffer
    m = Msg(rng, 1, flags=0x8400)
    while len(m.o) < 1400:
        m.a(1, [b("x")], [10, 0, len(m.o) & 255, 1])
    m.rr(3, [], 600, rd=[[7] * (1500 - len(m.o) - 11)])
    assert len(m.bytes()) == 1500
    session([m.bytes(), good, m.bytes()[:1499], good])
    # datagrams that fill the buffer (or do not fit into it), cut inside an entry
    for n in (1498, 1499, 1500, 1501, 1600, 4000):
        for sec in (1, 2, 3):
            m = Msg(rng, 1, flags=0x8400)
            m.a(1, [b("x")], [10, 0, 0, 1])
            m.rr(sec, [b("y")], rng.choice([600, TXT]), rd=[[99] * 100] * 40)
            session([m.bytes()[:n], good, m.bytes()[:n], good])
        m = Msg(rng, 0)
        while len(m.o) < n:
            m.q([b("abcdefghijklmnopqrstuvwxyz"), b("local")], 255)
        session([m.bytes()[:n], good])
    # many packets
    session([message(rng, rng.choice([0, 1])) for _ in range(300)])
    for e in ERRNOS:
        session([], e)
        session([good], e)
        session([[], good, good], e)
    c22_values(rng, tier, session, good)
    return out


def c22_values(rng, tier, session, good):
    """Numbers and strings of the source as field values, labels, lengths and repetitions; equal packets and entries."""
    quick = tier == "quick"
    strs = dictionary.strings()
    for v in dictionary.ints(0, 2**32 - 1):
        w = v & 65535
        m = Msg(rng, 1, id=w, flags=rng.choice([0, 0x8400, w]))
        m.q([b("q")], w, w)
        for sec in (1, 2, 3):
            m.rr(sec, [b("r")], w if w not in SUPPORTED else 99, w, v, [[w & 255]])
            m.rr(sec, [b("s")], SRV, 1, v, [e16(w) + e16(w ^ 1) + e16(v >> 16), ("n", NAMES[0])])
            m.a(sec, NAMES[0], [v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255], ttl=v)
        session([m.bytes()])
    for l in rng.sample(strs, 60 if quick else len(strs)):
        r = rng.choice(strs)
        m = Msg(rng, 0.5, flags=0x8400)
        m.q([l, r], rng.choice([1, 12, 255]))
        m.ptr(1, [r], [l, r]).srv(1, [l], 1, 2, 3, [r, l]).txt(2, [l, l], [r, l + [61] + r, []]).txt(3, [r], [l])
        session([m.bytes(), good, m.bytes()])
    for n in dictionary.ints(1, 300 if quick else 1500):
        # n equal packets, entries, record bytes, packet bytes
        p = rng.choice([good, good[:-1], [0] * 5, good[:12] + [192, 12]])
        session([p] * min(n, 60 if quick else 300) + [good])
        m, sec = Msg(rng, 0, flags=0x8400), rng.randrange(4)
        for _ in range(n):
            if len(m.o) < 1470:
                m.q([], 1) if sec == 0 else m.rr(sec, [], 99, rd=[[]])
        m.a(3, [], [10, 0, 0, 9])
        session([m.bytes()[:1500], good])
    for n in dictionary.ints(0, 1400):
        m = Msg(rng, 1, flags=0x8400).rr(rng.choice([1, 2, 3]), [b("y")], 600, rd=[[99] * n]).a(3, NAMES[0], [1, 2, 3, 4])
        session([m.bytes(), good])
        k = min(n, 255)
        m = Msg(rng, 1).txt(1, NAMES[1], [[97] * k, [98] * (n - k) if n - k < 256 else []]).txt(2, [], [[0x80] * min(k, 80)])
        session([m.bytes(), good])
    # entries that agree in some of their fields
    for _ in range(40 if quick else 400):
        m = Msg(rng, 0.5, flags=0x8400)
        for _ in range(rng.choice([2, 3, 8])):
            m.a(rng.choice([1, 1, 2, 3]), rng.choice(NAMES[:2]), rng.choice([[10, 0, 0, 1], [10, 0, 0, 2]]), ttl=rng.choice([1, 2]))
        y = m.bytes()
        session([y, y, good, y, good, good])
