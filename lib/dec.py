"""C01-C04: the message decoder."""
import itertools
import dictionary
from wire import *

PLANS = [["I", "g1", "I", "g2", "I", "g3", "I"], ["n", "g1", "n", "i", "g3", "I"], ["g3", "I"], ["g2", "I", "g3", "n"],
         ["g1", "n", "g2", "g3", "I"], ["i", "i", "g2", "I"], ["n", "n", "n", "g1", "I", "n", "i"],
         ["g1", "i", "i", "i", "g2", "n", "n", "g3", "n", "i"], ["I", "g1", "I", "g3", "I"], ["g1", "I", "g2", "I", "g3", "I", "n"]]
FULL = PLANS[0]


def s(b_, plan=FULL):
    return {"k": "dec", "b": list(b_), "plan": list(plan)}


def rand_plan(rng):
    if rng.random() < 0.5:
        return rng.choice(PLANS)
    p, sec = [], 0
    for _ in range(rng.randrange(1, 9)):
        if rng.random() < 0.6:
            p.append(rng.choice(["n", "i", "n", "i", "I"]))
        elif sec < 3:
            sec = rng.randrange(sec + 1, 4)
            p.append(f"g{sec}")
    return p + (["I"] if rng.random() < 0.7 else [])


def rand_msg(rng, types=None, classes=None, comp=None, sizes=(0, 1, 1, 2, 3), malform=0.15, maxn=4):
    m = Msg(rng, rng.random() if comp is None else comp, rng.randrange(65536), rng.randrange(65536))
    names = [rand_name(rng, maxn) for _ in range(4)]
    names += [names[0][1:], names[1][:2] + names[2]]
    cl = lambda: rng.choice(classes) if classes else rng.choice([1, 1, 1, 3, 255, 0x8001, 0x0101, 0x7fff, 0xffff, 0, rng.randrange(65536)])
    ty = lambda: rng.choice(types) if types else rng.choice(SUPPORTED + [10, 41, 252, 255, 257, rng.randrange(65536)])
    for _ in range(rng.choice(sizes)):
        m.q(rng.choice(names), ty(), cl())
    for sec in (1, 2, 3):
        for _ in range(rng.choice(sizes)):
            t = ty()
            rd = rdata(rng, t, names)
            k = dict(c=cl(), ttl=rng.choice([0, 1, 120, 65536, 0x7fffffff, 0xffffffff, rng.randrange(2**32)]))
            x = rng.random()
            if x < malform / 2:
                m.rr(sec, rng.choice(names), t, rd=rd + [[rng.randrange(256) for _ in range(rng.randrange(1, 4))]], **k)
            elif x < malform:
                # record data cut short
                m.rr(sec, rng.choice(names), t, rd=rd, **k)
                cut = rng.randrange(1, 4)
                tail = len(m.o)
                # find the rdlength field again: rebuild with a shorter tail
                body = sum((p if not isinstance(p, tuple) else [0] for p in rd), [])
                del body
                m.o = m.o[:tail]
                shrink_last(m, cut)
            else:
                m.rr(sec, rng.choice(names), t, rd=rd, **k)
    return m.bytes()


def shrink_last(m, cut):
    """Removes up to `cut` bytes from the end of the last record's data, adjusting its length."""
    p = find_last_rd(m)
    if p is None:
        return
    ln = m.o[p] << 8 | m.o[p + 1]
    cut = min(cut, ln)
    if cut:
        m.o = m.o[:-cut]
        m.o[p:p + 2] = e16(ln - cut)
        m.offs = {k: v for k, v in m.offs.items() if v < p}


def find_last_rd(m):
    for p in range(len(m.o) - 2, 11, -1):
        if (m.o[p] << 8 | m.o[p + 1]) == len(m.o) - p - 2:
            return p
    return None


def mutate(rng, b_):
    b_ = list(b_)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
        x = rng.random()
        if not b_:
            break
        p = rng.randrange(len(b_))
        if x < 0.25:
            b_[p] = rng.choice([0, 1, 2, 63, 64, 128, 191, 192, 193, 255, rng.randrange(256)])
        elif x < 0.4:
            del b_[p:]
        elif x < 0.5:
            del b_[p]
        elif x < 0.6:
            b_.insert(p, rng.randrange(256))
        elif x < 0.75:
            b_[p:p] = [0xC0, rng.randrange(min(256, len(b_) + 2))]
        elif x < 0.9:
            # counts
            q = rng.choice([4, 5, 6, 7, 8, 9, 10, 11])
            if q < len(b_):
                b_[q] = rng.choice([0, 1, 2, 3, 255])
        else:
            b_[p] = (b_[p] + rng.choice([1, 255])) % 256
    return b_


# ---- sizes and values that occur in the code ---------------------------------------------------------
def utf8_bytes(rng, n):
    """n bytes of text with characters of one to four bytes."""
    out = b""
    while len(out) < n:
        c = rng.choice(["a", "Z", " ", "=", "é", "ß", "語", "€", "😀"]).encode()
        out += c if len(out) + len(c) <= n else b"x"
    return list(out)


def strings_of(rng, n, l=None, content=None):
    """Record data of n bytes: character strings."""
    out = []
    while n > 0:
        k = min(n - 1, rng.choice([255, 255, 100, 17]) if l is None else l)
        out += [k] + (utf8_bytes(rng, k) if (content or rng.choice("ub")) == "u" else [rng.randrange(256) for _ in range(k)])
        n -= k + 1
    return out


def size_sessions(rng, tier, what):
    """Messages whose counts, lengths and positions are the numbers of the source, and one more or less."""
    quick = tier == "quick"
    out = []
    end = lambda m: s(m.rr(3, nm("end"), A, rd=[[1, 2, 3, 4]]).bytes(), rng.choice([FULL, ["g1", "I", "g2", "I", "g3", "I"]]))
    new = lambda **k: Msg(rng, 0, rng.randrange(65536), 0x8400, **k)
    far = 65500
    lens = sorted(set(dictionary.ints(0, far)) | {255, 256, 257, 512, 1024, 4096, 16384, 32767, 32768, 32769} | (set() if quick else {40000, 65000, 65535}))
    if "count" in what:
        for c in dictionary.ints(0, 1600 if quick else 4000):
            for sec in rng.sample(range(4), 1 if quick else 3):
                m = new()
                for j in range(c):
                    m.q([], j, 1) if sec == 0 else m.rr(sec, [], 300 + j, ttl=j, rd=[[j & 255]])
                out.append(end(m))
        for c in dictionary.ints(0, 65535):
            # announced, but not there; values of every field
            for sec in range(4):
                cs = [1, 1, 1, 1]
                cs[sec] = c
                m = new(counts=cs).q(nm("q"), A).a(1, nm("a"), [1, 2, 3, 4]).a(2, nm("b"), [1, 2, 3, 5]).a(3, nm("c"), [1, 2, 3, 6])
                if sec == 0 or not quick or rng.random() < 0.5:
                    out.append(s(m.bytes(), rng.choice([FULL, ["g1", "I", "g2", "I", "g3", "I"], ["g2", "g3", "I"]])))
        for c in dictionary.ints(0, 2**32 - 1):
            m = Msg(rng, 0, c & 65535, c & 65535).q(nm("q"), c & 65535, c & 65535)
            for sec in (1, 2, 3):
                for t in [c & 65535, rng.choice(SUPPORTED), rng.choice([10, 41, 250, 255])]:
                    m.rr(sec, nm("r"), t, c=c & 65535, ttl=c, rd=rdata(rng, t, [nm("x.y"), []]))
                    m.rr(sec, nm("r"), t, c=(c & 0x7fff) ^ 0x8000, ttl=rng.choice([c << 16, c * 257, 2**32 - 1 - c]) % 2**32, rd=rdata(rng, t, [nm("x.y"), []]))
            out.append(s(m.bytes()))
        for t in list(range(0, 66)) + [99, 108, 109, 249, 250, 251, 252, 253, 254, 255, 256, 257, 32768, 65535]:
            m = new()
            for c in [0, 1, 2, 3, 4, 254, 255, 256, 0x7fff] + [1 << i for i in range(15)] + [rng.randrange(32768)]:
                for f in (0, 0x8000):
                    m.rr(1, nm("r"), t, c=c | f, ttl=c, rd=rdata(rng, t, [nm("x.y"), []]))
            out.append(s(m.bytes()))
    if "len" in what:
        for c in lens:
            for t in [TXT, rng.choice([10, 41, 99])] + rng.sample(SUPPORTED, 1 if quick else 4):
                m = new().q(nm("q"), TXT)
                if t == TXT:
                    m.rr(1, nm("t"), t, rd=[strings_of(rng, c)])
                elif c > 40 or t not in SUPPORTED:
                    m.rr(1, nm("t"), t, rd=[[rng.randrange(256) for _ in range(c)]] if t not in SUPPORTED else rdata(rng, t, [nm("x.y"), []]) + [[7] * (c - 40)])
                out.append(end(m.a(2, nm("z"), [9, 9, 9, 9])))
            # messages of this length
            if c >= 40:
                m = new().rr(1, nm("t"), TXT, rd=[strings_of(rng, c - 12 - 3 - 10 - 11 - 4 - 4)]) if c > 60 else new().q([b("x" * (c - 12 - 2 - 4 - 19))] if c > 37 else [], 1)
                out.append(end(m))
        # one long string after others, many short ones
        for c in dictionary.ints(0, 255):
            out.append(end(new().rr(1, nm("t"), TXT, rd=[[c] + utf8_bytes(rng, c), strings_of(rng, 20, 3)]).rr(2, nm("t"), TXT, rd=[[0] * (c % 7), [c] + [rng.choice([0, 128, 255, 97]) for _ in range(c)]])))
        for c in dictionary.ints(0, 1600 if quick else 4000):
            l = rng.choice([0, 1, 1, 2])
            out.append(end(new().rr(1, nm("t"), TXT, rd=[([l] + [97] * l) * c])))
            out.append(end(new().rr(1, nm("t"), TXT, rd=[[0] * (c % 300), strings_of(rng, 9)])))
    if "name" in what:
        pool = dictionary.strings()
        for i in range(0, len(pool), 4):
            m = Msg(rng, 0.6, 1, 0x8400)
            for l in pool[i:i + 4]:
                m.q([l], A).q([l, b("local")], A).rr(1, [b("x"), l, l], PTR, rd=[("n", [l, b("x")])]).rr(1, [l], CNAME, rd=[("n", [rng.choice(pool), rng.choice(pool)])])
                m.txt(2, [l], [l, [], l + [61] + l])
            out.append(end(m))
        for c in dictionary.ints(1, 1100 if quick else 2100):
            for l in (1, 63):
                n = [[97 + j % 26] * l for j in range(c)]
                if c * (l + 1) > 16000:
                    continue
                m = Msg(rng, 0, 1, 0x8400).q(n, A)
                m.comp = 1
                out.append(end(m.rr(1, n, A, rd=[[1, 2, 3, 4]]).rr(1, [b("x")] + n, PTR, rd=[("n", [b("y")] + n[c // 2:])])))
        for c in dictionary.ints(2, far):
            # names of c bytes
            n, left = [], c - 1
            while left > 1:
                k = min(63, left - 1) if left != 65 else 62
                n.append([97 + len(n) % 26] * k)
                left -= k + 1
            if c < 2000 or not quick:
                out.append(end(Msg(rng, 1, 1, 0x8400).q(n, A).q(n, A)))
        for c in dictionary.ints(1, 63):
            out.append(end(Msg(rng, 1, 1, 0x8400).q([[rng.randrange(256) for _ in range(c)], b("x")], A).rr(1, [b("x"), [0] * c], PTR, rd=[("n", [[255] * c])])))
        # chains of pointers, single and with labels between them
        for c in dictionary.ints(1, 600 if quick else 1600):
            lab = rng.random() < 0.5 and c < 130
            # the ladder lies inside the second question's place: behind a record of unknown type
            x = Msg(rng, 0, 1, 0x8400).q(nm("x"), A)
            x.rr(1, [], 10, rd=[[0]])
            base = len(x.o)
            x.o.pop()
            x.o[-2:] = []
            lad, prev = [], 12
            for j in range(c):
                here = base - 1 + len(lad)
                lad += ([1, 97 + j % 26] if lab else []) + [0xC0 | prev >> 8, prev & 255]
                prev = here
            x.o += e16(len(lad)) + lad
            x.o += [0xC0 | prev >> 8, prev & 255] + e16(A) + e16(1) + e32(7) + e16(4) + [1, 2, 3, 4]
            x.n[1] += 1
            out.append(end(x))
        # a name at every interesting position
        for c in dictionary.ints(60, 16383):
            if c in (16383,) or c < 36:
                continue
            m = Msg(rng, 0, 7, 0x8400).rr(1, [], 10, rd=[[rng.choice([0, 97])] * (c - 12 - 11)])
            assert len(m.o) == c
            m.rr(1, nm("x.yz"), A, rd=[[1, 2, 3, 4]])
            for p in (c, c + 2):
                if p < 16384:
                    m.o += [1, 113, 0xC0 | p >> 8, p & 255] + e16(PTR) + e16(1) + e32(1) + e16(4) + [1, 114, 0xC0 | p >> 8, p & 255]
                    m.n[1] += 1
            out.append(s(m.bytes()))
    return out


# ---- C02 -------------------------------------------------------------------------------------------
def name_bodies(alpha, n):
    for k in range(0, n + 1):
        yield from itertools.product(alpha, repeat=k)


def c02_sessions(rng, tier):
    quick = tier == "quick"
    out = []
    # every short byte string as the names of up to two questions / one record, with pointers into the message
    tail = [0, 1, 0, 1]
    alpha = [0, 1, 2, 97, 0xC0, 12, 13, 14] if quick else [0, 1, 2, 97, 0xC0, 12, 13, 14, 15, 0x40, 0x80]
    for body in name_bodies(alpha, 3 if quick else 4):
        out.append(s([0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0] + list(body) + tail + [0xC0, 12] + tail, ["I"]))
        out.append(s([1, 97, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0] + list(body), ["I"]))
    # two-part names: a pool of labels first, then a name with pointers into the middle of it
    for _ in range(500 if quick else 6000):
        pool = []
        for _ in range(rng.randrange(1, 5)):
            k = rng.random()
            if k < 0.6:
                l = rng.choice([1, 2, 3, 4, 5, 8, 63])
                pool += [l] + [rng.choice([0, 1, 2, 3, 97, 98, 0xC0, 12, 13, 16, 20]) for _ in range(l)]
            elif k < 0.8:
                pool += [0xC0, rng.choice([0, 1, 4, 12, 13, 14, 15, 16, 18, 20, 24])]
            else:
                pool += [rng.choice([0, 0, 64, 128, 191, 255])]
        pool += rng.choice([[0], [0], [0xC0, rng.randrange(0, 30)], []])
        m = [0, rng.choice([0, 1, 9]), 0, rng.choice([0, 97]), 0, 3, 0, 0, 0, 0, 0, 0] + pool + tail
        for _ in range(2):
            nm_ = []
            for _ in range(rng.randrange(0, 3)):
                l = rng.choice([1, 2, 3, 60])
                nm_ += [l] + [rng.choice([97, 0, 1, 0xC0, 12]) for _ in range(l)]
            at = len(m) + len(nm_)
            nm_ += rng.choice([[0], [0xC0, rng.randrange(0, 60)], [0xC0, rng.randrange(12, max(13, at))], [0xC0, max(0, at - 1) % 256],
                               [0xC0, at % 256], [0xC0, len(m) % 256], [0xC1, 4], [0xFF, 0xFF], [0x41], [0x80], [0xC0]])
            m += nm_ + tail
        if rng.random() < 0.2:
            m = m[:rng.randrange(12, len(m) + 1)]
        out.append(s(m, ["I"]))
    # chains of pointers, pointers from record data into names and record data, high offsets
    for depth in ([1, 2, 3, 10, 40] if quick else [1, 2, 3, 5, 10, 40, 120]):
        m = [0, 0, 0, 0, 0, depth + 1, 0, 0, 0, 0, 0, 0, 1, 120, 0] + tail
        prev = 12
        for d in range(depth):
            here = len(m)
            m += ([1, 97 + d % 26] if rng.random() < 0.7 else []) + [0xC0 | prev >> 8, prev & 255] + tail
            prev = here
        out.append(s(m, ["I"]))
    for off in [255, 256, 257, 511, 512, 513, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 12287, 12288, 16381, 16382, 16383]:
        # a TXT record pads the message so that the referenced name lies at `off`
        pad = off - 12 - 11
        m = Msg(None, 0, 7, 0x8000)
        m.rr(1, [], 10, rd=[[0] * pad])
        m.q_off = len(m.o)
        assert len(m.o) == off
        m.rr(1, nm("x.yz"), A, rd=[[1, 2, 3, 4]])
        m.o += [2, 113, 113, 0xC0 | off >> 8, off & 255] + e16(A) + e16(1) + e32(1) + e16(4) + [5, 6, 7, 8]
        m.n[1] += 1
        p = off + 2 if off + 2 < 16384 else off
        m.o += [0xC0 | p >> 8, p & 255] + e16(A) + e16(1) + e32(1) + e16(0)
        m.n[1] += 1
        out.append(s(m.bytes(), ["g1", "I"]))
        # the same names referenced from record data
        m = Msg(None, 0, 7, 0x8000)
        m.rr(1, [], 10, rd=[[0] * pad])
        m.rr(1, nm("x.yz"), PTR, rd=[[1, 104, 0xC0 | off >> 8, off & 255]])
        m.rr(1, [], rng.choice([CNAME, NS]), rd=[[0xC0 | p >> 8, p & 255]])
        m.rr(2, [], MX, rd=[[1, 2, 0xC0 | p >> 8, p & 255]])
        out.append(s(m.bytes(), ["g1", "I", "g2", "I"]))
    # names inside record data
    for _ in range(200 if quick else 2500):
        b_ = rand_msg(rng, types=[PTR, CNAME, NS], classes=[1], comp=0.9, sizes=(0, 1, 2), malform=0)
        if rng.random() < 0.6:
            b_ = mutate(rng, b_)
            b_[4:6] = [0, min(b_[5], 3)] if len(b_) > 6 else b_[4:6]
        # classes other than IN are another property's business
        out.append(s(b_, ["g1", "I", "g2", "I"] if rng.random() < 0.3 else FULL))
    return out + size_sessions(rng, tier, {"name"})


# ---- C03 -------------------------------------------------------------------------------------------
def c03_sessions(rng, tier):
    out = []
    # every class and type value once (two messages per 40 values would hide nothing: entries are compared one by one)
    step = 1021 if tier == "quick" else 61
    vals = list(range(0, 65536, step)) + [1, 2, 254, 255, 256, 257, 0x7fff, 0x8000, 0x8001, 0x80ff, 0xff01, 0xffff]
    for i in range(0, len(vals), 8):
        m = Msg()
        for v in vals[i:i + 8]:
            m.q(nm("a"), v, v)
        for v in vals[i:i + 8]:
            m.rr(1, nm("b"), v, c=v, ttl=v * 65537 % 2**32, rd=[[1, 2, 3]])
        out.append(s(m.bytes()))
    # sections with more entries than a byte can count
    for n in ([255, 256, 300] if tier == "quick" else [255, 256, 257, 300, 511, 512, 700, 2000]):
        for sec in range(4):
            m = Msg(rng, 0, 3, 0x8400)
            for j in range(n):
                m.q([], j, 1) if sec == 0 else m.rr(sec, [], 300 + j, ttl=j, rd=[[j & 255]])
            m.rr(3, nm("end"), A, rd=[[1, 2, 3, 4]])
            out.append(s(m.bytes(), FULL))
            out.append(s(m.bytes(), ["g1", "I", "g2", "n", "g3", "I"]))
            # skipped one by one, and counts that are not the number of entries
            m.counts = list(m.n)
            m.counts[sec] += rng.choice([-256, -1, 1, 256]) if n >= 256 else 1
            out.append(s(m.bytes(), FULL))
    # record data of more bytes than a byte can count
    for l in (255, 256, 257, 511, 512, 4096):
        m = Msg(rng, 0, 3, 0x8400).rr(1, nm("x"), 600, rd=[[7] * l]).rr(1, nm("y"), A, rd=[[1, 2, 3, 4]])
        m.rr(2, nm("z"), TXT, rd=[([200] + [9] * 200) * (l // 201) + ([] if l % 201 == 0 else [l % 201 - 1] + [5] * (l % 201 - 1))])
        m.rr(2, nm("y"), A, rd=[[4, 3, 2, 1]])
        out.append(s(m.bytes(), FULL))
    for plan in PLANS:
        for _ in range(8 if tier == "quick" else 60):
            out.append(s(rand_msg(rng), plan))
    for _ in range(500 if tier == "quick" else 6000):
        out.append(s(rand_msg(rng, malform=0.3), rand_plan(rng)))
    for _ in range(400 if tier == "quick" else 5000):
        out.append(s(mutate(rng, rand_msg(rng)), rand_plan(rng)))
    return out + size_sessions(rng, tier, {"count", "len"})


# ---- C04 -------------------------------------------------------------------------------------------
def c04_sessions(rng, tier):
    quick = tier == "quick"
    out = []
    names = [nm("a"), nm("bc.d"), nm("x.y.z"), []]
    # every type with record data of every length around the right one, followed by another record
    for t in SUPPORTED + [10, 257]:
        for rep in range(3 if quick else 10):
            base = Msg(rng, 0.0, 1, 0x8400)
            base.rr(1, nm("o"), t, rd=rdata(rng, t, names))
            full = base.o[12 + 3 + 10:]
            for cut in range(0, len(full) + 3):
                rd = (full + [7, 0, 0, 0])[:cut]
                m = Msg(rng, 0.0, 1, 0x8400).rr(1, nm("o"), t, rd=[rd]).rr(1, nm("p"), A, rd=[[9, 8, 7, 6]])
                out.append(s(m.bytes(), ["g1", "I"]))
                m = Msg(rng, 0.0, 1, 0x8400).rr(2, nm("o"), t, rd=[rd])
                out.append(s(m.bytes(), ["g2", "I"]))
    # RDLENGTH shorter or longer than the data that follows
    for t in SUPPORTED:
        for rep in range(4 if quick else 20):
            rd = rdata(rng, t, names)
            for d in (-3, -2, -1, 1, 2, 3):
                m = Msg(rng, 0.0, 1, 0x8400).rr(1, nm("o"), t, rd=rd)
                p = find_last_rd(m)
                ln = (m.o[p] << 8 | m.o[p + 1]) + d
                if ln < 0:
                    continue
                m.o[p:p + 2] = e16(ln)
                m.rr(1, nm("p"), rng.choice(SUPPORTED), rd=[[1, 97, 0, 1, 98, 0, 0, 0]])
                out.append(s(m.bytes(), ["g1", "I"]))
    # compressed names in record data, before and inside the record
    for _ in range(500 if quick else 6000):
        out.append(s(rand_msg(rng, types=SUPPORTED, comp=0.8, sizes=(1, 2, 3), malform=0.2), FULL))
    for _ in range(300 if quick else 4000):
        out.append(s(mutate(rng, rand_msg(rng, types=SUPPORTED, comp=0.6, sizes=(0, 1, 2), malform=0.2)), FULL))
    # long strings and names
    for l in ([63, 200, 255] if quick else [62, 63, 127, 128, 200, 254, 255]):
        m = Msg(rng, 0.0, 1, 0x8400).txt(1, nm("t"), [[l] * l, [], [1] * 3])
        m.txt(1, nm("t"), [[3] * 255, [l] * l])
        out.append(s(m.bytes(), ["g1", "I"]))
    for t in SUPPORTED:
        m = Msg(rng, 0.0, 1, 0x8400).rr(1, nm("o"), t, rd=[[255] * 30])
        out.append(s(m.bytes(), ["g1", "I"]))
    return out + size_sessions(rng, tier, {"len", "name"})


# ---- C01 -------------------------------------------------------------------------------------------
def c01_sessions(rng, tier):
    quick = tier == "quick"
    out = []
    for n in range(0, 14):
        out.append(s([rng.randrange(256) for _ in range(n)], FULL))
        out.append(s([0] * n, FULL))
        out.append(s([255] * n, FULL))
    # every ending of a message: cut good messages at every position
    for _ in range(4 if quick else 30):
        b_ = rand_msg(rng, sizes=(1, 1, 2), comp=0.9)
        for i in range(12, len(b_)):
            out.append(s(b_[:i], FULL))
    for _ in range(600 if quick else 8000):
        out.append(s(mutate(rng, rand_msg(rng, malform=0.3)), rand_plan(rng)))
    for _ in range(400 if quick else 5000):
        h = [0, 0, rng.randrange(256), 0, 0, rng.choice([0, 1, 3, 255]), rng.choice([0, 0, 255]), rng.choice([0, 1, 3]), 0, rng.choice([0, 2]), 0, rng.choice([0, 2])]
        body = [rng.choice([0, 0, 1, 2, 3, 12, 16, 33, 63, 64, 97, 128, 192, 193, 255, rng.randrange(256)]) for _ in range(rng.randrange(0, 60))]
        out.append(s(h + body, rand_plan(rng)))
    # long adversarial names: pointer ladders, everything a pointer, maximal labels
    lad = [0, 0, 0, 0, 0, 2, 0, 1, 0, 0, 0, 0, 0]
    while len(lad) < (300 if quick else 1400):
        p = len(lad) - (1 if len(lad) == 13 else 2)
        lad += [0xC0 | p >> 8, p & 255]
    out.append(s(lad, FULL))
    out.append(s([0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255] + [0] * (600 if quick else 3000), FULL))
    out.append(s([0, 0, 0, 0, 255, 255, 0, 0, 0, 0, 0, 0] + [0xC0] * 300, FULL))
    out.append(s([0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0] + ([63] + [97] * 63) * 5, FULL))
    out.append(s([0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0] + ([63] + [97] * 63) * 5 + [0, 0, 1, 0, 1], FULL))
    # long ladders of pointers, and nothing but pointers
    for n in ([4000, 16000] if quick else [4000, 8000, 12000, 16300]):
        lad = [0, 0, 0, 0, 0, 2, 0, 1, 0, 0, 0, 0, 0]
        while len(lad) < n:
            p = len(lad) - (1 if len(lad) == 13 else 2)
            lad += [0xC0 | p >> 8, p & 255]
        out.append(s(lad, FULL))
        m = Msg(rng, 0, 1, 0x8400).rr(1, [], 10, rd=[[0] + lad[13:]])
        p = min(len(m.o) - 2, 16382)
        out.append(s(m.rr(1, nm("x"), PTR, rd=[[0xC0 | p >> 8, p & 255]]).bytes(), FULL))
    for cs in ([65535] * 4, [0, 65535, 65535, 65535], [0, 0, 0, 65535]):
        for l in (100, 3000):
            m = Msg(rng, 0, 1, 0x8400, counts=cs).rr(1, nm("x"), rng.choice([TXT, 10]), rd=[[3, 97, 98, 99] * l])
            out.append(s(m.bytes(), FULL))
            out.append(s(mutate(rng, m.bytes()), FULL))
    return out + size_sessions(rng, tier, {"count", "len", "name"})
