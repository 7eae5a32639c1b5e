"""C10-C13: advertiser sessions."""
import dictionary
from wire import *
from enc import any_name

LOCAL = b("local")
TYPES = [255, 255, 255, A, AAAA, PTR, SRV, TXT, MX, NS, 252, 253, 254, 0, 7, 65535, 256, 267]
CLASSES = [1, 1, 1, 1, 255, 255, 0, 2, 3, 254, 256, 257, 0x7fff, 0x8001, 0x80ff, 0x8003]
META = [b("_services"), b("_dns-sd"), b("_udp"), LOCAL]


def pkt(m):
    return {"o": "pkt", "b": m.bytes() if isinstance(m, Msg) else list(m)}


def session(ops, h=None, ip=None):
    return {"k": "adv", "h": h or b("host"), "ip": ip or [192, 168, 0, 7], "ops": ops}


def rand_label(rng, big=False):
    if rng.random() < 0.6:
        return b(rng.choice(["a", "b", "host", "printer", "_x", "x.y", "_tcp", "local"]))
    return [rng.choice([97, 98, 46, 0, 255, 192, 32, 95]) for _ in range(rng.choice([1, 2, 5] + ([63] if big else [])))]


def rand_svc(rng):
    return b(rng.choice(["_a", "_b", "_http", "_services"])) if rng.random() < 0.8 else [95] + [rng.randrange(33, 127) for _ in range(3)]


def lower(l):
    return [c + 32 if 65 <= c <= 90 else c for c in l]


def rand_txt(rng, big=False):
    """Strings whose keys are pairwise different ignoring case, or repeated identically."""
    keys = rng.sample(["k", "path", "a", "zz", "K2", "é"], rng.randrange(0, 4))
    x = []
    for k in keys:
        v = [rng.randrange(256) for _ in range(rng.choice([0, 1, 4] + ([200, 250] if big else [])))]
        x.append(b(k) + ([61] + v if rng.random() < 0.7 else []))
    if rng.random() < 0.2:
        x.append(b("k=again"))
    if rng.random() < 0.15:
        x.insert(0, b("=nokey"))
    fl = [b(f) for f in rng.sample(["f", "flag", "k"], rng.randrange(0, 2))]
    return x, fl


def rand_inst(rng, hosts, big=False):
    x, fl = rand_txt(rng, big)
    if not x and rng.random() < 0.3:
        x = [[]]
    return {"o": "inst", "i": rand_label(rng, big), "s": rand_svc(rng), "t": rng.randrange(2), "host": rng.choice(hosts),
            "port": rng.choice([0, 1, 80, 255, 256, 5353, 65535]), "x": x, "fl": fl}


def rand_regs(rng, n, big=False):
    h = rand_label(rng)
    hosts = [[h, LOCAL], [rand_label(rng), LOCAL], [], any_name(rng)]
    ops = []
    for _ in range(n):
        ops.append({"o": "name", "h": rng.choice(hosts[:2])[0], "ip": rand_ip(rng)} if rng.random() < 0.3 else rand_inst(rng, hosts, big))
    return h, ops


def tl(t):
    return b("_tcp") if t == 0 else b("_udp")


def db_names(h, ops):
    out = [[h, LOCAL], META]
    for o in ops:
        if o["o"] == "name":
            out.append([o["h"], LOCAL])
        elif o["o"] == "inst":
            out += [[o["i"], o["s"], tl(o["t"]), LOCAL], [o["s"], tl(o["t"]), LOCAL], o["host"]]
    return out


def other_name(rng, n):
    """A close relative of a name (never one that differs in letter case only)."""
    k = rng.randrange(6)
    n = [list(l) for l in n]
    if k == 0:
        return n[1:]
    if k == 1:
        return n[:-1]
    if k == 2:
        return [b("x")] + n
    if k == 3:
        return n + [b("x")]
    if k == 4 and n:
        i = rng.randrange(len(n))
        n[i] = n[i][:-1] or b("q")
        return n
    return [b(".".join("".join(map(chr, l)) for l in n))[:63]] if n else [b("local")]


def query(rng, names, nq=None, types=TYPES, classes=CLASSES, hdr=True):
    m = Msg(rng, rng.choice([0, 0, 0.7, 1]), id=rng.choice([0, 1, 255, 256, 65535, rng.randrange(65536)]))
    if hdr:
        # AA, TC, RD, RA and reserved bits are the sender's business
        m.flags = rng.choice([0, 0, 0x100, 0x400, 0x200, 0x80, 0x40, 0x20, 0x10, 0x7f0])
    for _ in range(rng.choice([1, 1, 1, 2, 3, 5]) if nq is None else nq):
        n = rng.choice(names)
        if rng.random() < 0.2:
            n = other_name(rng, n)
        m.q(n, rng.choice(types), rng.choice(classes))
    return m


def c10_sessions(rng, tier):
    out = []
    for i in range(260 if tier == "quick" else 3000):
        h, ops = rand_regs(rng, rng.choice([0, 1, 2, 3, 5]))
        names = db_names(h, ops)
        ps = []
        for _ in range(rng.choice([3, 6, 10])):
            m = query(rng, names)
            if rng.random() < 0.2:  # known answers, additionals and trailing bytes play no role
                sec = rng.choice([1, 2, 3])
                m.a(sec, rng.choice(names), [1, 2, 3, 4])
            if rng.random() < 0.1:
                m.o += [0] * rng.randrange(1, 9)
            ps.append(pkt(m))
        # packets may come between registrations
        mix = ops + ps
        if rng.random() < 0.3:
            rng.shuffle(mix)
        out.append(session(mix, h, rand_ip(rng)))
    # one question of every kind for every name
    for i in range(3 if tier == "quick" else 30):
        h, ops = rand_regs(rng, 3)
        names = []
        for n in db_names(h, ops):
            if n not in names:
                names.append(n)
        ps = [pkt(Msg(rng, 0, id=7).q(n, t, c)) for n in names for t in sorted(set(TYPES)) for c in (1, 255, 3)]
        rng.shuffle(ps)
        for j in range(0, len(ps), 40):
            out.append(session(ops + ps[j:j + 40], h))
    # every query type and class value near the interesting ones
    inst = {"o": "inst", "i": b("i"), "s": b("_s"), "t": 0, "host": [b("host"), LOCAL], "port": 80, "x": [b("k=v")]}
    full = [b("i"), b("_s"), b("_tcp"), LOCAL]
    for lo in range(0, 300, 30):
        out.append(session([inst] + [pkt(Msg(id=t).q(n, t, 1)) for t in range(lo, lo + 30) for n in (full, [b("host"), LOCAL], META)]))
        out.append(session([inst] + [pkt(Msg(id=t).q(full, 255, t)) for t in range(lo, lo + 30)]))
    out += overflow_sessions(rng, 12 if tier == "quick" else 120)
    out += many_sessions(rng, 3 if tier == "quick" else 20)
    out += value_sessions(rng, tier)
    return out


def value_sessions(rng, tier):
    """Counts, lengths and values that are the numbers and strings of the source."""
    out = []
    quick = tier == "quick"
    # answers in one reply, up to what fits (23 bytes each) and beyond
    for n in sorted(set(dictionary.ints(1, 70)) | {63, 64, 65, 66, 70, 90}):
        h = b("h")
        ops = [{"o": "name", "h": h, "ip": [10, 0, 0, j]} for j in range(n - 1)]
        out.append(session(ops + [pkt(Msg(id=n).q([h, LOCAL], A)), pkt(Msg(id=n).q([h, LOCAL], 255)), pkt(Msg(id=n).q([b("x"), LOCAL], A).q([h, LOCAL], A))], h))
        ops = [{"o": "inst", "i": [97 + j % 26, 97 + j // 26], "s": b("_s"), "t": 0, "host": [], "port": j, "x": [], "fl": []} for j in range(n)]
        out.append(session(ops + [pkt(Msg(id=n).q([b("_s"), b("_tcp"), LOCAL], PTR)), pkt(Msg(id=n).q(META, PTR))]))
    inst = {"o": "inst", "i": b("i"), "s": b("_s"), "t": 0, "host": [b("host"), LOCAL], "port": 80, "x": [b("k=v")], "fl": []}
    full, host = [b("i"), b("_s"), b("_tcp"), LOCAL], [b("host"), LOCAL]
    # questions in one query
    for n in dictionary.ints(1, 500):
        m = Msg(id=n)
        for j in range(n - 1):
            m.q(rng.choice([[b("x")], [], host]), rng.choice([TXT, 7]))
        out.append(session([inst, pkt(m.q(host, A)), pkt(Msg(id=n).q(host, A))]))
    # values of type, class, id, port; records behind the questions; lengths of packets
    ps = []
    for v in dictionary.ints(0, 65535):
        for n in (host, full):
            ps += [pkt(Msg(id=v).q(n, v, 1)), pkt(Msg(id=v).q(n, 255, v)), pkt(Msg(id=v).q(n, v, 255))]
        ps.append(pkt(Msg(id=v).q(host, A).rr(3, [], 41, c=v, ttl=v * 65537 % 2**32, rd=[[0, v & 255]])))
        ps.append(pkt(Msg(id=v).q(host, 255).rr(1, host, A, c=rng.choice([1, v]), ttl=v, rd=[[192, 168, 0, 7]])))
    for i in range(0, len(ps), 40):
        out.append(session([inst] + ps[i:i + 40]))
    for v in sorted(set(dictionary.ints(0, 65535))):
        o = dict(inst, port=v)
        out.append(session([o, pkt(Msg(id=v).q(full, SRV)), pkt(Msg(id=v, flags=v & 0x7f0).q(full, SRV)), pkt(Msg(id=v, flags=v).q(full, SRV))]))
    for n in dictionary.ints(28, 9000):
        m = Msg(id=n).q(host, A)
        out.append(session([pkt(m.bytes() + [0] * (n - 28)), pkt(Msg(id=n).q(host, A).rr(3, [], rng.choice([41, TXT, 99]), rd=[[0] * (n - 28)])), pkt(m)]))
    # known answers: the registered records themselves, in every section
    for i in range(60 if quick else 600):
        h, ops = rand_regs(rng, rng.choice([1, 2, 3]))
        for o in ops:
            if o["o"] == "inst":
                o["x"], o["fl"] = [b("k=v")], []
        ps = []
        addr = [(h, [192, 168, 0, 7])] + [(o["h"], o["ip"]) for o in ops if o["o"] == "name"]
        for _ in range(4):
            m = Msg(rng, rng.choice([0, 1]), id=rng.randrange(65536))
            for n in rng.sample(db_names(h, ops), 2):
                m.q(n, 255)
            sec, ttl, c = rng.choice([1, 1, 2, 3]), rng.choice([120, 119, 60, 59, 0, 4500]), rng.choice([1, 0x8001])
            k = dict(ttl=ttl, c=c)
            for a, ip in addr:
                m.a(sec, [a, LOCAL], ip, **k)
            for o in ops:
                if o["o"] == "inst":
                    n = [o["i"], o["s"], tl(o["t"]), LOCAL]
                    m.srv(sec, n, 0, 0, o["port"], o["host"], **k).txt(sec, n, [b("k=v")], **k).ptr(sec, n[1:], n, **k).ptr(sec, META, n[1:], **k)
            ps.append(pkt(m))
        out.append(session(ops + ps, h))
    # labels that are the strings of the source
    pool = dictionary.strings()
    for i in range(0, len(pool), 3):
        ops = []
        for l in pool[i:i + 3]:
            o = rng.choice(pool)
            ops += [{"o": "name", "h": l, "ip": rand_ip(rng)}, {"o": "inst", "i": l, "s": [95] + l[:62], "t": rng.randrange(2), "host": [l, o], "port": 9, "x": [l], "fl": []},
                    {"o": "inst", "i": o, "s": l if l[0] == 95 else b("_x"), "t": rng.randrange(2), "host": [o], "port": 9, "x": [b("k=") + l], "fl": []}]
        h = rng.choice(pool)
        names = []
        for n in db_names(h, ops):
            for x in (n, n[1:], n[:1]):
                if x not in names:
                    names.append(x)
        out.append(session(ops + [pkt(Msg(rng, 1, id=i).q(n, 255)) for n in names], h))
    return out


def repeat_sessions(rng, tier):
    """One packet over and over again: as often as a number of the source, and beyond 2^16."""
    out = []
    host = [b("host"), LOCAL]
    kinds = [Msg(id=1).q(host, A), Msg(id=2).q([b("x"), LOCAL], A), Msg(id=3, flags=0x8000).a(1, host, [1, 2, 3, 4]), [1, 2, 3], Msg(id=4, counts=[9, 0, 0, 0]).q(host, A),
             Msg(id=5, flags=0x2800).q(host, A), Msg(id=6, flags=1).q(host, A)]
    probe = pkt(Msg(id=7).q(host, 255))
    for k in kinds:
        ns = sorted(set(dictionary.ints(2, 5000)) | {127, 128, 255, 256, 300})
        out.append(session(sum(([dict(pkt(k), rep=n), probe] for n in rng.sample(ns, min(len(ns), 20))), [])))
        out.append(session([dict(pkt(k), rep=66000), probe, dict(pkt(k), rep=66000), probe]))
    out.append(session([dict(pkt(k), rep=300) for k in kinds] + [probe] + [dict(pkt(k), rep=3) for k in kinds] + [probe]))
    return out


def mixed_history(rng, n):
    """Registrations between identical packets: replies follow the registrations, nothing else."""
    out = []
    for _ in range(n):
        h, ops = rand_regs(rng, rng.choice([2, 3, 5]))
        for o in list(ops):
            if rng.random() < 0.4:
                ops.append(dict(o))
        names = db_names(h, ops)
        qs = [pkt(query(rng, names, nq=rng.choice([1, 1, 2]), types=[255, A, PTR, SRV], classes=[1, 255])) for _ in range(3)]
        # the same questions under another id, the same bytes with another flag
        for q in list(qs):
            y = list(q["b"])
            y[rng.choice([0, 1])] ^= rng.choice([1, 128, 255])
            qs.append({"o": "pkt", "b": y})
        if rng.random() < 0.5:
            qs.append(pkt(hostile(rng, names)))
        seq = []
        for o in ops:
            seq += [o] + [rng.choice(qs) for _ in range(rng.choice([1, 2, 3]))]
        out.append(session(seq + qs + qs[::-1], h))
    return out


def many_sessions(rng, n):
    """Hundreds of registrations, queries of hundreds of questions, many packets."""
    out = []
    for i in range(n):
        ops = []
        for j in range(rng.choice([120, 300])):
            if j % 3 == 0:
                ops.append({"o": "name", "h": b(f"n{j % 260}"), "ip": [10, 0, j >> 8, j & 255]})
            else:
                ops.append({"o": "inst", "i": b(f"i{j}"), "s": b(f"_s{j % 130}"), "t": j % 2, "host": [b(f"n{j}"), LOCAL], "port": j, "x": [b(f"k={j}")], "fl": []})
        names = db_names(b("host"), ops)
        ps = [pkt(query(rng, names[2:], nq=1, types=[255, SRV, A, PTR], classes=[1])) for _ in range(20)]
        last = ops[-1]
        for o in (ops[-1], ops[-2], ops[-3], ops[0], ops[1]):
            n_ = [o["h"], LOCAL] if o["o"] == "name" else [o["i"], o["s"], tl(o["t"]), LOCAL]
            ps.append(pkt(Msg(id=j).q(n_, 255)))
        m = Msg(rng, 1, id=6)
        for _ in range(260):
            m.q([b("nobody")], A)
        m.q(n_, 255)
        ps.append(pkt(m))
        m = Msg(rng, 1, id=7)
        while len(m.o) < 1460:
            m.q([b("x")], 1)
        m.q(n_, 255)
        ps.append(pkt(m))
        out.append(session(ops + ps))
    h, ops = rand_regs(rng, 3)
    names = db_names(h, ops)
    qs = [query(rng, names, nq=1).bytes() for _ in range(6)]
    out.append(session(ops + [pkt(rng.choice(qs) if rng.random() < 0.7 else hostile(rng, names)) for _ in range(400)], h))
    return out


def overflow_sessions(rng, n):
    """Replies around and beyond 1500 bytes."""
    out = []
    for i in range(n):
        ops = []
        for j in range(rng.choice([5, 8, 20, 60, 80])):
            ops.append({"o": "inst", "i": b(f"i{j}") + [120] * rng.choice([0, 10, 50]), "s": b("_s"), "t": 0, "host": [b("host"), LOCAL],
                        "port": j, "x": [b("k=") + [rng.randrange(256) for _ in range(rng.choice([0, 100, 240]))]]})
        svc = [b("_s"), b("_tcp"), LOCAL]
        ps = [pkt(Msg(id=i).q(svc, PTR)), pkt(Msg(id=i).q(META, PTR)), pkt(Msg(id=i).q(svc, 255).q(META, 255)),
              pkt(Msg(rng, 1, id=1).q(svc, 255).q(META, 255).q([b("host"), LOCAL], 255)), pkt(Msg(id=2).q([b("host"), LOCAL], A))]
        m = Msg(rng, 1)
        for o in rng.sample(ops, min(len(ops), 8)):
            m.q([o["i"], o["s"], b("_tcp"), LOCAL], 255)
        ps.append(pkt(m))
        out.append(session(ops + ps + ps[:2]))
    # exactly 1499..1502 bytes: one A record per name, the last name adjusts the size
    for size in range(1494, 1507):
        # reply: 12 + k records of (host.local = h + 8) + 10 + 4
        h = b("h" * 18)
        k = (size - 12) // 40
        rest = size - 12 - 40 * k
        ops = [{"o": "name", "h": h, "ip": [10, 0, j // 256, j % 256]} for j in range(k - 1)]
        m = Msg(id=size).q([h, LOCAL], A)
        # rest + 40 bytes left: an instance's TXT record has name + 10 + data
        ops2 = [{"o": "inst", "i": b("i"), "s": b("_s"), "t": 0, "host": [b("h"), LOCAL], "port": 1,
                 "x": [b("k=") + [7] * v]} for v in [rest + 40 + 40 - 19 - 10 - 3 - 40]]
        if ops2[0]["x"] and len(ops2[0]["x"][0]) >= 2:
            m.q([b("i"), b("_s"), b("_tcp"), LOCAL], TXT)
            out.append(session(ops + ops2 + [pkt(m)], h))
    return out


def mutate(rng, x):
    x = list(x)
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.randrange(6)
        if k == 0 and x:
            x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
        elif k == 1 and x:
            x = x[:rng.randrange(len(x))]
        elif k == 2 and x:
            x[rng.randrange(len(x))] = rng.choice([0, 255, 192, 12, 63, 64])
        elif k == 3:
            x += [rng.randrange(256) for _ in range(rng.randrange(1, 20))]
        elif k == 4 and len(x) > 12:
            i = rng.randrange(4, 12)
            x[i] = rng.choice([0, 1, 2, 255])
        elif x:
            i = rng.randrange(len(x))
            x[i:i] = [rng.choice([0, 192, 255, rng.randrange(256)])]
    return x[:1500]


def hostile(rng, names):
    """Packets that are no proper query (or only nearly)."""
    k = rng.randrange(9)
    m = query(rng, names, types=[255, A, PTR], classes=[1, 255])
    if k == 0:
        m.flags = 0x8000 | rng.randrange(0x8000)  # response
    elif k == 1:
        m.flags = rng.randrange(1, 16) << 11  # opcode
    elif k == 2:
        m.flags = rng.randrange(1, 16)  # response code
    elif k == 3:
        m.counts = [m.n[0] + rng.choice([1, 2, 255, 65535 - m.n[0]]), 0, 0, 0]
    elif k == 4:
        m.counts = [rng.randrange(m.n[0] + 1), rng.choice([0, 5]), rng.choice([0, 65535]), 0]
    elif k == 5:
        return mutate(rng, m.bytes())
    elif k == 6:
        return m.bytes()[:rng.randrange(0, 30)]
    elif k == 7:
        x = m.bytes()
        return x[:12] + [192, rng.choice([0, 12, 13, 200])] + x[12:]
    else:
        return [rng.randrange(256) for _ in range(rng.choice([0, 1, 11, 12, 13, 17, 40, 300]))]
    return m.bytes()


def c11_sessions(rng, tier):
    out = []
    for i in range(300 if tier == "quick" else 3000):
        h, ops = rand_regs(rng, rng.choice([0, 1, 2, 4]))
        names = db_names(h, ops)
        good = [pkt(query(rng, names, types=[255, A, PTR, SRV], classes=[1, 255])) for _ in range(rng.choice([1, 2, 3]))]
        ps = list(good)
        for _ in range(rng.choice([2, 5, 10])):
            ps.append(pkt(hostile(rng, names)))
            if rng.random() < 0.5:
                ps.append(rng.choice(good))
        if rng.random() < 0.3:
            ps = ops[1:] + ps
            rng.shuffle(ps)
            ops = ops[:1]
        out.append(session(ops + ps, h, rand_ip(rng)))
    # every header bit and opcode/rcode value alone, with an answerable question behind it
    for lo in range(0, 16, 4):
        out.append(session([pkt(Msg(id=9, flags=1 << i).q([b("host"), LOCAL], A)) for i in range(lo, lo + 4)]))
        out.append(session([pkt(Msg(id=9, flags=(i << 11) | j).q([b("host"), LOCAL], A)) for i in range(lo, lo + 4) for j in range(0, 16, 3)]))
    # every truncation of a query with two questions
    full = Msg(rng, 1, id=3).q([b("host"), LOCAL], A).q([b("x"), LOCAL], 255).bytes()
    out.append(session([pkt(full[:i]) for i in range(len(full) + 1)]))
    # long replies before short ones, in a shared buffer
    out += overflow_sessions(rng, 4)
    # a metadata entry that fits no character string (see known-findings.json)
    big = {"o": "inst", "i": b("i"), "s": b("_s"), "t": 0, "host": [b("host"), LOCAL], "port": 80, "x": [b("k")], "fl": [[97] * 300]}
    out.append(session([big, pkt(Msg(id=1).q([b("i"), b("_s"), b("_tcp"), LOCAL], TXT))]))
    return out + repeat_sessions(rng, tier) + mixed_history(rng, 60 if tier == "quick" else 600)


def c12_sessions(rng, tier):
    out = []

    def ask_all(h, ops, n=1):
        names = []
        for x in db_names(h, ops):
            if x not in names:
                names.append(x)
        return [pkt(Msg(id=rng.randrange(65536)).q(x, 255, rng.choice([1, 255]))) for x in names]

    for i in range(250 if tier == "quick" else 2500):
        h, ops = rand_regs(rng, rng.choice([1, 2, 3, 5]), big=i % 5 == 0)
        seq = []
        for j, o in enumerate(ops):
            seq.append(o)
            if rng.random() < 0.3:
                seq += ask_all(h, ops[:j + 1])
        out.append(session(seq + ask_all(h, ops), h, rand_ip(rng)))
    # metadata of every shape
    for x in ([], [[]], [b("=x")], [b("k")], [b("k=")], [b("k"), b("k=v")], [b("a=1"), b("b"), b("c=")], [[255]], [[], b("k")],
              [b("k=") + [61] * 3], [b("k") * 120], [b("k=") + list(range(253))], [b("v" + str(j) + "=" + "x" * j) for j in range(20)]):
        for fl in ([], [b("f")]):
            o = {"o": "inst", "i": b("i"), "s": b("_s"), "t": len(x) % 2, "host": [b("h"), LOCAL], "port": 9, "x": x, "fl": fl}
            if not x:
                del o["x"]
                o["x"] = []
            out.append(session([o] + ask_all(b("host"), [o])))
    # instances of one service, one instance twice, equal names under both transports
    a = {"o": "inst", "i": b("i"), "s": b("_s"), "t": 0, "host": [b("h"), LOCAL], "port": 9, "x": [b("k=v")], "fl": []}
    for v in ({}, {"port": 10}, {"t": 1}, {"s": b("_t")}, {"i": b("j")}, {"host": []}, {"x": []}, {"i": b("_s"), "s": b("_s")}):
        ops = [a, dict(a, **v)]
        out.append(session(ops + ask_all(b("host"), ops)))
    # labels of every byte and length
    for c in range(256):
        ops = [{"o": "name", "h": [c], "ip": [c, 0, 255, 1]}, dict(a, i=[c, 97], s=[95, c])]
        out.append(session(ops + ask_all(b("host"), ops)))
    for l in (1, 2, 62, 63):
        ops = [{"o": "name", "h": [97] * l, "ip": list(range(16))}, dict(a, i=[98] * l, s=[95] * l)]
        out.append(session(ops + ask_all(b("host"), ops)))
    for l in range(1, 64):
        r = lambda: [rng.randrange(256) for _ in range(l)]
        ops = [{"o": "name", "h": r(), "ip": rand_ip(rng)}, dict(a, i=r(), s=[95] + r()[1:], t=l % 2), dict(a, i=b("j"), s=[95] + b("svc-name-" * 7)[:l - 1], t=1, host=[r(), LOCAL])]
        out.append(session(ops + ask_all(b("host"), ops)))
    # metadata of every length up to what fits into one reply, and as many entries
    full = [b("i"), b("_s"), b("_tcp"), LOCAL]
    for n in sorted(set(dictionary.ints(1, 1440)) | set(range(60, 1440, 60))):
        x, left, j = [], n, 0
        while left > 0:
            k = min(left, rng.choice([256, 256, 100, 31]))
            x.append((b(f"{chr(97 + j % 26)}{j}=") + [rng.randrange(256) for _ in range(300)])[:k - 1])
            left -= k
            j += 1
        ops = [dict(a, x=x, host=[b("h")]), dict(a, i=b("z"))]
        out.append(session(ops + [pkt(Msg(id=n).q(full, TXT)), pkt(Msg(id=n).q(full, SRV)), pkt(Msg(id=n).q([b("z")] + full[1:], 255))]))
    for n in dictionary.ints(1, 300):
        ops = [dict(a, x=[b(f"{j:x}") for j in range(n)]), dict(a, i=b("z"))]
        out.append(session(ops + [pkt(Msg(id=n).q(full, TXT)), pkt(Msg(id=n).q(full, SRV)), pkt(Msg(id=n).q([b("z")] + full[1:], 255))]))
    # the same registration many times, others in between
    for n in dictionary.ints(1, 30 if tier == "quick" else 64):
        ops = [dict(a, x=[])] * n + [dict(a, i=b("z"))] + [{"o": "name", "h": b("h"), "ip": [1, 2, 3, 4]}] * n
        out.append(session(ops + [pkt(Msg(id=n).q(full, SRV)), pkt(Msg(id=n).q([b("h"), LOCAL], A)), pkt(Msg(id=n).q(full[1:], PTR)), pkt(Msg(id=n).q([b("z")] + full[1:], 255))]))
    # more registrations than anybody expects
    for n in (600, 1100) if tier == "quick" else (600, 1100, 2100, 4200):
        for kind in range(3):
            ops = [{"o": "name", "h": b(f"n{j}"), "ip": [10, 0, j >> 8, j & 255]} if kind == 0 or kind == 2 and j % 2 else
                   {"o": "inst", "i": b(f"i{j}"), "s": b(f"_s{j % (7 if kind == 1 else 500)}"), "t": j % 2, "host": [b(f"n{j}")], "port": j, "x": [b(f"k={j}")], "fl": []}
                   for j in range(n)]
            ps = []
            for j in sorted({0, 1, n // 2, n - 1, n - 2, *[rng.randrange(n) for _ in range(3)]}):
                o = ops[j]
                ps.append(pkt(Msg(id=j).q([o["h"], LOCAL] if o["o"] == "name" else [o["i"], o["s"], tl(o["t"]), LOCAL], 255)))
            out.append(session(ops + ps))
    return out + [x for x in value_sessions(rng, tier) if rng.random() < 0.4]


# ---- listeners -------------------------------------------------------------------------------
ERRNOS = [5, 100, 111, 105, 4, 101, 104, 113, 1, 9, 12, 13, 22, 32, 99, 103, 107, 112]


def rand_from(rng):
    if rng.random() < 0.2:
        return rng.choice([[224, 0, 0, 251], [127, 0, 0, 1], [0, 0, 0, 0], [255] * 4, [192, 168, 0, 7], [169, 254, 0, 9]]) + e16(rng.choice([5353, 53, rng.randrange(1, 65536)]))
    return [10, 0, rng.randrange(256), rng.randrange(256)] + e16(rng.choice([1, 5353, 53, 65535, rng.randrange(1, 65536)]))


def listen(mode, h, ops, net, sf=()):
    return {"k": "listen", "m": mode, "h": h, "ip": [192, 168, 0, 7], "ops": ops, "net": net, "sf": [list(f) for f in sf]}


def c13_from_script(rng, sc):
    """A history of the advertiser model as a listener session: registrations first, then the packets."""
    ops = [o for o in sc["ops"] if o["o"] != "pkt"]
    net, at = [], 0
    for o in sc["ops"]:
        if o["o"] == "pkt":
            at += rng.choice([0, 0, 1, 7])
            net.append({"at": at, "from": rand_from(rng), "b": o["b"]})
    net.append({"at": at + rng.choice([0, 1]), "err": rng.choice(ERRNOS)})
    return {"k": "listen", "m": rng.choice(["sync", "async"]), "h": sc["h"], "ip": sc["ip"], "ops": ops, "net": net, "sf": []}


def c13_sessions(rng, tier):
    out = []
    for i in range(300 if tier == "quick" else 3000):
        h, ops = rand_regs(rng, rng.choice([0, 1, 2]))
        names = db_names(h, ops)
        mode = "sync" if i % 2 == 0 else "async"
        froms = [rand_from(rng) for _ in range(rng.choice([1, 2, 4]))]
        net, at = [], 0
        for _ in range(rng.choice([1, 3, 8, 15])):
            at += rng.choice([0, 0, 0, 1, 3, 20])
            x = query(rng, names, types=[255, A, PTR, SRV, TXT], classes=[1, 1, 255]).bytes() if rng.random() < 0.6 else hostile(rng, names)
            if rng.random() < 0.15:
                x = rng.choice(net)["b"] if net else x
            if len(x) > 1500:
                x = x[:1500]
            net.append({"at": at, "from": rng.choice(froms), "b": x})
        at += rng.choice([0, 1, 5])
        net.append({"at": at, "err": rng.choice(ERRNOS)})
        # nothing behind the error may be received
        if rng.random() < 0.3:
            net.append({"at": at + 1, "from": froms[0], "b": query(rng, names).bytes()[:1500]})
        sf = [[rng.randrange(0, 4), rng.choice(ERRNOS + [90, 1])]] if rng.random() < 0.25 else []
        out.append(listen(mode, h, ops, net, sf))
    # long histories: runs of bad packets, then good ones; ids that wrap around
    for mode in ("sync", "async"):
        for kind in ("bad", "empty", "good", "mixed"):
            good = Msg(id=5).q([b("host"), LOCAL], A).bytes()
            net = []
            for j in range(300):
                x = {"bad": [0] * 4 + [0, 1] + [0] * 6 + [192], "empty": [], "good": [j >> 8, j & 255] + good[2:],
                     "mixed": good if j % 3 else hostile(rng, [[b("host"), LOCAL]])}[kind]
                net.append({"at": j // 4, "from": rand_from(rng), "b": x[:1500]})
            net += [{"at": 80, "from": rand_from(rng), "b": good}, {"at": 81, "err": 5}]
            out.append(listen(mode, b("host"), [], net))
    # one packet over and over again
    host = [b("host"), LOCAL]
    for mode in ("sync", "async"):
        for y in (Msg(id=1).q(host, A).bytes(), [0] * 11, Msg(id=3, flags=0x8000).a(1, host, [1, 2, 3, 4]).bytes(), Msg(id=2).q([b("x")], A).bytes(), []):
            ns = dictionary.ints(2, 3000)
            net, good = [], Msg(id=9).q(host, 255).bytes()
            for j, n in enumerate(rng.sample(ns, min(len(ns), 12)) + [300, 66000]):
                net += [{"at": j, "from": rand_from(rng), "b": y, "rep": n}, {"at": j, "from": rand_from(rng), "b": good}]
            out.append(dict(listen(mode, b("host"), [], net + [{"at": 60, "err": 5}]), short=1))
        # every error, on receiving and on sending
        for e in sorted(set(ERRNOS + [90, 14, 88, 95, 97, 100, 102, 4095])):
            good = {"at": 0, "from": rand_from(rng), "b": Msg(id=9).q(host, 255).bytes()}
            out.append(listen(mode, b("host"), [], [good, {"at": 1, "err": e}, dict(good, at=2), {"at": 3, "err": 5}]))
            for k in (0, 1):
                out.append(listen(mode, b("host"), [], [good, good, good, {"at": 3, "err": 5}], [[k, e]]))
        # every sender
        for v in dictionary.ints(1, 65535):
            f = rand_from(rng)[:4] + e16(v)
            good = Msg(id=v).q(host, rng.choice([A, 255]), rng.choice([1, 255, 0x8001])).bytes()
            out.append(listen(mode, b("host"), [], [{"at": 0, "from": f, "b": good}, {"at": 0, "from": rand_from(rng), "b": good}, {"at": 0, "from": f, "b": good}, {"at": 3, "err": 5}]))
        # packets of every length
        for v in dictionary.ints(28, 1500):
            good = Msg(id=v).q(host, A).bytes()
            out.append(listen(mode, b("host"), [], [{"at": 0, "from": rand_from(rng), "b": good + [0] * (v - 28)},
                                                    {"at": 0, "from": rand_from(rng), "b": Msg(id=v).q(host, A).rr(3, [], 41, rd=[[0] * max(0, v - 39)]).bytes()[:1500]},
                                                    {"at": 0, "from": rand_from(rng), "b": good}, {"at": 3, "err": 5}]))
    out += listen_rounds(rng, tier)
    # packets of maximal size, empty datagrams, overflowing replies
    for mode in ("sync", "async"):
        m = Msg(id=5)
        while len(m.o) + 16 <= 1500:
            m.q([b("host"), LOCAL], A)
        x = m.bytes()
        ops = [{"o": "name", "h": b("host"), "ip": [1, 2, 3, j]} for j in range(80)]
        net = [{"at": 0, "from": rand_from(rng), "b": []}, {"at": 0, "from": rand_from(rng), "b": x},
               {"at": 1, "from": rand_from(rng), "b": [0] * 1500}, {"at": 1, "from": rand_from(rng), "b": [255] * 1500},
               {"at": 2, "from": rand_from(rng), "b": Msg(id=6).q([b("host"), LOCAL], A).bytes()}, {"at": 3, "err": 5}]
        out.append(listen(mode, b("host"), [], net))
        out.append(listen(mode, b("host"), ops, net))
    return out


def listen_rounds(rng, tier):
    """Listeners that listen again after an error, or after an async call was dropped, with registrations in between."""
    out = []
    for i in range(200 if tier == "quick" else 2500):
        mode = "sync" if i % 3 == 0 else "async"
        h, ops = rand_regs(rng, rng.choice([0, 1]))
        every, rounds = list(ops), []
        for k in range(rng.choice([2, 2, 3, 5])):
            if k:
                _, ops = rand_regs(rng, rng.choice([0, 0, 1, 2]))
                every = every + ops
            names = db_names(h, every)
            net, at = [], 0
            for _ in range(rng.choice([0, 1, 2, 4])):
                at += rng.choice([0, 0, 1, 3, 20])
                x = query(rng, names, types=[255, A, PTR, SRV, TXT], classes=[1, 1, 255]).bytes() if rng.random() < 0.8 else hostile(rng, names)
                net.append({"at": at, "from": rand_from(rng), "b": x[:1500]})
            r = {"ops": ops, "net": net, "sf": [[rng.randrange(0, 3), rng.choice(ERRNOS)]] if rng.random() < 0.15 else []}
            if mode == "async" and rng.random() < 0.6:
                r["stop"] = rng.choice([0, 1, 2, at, at + 1, at + 5, at + 60])
            else:
                net.append({"at": at + rng.choice([0, 1]), "err": rng.choice(ERRNOS)})
            rounds.append(r)
        # what still waits must not keep the last round from ending
        rounds[-1].pop("stop", None)
        rounds[-1]["net"].append({"at": 300, "err": 5})
        out.append(dict(rounds[0], k="listen", m=mode, h=h, ip=rand_ip(rng), more=rounds[1:]))
    return out
