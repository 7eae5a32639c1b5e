"""C14-C18, C21: resolver and discoverer sessions."""
import dictionary
import itertools
from wire import *
import adv

LOCAL = b("local")
TCP, UDP = b("_tcp"), b("_udp")
# Not EAGAIN and ETIMEDOUT, which are time-outs.
ERRNOS = [5, 101, 111, 105, 1, 4, 104, 113, 9, 12, 13, 22, 32, 99, 100, 103, 107, 112]


def both_modes(rng, scripts):
    """Model scripts under both front ends (alternating, so that each half is covered)."""
    out = []
    for i, s in enumerate(scripts):
        out.append(dict(s, m="sync" if (i + rng.randrange(2)) % 2 == 0 else "async"))
    return out


def with_gaps(rng, scripts):
    """Late packets of one call may be received by the next one: shift some arrival times behind the end."""
    out = []
    for s in scripts:
        calls = [dict(c, net=[dict(p) for p in c["net"]]) for c in s["calls"]]
        for c in calls[:-1]:
            for p in c["net"]:
                if "err" not in p and rng.random() < 0.3:
                    p["at"] += rng.choice([41, 60, 100, 300])
        if rng.random() < 0.5:
            calls[-1]["gap"] = rng.choice([1, 10, 50, 400])
        out.append(dict(s, calls=calls))
    return out


# ---- resolver --------------------------------------------------------------------------------
def resolver(srv=None, mc=0, to=40):
    return {"srv": srv or [[10, 0, 0, 1, 0, 53]], "mc": mc, "setto": 1, "to": to}


def ip(rng):
    return rand_ip(rng, 0.4)


def recs(m, rng, sec, names, n, types=None):
    for _ in range(n):
        t = rng.choice(types or [A, A, AAAA, AAAA, CNAME, TXT, MX, SRV, PTR, NS, SOA, 41, 99])
        m.rr(sec, rng.choice(names), t, rng.choice([1, 1, 1, 0x8001, 3, 254]), rng.choice([0, 1, 120, 2**31, 2**32 - 1]),
             rdata(rng, t, names))


def answer(rng, host, kind=None):
    """A packet for a resolver; returns (bytes, id: calls back or None, xor)."""
    names = [host, host, rand_name(rng), [b("cname"), LOCAL], []]
    m = Msg(rng, rng.choice([0, 0.5, 1]), flags=0x8000 | rng.choice([0, 0x180, 0x400, 0x580, 0x200, 3, 0x7fff & 0x87f0]))
    kind = kind or rng.choice(["good", "good", "good", "none", "bad", "badlen", "cut", "query", "foreign", "late", "short", "noise",
                               "other", "long", "surplus", "mut"])
    back, x = 0, 0
    for _ in range(rng.choice([0, 1, 2, 2])):
        m.q(host, rng.choice([A, AAAA]), 1)
    na = rng.choice([1, 1, 2, 4])
    if kind == "good":
        recs(m, rng, 1, names, na)
        if rng.random() < 0.85:
            m.a(1, host, ip(rng))
        recs(m, rng, 1, names, rng.choice([0, 0, 1, 3]))
        if rng.random() < 0.3:
            recs(m, rng, 2, names, rng.choice([0, 1]), [A, AAAA, NS])
            recs(m, rng, 3, names, rng.choice([1, 2]), [A, AAAA])
    elif kind == "none":
        recs(m, rng, 1, names, rng.choice([0, 1, 3]), [CNAME, TXT, MX, 41, 99, 0])
        recs(m, rng, rng.choice([2, 3]), names, rng.choice([0, 2]))
    elif kind == "bad":
        m.a(1, host, ip(rng))
        t = rng.choice(SUPPORTED)
        m.rr(1, host, t, rd=[[rng.choice([0, 1, 5, 64, 192])] * rng.choice([1, 2, 3])])
        if rng.random() < 0.5:
            m.a(1, host, ip(rng))
    elif kind == "badlen":
        for _ in range(na):
            m.a(1, host, ip(rng))
        m.rr(1, host, rng.choice([A, AAAA, PTR]), rd=[[9] * 4], rdlen=rng.choice([3, 5, 200, 65535]))
    elif kind == "cut":
        m.a(1, host, ip(rng))
        m.counts = [m.n[0], 1 + rng.choice([1, 2, 255, 65000]), 0, 0]
    elif kind == "query":
        m.flags &= 0x7fff
        m.a(1, host, ip(rng))
    elif kind == "foreign":
        x = rng.choice([1, 2, 256, 0x8000, 0xffff, 0x100])
        m.a(1, host, ip(rng))
    elif kind == "late":
        back = rng.choice([1, 1, 2])
        m.a(1, host, ip(rng))
    elif kind == "short":
        return m.bytes()[:rng.randrange(12)], 0, 0
    elif kind == "noise":
        return [rng.randrange(256) for _ in range(rng.choice([0, 2, 11, 12, 13, 40, 600]))], rng.choice([0, None]), 0
    elif kind == "other":
        # addresses outside of the answer section contribute nothing
        m.counts = None
        if rng.random() < 0.5:
            m.a(1, host, ip(rng)) if rng.random() < 0.3 else None
        m.a(2, host, ip(rng))
        m.a(3, host, ip(rng))
        if rng.random() < 0.3:
            m.counts = [m.n[0], m.n[1], m.n[2] + 7, 9]
    elif kind == "long":
        n = rng.choice([20, 40, 60, 90])
        while len(m.o) < 1440 and n:
            m.a(1, host, ip(rng))
            n -= 1
    elif kind == "surplus":
        m.a(1, host, ip(rng))
        m.a(1, host, ip(rng))
        m.counts = [m.n[0], 1, 0, 0]
    elif kind == "mut":
        recs(m, rng, 1, names, 2, [A, AAAA, CNAME, TXT])
        y = adv.mutate(rng, m.bytes())
        return y, 0, 0
    y = m.bytes()
    return y[:1500], back, x


def host_text(rng):
    return rng.choice(["a", "a.local", "host.example.org", "host.example.org.", "x" * 63, "A.Local", "é.local", "a b", "_x._tcp.local", ".", "",
                       "a\tb", "1.2.3.4"])


def res_call(rng, text=None, npk=None, faults=0.1, kinds=None):
    c = {"o": "res"}
    h = host_text(rng) if text is None else text
    if rng.random() < 0.6:
        c["h"] = b(h)
        host = [b(x) for x in h.split(".") if x]
    else:
        c["n"] = host = adv.any_name(rng, rng.random() < 0.2)
    net, at = [], 0
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5]) if npk is None else npk):
        at += rng.choice([0, 0, 1, 5, 15, 20, 32])
        y, back, x = answer(rng, host, rng.choice(kinds) if kinds else None)
        p = {"at": at, "b": y}
        if back is not None:
            p["id"] = back
            p["x"] = x
        net.append(p)
    if rng.random() < faults:
        net.append({"at": at + rng.choice([0, 3, 20]), "err": rng.choice(ERRNOS)})
    if rng.random() < 0.2:
        y, back, x = answer(rng, host)
        net.append({"at": at + rng.choice([50, 90, 200]), "b": y, "id": 0})
    c["net"] = net
    if rng.random() < faults:
        c["sf"] = [[rng.randrange(3), rng.choice(ERRNOS + [90])]]
    if rng.random() < 0.2:
        c["gap"] = rng.choice([1, 30, 100])
    return c


def server(rng, six):
    return ([0x20, 1] + [rng.randrange(256) for _ in range(14)] if six else [10, 0, rng.randrange(256), rng.randrange(1, 255)]) + \
        e16(rng.choice([53, 5353, 1, 65535]))


def fix_late(c, i):
    """Ids of earlier calls exist from the second call on; 'late' of the first call becomes foreign."""
    for p in c["net"]:
        if p.get("id", 0) and p["id"] > i:
            p["id"], p["x"] = 0, 0x101
    return c


def res_session(rng, mode, ncalls, mc=0, to=40, **k):
    six = rng.random() < 0.3
    srv = [server(rng, six) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    calls = [fix_late(res_call(rng, **k), i) for i in range(ncalls)]
    # the packets of one call that arrive later must not carry the id of a call yet to come
    return {"k": "net", "m": mode, "res": resolver(srv, mc, to), "calls": calls}


def one_call(mode, net, h="a.local", n=None, to=40, srv=None, after=(), **k):
    c = dict({"o": "res", "net": net}, **({"n": n} if n else {"h": b(h)}), **k)
    return {"k": "net", "m": mode, "res": resolver(srv, to=to), "calls": [c, *after]}


def other_from(rng):
    return rng.choice([[10, 0, 0, 1], [10, 0, 0, 9], [224, 0, 0, 251], [127, 0, 0, 1], [0] * 4, [255] * 4, [32, 1] + [0] * 13 + [7]]) + e16(rng.choice([53, 5353, 0, 1, 65535, rng.randrange(65536)]))


def res_values(rng, tier):
    """Resolver sessions with the numbers and strings of the source."""
    out = []
    host = [b("a"), LOCAL]
    good = lambda h=host: {"b": answer(rng, h, "good")[0], "id": 0}
    idle = {"o": "res", "h": b("b"), "net": []}
    for mode in ("sync", "async"):
        # answers of every size, with every value
        for n in dictionary.ints(1, 90):
            m = Msg(rng, 1, flags=0x8000)
            for j in range(n):
                m.a(1, [b("a")], [10, 1, j // 256, j % 256]) if rng.random() < 0.7 or len(m.o) > 1450 else m.a(1, [b("a")], rand_ip6(rng))
            out.append(one_call(mode, [{"at": 1, "b": m.bytes()[:1500], "id": 0, "from": other_from(rng)}], "a"))
        for v in dictionary.ints(0, 2**32 - 1):
            w = v & 65535
            m = Msg(rng, 1, flags=0x8000 | (w & 0x07ff))
            m.q(host, w, w).rr(1, host, w, c=w, ttl=v, rd=[[1, 2, 3, 4]]).a(1, host, [10, v & 255, v >> 8 & 255, 7], c=w, ttl=v)
            m.a(1, [b("x")], rand_ip(rng), c=1, ttl=v).rr(2, host, A, c=w, ttl=v, rd=[[9, 9, 9, 9]]).rr(3, [], 41, c=w, ttl=v, rd=[[0] * (v % 7)])
            out.append(one_call(mode, [{"at": 1, "b": m.bytes(), "id": 0, "from": other_from(rng)}, dict(good(), at=2)]))
            m = Msg(rng, 1, flags=w).a(1, host, [1, 2, 3, 4])
            out.append(one_call(mode, [{"at": 1, "b": m.bytes(), "id": 0}, dict(good(), at=2)]))
        # the same address twice, many addresses again and again
        for k in range(12):
            m = Msg(rng, 1, flags=0x8000)
            pool = [rand_ip(rng) for _ in range(rng.choice([1, 2, 3]))]
            for _ in range(rng.choice([2, 3, 6, 20])):
                m.a(1, rng.choice([host, [b("x")]]), rng.choice(pool))
            out.append(one_call(mode, [{"at": 1, "b": m.bytes(), "id": 0}], after=[{"o": "res", "h": b("a.local"), "net": [{"at": 1, "b": m.bytes(), "id": 0}]}]))
        # ignored packets, as many as a number of the source
        for n in dictionary.ints(1, 600 if tier == "quick" else 3000):
            kind = rng.choice(["none", "query", "foreign", "short", "bad", "badlen", "noise"])
            y, back, x = answer(rng, host, kind)
            p = {"at": 1, "b": y, "rep": n, **({} if back is None else {"id": back, "x": x})}
            out.append(one_call(mode, [p, dict(good(), at=2)]))
        # ids that run through all values
        for until in sorted(set(rng.sample(dictionary.ints(0, 65535), 5)) | {65533, 65534, 65535, 0, 255}):
            out.append({"k": "net", "m": mode, "res": resolver(),
                        "calls": [dict({"o": "res", "h": b("a.local"), "net": [dict(good(), at=1)]}, **({"warm": {"n": 66000, "until": until}} if j == 0 else {})) for j in range(4)]})
        for n in rng.sample(dictionary.ints(2, 5000), 10):
            out.append({"k": "net", "m": mode, "res": resolver(), "calls": [{"o": "res", "h": b("a.local"), "net": [dict(good(), at=1)], "warm": {"n": n, "b": good()["b"]}}, idle]})
        for l in rng.sample(dictionary.strings(), 60 if tier == "quick" else 200):
            out.append(one_call(mode, [dict(good([l, LOCAL]), at=1)], n=[l, LOCAL]))
    return out


def res_schedules(rng, tier):
    """Servers, time-outs and errors with the numbers of the source."""
    out = []
    idle = {"o": "res", "h": b("b"), "net": []}
    host = [b("a"), LOCAL]
    for mode in ("sync", "async"):
        for v in dictionary.ints(0, 65535):
            srv = [[10, v >> 8, v & 255, 1] + e16(v), [10, 0, 0, 2] + e16(v), [10, 0, 0, 2] + e16(v)]
            out.append(one_call(mode, [{"at": 1, "b": answer(rng, host, "good")[0], "id": 0}], srv=srv[:rng.choice([1, 2, 3])], after=[idle]))
        for n in dictionary.ints(1, 300):
            srv = [[10, 0, rng.randrange(2), rng.randrange(4)] + e16(rng.choice([53, 5353])) for _ in range(n)]
            out.append(one_call(mode, [], srv=srv, sf=[[rng.randrange(n), 101]] if rng.random() < 0.3 else []))
        for to in sorted(set(dictionary.ints(1, 60000)) | {99, 1001, 59999}):
            # longer waits take too many polls
            if mode == "sync" or to <= 2000 or rng.random() < 0.1:
                tol = 8 if mode == "async" else 1
                net = [{"at": to - tol, "b": answer(rng, host, "none")[0], "id": 0}, {"at": 2 * (to - tol), "b": answer(rng, host, "good")[0], "id": 0}] if to > tol else []
                out.append(one_call(mode, net, to=to, after=[idle]))
        if mode == "sync":
            for to in (65536, 100_000, 3_600_000, 4_294_967, 4_294_968, 4_300_000, 36_000_000, 86_400_000, 300_000_000):
                out.append(one_call(mode, [{"at": to - 1, "b": answer(rng, host, "none")[0], "id": 0}], to=to, after=[idle]))
        for e in sorted(set(ERRNOS + [90, 14, 88, 95, 97, 102, 4095])):
            for k in (0, 1, 2):
                out.append(one_call(mode, [{"at": 1, "b": answer(rng, host, "good")[0], "id": 0}], srv=[[10, 0, 0, j, 0, 53] for j in range(1, 4)], sf=[[k, e]], after=[idle]))
            out.append(one_call(mode, [{"at": 3, "err": e}, {"at": 4, "b": answer(rng, host, "good")[0], "id": 0}], after=[idle]))
            out.append(one_call(mode, [{"at": 1, "b": answer(rng, host, rng.choice(["none", "noise", "query"]))[0], "id": 0}, {"at": 3, "err": e}, {"at": 5, "err": e}], after=[idle]))
        # fractions of milliseconds, and limits far beyond what anybody waits for
        for v in sorted(set(dictionary.ints(300, 70000)) | {400, 999, 1999, 2500, 16666, 33333}):
            tol = 7000 if mode == "async" else 1
            net = [{"at": v - tol, "b": answer(rng, host, "none")[0], "id": 0}] if v > tol else []
            out.append(dict(one_call(mode, net, to=v, after=[dict(idle, gap=77)]), us=1))
        for n in HUGE:
            for extra in (0, 1, 50, 100):
                v, mul, plus = split_ms(n + extra)
                s = one_call(mode, [{"at": 200, "b": answer(rng, host, rng.choice(["good", "good", "none"]))[0], "id": 0}, {"at": 420, "err": 111}], to=v,
                             **({"stop": 410} if mode == "async" else {}))
                s["res"]["set"] = [["to", v, mul, plus]]
                out.append(s)
        for n in rng.sample(dictionary.ints(1, 600), 30):
            out.append(one_call(mode, [{"at": j * 30, "b": answer(rng, host, rng.choice(["none", "query"]))[0], "id": 0} for j in range(n)][:200], after=[idle]))
        for l in dictionary.strings(200):
            try:
                bytes(l).decode()
            except ValueError:
                continue
            for t in (l, l + b(".local"), b("x.") + l):
                if rng.random() < 0.5:
                    out.append({"k": "net", "m": mode, "res": resolver(), "calls": [{"o": "res", "h": t, "net": []}]})
    return out


def c14_sessions(rng, tier):
    out = res_values(rng, tier)
    for i in range(500 if tier == "quick" else 6000):
        out.append(res_session(rng, "sync" if i % 2 else "async", rng.choice([1, 1, 2, 3, 4]), rng.choice([0, 0, 4, 6]), faults=0.05))
    # a resolver in use for a long time
    for mode in ("sync", "async"):
        s = res_session(rng, mode, 120, 0, 40, npk=1, faults=0.02)
        out.append(s)
        # many ignored packets in one call
        host = [b("a"), LOCAL]
        net = [dict(zip(("b", "id", "x"), answer(rng, host, rng.choice(["none", "query", "foreign", "short", "bad", "badlen"]))), at=j) for j in range(300)]
        net.append({"at": 301, "b": answer(rng, host, "good")[0], "id": 0})
        out.append({"k": "net", "m": mode, "res": resolver(), "calls": [{"o": "res", "h": b("a.local"), "net": net}]})
    # one packet of every kind, followed by a good one
    for kind in ["none", "bad", "badlen", "cut", "query", "foreign", "late", "short", "noise", "other", "surplus", "mut", "long", "good"]:
        for mode in ("sync", "async"):
            for _ in range(4):
                host = [b("a"), LOCAL]
                calls = []
                for j in range(2):
                    net = []
                    for t, kd in ((1, kind), (5, "good")):
                        y, back, x = answer(rng, host, kd)
                        p = {"at": t, "b": y}
                        if back is not None:
                            p.update(id=back, x=x)
                        net.append(p)
                    calls.append(fix_late({"o": "res", "h": b("a.local"), "net": net}, j))
                out.append({"k": "net", "m": mode, "res": resolver(), "calls": calls})
    # responses of every size up to the maximum
    for n in (28, 29, 30, 31, 40, 80, 92):
        for mode in ("sync", "async"):
            m = Msg(rng, 1, flags=0x8000)
            for j in range(n):
                m.a(1, [b("a")], [10, 1, j // 256, j % 256])
            out.append({"k": "net", "m": mode, "res": resolver(), "calls": [{"o": "res", "h": b("a"), "net": [{"at": 1, "b": m.bytes(), "id": 0}]}]})
    return out


def c15_sessions(rng, tier):
    out = res_schedules(rng, tier)
    for i in range(400 if tier == "quick" else 5000):
        s = res_session(rng, "sync" if i % 2 else "async", rng.choice([1, 2, 3]), rng.choice([0, 0, 0, 4, 6]), rng.choice([1, 10, 40, 75, 500]), faults=0.3)
        if rng.random() < 0.3:
            s["adds"] = [server(rng, rng.random() < 0.5) for _ in range(rng.choice([1, 2, 4]))]
        out.append(s)
    slow(rng, out)
    # many servers
    for mode in ("sync", "async"):
        for n in (9, 40, 260):
            srv = [[10, 0, j >> 8, j & 255, 0, 53] for j in range(n)]
            out.append({"k": "net", "m": mode, "res": resolver(srv), "calls": [{"o": "res", "h": b("a"), "net": [{"at": 1, "b": answer(rng, [b("a")], "good")[0], "id": 0}]},
                                                                            {"o": "res", "h": b("b"), "net": []}]})
    # unparsable host names
    for h in ["a..b", "..", ".a", "a..", "x" * 64, "a." + "y" * 64 + ".b", "é" * 32, "a.b.c." + "d" * 70, " ", "a.b", "x" * 63 + "." + "y" * 63]:
        for mode in ("sync", "async"):
            out.append({"k": "net", "m": mode, "res": resolver(), "calls": [{"o": "res", "h": b(h), "net": []}, {"o": "res", "h": b("ok"), "net": []}]})
    # host names around the size of a packet: 12 + 2 * (n + 4) bytes
    for mode in ("sync", "async"):
        for n in (255, 256, 300, 500, 512, 700, 738, 739, 740, 741, 742, 800, 1480, 1500, 3000):
            for lab in (1, 63):
                labels, left = [], n - 1
                while left > 0:
                    k = min(lab, left - 1) if left != lab + 2 else lab - 1 or 1
                    labels.append([97 + len(labels) % 26] * max(k, 1))
                    left -= k + 1
                h = sum((x + [46] for x in labels), [])
                out.append({"k": "net", "m": mode, "res": resolver(), "calls": [{"o": "res", "h": h, "net": []}, {"o": "res", "n": labels, "net": []},
                                                                                {"o": "res", "h": b("ok"), "net": []}]})
    # packets that keep the call alive, just before and after the timeout
    for mode in ("sync", "async"):
        for to in (20, 100):
            for g in (to - 7, to - 1 if mode == "sync" else to - 8, to, to + 1 if mode == "sync" else to + 8, to + 9):
                for n in (1, 2, 5):
                    net = [{"at": g * (j + 1), "b": answer(rng, [b("a")], "none")[0], "id": 0} for j in range(n)]
                    net.append({"at": g * (n + 1), "b": answer(rng, [b("a")], "good")[0], "id": 0})
                    out.append({"k": "net", "m": mode, "res": resolver(to=to), "calls": [{"o": "res", "h": b("a"), "net": net}, {"o": "res", "h": b("b"), "net": []}]})
    # the timeout set last counts
    for i in range(60 if tier == "quick" else 600):
        s = res_session(rng, "sync" if i % 2 else "async", 3, 0, 40, npk=rng.choice([0, 1]), kinds=["none", "none", "good"], faults=0)
        tos = [5, 10, 33, 40, 77, 100, 450, 1000]
        s["res"]["set"] = [["to", rng.choice(tos)] for _ in range(rng.choice([1, 1, 2, 3]))]
        for c in s["calls"]:
            if rng.random() < 0.5:
                c["set"] = [["to", rng.choice(tos)] for _ in range(rng.choice([1, 2]))]
        out.append(s)
    # server lists: families and multicast
    for mode in ("sync", "async"):
        for first in ([10, 0, 0, 1, 0, 53], [224, 0, 0, 251, 20, 233], [239, 255, 255, 250, 0, 1], [223, 255, 255, 255, 0, 53], [240, 0, 0, 1, 0, 53],
                      [0x20, 1] + [0] * 13 + [1, 0, 53], [255, 2] + [0] * 13 + [251, 20, 233], [254, 128] + [0] * 13 + [1, 0, 53]):
            for add in ([10, 0, 0, 2, 0, 53], [0x20, 1] + [0] * 13 + [2, 0, 53], [224, 0, 0, 251, 20, 233], [255, 2] + [0] * 13 + [251, 20, 233]):
                out.append({"k": "net", "m": mode, "res": resolver([first]), "adds": [add, add], "calls": [{"o": "res", "h": b("a"), "net": []}]})
        for mc in (4, 6):
            out.append({"k": "net", "m": mode, "res": resolver(mc=mc), "adds": [[10, 0, 0, 2, 0, 53], [0x20, 1] + [0] * 13 + [2, 0, 53]],
                        "calls": [{"o": "res", "h": b("a"), "net": []}]})
        # a failing send to each server
        for k in range(4):
            for os in ERRNOS:
                out.append({"k": "net", "m": mode, "res": resolver([[10, 0, 0, j, 0, 53] for j in range(1, 4)]),
                            "calls": [{"o": "res", "h": b("a"), "net": [], "sf": [[k, os]]}, {"o": "res", "h": b("a"), "net": []}]})
    return out


# ---- discovery -------------------------------------------------------------------------------
def discoverer(srv=None, dom=None, mc=0, rto=40, dto=100):
    return {"srv": srv or [10, 0, 0, 1, 20, 233], "dom": [b("d")] if dom is None else dom, "mc": mc, "setto": 1, "rto": rto, "dto": dto}


SVCS = [(b("_a"), 0), (b("_a"), 1), (b("_b"), 0), (b("_A"), 0), (b("_http"), 0)]
INS = [b("i"), b("j"), b("I"), b("My Printer"), [0, 255]]


def tl(t):
    return TCP if t == 0 else UDP


def owner_of(c, dom):
    if c["o"] == "types":
        return [b("_services"), b("_dns-sd"), UDP] + dom
    if c["o"] == "inst":
        return [c["s"], tl(c["t"])] + dom
    return [c["i"], c["s"], tl(c["t"])] + dom


def case_variant(rng, n):
    return [[ch ^ 32 if (65 <= ch <= 90 or 97 <= ch <= 122) and rng.random() < 0.5 else ch for ch in l] for l in n]


PAIRS = [("É", "é"), ("Ü", "ü"), ("ſ", "s"), ("K", "k"), ("İ", "i"), ("ı", "I"), ("ß", "SS"), ("Σ", "ς"), ("Σ", "σ"), ("Ж", "ж"), ("ﬀ", "FF"), ("e\u0301", "é"), ("\u00a0", " "), ("A", "a"), ("Z", "z"),
         ("[", "{"), ("@", "`"), ("_", "\x7f"), ("]", "}"), ("\\", "|"), ("^", "~"), ("1", "\x11"), ("-", "\r"), (".", "\x0e"), (" ", "\0"), ("/", "\x0f"), ("ÿ", "Ÿ"), ("µ", "μ")]
PAIRS = [(list(x.encode()), list(y.encode())) for x, y in PAIRS] + [([0xff], [0xfe]), ([0xc3], [0xe2]), ([0xef, 0xbf, 0xbd], [0xff]), ([0xe9], [0xc9]), ([0x80], [0]), ([0xe1], [0x61]), ([0xc1], [0xe1])]


def look_alikes(rng, kinds):
    """Records owned by, and instances of, names that merely resemble the ones asked for."""
    out = []
    i = 0
    for x, y in PAIRS:
        for pre in (b(""), b("_"), b("_ab")):
            for u, v in ((x, y), (y, x)):
                u, v = pre + u, pre + v
                for o in kinds:
                    i += 1
                    mode = "sync" if i % 2 else "async"
                    dom = rng.choice([[b("d")], [u], [u, b("d")], [b("d"), u]])
                    k = {"types": {"o": o, "brk": 0}, "inst": {"o": o, "s": [95] + u, "t": 0, "brk": 0}, "load": {"o": o, "i": u, "s": rng.choice([[95] + u, b("_a")]), "t": 0, "brk": 0}}[o]
                    own = owner_of(k, dom)
                    swap = [v if l == u else [95] + v if l == [95] + u else l for l in own]
                    net = []
                    for n, ow in enumerate([swap, own, swap]):
                        m = Msg(rng, rng.choice([0, 1]), flags=0x8400)
                        if o == "load":
                            m.srv(1, ow, 1, 2, 3 + n, [u]) if n != 1 else m.a(1, ow, [1, 2, 3, 4])
                            m.txt(1, ow, [u + b("=1"), v + b("=2"), u])
                        else:
                            for s in (u, v):
                                s = [95] + s
                                m.ptr(1, ow, ([s, TCP] if o == "types" else [b(f"i{n}"), s, TCP]) + dom)
                        net.append({"at": n, "b": m.bytes()})
                    out.append(disc_one(mode, k, rng.choice([net, net[:1], net[:2], net[1:]]), dom))
    return out


def txt_counts(rng, tier):
    """Metadata of every number of entries."""
    out = []
    dom = [b("d")]
    c = {"o": "load", "i": b("i"), "s": b("_a"), "t": 0, "brk": 0}
    own = owner_of(c, dom)
    for i, n in enumerate(sorted(set(dictionary.ints(1, 400)) | {2, 10, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300})):
        for x in ([b(f"{j:x}") for j in range(n)], [b(f"{j:x}={j}")[:5] for j in range(n)]):
            if sum(1 + len(e) for e in x) > 1400:
                continue
            m = Msg(rng, 1, flags=0x8400).srv(1, own, 1, 2, 3, [b("h")]).txt(1, own, x)
            if rng.random() < 0.5:
                net = [{"at": 1, "b": m.bytes()}]
            else:
                net = [{"at": 2, "b": Msg(rng, 1, flags=0x8400).txt(1, own, x).bytes()}, {"at": 3, "b": m.bytes()}]
            out.append(disc_one("sync" if (i + len(out)) % 2 else "async", c, net, dom))
            out.append(disc_one("async" if (i + len(out)) % 2 else "sync", c, net, dom))
    # long metadata: few entries, many bytes
    for n in (100, 255, 256, 500, 512, 1000, 1024, 1300, 1400):
        x, left = [], n
        while left > 0:
            k = min(left, 256)
            x.append((b(f"k{len(x)}=") + [rng.randrange(256) for _ in range(300)])[:k - 1])
            left -= k
        m = Msg(rng, 1, flags=0x8400).txt(1, own, x)
        m2 = Msg(rng, 1, flags=0x8400).srv(1, own, 1, 2, 3, [b("h")])
        for mode in ("sync", "async"):
            out.append(disc_one(mode, c, [{"at": 1, "b": m.bytes()}, {"at": 2, "b": m2.bytes()}], dom))
    return out


def target(rng, c, dom):
    """A PTR target: usually one the call asks for."""
    s, t = rng.choice(SVCS) if c["o"] == "types" or rng.random() < 0.25 else (c["s"], c["t"])
    d = dom if rng.random() < 0.8 else rand_name(rng, 2)
    k = rng.random()
    if k < 0.08:
        return rand_name(rng)
    if k < 0.14:
        return [s[1:] or b("x"), tl(t)] + d if c["o"] == "types" else [rng.choice(INS), s[1:] or b("x"), tl(t)] + d
    if k < 0.2:
        return [s, b("_sctp")] + d
    if k < 0.25:
        return [s, tl(t)] if c["o"] == "types" else [rng.choice(INS), s, tl(t)]
    if k < 0.3 and c["o"] == "inst":
        # another spelling of the service name still names the service
        return [rng.choice(INS), case_variant(rng, [s])[0], tl(t)] + d
    return ([s, tl(t)] if c["o"] == "types" else [rng.choice(INS), s, tl(t)]) + d


def disc_packet(rng, c, dom, kind=None):
    own = owner_of(c, dom)
    m = Msg(rng, rng.choice([0, 0.5, 1]), id=rng.choice([0, 12345, rng.randrange(65536)]),
            flags=0x8000 | rng.choice([0x400, 0, 0x200, 3, 0x7800]))
    kind = kind or rng.choice(["good", "good", "good", "good", "other", "badrr", "badlen", "cut", "query", "noise", "sect", "mut", "rel"])
    if rng.random() < 0.3:
        m.q(own, 255, 1)
    load = c["o"] == "load"

    def add(sec=1, owner=None):
        o = own if owner is None else owner
        if rng.random() < 0.15:
            o = case_variant(rng, o)
        cls = rng.choice([1, 0x8001])
        ttl = rng.choice([0, 120, 2**32 - 1])
        if not load and rng.random() < 0.85:
            m.rr(sec, o, PTR, cls, ttl, [("n", target(rng, c, dom))])
        elif rng.random() < 0.5:
            m.rr(sec, o, SRV, cls, ttl, [[0, rng.randrange(4), 0, rng.randrange(4)] + e16(rng.choice([80, 0, 65535, rng.randrange(65536)])),
                                         ("n", rng.choice([[b("h"), LOCAL], own[1:], []]))])
        else:
            x = rng.choice([[[]], [b("k=v")], [b("k=v"), b("K=w"), b("f"), b("=x")], [b("a=") + [rng.randrange(256)]], []])
            m.rr(sec, o, TXT, cls, ttl, [sum(([len(e)] + e for e in x), [])])

    n = rng.choice([1, 1, 2, 3, 6])
    if kind == "noise":
        return [rng.randrange(256) for _ in range(rng.choice([0, 1, 11, 12, 30, 300]))]
    if kind == "query":
        m.flags &= 0x7fff
    for _ in range(n):
        if kind == "other":
            add(1, rng.choice([own[1:], own + [b("x")], [b("x")] + own, own[:-1], [], rand_name(rng)]))
        elif kind == "rel" and rng.random() < 0.5:
            add(1, [own[0] + b("x")] + own[1:])
        elif kind == "sect" and rng.random() < 0.6:
            add(rng.choice([2, 3]))
        else:
            add()
        if kind == "badrr" and rng.random() < 0.7:
            t = rng.choice([PTR, SRV, TXT, A])
            m.rr(1, own, t, rd=[[rng.choice([0, 5, 64, 192])] * rng.choice([0, 1, 3])])
        if rng.random() < 0.15:
            t = rng.choice([A, CNAME, NS, 99, 0])
            m.rr(1, own, t, rd=rdata(rng, t, [own, dom]))
    if kind == "badlen":
        m.rr(1, own, PTR, rd=[("n", own)], rdlen=rng.choice([0, 1, 60000]))
        add()
    if kind == "sect":
        m.n = [m.n[0], m.n[1], m.n[2], m.n[3]]
    if kind == "cut":
        m.counts = [m.n[0], m.n[1] + rng.choice([1, 3, 60000]), m.n[2], m.n[3]]
    y = m.bytes()
    if kind == "sect":
        # records were added in random section order: announce them in order of appearance instead
        y = rebuild(rng, m, y)
    if kind == "mut":
        y = adv.mutate(rng, y)
    return y[:1500]


def rebuild(rng, m, y):
    """Moves the section boundary to a random place: entries behind it are no answers."""
    tot = m.n[1] + m.n[2] + m.n[3]
    a = rng.randrange(tot + 1)
    n = rng.randrange(tot - a + 1)
    return y[:4] + e16(m.n[0]) + e16(a) + e16(n) + e16(tot - a - n) + y[12:]


def bad_case(c, dom):
    """Transport labels are compared exactly; names in other spellings are left undecided."""
    return False


def disc_call(rng, o, dom, dto, npk=None, faults=0.1, dense=False, kinds=None):
    s, t = rng.choice(SVCS)
    c = {"types": {"o": "types"}, "inst": {"o": "inst", "s": s, "t": t}, "load": {"o": "load", "i": rng.choice(INS), "s": s, "t": t}}[o]
    c["brk"] = rng.choice([0, 0, 0, 1, 2, 3]) if o != "load" else 0
    net, at = [], 0
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8]) if npk is None else npk):
        at += rng.choice([0, 1, 5]) if dense else rng.choice([0, 0, 1, 7, 15, 33, 39])
        net.append({"at": at, "b": disc_packet(rng, c, dom, rng.choice(kinds) if kinds else None)})
    if rng.random() < faults:
        net.append({"at": at + rng.choice([0, 2, 30]), "err": rng.choice(ERRNOS)})
    if rng.random() < 0.2:
        net.append({"at": dto + rng.choice([2, 20, 60]), "b": disc_packet(rng, c, dom, "good")})
    c["net"] = net
    if rng.random() < faults:
        c["sf"] = [[rng.randrange(3), rng.choice(ERRNOS)]]
    if rng.random() < 0.2:
        c["gap"] = rng.choice([1, 30, 150])
    return c


def disc_session(rng, mode, kinds, ncalls, mc=0, rto=40, dto=100, **k):
    dom = rng.choice([[b("d")], [b("d")], [LOCAL], [b("x"), b("org")]])
    if mc:
        dom = [LOCAL]
    if rng.random() < 0.3:
        # calls on the same names one after the other
        base = disc_call(rng, rng.choice(kinds), dom, dto, **k)
        calls = [base]
        for _ in range(ncalls - 1):
            n = disc_call(rng, base["o"], dom, dto, **k)
            if rng.random() < 0.7:
                n.update({f: base[f] for f in ("i", "s", "t") if f in base})
            calls.append(n)
    else:
        calls = [disc_call(rng, rng.choice(kinds), dom, dto, **k) for _ in range(ncalls)]
    return {"k": "net", "m": mode, "disc": discoverer(server(rng, rng.random() < 0.3), dom, mc, rto, dto), "calls": calls}


def disc_one(mode, c, net, dom, rto=40, dto=100, after=(), srv=None):
    return {"k": "net", "m": mode, "disc": discoverer(srv, dom, 0, rto, dto), "calls": [dict(c, net=net), *after]}


def disc_values(rng, tier, kinds):
    """Discovery sessions with the numbers and strings of the source."""
    out = []
    quick = tier == "quick"
    dom = [b("d")]
    strs = dictionary.strings()
    ptr = lambda c, v, d: ([v[:63], TCP] if c["o"] == "types" else [v, c["s"], tl(c["t"])]) + d
    for mode in ("sync", "async"):
        for o in kinds:
            c = {"types": {"o": o, "brk": 0}, "inst": {"o": o, "s": b("_a"), "t": 0, "brk": 0}, "load": {"o": o, "i": b("i"), "s": b("_a"), "t": 0, "brk": 0}}[o]
            own = owner_of(c, dom)

            def rec(m, j, **k):
                if o == "load":
                    return m.srv(1, own, j & 3, 0, 80 + j % 60000, [b("h"), LOCAL], **k) if j % 2 else m.txt(1, own, [b(f"k={j}")], **k)
                return m.ptr(1, own, ptr(c, b(f"{'_' if o == 'types' else ''}v{j}"), dom), **k)
            # values of every field
            for v in dictionary.ints(0, 2**32 - 1):
                w = v & 65535
                m = Msg(rng, 1, id=w, flags=0x8000 | (w & 0x7fff))
                m.q(own, w, w).rr(1, own, w if w not in (12, 16, 33) else 99, c=w, ttl=v, rd=[[0, 1, 2]])
                rec(rec(m, w, c=1 | w & 0x8000, ttl=v), w + 1, c=rng.choice([1, 0x8001]), ttl=v)
                m.rr(3, [], 41, c=w, ttl=v, rd=[[]])
                m2 = rec(Msg(rng, 1, flags=0x8400), w + 2)
                if rng.random() < (0.5 if quick else 1):
                    out.append(disc_one(mode, c, [{"at": 1, "b": m.bytes(), "from": other_from(rng)}, {"at": 3, "b": m2.bytes()}], dom))
            # labels of the source
            for l in rng.sample(strs, 40 if quick else 200):
                r = rng.choice(strs)
                k = dict(c)
                if o != "types":
                    k["s"] = [95] + l[:62] if rng.random() < 0.6 else b("_a")
                if o == "load":
                    k["i"] = r
                d = rng.choice([dom, [l], [l, LOCAL]])
                ow = owner_of(k, d)
                m = Msg(rng, 1, flags=0x8400)
                if o == "load":
                    m.srv(1, ow, 1, 2, 3, [l, r]).txt(1, ow, [l, r + [61] + l])
                else:
                    for x in (l, r, [95] + l[:62], [95] + r[:62]):
                        m.ptr(1, ow, ([x, UDP] if o == "types" else [x, k["s"], tl(k["t"])]) + rng.choice([d, [r], [LOCAL]]))
                out.append(disc_one(mode, k, [{"at": 2, "b": m.bytes()}], d))
            # as many packets as a number of the source: all alike, or noise, then something new
            for n in dictionary.ints(1, 300 if quick else 2000):
                m = rec(Msg(rng, 1, flags=0x8400), 1) if o != "load" else Msg(rng, 1, flags=0x8400).a(1, own, [1, 2, 3, 4])
                y = rng.choice([m.bytes(), m.bytes()[:-1], [0] * 9, disc_packet(rng, c, dom, "query"), disc_packet(rng, c, dom, "badlen") if o != "load" else []])
                m2 = rec(rec(Msg(rng, 1, flags=0x8400), 2), 3)
                out.append(disc_one(mode, c, [{"at": 1, "b": y, "rep": n}, {"at": 2, "b": m2.bytes()}], dom))
    return out


def txt_forms(own):
    """SRV and TXT records of the kinds that matter to loading."""
    srv = lambda p: (SRV, [[0, 0, 0, 0] + e16(p), ("n", [b("h"), LOCAL])])
    t = lambda *x: (TXT, [sum(([len(e)] + b(e) for e in x), [])])
    return [srv(1), srv(2), t(""), t(), t("f"), t("k=v"), t("=x"), t("", "k=w"), t("k=", "K=2"), (A, [[1, 2, 3, 4]]), (PTR, [("n", own)])]


def load_orders(rng, tier):
    """All short sequences of records, in one packet or several."""
    out = []
    c = {"o": "load", "i": b("i"), "s": b("_a"), "t": 0, "brk": 0}
    dom = [b("d")]
    own = owner_of(c, dom)
    forms = txt_forms(own)
    seqs = [q for n in (1, 2, 3) for q in itertools.product(range(len(forms)), repeat=n)]
    if tier == "quick":
        seqs = [q for q in seqs if len(q) < 3] + rng.sample([q for q in seqs if len(q) == 3], 400)
    for i, q in enumerate(seqs):
        parts = rng.choice([[q], [[x] for x in q], [q[:1], q[1:]], [q[:2], q[2:]]])
        net = []
        for j, p in enumerate(parts):
            m = Msg(rng, 1, flags=0x8400)
            for f in p:
                t, rd = forms[f]
                m.rr(1, own if rng.random() < 0.93 else [b("j")] + own[1:], t, rng.choice([1, 0x8001]), rng.choice([0, 120]), rd)
            net.append({"at": j * rng.choice([0, 1, 30]), "b": m.bytes()})
        out.append(disc_one("sync" if i % 2 else "async", c, net, dom))
    return out


# Milliseconds at which 32 and 64 bit numbers of milli-, micro- and nanoseconds wrap around.
HUGE = [65536, 2**31 // 10**6, 2**32 // 10**6 + 1, 2**31 // 1000 + 1, 2**32 // 1000 + 1, 2**31, 2**32, 2**63 // 10**6 + 1, 2**64 // 10**6 + 1, 2**63 // 1000 + 1, 2**64 // 1000 + 1,
        86_400_000, 365 * 86_400_000, 2**53]


def split_ms(n):
    """n as value, factor and summand, each within the range of the specification's numbers."""
    mul = 1
    while n // mul >= 1 << 30:
        mul *= 2
    return (n // mul, mul, n % mul)


def slow(rng, sessions, rate=0.25):
    """Callbacks and sends that take their time."""
    for x in sessions:
        if rng.random() < rate:
            for c in x["calls"]:
                if rng.random() < 0.7 and c["o"] in ("types", "inst"):
                    c["cbd"] = [rng.choice([0, 1, 10, 30, 39, 40, 41, 60, 99, 100, 150, 1000]) for _ in range(rng.choice([1, 2, 5]))]
                if rng.random() < 0.4:
                    c["sd"] = [rng.choice([0, 1, 13, 39, 40, 41, 90, 100, 130]) for _ in range(rng.choice([1, 2, 3]))]
    return sessions


def slow_calls(rng):
    """One slow callback at every distance from the limit, with traffic before, during and after it."""
    out = []
    dom = [b("d")]
    for mode in ("sync", "async"):
        for c in ({"o": "types", "brk": 0}, {"o": "inst", "s": b("_a"), "t": 0, "brk": 0}):
            for d in (1, 20, 39, 40, 41, 59, 60, 89, 90, 91, 99, 100, 110, 250):
                for more in ([], [11], [10 + d // 2], [10 + d - 1, 10 + d + 5], [10 + d // 3, 10 + d // 2, 10 + d + 30], [10 + d + 39]):
                    net = [{"at": 10, "b": disc_packet(rng, c, dom, "good")}] + [{"at": max(10, a), "b": disc_packet(rng, c, dom, rng.choice(["good", "other"]))} for a in more]
                    out.append(disc_one(mode, dict(c, cbd=[d, rng.choice([0, 0, d])]), net, dom, after=[dict(c, net=[])] if rng.random() < 0.3 else []))
            for d in ([5], [0, 5], [39], [41], [60, 60], [100], [150], [0, 0, 90]):
                out.append(disc_one(mode, dict(c, sd=d), [{"at": rng.choice([0, 20, 50, 101]), "b": disc_packet(rng, c, dom, "good")}], dom))
                out.append(disc_one(mode, dict(c, sd=d), [], dom))
    return out


def disc_timing(rng, tier):
    """Time-outs, errors and counts of packets with the numbers of the source."""
    out = []
    dom = [b("d")]
    for mode in ("sync", "async"):
        calls = [{"o": "types", "brk": 0}, {"o": "inst", "s": b("_a"), "t": 0, "brk": 0}, {"o": "load", "i": b("i"), "s": b("_a"), "t": 0, "brk": 0}]
        for v in sorted(set(dictionary.ints(1, 100000)) | {99, 1001, 59999}):
            for rto, dto in ((v, 3 * v + 7), (v, v), (max(1, v // 3), v), (40, v), (v, 100), (v, v + 1)):
                if (mode == "sync" or dto <= 1500) and dto // rto < 60:
                    c = rng.choice(calls)
                    net = [{"at": x, "b": disc_packet(rng, c, dom, "other")} for x in ([rng.randrange(dto)] if rng.random() < 0.5 else [])]
                    out.append(disc_one(mode, c, net, dom, rto, dto))
        if mode == "sync":
            for v in (65536, 3_600_000, 4_294_967, 4_294_968, 4_400_000, 36_000_000, 86_400_000, 300_000_000):
                for rto in (v, v // 2 + 1, 2 * v, v // 9):
                    c = rng.choice(calls)
                    out.append(disc_one(mode, c, [{"at": x, "b": disc_packet(rng, c, dom, "other")} for x in rng.choice([[], [v - 1], [1, v // 2]])], dom, rto, v))
        for e in sorted(set(ERRNOS + [90, 14, 88, 95, 97, 102, 4095])):
            for c in calls:
                out.append(disc_one(mode, dict(c, sf=[[rng.choice([0, 1, 2]), e]]), [], dom, after=[dict(c, net=[])]))
                out.append(disc_one(mode, c, [{"at": rng.choice([1, 41]), "err": e}], dom, after=[dict(c, net=[])]))
                out.append(disc_one(mode, c, [{"at": 1, "b": disc_packet(rng, c, dom, "other")}, {"at": 1, "err": e}], dom, after=[dict(c, net=[])]))
        # fractions of milliseconds, and limits far beyond what anybody waits for
        for v in sorted(set(dictionary.ints(300, 70000)) | {400, 999, 1999, 2500, 16666, 33333}):
            c = rng.choice(calls)
            net = [{"at": x, "b": disc_packet(rng, c, dom, rng.choice(["other", "good"]))} for x in ([rng.randrange(20 * v)] if rng.random() < 0.5 else [])]
            if mode == "sync" or 20 * v <= 300000:
                out.append(dict(disc_one(mode, c, net, dom, v, 20 * v + rng.choice([0, 1, 7, 500, 999])), us=1))
        for n in HUGE:
            for extra in (0, 1, 50, 100):
                v, mul, plus = split_ms(n + extra)
                c = dict(rng.choice(calls), brk=1)
                big = lambda f: [f, v, mul, plus]
                # the call must still be there when the answer comes (or its caller loses patience)
                for sets in ([["rto", 60], big("dto")], [big("rto"), big("dto")], [["dto", 250], big("rto")]):
                    if c["o"] == "load":
                        own = owner_of(c, dom)
                        y = Msg(rng, 1, flags=0x8400).srv(1, own, 1, 2, 3, [b("h")]).txt(1, own, [b("k")]).bytes()
                    else:
                        y = disc_packet(rng, c, dom, "good")
                    s = disc_one(mode, dict(c, **({"stop": 240} if mode == "async" else {})), [{"at": 200, "b": y}], dom, v, v)
                    s["disc"]["set"] = sets
                    if mode == "sync":
                        s["calls"][0]["net"].append({"at": 220, "err": 111})
                    out.append(s)
        # many packets: noise does not count as an answer nor end the call
        for n in dictionary.ints(1, 300 if tier == "quick" else 2000):
            c = rng.choice(calls)
            y = disc_packet(rng, c, dom, rng.choice(["other", "noise", "query", "other"]))
            out.append(disc_one(mode, c, [{"at": rng.choice([1, 39]), "b": y, "rep": n}], dom, after=[dict(c, net=[])]))
            d = rng.choice([100, 2000])
            g = max(1, d // n)
            out.append(disc_one(mode, c, [{"at": g * j, "b": y} for j in range(min(n, d // g + 2))], dom, 40, d))
        for c in calls:
            for n in (300, 2000):
                out.append(disc_one(mode, dict(c, warm={"n": n}), [], dom))
            for v in rng.sample(dictionary.ints(0, 65535), 20):
                out.append(disc_one(mode, c, [{"at": 1, "b": disc_packet(rng, c, dom, "other"), "from": [10, 0, 0, 1] + e16(v)}], dom, srv=[10, 0, v >> 8, v & 255] + e16(v)))
    return out


def many_values(rng, tier):
    """As many distinct values as a number of the source, each named several times."""
    out = []
    dom = [b("d")]
    i = 0
    for n in sorted(set(dictionary.ints(2, 1100)) | {300, 1000}):
        o = "inst" if i % 3 else "types"
        i += 1
        c = {"o": o, "s": b("_a"), "t": 0, "brk": rng.choice([0, 0, 0, n, n + 1, n - 1])} if o == "inst" else {"o": o, "brk": rng.choice([0, 0, n])}
        own = owner_of(c, dom)
        vals = [b(f"{'_' if o == 'types' else ''}{j:x}") for j in range(n)]
        seq = vals + rng.sample(vals, min(n, 60)) + vals[:1] + vals[-1:] + [b("_last")] + vals[n // 2:n // 2 + 5]
        net, m = [], Msg(rng, 1, flags=0x8400)
        for v in seq:
            m.ptr(1, own, ([v, b("_a"), TCP] if o == "inst" else [v, TCP]) + dom)
            if len(m.o) > 1440:
                net.append({"at": len(net), "b": m.bytes()})
                m = Msg(rng, 1, flags=0x8400)
        net.append({"at": len(net), "b": m.bytes()})
        out.append(disc_one("sync" if i % 2 else "async", c, net, dom))
    return out


def c16_sessions(rng, tier):
    out = disc_values(rng, tier, ["types", "inst"]) + many_values(rng, tier) + look_alikes(rng, ["types", "inst"])
    for i in range(500 if tier == "quick" else 6000):
        out.append(disc_session(rng, "sync" if i % 2 else "async", ["types", "inst"], rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 4]), faults=0.05,
                                dense=rng.random() < 0.5))
    # hundreds of values, each named in several packets
    for mode in ("sync", "async"):
        for o in ("inst", "types"):
            dom = [b("d")]
            c = {"o": o, "s": b("_a"), "t": 0, "brk": 0} if o == "inst" else {"o": o, "brk": 0}
            net, vals = [], [b(f"{'_' if o == 'types' else ''}v{j}") for j in range(290)]
            for at in range(0, 290, 10):
                m = Msg(rng, 1, flags=0x8400)
                for v in vals[at:at + 14] + vals[:2]:
                    m.ptr(1, owner_of(c, dom), ([v, b("_a"), TCP] if o == "inst" else [v, TCP]) + dom)
                net.append({"at": at // 5, "b": m.bytes()[:1500]})
            out.append({"k": "net", "m": mode, "disc": discoverer(dom=dom), "calls": [dict(c, net=net)]})
    # many values in one packet and over many packets, all repeated
    for mode in ("sync", "async"):
        for brk in (0, 1, 5, 20):
            dom = [b("d")]
            c = {"o": "inst", "s": b("_a"), "t": 0, "brk": brk}
            m = [Msg(rng, 1, flags=0x8400) for _ in range(3)]
            for j in range(45):
                m[j % 3].ptr(1, owner_of(c, dom), [b(f"n{j // 2}"), b("_a"), TCP] + dom)
            out.append({"k": "net", "m": mode, "disc": discoverer(dom=dom), "calls": [dict(c, net=[{"at": 2 * j, "b": x.bytes()} for j, x in enumerate(m)]),
                                                                                     dict(c, brk=0, net=[{"at": 1, "b": m[0].bytes()}])]})
    slow(rng, out, 0.1)
    return out


def c17_sessions(rng, tier):
    out = disc_timing(rng, tier) + slow_calls(rng)
    for i in range(350 if tier == "quick" else 4000):
        rto, dto = rng.choice([(40, 100), (40, 80), (30, 100), (100, 100), (100, 40), (10, 100), (33, 1), (300, 1000), (1, 20), (7, 50)])
        out.append(disc_session(rng, "sync" if i % 2 else "async", ["types", "inst", "load"], rng.choice([1, 2]), rng.choice([0, 0, 4]), rto, dto, faults=0.25,
                                dense=rng.random() < 0.3))
    slow(rng, out)
    # the timeouts set last count, whatever the order
    tos = [1, 10, 33, 40, 77, 100, 250, 1000]
    for i in range(120 if tier == "quick" else 1000):
        s = disc_session(rng, "sync" if i % 2 else "async", ["types", "inst", "load"], rng.choice([1, 2, 3]), 0, 40, 100, npk=rng.choice([0, 1]), faults=0)
        one = lambda: [rng.choice(["rto", "dto"]), rng.choice(tos)]
        s["disc"]["set"] = [["dto", rng.choice(tos)], ["rto", rng.choice(tos)]][::rng.choice([1, -1])] + [one() for _ in range(rng.choice([0, 0, 1, 3]))]
        for c in s["calls"]:
            if rng.random() < 0.5:
                c["set"] = [one() for _ in range(rng.choice([1, 2]))]
        out.append(s)
    # a steady stream of traffic, and single packets at every distance
    for mode in ("sync", "async"):
        for o in ("types", "inst", "load"):
            for g in (1, 5, 19, 20, 21, 39, 40, 41, 45):
                dom = [b("d")]
                c = disc_call(rng, o, dom, 100, 0, 0)
                c["brk"] = 0
                net = [{"at": g * (j + 1), "b": disc_packet(rng, c, dom, rng.choice(["other", "noise", "good"] if o != "load" else ["other", "noise"]))}
                       for j in range(130 // g)]
                out.append({"k": "net", "m": mode, "disc": discoverer(dom=dom), "calls": [dict(c, net=net), dict(c, net=[])]})
            for at in range(0, 104, 3):
                dom = [b("d")]
                c = disc_call(rng, o, dom, 100, 0, 0)
                c.update(brk=0, net=[{"at": at, "b": disc_packet(rng, c, dom, "other")}], sf=[])
                out.append({"k": "net", "m": mode, "disc": discoverer(dom=dom), "calls": [c]})
        # sends failing at each transmission
        for k in range(4):
            c = disc_call(rng, "types", [b("d")], 100, 0, 0)
            c.update(net=[], sf=[[k, 101]])
            out.append({"k": "net", "m": mode, "disc": discoverer(), "calls": [c, dict(c, sf=[])]})
        # domains around the size of a packet: 12 + n + 4 (or twice n + 4) bytes
        for o, sizes in (("types", (200, 700, 1456, 1457, 1458, 1459, 1460, 1461, 1500)), ("inst", (250, 1470, 1474, 1475, 1476, 1477, 1478, 1479, 1480, 1481, 1600)),
                         ("load", (300, 710, 720, 723, 724, 725, 726, 727, 728, 729, 730, 731, 1400))):
            for n in sizes:
                dom = [[120] * 49] * (n // 50) + ([[121] * (n % 50 - 1)] if n % 50 > 1 else [])
                c = disc_call(rng, o, [b("d")], 40, 0, 0)
                c.update(net=[], sf=[], brk=0)
                out.append({"k": "net", "m": mode, "disc": discoverer(dom=dom, dto=40), "calls": [c, c]})
        # changing time-outs
        for rto, dto in ((1, 270), (2, 600), (60000, 120000), (1, 1), (1, 2), (2, 1), (50, 50), (50, 49), (49, 50), (50, 51), (25, 50), (17, 50), (1000, 30), (30, 1000)):
            c = disc_call(rng, "inst", [b("d")], dto, 0, 0)
            c.update(net=[], sf=[])
            out.append({"k": "net", "m": mode, "disc": discoverer(rto=rto, dto=dto), "calls": [c]})
    return out


def c18_sessions(rng, tier):
    out = disc_values(rng, tier, ["load"]) + load_orders(rng, tier) + txt_counts(rng, tier) + look_alikes(rng, ["load"])
    for i in range(500 if tier == "quick" else 6000):
        out.append(disc_session(rng, "sync" if i % 2 else "async", ["load"], rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 4]), faults=0.05,
                                dense=rng.random() < 0.5))
    return out


# ---- end to end ------------------------------------------------------------------------------
def sys_advs(rng, n):
    """Advertisers whose instances are pairwise different (also across advertisers)."""
    out, used = [], set()
    svcs = [adv.rand_svc(rng) for _ in range(2)]
    for a in range(n):
        h, ops = adv.rand_regs(rng, rng.choice([0, 1, 2, 3, 5, 8]))
        if rng.random() < 0.7:
            h = b(f"host{a}")
        good = []
        for o in ops:
            if o["o"] == "inst":
                if rng.random() < 0.7:
                    o["s"] = rng.choice(svcs)
                if rng.random() < 0.5:
                    o["t"] = 0
                key = (str(adv.lower(o["i"])), str(adv.lower(o["s"])), o["t"])
                if key in used:
                    continue
                used.add(key)
            good.append(o)
        out.append({"h": h, "ip": rand_ip(rng), "from": [10, 0, 0, a + 1, 20, 233], "ops": good})
    return out


def fate(rng, loss, delays):
    if rng.random() < loss:
        return []
    return [rng.choice(delays) for _ in range(rng.choice([1, 1, 1, 2, 3]))]


def c21_sessions(rng, tier):
    out = []
    for i in range(1500 if tier == "quick" else 12000):
        advs = sys_advs(rng, rng.choice([1, 1, 2, 2, 3]))
        insts = [o for a in advs for o in a["ops"] if o["o"] == "inst"]
        hosts = [a["h"] for a in advs] + [o["h"] for a in advs for o in a["ops"] if o["o"] == "name"]
        res = rng.random() < 0.25
        calls = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if res:
                h = rng.choice(hosts) if rng.random() < 0.9 else b("nobody")
                calls.append({"o": "res", "n": [h, LOCAL]})
                continue
            k = rng.choice(["types", "inst", "inst", "load", "load"])
            if k == "types" or not insts:
                calls.append({"o": "types", "brk": rng.choice([0, 0, 0, 1, 3])})
                continue
            o = rng.choice(insts)
            if rng.random() < 0.1:
                o = dict(o, s=b("_none"))
            if k == "inst":
                calls.append({"o": "inst", "s": o["s"], "t": o["t"], "brk": rng.choice([0, 0, 0, 1, 2])})
            else:
                calls.append({"o": "load", "i": o["i"], "s": o["s"], "t": o["t"]})
        for c in calls:
            c["net"] = []
            if rng.random() < 0.15:
                c["gap"] = rng.choice([1, 40, 200])
        loss = rng.choice([0, 0, 0.3, 0.6, 0.9])
        delays = rng.choice([[0, 1, 5], [3, 20, 39, 41], [0, 50, 99, 101, 150], [60, 95]])
        fates = [[fate(rng, loss, delays) for _ in advs] for _ in range(4 * len(calls))]
        s = {"k": "net", "m": "sync" if i % 2 else "async", "advs": advs, "fates": fates, "calls": calls}
        if res:
            s["res"] = resolver(mc=rng.choice([0, 4]), to=rng.choice([40, 100]))
        else:
            s["disc"] = discoverer(dom=[LOCAL], mc=rng.choice([0, 4]))
        out.append(s)
    out += sys_values(rng, tier)
    # many registrations, up to what fits into one reply and beyond
    for i in range(40 if tier == "quick" else 400):
        n = rng.choice([2, 10, 20, 31, 32, 33, 40, 50, 64, 80])
        kind = i % 4
        h = b("big")
        if kind == 0:
            ops = [{"o": "name", "h": h, "ip": ([10, j >> 8, j & 255, 1] if rng.random() < 0.9 else rand_ip6(rng))} for j in range(n)]
            calls = [{"o": "res", "n": [h, LOCAL]}]
        else:
            svc = lambda j: b(f"_s{j % 7}") if kind == 2 else b(f"_s{j}") if kind == 3 else b("_s")
            ops = [{"o": "inst", "i": b(f"i{j}"), "s": svc(j), "t": 0, "port": j, "host": [h, LOCAL], "x": [], "fl": [b("f")] * rng.choice([0, 1])} for j in range(n)]
            j = rng.randrange(n)
            calls = [{"o": "types", "brk": 0}, {"o": "inst", "s": svc(j), "t": 0, "brk": 0}, {"o": "load", "i": b(f"i{j}"), "s": svc(j), "t": 0}]
        advs = [{"h": b("adv"), "ip": [10, 9, 9, 9], "from": [10, 0, 0, 1, 20, 233], "ops": ops}]
        s = {"k": "net", "m": "sync" if i // 4 % 2 else "async", "advs": advs, "fates": [[[1]]] * 12, "calls": [dict(c, net=[]) for c in calls]}
        if kind == 0:
            s["res"] = resolver()
        else:
            s["disc"] = discoverer(dom=[LOCAL])
        out.append(s)
    return out


def sys_values(rng, tier):
    """Registrations with the numbers and strings of the source, and other spellings of ordinary ones."""
    out, quick = [], tier == "quick"
    strs = [s for s in dictionary.strings()]
    up = lambda l: [x - 32 if 97 <= x <= 122 else x for x in l]

    def run(h, ops, calls, i, n=1):
        s = {"k": "net", "m": "sync" if i % 2 else "async", "fates": [[[1]] * n] * (4 * len(calls)), "calls": [dict(c, net=[]) for c in calls],
             "advs": [{"h": h, "ip": rand_ip(rng), "from": [10, 0, 0, 1, 20, 233], "ops": ops}]}
        if calls[0]["o"] == "res":
            s["res"] = resolver()
        else:
            s["disc"] = discoverer(dom=[LOCAL])
        out.append(s)

    def both(h, i, svc, t, port, fl, x, cased, k):
        op = {"o": "inst", "i": i, "s": svc, "t": t, "port": port, "host": [h, LOCAL], "x": x, "fl": fl}
        f = up if cased else list
        run(h, [op], [{"o": "types", "brk": 0}, {"o": "inst", "s": f(svc), "t": t, "brk": 0}, {"o": "load", "i": f(i), "s": f(svc), "t": t}], k)
        run(h, [op], [{"o": "res", "n": [f(h), LOCAL]}], k)
    for k, l in enumerate(rng.sample(strs, 80 if quick else len(strs))):
        r = rng.choice(strs)
        both(l, r, [95] + l[:15], k % 2, rng.randrange(65536), [[b for b in r if 32 <= b < 127 and b != 61] or [97]], [], k % 3 == 0, k // 2)
    for k, l in enumerate(["My Printer", "ÄÖÜ drucker", "a.b", "a\\b", "x" * 63, "UPPER", "Mixed Case 2", " lead", "trail ", "\0", "_under", "-", "1"]):
        for cased in (False, True):
            for e in (0, 1):
                both(b(l) if l.isascii() else list(l.encode()), list(l.encode()), b("_IPP" if k % 2 else "_ipp"), k % 2, 631, [], [], cased, e)
    for k, v in enumerate(dictionary.ints(0, 65535)):
        both(b("h"), b(f"i{v}"), b("_s"), k % 2, v, [], [], False, k // 2)
    # as many of everything as a number of the source, up to what fits
    for k, n in enumerate(dictionary.ints(1, 70)):
        ops = [{"o": "inst", "i": b(f"i{j}"), "s": b("_s"), "t": 0, "port": j, "host": [b("h"), LOCAL], "x": [], "fl": [[97 + j % 26] * (n % 60 + 1)] if j == 0 else []} for j in range(min(n, 30))]
        run(b("h"), ops, [{"o": "inst", "s": b("_s"), "t": 0, "brk": 0}, {"o": "load", "i": b("i0"), "s": b("_s"), "t": 0}, {"o": "types", "brk": 0}], k)
        ops = [{"o": "name", "h": b("many"), "ip": [10, 1, j, 1]} for j in range(n)]
        run(b("h"), ops, [{"o": "res", "n": [b("many"), LOCAL]}, {"o": "res", "n": [b("h"), LOCAL]}], k)
        # label lengths
        if n <= 63:
            both([120] * n, [121] * n, [95] + [122] * (n - 1), k % 2, n, [[98] * n], [], False, k)
        # the same call again and again
        ops = [{"o": "inst", "i": b("i"), "s": b("_s"), "t": 0, "port": 9, "host": [b("h"), LOCAL], "x": [], "fl": []}]
        c = rng.choice([{"o": "types", "brk": 0}, {"o": "inst", "s": b("_s"), "t": 0, "brk": 0}, {"o": "load", "i": b("i"), "s": b("_s"), "t": 0}])
        run(b("h"), ops, [c] * min(n, 20 if quick else 70), k)
    return out


# ---- several calls, several clients ----------------------------------------------------------
def endings(rng, mode, c, rate):
    """Ways in which a call may end other than by returning everything it found."""
    if rng.random() >= rate:
        return c
    k = rng.random()
    if mode == "async" and k < 0.6:
        c["stop"] = rng.choice([-1, 0, 0, 1, 2, 5, 10, 20, 33, 38, 39, 40, 41, 42, 60, 80, 98, 99, 100, 101, 150])
    elif c["o"] == "res":
        c["take"] = rng.choice([0, 0, 1, 1, 2])
        c["leak"] = rng.randrange(2)
    elif c["o"] != "load":
        c["pan"] = rng.choice([1, 1, 2, 3])
    return c


def own(c):
    return c.get("w", 0) * 2 + (c["o"] != "res")


def c23_session(rng, mode, dom=None):
    dom = rng.choice([[b("d")], [LOCAL]])
    with_res, with_disc = rng.choice([(1, 0), (0, 1), (1, 1), (1, 1)])
    twin = rng.randrange(2)
    base = {o: disc_call(rng, o, dom, 100, npk=0, faults=0) for o in ("types", "inst", "load")}
    host = rng.choice(["a.local", "h.d"])
    calls = []
    for i in range(rng.choice([2, 2, 3, 3, 4, 6])):
        npk = rng.choice([0, 1, 1, 2, 3])
        if with_res and (not with_disc or rng.random() < 0.4):
            c = res_call(rng, host if rng.random() < 0.8 else None, npk=npk, faults=0.05,
                         kinds=["good", "good", "good", "late", "bad", "none", "foreign"])
            c = fix_late(c, i)
        else:
            c = disc_call(rng, rng.choice(["types", "inst", "inst", "load", "load"]), dom, 100, npk=npk, faults=0.05,
                          kinds=["good", "good", "good", "good", "badrr", "other", "noise"])
            if rng.random() < 0.8:
                for p in c["net"]:
                    if "b" in p:
                        p["b"] = disc_packet(rng, base[c["o"]], dom, "good")
                c.update({f: base[c["o"]][f] for f in ("i", "s", "t") if f in base[c["o"]]})
        c["w"] = rng.randrange(2) if twin else 0
        calls.append(endings(rng, mode, c, 0.6))
    if mode == "async":
        owners = set()
        for i, c in enumerate(calls[:-1]):
            owners = owners | {own(c)} if i and calls[i - 1].get("par") else {own(c)}
            if own(calls[i + 1]) not in owners and rng.random() < 0.7:
                c["par"] = 1
        for i, c in enumerate(calls):
            if c.get("par") or (i and calls[i - 1].get("par")):
                c.pop("gap", None)
    s = {"k": "net", "m": mode, "twin": twin, "calls": calls}
    if with_res:
        s["res"] = resolver(to=rng.choice([40, 40, 15]))
    if with_disc:
        s["disc"] = discoverer(dom=dom, rto=rng.choice([40, 40, 25]))
    return s


def c23_sessions(rng, tier):
    out = []
    quick = tier == "quick"
    for i in range(1500 if quick else 15000):
        out.append(c23_session(rng, "async" if i % 3 else "sync"))
    # a call of each kind, ended in each way at each of many moments, then the same call again
    dom = [b("d")]
    for o in ("res", "types", "inst", "load"):
        for stop in range(-1, 125, 7 if quick else 1):
            if o == "res":
                mk = lambda n: {"o": "res", "h": b("a.local"), "net": n}
                pk = lambda: {"b": answer(rng, [b("a"), LOCAL], "good")[0], "id": 0}
                s = {"res": resolver()}
            else:
                c = disc_call(rng, o, dom, 100, npk=0, faults=0)
                c.pop("gap", None)
                mk = lambda n: dict(c, net=n, brk=0)
                pk = lambda: {"b": disc_packet(rng, c, dom, "good")}
                s = {"disc": discoverer(dom=dom)}
            for n1 in ([], [dict(pk(), at=3)], [dict(pk(), at=30), dict(pk(), at=39), dict(pk(), at=77)]):
                out.append(dict(s, k="net", m="async", calls=[dict(mk(n1), stop=stop), mk([dict(pk(), at=1)])]))
                out.append(dict(s, k="net", m="async", calls=[dict(mk(n1), stop=stop), mk([]), mk([dict(pk(), at=1)])]))
    # many abandoned calls, then one that counts
    for n in [20, 100] if quick else [20, 100, 300, 1000, 3000]:
        for o in ("res", "inst", "load"):
            c = disc_call(rng, "inst" if o == "res" else o, dom, 100, npk=0, faults=0)
            c.pop("gap", None)
            c["brk"] = 0
            mk = (lambda net: {"o": "res", "h": b("a.local"), "net": net}) if o == "res" else (lambda net: dict(c, net=net))
            pk = (lambda: {"b": answer(rng, [b("a"), LOCAL], "good")[0], "id": 0, "at": 2}) if o == "res" else (lambda: {"b": disc_packet(rng, c, dom, "good"), "at": 2})
            out.append({"k": "net", "m": "async", "calls": [dict(mk([]), stop=rng.choice([0, 1])) for _ in range(n)] + [mk([pk()])],
                        "res" if o == "res" else "disc": resolver() if o == "res" else discoverer(dom=dom)})
    return out
