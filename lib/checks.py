"""One function per property: which models are checked, which sessions are run and validated."""
import adv, dec, enc, net, tap, text, query, socks, vals, errs


def dec_model(c):
    return c.generate("MCDecoder", c.pick("MCDecoder.cfg", "MCDecoderDeep.cfg"), limit=c.pick(6000, 40000),
                      note="all messages over a pool of chunks x all call orders: the streaming decoder agrees with the "
                           "declarative reading, stays inside the message, is silent after an error; names terminate")


def c01(c):
    c.build()
    c.validate("TraceWire", dec_model(c), "model messages x calls")
    c.validate("TraceWire", dec.c01_sessions(c.rng, c.tier), "arbitrary bytes")


def c02(c):
    c.build()
    c.validate("TraceWire", dec_model(c), "model messages x calls")
    c.validate("TraceWire", dec.c02_sessions(c.rng, c.tier), "names")


def c03(c):
    c.build()
    c.validate("TraceWire", dec_model(c), "model messages x calls")
    c.validate("TraceWire", dec.c03_sessions(c.rng, c.tier), "messages")


def c04(c):
    c.build()
    c.validate("TraceWire", dec_model(c), "model messages x calls")
    c.validate("TraceWire", dec.c04_sessions(c.rng, c.tier), "record data")


def enc_model(c, label, keep=lambda s: True):
    g = c.generate("MCEncoder", c.pick("MCEncoder.cfg", "MCEncoderDeep.cfg"),
                   note="all encoder call sequences x buffer sizes; the outcome predicate holds for the reference encoder")
    return [s for s in g if keep(s)]


def c05(c):
    c.build()
    c.validate("TraceEnc", [dict(s, cap=s["cap"] + 120) for s in enc_model(c, "m", lambda s: s["cap"] % 5 == 0)], "call sequences")
    c.validate("TraceEnc", enc.c05_sessions(c.rng, c.tier), "messages")


def c06(c):
    c.build()
    c.validate("TraceEnc", enc_model(c, "m"), "call sequences x sizes")
    c.validate("TraceEnc", enc.c06_sessions(c.rng, c.tier), "messages x sizes")


def c07(c):
    c.build()
    g = c.generate("MCHeader", c.pick("MCHeader.cfg", "MCHeaderDeep.cfg"),
                   note="field registers against header bits under all setter sequences")
    c.validate("TraceText", g, "setter sequences")
    c.validate("TraceText", enc.c07_sessions(c.rng, c.tier), "headers")


def c08(c):
    c.build()
    for kind, cfg in (("name", c.pick("MCText2.cfg", "MCText3.cfg")), ("text", c.pick("MCText5.cfg", "MCText6.cfg"))):
        g = c.generate("MCText", cfg, {"KIND": kind}, note=f"{kind}: names built by histories of operations")
        c.validate("TraceText", g, kind + " histories")
    c.validate("TraceText", text.c08_sessions(c.rng, c.tier), "labels and names")


def c09(c):
    c.build()
    c.model("MCMatching", "MCMatching.cfg", note="row sets agree with the matching predicates")
    c.validate("TraceText", text.c09_points(c.rng, c.tier), "selected pairs")
    c.validate("TraceText", text.c09_sessions(c.rng, c.tier), "all 2^32 type pairs and class pairs", shards=8)
    c.extra["exhaustive"] = True


def c19(c):
    c.build()
    g = c.generate("MCText", c.pick("MCText2.cfg", "MCText3.cfg"), {"KIND": "txt"},
                   note="TXT maps under all histories of parse/add_flag/get")
    c.validate("TraceText", g, "TXT histories")
    c.validate("TraceText", text.c19_sessions(c.rng, c.tier), "TXT records")


def c20(c):
    c.build()
    g = c.generate("MCText", "MCText5.cfg", {"KIND": "svc"},
                   note="all PTR targets of up to five labels over a label pool")
    c.validate("TraceText", g, "PTR targets")
    c.validate("TraceText", text.c20_sessions(c.rng, c.tier), "services")


def adv_model(c):
    return c.generate("MCAdvertiser", c.pick("MCAdvertiser.cfg", "MCAdvertiserDeep.cfg"),
                      note="histories of registrations and packets: reference replies satisfy the reply relation, lossy or "
                           "foreign ones do not; the DNS-SD chain of every registered instance is closed")


def some(c, g, n):
    return g if len(g) <= n else c.rng.sample(g, n)


def c10(c):
    c.build()
    c.validate("TraceAdv", some(c, adv_model(c), c.pick(1500, 20000)), "model histories")
    c.validate("TraceAdv", adv.c10_sessions(c.rng, c.tier), "queries")


def c11(c):
    c.build()
    c.validate("TraceAdv", some(c, adv_model(c), c.pick(1000, 20000)), "model histories")
    c.validate("TraceAdv", adv.c11_sessions(c.rng, c.tier), "hostile packets and repetitions")


def c12(c):
    c.build()
    c.validate("TraceAdv", some(c, adv_model(c), c.pick(1000, 20000)), "model histories")
    c.validate("TraceAdv", adv.c12_sessions(c.rng, c.tier), "registrations")


def c13(c):
    c.build()
    g = [adv.c13_from_script(c.rng, s) for s in some(c, adv_model(c), c.pick(1000, 10000))]
    c.validate("TraceAdv", g, "model histories")
    c.validate("TraceAdv", adv.c13_sessions(c.rng, c.tier), "packet schedules")


def res_model(c):
    n = c.pick(1500, 20000)
    g = c.generate("MCResolver", "MCResolver.cfg", limit=n, note="one resolver call: every packet, arrival time and fault; properties and termination")
    g2 = c.generate("MCResolver", c.pick("MCResolver2.cfg", "MCResolverDeep.cfg"), limit=n, note="two calls sharing the resolver")
    return net.both_modes(c.rng, g + net.with_gaps(c.rng, g2))


def disc_model(c, kinds):
    out = []
    n = c.pick(1200, 15000)
    for k in kinds:
        g = c.generate("MCDiscover", "MCDiscover.cfg", {"KIND": k}, limit=n, note=k + ": two packets; properties and termination")
        g += c.generate("MCDiscover", c.pick("MCDiscover3.cfg", "MCDiscover4.cfg"), {"KIND": k}, limit=n, note=k + ": more packets")
        g2 = c.generate("MCDiscover", "MCDiscover12.cfg", {"KIND": k}, limit=n, note=k + ": two calls sharing the discoverer")
        out += g + net.with_gaps(c.rng, g2)
    return net.both_modes(c.rng, out)


def c14(c):
    c.build()
    c.validate("TraceNet", res_model(c), "model schedules")
    c.validate("TraceNet", net.c14_sessions(c.rng, c.tier), "responses")


def c15(c):
    c.build()
    c.validate("TraceNet", res_model(c), "model schedules")
    c.validate("TraceNet", net.c15_sessions(c.rng, c.tier), "servers, timeouts, errors")


def c16(c):
    c.build()
    c.validate("TraceNet", disc_model(c, ["types", "inst"]), "model schedules")
    c.validate("TraceNet", net.c16_sessions(c.rng, c.tier), "responses")


def c17(c):
    c.build()
    c.validate("TraceNet", disc_model(c, ["types", "inst", "load"]), "model schedules")
    c.validate("TraceNet", net.c17_sessions(c.rng, c.tier), "time-outs and traffic")


def c18(c):
    c.build()
    c.validate("TraceNet", disc_model(c, ["load"]), "model schedules")
    c.validate("TraceNet", net.c18_sessions(c.rng, c.tier), "responses")


def c21(c):
    c.build()
    g = []
    for plan in ["types", "inst", "load", "none", "res", "brk", "res2", "list2", "load2", "mixed"]:
        g += c.generate("MCSystem", c.pick("MCSystem.cfg", "MCSystemDeep.cfg"), {"PLAN": plan}, limit=c.pick(300, 4000),
                        note=plan + ": advertisers and client under all fates of every transmission; sound, complete, terminating")
    c.validate("TraceNet", net.both_modes(c.rng, g), "model schedules")
    c.validate("TraceNet", net.c21_sessions(c.rng, c.tier), "registrations and faults")


def c22(c):
    c.build()
    g = c.generate("MCTap", c.pick("MCTap.cfg", "MCTapDeep.cfg"), note="all packet sequences over a pool: every line is logged in order; only errors end the tap")
    c.validate("TraceTap", g, "packet sequences")
    c.validate("TraceTap", tap.c22_sessions(c.rng, c.tier), "messages")


def c23(c):
    c.build()
    g = []
    for k in ["res", "inst"]:
        g += c.generate("MCCalls", "MCCalls.cfg", {"KIND": k}, limit=c.pick(700, 20000),
                        note=k + ": two clients, two rounds of calls, side by side or alone, returned, dropped or panicked")
        c.model("MCCalls", "MCCallsLive.cfg", {"KIND": k, "GEN": "0"}, note=k + ": every round ends")
    c.validate("TraceNet", g, "model schedules")
    c.validate("TraceNet", net.c23_sessions(c.rng, c.tier), "histories of calls")


def c24(c):
    c.build("helpers")
    g = c.generate("MCQuery", "MCQuery.cfg", limit=c.pick(4000, 40000), note="histories of two operations over pools of packets, names, types and buffer sizes")
    c.validate("TraceQuery", g, "model histories")
    c.validate("TraceQuery", query.c24_sessions(c.rng, c.tier), "names, packets and buffers")


def c25(c):
    c.build()
    g = c.generate("MCSockets", c.pick("MCSockets.cfg", "MCSocketsDeep.cfg"), limit=c.pick(4000, 40000),
                   note="histories of objects made, dropped and listening, a fault at any step, other software on the port")
    c.validate("TraceSocks", g, "model histories")
    c.validate("TraceSocks", socks.c25_sessions(c.rng, c.tier), "histories with faults")


def c26(c):
    c.build()
    g = c.generate("MCValues", c.pick("MCValues.cfg", "MCValuesDeep.cfg"), limit=c.pick(4000, 40000),
                   note="sorted and hashed sets behave like sets of contents for every order and every hash that follow the laws")
    c.validate("TraceVals", vals.model_sessions(c.rng, g), "histories of sets")
    c.validate("TraceVals", vals.c26_sessions(c.rng, c.tier), "close values of every kind")


def c27(c):
    c.build("helpers")
    g = c.generate("MCErrors", c.pick("MCErrors.cfg", "MCErrorsDeep.cfg"), limit=c.pick(3000, 40000),
                   note="messages and record data received byte by byte: only the end of the data can be healed by more data, other causes are final")
    c.validate("TraceErr", g, "cut and spoilt messages of the model")
    for kind in ("text", "svc"):
        g = c.generate("MCText", "MCText5.cfg", {"KIND": kind}, limit=c.pick(1500, 20000), note=kind + ": names and PTR targets over a pool")
        c.validate("TraceErr", g, kind + " of the model")
    c.validate("TraceErr", errs.dec_sessions(c.rng, c.tier), "messages")
    c.validate("TraceErr", errs.pure_sessions(c.rng, c.tier), "texts, names, buffers, conversions")
    c.validate("TraceErr", errs.query_sessions(c.rng, c.tier), "queries and buffers")
    c.validate("TraceNet", errs.host_sessions(c.rng, c.tier), "host names")


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
          "C10": c10, "C11": c11, "C12": c12, "C13": c13,
          "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18,
          "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24,
          "C25": c25, "C26": c26, "C27": c27}
