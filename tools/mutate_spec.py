#!/usr/bin/env python3
"""Shows that the models are not vacuous: every listed edit of the specification makes the named model fail.
Not a check: it says nothing about the code. Usage: mutate_spec.py [module]"""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
# (model, config, environment, file, old, new)
M = [
 ("MCDecoder", "MCDecoder", {}, "Decoder", "!.pos = e.p, !.left[d.sec + 1] = @ - 1", "!.pos = e.p"),
 ("MCDecoder", "MCDecoder", {}, "Decoder", "!.pos = e.p, ", ""),
 ("MCDecoder", "MCDecoder", {}, "Decoder", "IF d.bad \\/ d.left", "IF d.left"),
 ("MCDecoder", "MCDecoder", {}, "Decoder", "[d EXCEPT !.bad = TRUE]", "[d EXCEPT !.left[d.sec + 1] = @ - 1]"),
 ("MCDecoder", "MCDecoder", {}, "Decoder", "IF x.r = \"none\" THEN DecSkip(b, [d EXCEPT !.sec = d.sec + 1], to)", "IF TRUE THEN DecSkip(b, [d EXCEPT !.sec = d.sec + 1], to)"),
 ("MCDecoder", "MCDecoder", {}, "Wire", "IF ptr >= s.min", "IF ptr > s.min"),
 ("MCDecoder", "MCDecoder", {}, "Wire", "IF s.pos + 1 + b > lim", "IF s.pos + b > lim"),
 ("MCDecoder", "MCDecoder", {}, "Wire", "IF r.p + 10 + len > Len(buf) THEN NoEntry", "IF r.p + 10 > Len(buf) THEN NoEntry"),
 ("MCEncoder", "MCEncoder", {}, "Encoder", "\\E m \\in good..(all - 1) :", "\\E m \\in 0..(all - 1) :"),
 ("MCEncoder", "MCEncoder", {}, "Encoder", "/\\ Len(d.s[sec + 1]) = Len(x)", "/\\ Len(d.s[sec + 1]) <= Len(x)"),
 ("MCEncoder", "MCEncoder", {}, "Wire", "EncHeader(id, flags, cq, ca, cn, cx) == E16(id) \\o E16(flags) \\o E16(cq) \\o E16(ca)", "EncHeader(id, flags, cq, ca, cn, cx) == E16(id) \\o E16(flags) \\o E16(ca) \\o E16(cq)"),
 ("MCEncoder", "MCEncoder", {}, "Wire", "E16(Len(rd)) \\o rd", "E16(Len(rd) + 1) \\o rd"),
 ("MCHeader", "MCHeader", {}, "Header", "f = \"ra\" -> <<1, 7, 1>>", "f = \"ra\" -> <<1, 6, 1>>"),
 ("MCHeader", "MCHeader", {}, "Header", "((v % 2^a[3]) - GetField(b, f))", "(v - GetField(b, f))"),
 ("MCMatching", "MCMatching", {}, "Matching", "t \\in {MB, MG, MR}\n", "t \\in {MB, MG}\n"),
 ("MCText", "MCText5", {"KIND": "text"}, "Names", "IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p", "p"),
 ("MCText", "MCText2", {"KIND": "name"}, "Names", "ValidLabel(b) == Len(b) \\in 1..MaxLabel", "ValidLabel(b) == Len(b) \\in 1..62"),
 ("MCText", "MCText2", {"KIND": "txt"}, "Txt", "Usable(x[i]) /\\ Lower(KeyOf(x[i])) \\notin Keys(m)", "Usable(x[i])"),
 ("MCText", "MCText2", {"KIND": "txt"}, "Txt", "IN (m \\ old) \\cup", "IN m \\cup"),
 ("MCText", "MCText5", {"KIND": "svc"}, "Service", "PtrIsService(n) == Len(n) >= 3", "PtrIsService(n) == Len(n) >= 2"),
 ("MCAdvertiser", "MCAdvertiser", {}, "Advertiser", "[n |-> svc, rec |-> Rec(\"PTR\", <<>>, <<full>>, <<>>)]", "[n |-> full, rec |-> Rec(\"PTR\", <<>>, <<full>>, <<>>)]"),
 ("MCAdvertiser", "MCAdvertiser", {}, "Advertiser", "ELSE \\A i \\in want : \\E k \\in 1..Len(ans)", "ELSE \\E i \\in want : \\E k \\in 1..Len(ans)"),
 ("MCAdvertiser", "MCAdvertiser", {}, "Advertiser", "/\\ copies(ans[k]) >= same(ans[k])", "/\\ TRUE"),
 ("MCAdvertiser", "MCAdvertiser", {}, "Advertiser", "IF HIsResponse(pkt) \\/ HOpcode(pkt) # 0", "IF HIsResponse(pkt)"),
 ("MCResolver", "MCResolver", {}, "Client", "\\/ HId(pkt) # id ", ""),
 ("MCResolver", "MCResolver", {}, "Client", "IF ~a.ok \\/ HId(pkt) # id \\/", "IF HId(pkt) # id \\/"),
 ("MCResolver", "MCResolver", {}, "Client", "MayRecvRes(cfg, c) == Running(c) /\\ c.k = Len(cfg.srv)", "MayRecvRes(cfg, c) == Running(c)"),
 ("MCResolver", "MCResolver", {}, "MCResolver", "/\\ pc = \"io\" /\\ now' = c.last + TO", "/\\ pc = \"recv\" /\\ now' = c.last + TO + 1"),
 ("MCDiscover", "MCDiscover", {"KIND": "inst"}, "Client", "v = <<>> \\/ v[1] \\in seen", "v = <<>>"),
 ("MCDiscover", "MCDiscover", {"KIND": "types"}, "Client", "!.pend = IF stop THEN <<>> ELSE Tail(@), !.must = IF stop THEN \"ok\" ELSE @", "!.pend = Tail(@)"),
 ("MCDiscover", "MCDiscover", {"KIND": "inst"}, "Client", "EqCI(n[2], call.s) /\\ ", ""),
 ("MCDiscover", "MCDiscover", {"KIND": "load"}, "Client", "r.k = \"SRV\" /\\ c.srv = <<>>", "r.k = \"SRV\""),
 ("MCDiscover", "MCDiscover", {"KIND": "load"}, "Client", "NameEqCI(es[i].n, name) /\\ ", ""),
 ("MCDiscover", "MCDiscover", {"KIND": "load"}, "MCDiscover", "now' = Max(now, Min(c.last + RTO, EndOf(cfg, c)))", "now' = c.last + RTO"),
 ("MCSystem", "MCSystem", {"PLAN": "list2"}, "Client", "v = <<>> \\/ v[1] \\in seen", "v = <<>>"),
 ("MCSystem", "MCSystem", {"PLAN": "load2"}, "Client", "NameEqCI(es[i].n, name) /\\ ", ""),
 ("MCSystem", "MCSystem", {"PLAN": "res2"}, "Client", "\\/ HId(pkt) # id ", ""),
 ("MCSystem", "MCSystem", {"PLAN": "inst"}, "Advertiser", "InstanceName(i, Local)\n      svc", "InstanceName(<<i[1], i[1], i[3]>>, Local)\n      svc"),
 ("MCTap", "MCTap", {}, "MCTap", "IF Len(pend) = 1 THEN \"recv\" ELSE \"log\"", "\"recv\""),
 ("MCCalls", "MCCalls", {"KIND": "res"}, "MCCalls", "tab.pool[p.k].id = 0 /\\ p.d = n THEN", "tab.pool[p.k].id = 0 THEN"),
 ("MCCalls", "MCCalls", {"KIND": "res"}, "MCCalls", "/\\ sock' = [sock EXCEPT ![w] = Append(@, p)]", "/\\ sock' = [sock EXCEPT ![0] = Append(@, p)]"),
 ("MCCalls", "MCCalls", {"KIND": "res"}, "MCCalls", "IF w \\in ws THEN CallInit(now) ELSE NoCall]", "IF w \\in ws THEN [CallInit(now) EXCEPT !.k = c[w].k] ELSE NoCall]"),
 ("MCCalls", "MCCalls", {"KIND": "inst"}, "MCCalls", "IF w \\in ws THEN CallInit(now) ELSE NoCall]", "IF w \\in ws THEN [CallInit(now) EXCEPT !.seen = c[w].seen] ELSE NoCall]"),
 ("MCCalls", "MCCallsLive", {"KIND": "inst"}, "MCCalls", "/\\ \\A w \\in Active : now < Deadline(w)\n        /\\ \\E t", "/\\ \\A w \\in Active : now < Deadline(w) - 20\n        /\\ \\E t"),
 ("MCQuery", "MCQuery", {}, "Query", "new = old \\o AddrsFrom(pkt, a.es, 1)", "new = AddrsFrom(pkt, a.es, 1)"),
 ("MCQuery", "MCQuery", {}, "Query", "IF a.ok /\\ good = a.es THEN ok", "IF a.ok THEN ok"),
 ("MCQuery", "MCQuery", {}, "Query", "owner = <<>> \\/ NameEqCI(es[i].n, owner[1])", "TRUE"),
 ("MCQuery", "MCQuery", {}, "Query", "\\notin {\"err\", \"none\"}", "\\notin {\"none\"}"),
 ("MCQuery", "MCQuery", {}, "Query", "/\\ d.s[1][i].t = ts[i] ", ""),
 ("MCQuery", "MCQuery", {}, "Query", "rd => HRecDesired(pkt)", "TRUE"),
 ("MCQuery", "MCQuery", {}, "Query", "/\\ brk = stops", "/\\ TRUE"),
 ("MCQuery", "MCQuery", {}, "Query", "Len(vals) = IF stops THEN stop ELSE Len(all)", "Len(vals) <= Len(all)"),
 ("MCQuery", "MCQuery", {}, "MCQuery", "/\\ src' = IF clear = 1 THEN <<x>> ELSE Append(src, x)", "/\\ src' = Append(src, x)"),
 ("MCSockets", "MCSockets", {}, "MCSockets", "/\\ socks' = Without(socks, cur.sk)\n  /\\ objs' = IF cur.i = 0 THEN Append(objs, [w |-> \"none\"", "/\\ socks' = socks\n  /\\ objs' = IF cur.i = 0 THEN Append(objs, [w |-> \"none\""),
 ("MCSockets", "MCSockets", {}, "MCSockets", "<<\"socket\", \"share\", \"bind\", \"join\", \"loop\">>", "<<\"socket\", \"bind\", \"share\", \"join\", \"loop\">>"),
 ("MCSockets", "MCSockets", {}, "MCSockets", "IF cur.w \\in Clients THEN 0 ELSE MdnsPort", "MdnsPort"),
 ("MCSockets", "MCSockets", {}, "MCSockets", "ELSE <<\"socket\", \"share\", \"bind\", \"join\">>", "ELSE <<\"socket\", \"share\", \"bind\">>"),
 ("MCSockets", "MCSockets", {}, "MCSockets", "ELSE objs' = objs /\\ socks' = Without(socks, cur.sk)", "ELSE objs' = objs /\\ socks' = socks"),
 ("MCSockets", "MCSockets", {}, "MCSockets", "DOMAIN socks \\ objs[i].own |->", "DOMAIN socks \\ (objs[i].own \\cup {1}) |->"),
 ("MCValues", "MCValues", {}, "Values", "set \\ {v}", "set"),
 ("MCValues", "MCValues", {}, "Values", "THEN v \\notin set ELSE", "THEN v \\in set ELSE"),
 ("MCValues", "MCValues", {}, "Values", "/\\ m[i][j] = 0 - m[j][i]", ""),
 ("MCValues", "MCValues", {}, "Values", "/\\ (m[i][j] = 0) = (vs[i] = vs[j])", ""),
 ("MCValues", "MCValues", {}, "Values", "(m[i][j] <= 0 /\\ m[j][k] <= 0) => m[i][k] <= 0", "TRUE"),
 ("MCValues", "MCValues", {}, "Values", "eq[i][j] = (vs[i] = vs[j])", "(vs[i] = vs[j] => eq[i][j])"),
 ("MCValues", "MCValues", {}, "Values", "vs[i] = vs[j] => h[i][j]", "TRUE"),
 ("MCErrors", "MCErrors", {}, "Errors", "IF s.pos + 2 > lim THEN \"Eof\" ELSE \"PointerLoop\"", "\"PointerLoop\""),
 ("MCErrors", "MCErrors", {}, "Errors", "IF s.pos + 2 > lim THEN \"Eof\" ELSE \"PointerLoop\"", "\"Eof\""),
 ("MCErrors", "MCErrors", {}, "Errors", "[] OTHER -> \"InvalidValue\"", "[] OTHER -> \"Eof\""),
 ("MCErrors", "MCErrors", {}, "Errors", "IF s.pos >= lim THEN \"Eof\"", "IF s.pos >= lim THEN \"InvalidValue\""),
 ("MCErrors", "MCErrors", {}, "Errors", "b \\in 1..63 -> \"Eof\"", "b \\in 1..63 -> \"InvalidValue\""),
 ("MCErrors", "MCErrors", {}, "Errors", "w == IF m.ok THEN NameWhy(buf, lim, m.p) ELSE NameWhy(buf, lim, pos)", "w == NameWhy(buf, lim, pos)"),
 ("MCErrors", "MCErrors", {}, "Errors", "IF pos + 2 * cnt > lim THEN \"Eof\" ELSE NameWhy(buf, lim, pos + 2 * cnt)", "NameWhy(buf, lim, pos)"),
 ("MCErrors", "MCErrors", {}, "Errors", "IF w # \"\" THEN w ELSE \"Eof\"\n(* Record", "w\n(* Record"),
 ("MCValues", "MCValuesDeep", {}, "MCValues", "IF c < 0 THEN Search(t, v, lo, mid - 1)", "IF c < 0 THEN Search(t, v, lo, mid - 2)"),
]


def run(model, cfg, env, d):
    r = subprocess.run(["java", "-Xmx6g", "-Xss512m", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-workers", "8", "-metadir",
                        d + "/meta", "-noGenerateSpecTE", "-config", cfg + ".cfg", model], cwd=d, capture_output=True, text=True,
                       env=dict(os.environ, GEN="0", **env), timeout=900)
    m = re.search(r"(Invariant \w+|Temporal properties|Action property \w+|Assumption .*|property \w+ of.*) (?:is|were) violated", r.stdout)
    why = m.group(0) if m else next((x for x in r.stdout.splitlines() if "rror" in x), "")
    return r.returncode, why[:110]


bad = 0
for m in M:
    if len(sys.argv) > 1 and m[0] != sys.argv[1]:
        continue
    d = tempfile.mkdtemp(prefix="mut-")
    for f in os.listdir(V + "/spec"):
        shutil.copy(V + "/spec/" + f, d)
    p = f"{d}/{m[3]}.tla"
    s = open(p).read()
    assert s.count(m[4]) >= 1, m
    open(p, "w").write(s.replace(m[4], m[5], 1))
    rc, why = run(m[0], m[1], m[2], d)
    shutil.rmtree(d)
    ok = rc in (10, 11, 12, 13, 14, 75, 76)  # 10: ASSUME; 14: Assert; 75, 76: evaluation leaves the domain of a function
    bad += not ok
    print("noticed " if ok else f"MISSED ({rc})", m[0], m[2] or "", m[3] + ":", m[4][:60].replace("\n", " "), "->", m[5][:40].replace("\n", " "), "|", why, flush=True)
sys.exit(bad != 0)
