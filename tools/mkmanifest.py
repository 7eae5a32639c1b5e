#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
NOTE = {
 "C01": "All sampled byte strings and call orders; totality only (TLA+ totality rules), exactness is C02-C04.",
 "C02": "Exhaustive for short names over a token alphabet, sampled beyond; trusts the TLA+ wire format.",
 "C03": "Sampled messages x call plans compared entry by entry with the TLA+ decoder.",
 "C04": "Every type at every record data length, sampled contents; compared with the TLA+ record formats.",
 "C05": "All call sequences of the bounded model plus sampled messages; output re-decoded by the TLA+ wire format.",
 "C06": "All call sequences x all buffer sizes of the bounded model, every buffer size for sampled messages.",
 "C07": "All setter sequences of length 2 from selected headers, sampled longer ones.",
 "C08": "All strings over a small alphabet, all name-building histories of length 2, sampled and boundary-length inputs.",
 "C09": "Exhaustive: every question value against every record value, types and classes.",
 "C10": "Registrations x questions of the bounded model (MCAdvertiser) plus sampled ones; every reply validated by the TLA+ advertiser.",
 "C11": "All header and question shapes of the bounded model in packet histories plus sampled packets; memory judged by trace validation of long histories.",
 "C12": "All registration histories of the bounded model; every record asked for in the real advertiser.",
 "C13": "Packet, error and time-out schedules of the bounded model; both the blocking and the async listener under a virtual socket.",
 "C14": "All response schedules of MCResolver(2) in bounds plus sampled ones; blocking and async resolver, virtual clock and sockets.",
 "C15": "As C14; sends, sockets, waiting times and errors validated call by call.",
 "C16": "All response schedules of MCDiscover in bounds plus sampled ones; blocking and async discoverer.",
 "C17": "As C16; every wait and retransmission validated against virtual time.",
 "C18": "As C16 for load_instance_details.",
 "C19": "All histories of the bounded model, sampled TXT records.",
 "C20": "All PTR targets of up to five labels over a pool, sampled others.",
 "C21": "MCSystem composes the advertiser and client specifications over a lossy, reordering network; sampled real sessions validated end to end.",
 "C22": "MCTap: all packet and error schedules in bounds plus sampled ones; logged lines compared with the TLA+ rendering.",
 "C23": "MCCalls: two clients, rounds of calls ended in every way at every moment in bounds, replayed with real futures dropped and callbacks panicking.",
 "C25": "MCSockets: objects of all kinds over an operating system in which any step may fail; all histories in bounds replayed with the fault at that system call, the real open sockets compared.",
 "C26": "MCValues: sets over every order and hash following the laws behave like sets of contents; all those histories on real values of each kind, and every comparison of families of close values judged by the laws.",
 "C27": "MCErrors: messages received byte by byte over a token alphabet, all replayed; sampled messages, every cut of valid ones, texts, names and buffers, each error judged by the TLA+ causes.",
 "C24": "MCQuery: all histories of two helper calls over pools; sampled names, packets and buffers; every output judged by the TLA+ wire format.",
}
DEFAULT = "Bounded exhaustive schedules of the TLA+ model plus sampled ones, replayed on the real code under a virtual network and clock."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = {
 "version": 1,
 "setup_cmd": "python3 bin/setup.py",
 "hooks": {"guard": "none", "enable": "no hooks: the harness uses the public API and replaces libc socket and clock symbols", "source_commits": []},
 "checks": [],
 "not_applicable": [],
 "notes": "TLA+ specification in spec/, TLC for model checking, script generation and trace validation; see DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({
            "property": i, "quick_cmd": f"python3 bin/check.py {i} --tier quick",
            "thorough_cmd": f"python3 bin/check.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
            "technique": "TLA+ specification; TLC model checking, generated scripts replayed on the code, trace validation with TLC",
            "level": "model_checking", "level_note": NOTE.get(i, DEFAULT)})
    else:
        out["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks")
