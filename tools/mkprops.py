#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

DEC, ENC, REC, PKT, NAME = ("src/packet/decoder.rs", "src/packet/encoder.rs", "src/packet/records.rs",
                            "src/packet.rs", "src/name.rs")
SVC, ADV, DIS, RES, TAP = ("src/service.rs", "src/service/advertising.rs", "src/service/discovery.rs",
                           "src/resolver.rs", "src/tap.rs")
AADV, ADIS, ARES = ("uwuhi-async/src/service/advertising.rs", "uwuhi-async/src/service/discovery.rs",
                    "uwuhi-async/src/resolver.rs")

prop("C01", "Decoding arbitrary bytes never panics, hangs or over-reads",
     "For every byte string offered as a DNS message and every order of decoder calls (next, iterate, skip to a later section, decode record data, format), each call returns a value or an error: none panics, loops forever or reads outside the message. A section never yields more entries than the header announces for it, and once an entry has failed to decode the decoder yields no further entries.",
     ["inputs", "histories"], "all byte strings (valid, mutated, truncated at any byte, hostile) x all sequences of decoder API calls",
     "The unit tests decode seven hand-written messages and call the decoder in one fixed order; hostile bytes and call orders are unbounded.",
     [DEC, REC], [("bounds-checked Reader", DEC + ": Reader::read_slice/read_obj/split_off"),
                  ("error latch and remaining counters", DEC + ": MessageDecoder::next_rr/next")],
     [("has_errored", "set by the first decode error", DEC), ("*_remaining", "entries left per section", DEC)],
     ["MessageDecoder::new/next/iter/answers/authority/additional", "ResourceRecord::as_enum", "Display"])
prop("C02", "Compressed domain names decode by strictly backward pointers",
     "A domain name in a message decodes to exactly the labels found by reading length-prefixed labels and following compression pointers until a zero length byte, and decoding of the message resumes directly after the name's terminator or its first pointer. A pointer that does not lead strictly before the start of the name part that contains it, a reserved length byte, or a label or pointer cut off by the end of the data is rejected with an error.",
     ["inputs"], "all message contents and all positions of a name (question, owner name, every name inside record data), all pointer graphs",
     "The tests decode four names with at most one pointer; pointer chains, overlapping targets, cut-off pointers and the resume position after them are not reached.",
     [DEC], [("Reader::read_domain_name", DEC)], [("min_pos", "start of the current name part", DEC)],
     ["Question::qname", "ResourceRecord::name", "names in Record"])
prop("C03", "Streaming decoder delivers every entry of every section exactly",
     "For every message, the decoder delivers the entries of the Question, Answer, Authority and Additional sections in message order with exactly the encoded name, type, class, cache-flush bit, TTL and record data, whatever mix of single steps, iteration and section skipping the caller uses. The top bit of a class field is the only bit separated from the class value. Each entry starts exactly where the previous one ends, as given by its record-data length, even if the record data is shorter, longer or malformed for its type.",
     ["inputs", "histories"], "all messages x all interleavings of next / iter / answers / authority / additional",
     "Tests format a few messages front to back; skipping, partially consumed sections, class bits 8-14 and inconsistent RDLENGTHs are never exercised.",
     [DEC], [("change_section / answers / authority / additional", DEC), ("read_question, read_resource_record, split_off", DEC)],
     [("pos", "reader position", DEC)], ["Question and ResourceRecord accessors"])
prop("C04", "Record data decodes to its fields and stays inside its RDLENGTH",
     "For each supported record type (A, AAAA, CNAME, MX, NS, PTR, TXT, SRV, SOA) decoding the record data yields exactly the encoded field values, reading nothing beyond the record-data length except through backward name pointers; record data that ends before its fields do is an error and never borrows bytes of the next record. Any other type is reported as unsupported with its raw data available.",
     ["inputs"], "all record types x all record data bytes and lengths, including names compressed against earlier parts of the message",
     "test_roundtrip uses one value per type, uncompressed, in a buffer of its own; short RDATA and data followed by other records are not tested.",
     [REC, DEC], [("RecordData::decode per type", REC), ("Reader::split_off", DEC)], [], ["ResourceRecord::as_enum", "ResourceRecord::rdata", "record accessors"])
prop("C05", "Encoded messages decode back to exactly what was added",
     "For every header and every sequence of at most 65535 questions and records per section (the format's limit) added to a message encoder whose buffer is large enough, finishing succeeds and the bytes written decode to the same header id, flags and codes, the same entries in the same sections and order with the same fields, with matching section counts and the truncation flag clear; dropping the encoder instead of finishing it leaves the same message in the buffer. Nothing outside the reported length is needed to decode the message.",
     ["inputs", "histories"], "all sequences of encoder calls over all record types, names, header values",
     "The round-trip test encodes single RDATA values, never a whole message; section order, counts and RDLENGTH back-patching are only checked by eye.",
     [ENC, REC], [("write_rr length back-patch", ENC), ("EncoderInner::drop count fix-up", ENC), ("RecordData::encode", REC)],
     [("qdcount..arcount", "entries written", ENC)], ["MessageEncoder::*", "buffer contents after finish/drop"])
prop("C06", "Encoding into a too small buffer truncates safely and detectably",
     "For every buffer that holds at least a header, encoding never panics and never writes outside the buffer; when the added entries do not all fit, finishing reports truncation, the message's truncation flag is set, and the buffer still decodes without error to a prefix of the added entries containing at least all entries before the first one that does not fit. When everything fits, truncation is never reported, whatever flag value the caller's header carried.",
     ["inputs", "histories"], "all buffer sizes at every byte boundary x all sequences of encoder calls",
     "No test encodes into a buffer that is too small.",
     [ENC], [("Writer::write_slice clamping and trunc flag", ENC), ("EncoderInner::drop", ENC)], [("trunc", "buffer overflowed", ENC)],
     ["MessageEncoder::finish", "buffer contents"])
prop("C07", "Header fields are independent: each setter changes only its own field",
     "For every header value and every sequence of header setter calls, each getter returns the last value set for its field (opcode and response code modulo 16) or the initial value if never set, and no setter changes any other field or bit. Parsing and writing a header places every field at the bit position RFC 1035 defines.",
     ["inputs", "histories"], "all 2^96 initial headers x all sequences of setter calls",
     "One test sets two fields on an all-zero header.",
     [PKT], [("HeaderFlags, modify_flags, set_opcode, set_rcode", PKT)], [("flags", "16-bit flag word", PKT)], ["Header getters/setters", "MessageDecoder::header"])
prop("C08", "Labels and domain names accept exactly the valid strings and convert back",
     "A label is accepted if and only if it has 1 to 63 bytes; a domain name string is accepted if and only if all its dot-separated parts (ignoring one trailing dot) are valid labels, with '.' and the empty string being the root, and yields those labels in order. A name's text form lists its labels in order, each followed by a dot (the root as '.'), and parsing the text form of a name whose labels are plain printable characters without dots gives back an equal name; names built by pushing, extending or collecting labels contain exactly those labels in order.",
     ["inputs", "histories"], "all strings/byte strings and all sequences of name-building operations",
     "Tests check a handful of literals; none is near the 63-byte limit, multi-label, or non-ASCII.",
     [NAME], [("Label::try_new_impl", NAME), ("DomainName::from_str, Display, Extend, FromIterator", NAME)], [], ["Label, DomainName public API"])
prop("C09", "Question types and classes match exactly the record types they stand for",
     "For every question type and record type, a match is reported if and only if they are the same type, or the question asks for ALL, or it asks for MAILB and the record is MB, MG or MR, while AXFR and MAILA match no record. For every question class and record class, a match is reported if and only if they are equal or the question class is ANY.",
     ["inputs"], "all 2^16 x 2^16 type pairs and class pairs",
     "No test calls either matching function.",
     [PKT], [("QType::matches, QClass::matches", PKT)], [], ["QType::matches", "QClass::matches"])
prop("C10", "An advertiser answers a query with exactly its matching records",
     "For every set of registered names and instances and every well-formed query, the advertiser replies if and only if some registered record matches the name, type and class of some question, and the reply's answers are exactly the registered records that match (none missing, none foreign) with their registered data, class IN and TTL 120. The reply carries the query's id, is marked as an authoritative response, and is at most 1500 bytes; if some matching record does not fit it is marked truncated and contains only matching records.",
     ["inputs", "histories"], "all registration sequences x all queries (any number of questions, any types/classes, compressed names)",
     "The advertiser has no tests at all.",
     [ADV], [("Advertiser::handle_packet matching loop", ADV)], [("db", "registered records", ADV)], ["Advertiser::handle_packet"])
prop("C11", "An advertiser ignores or rejects what is no query, and keeps no memory",
     "For every packet, the advertiser never panics; it returns no reply for responses, for operations other than QUERY, for a non-zero response code and for packets whose questions do not decode (an error). Its reply to a packet depends only on the registered records and that packet, never on earlier packets or replies.",
     ["inputs", "histories"], "all packets (including hostile ones) x all histories of earlier packets and registrations",
     "The advertiser has no tests at all.",
     [ADV, DEC], [("header checks in handle_packet", ADV), ("reused response_buf", ADV)], [("response_buf", "buffer reused across replies", ADV)], ["Advertiser::handle_packet"])
prop("C12", "Registering a host or instance publishes its complete DNS-SD record set",
     "After registering a host name its address is resolvable as an A or AAAA record of '<host>.local'. After registering a service instance there are exactly: an SRV record and a TXT record at '<instance>.<service>.<proto>.local' with the given host, port and metadata (one empty string if there is none), a PTR to it at '<service>.<proto>.local', and a PTR to that at '_services._dns-sd._udp.local'; earlier registrations stay published unchanged.",
     ["inputs", "histories"], "all sequences of registrations with arbitrary labels, ports, addresses and metadata",
     "The advertiser has no tests at all.",
     [ADV, SVC], [("Advertiser::add_name, add_instance", ADV)], [("db", "registered records", ADV)], ["Advertiser::handle_packet on ALL queries"])
prop("C13", "Advertiser listeners answer every packet in turn and survive bad ones",
     "For every sequence of received packets, the blocking and the async listener handle them in order of arrival, send exactly one reply per answerable query to the sender of that query and to nobody else, and send nothing otherwise. Malformed, hostile or irrelevant packets never end the loop: only a socket error does, and that error is returned to the caller.",
     ["histories", "fault_sequences"], "all sequences of packets, senders and socket errors, for the sync and async listener",
     "No test opens an advertiser socket.",
     [ADV, AADV], [("listen_blocking / listen loops", ADV + ", " + AADV)], [], ["datagrams sent", "listen result"])
prop("C14", "Resolution returns the addresses of one matching response, nothing else",
     "A resolve call returns exactly the IPv4 and IPv6 addresses, in order, of the Answer section of the first received packet that is a well-formed response to this call's query and contains at least one address. Packets that are no response, carry another query's id (such as late answers to an earlier call), do not decode or hold no address contribute nothing, whatever they contain and whatever was received or returned before; sync and async resolver behave alike.",
     ["histories", "schedules", "inputs"], "all sequences of received packets, delays, and successive calls on one resolver",
     "No test exercises a resolver; the failure needs several packets in sequence.",
     [RES, ARES], [("resolve_domain receive loop", RES + ", " + ARES), ("decode_answer", RES)], [("ip_buf", "addresses collected so far", RES)], ["iterator returned by resolve/resolve_domain"])
prop("C15", "Resolver queries every server, then waits, times out or reports errors",
     "Each resolve call sends one identical query for the A and AAAA records of the name, with recursion desired and an id different from the previous call's, to every configured server in order before receiving anything, and sends nothing else. It fails with a timeout exactly when no packet arrives for the configured receive timeout (every packet, even an ignored one, restarts it), returns any other socket error to the caller, and rejects host names that cannot be parsed or do not fit into one query packet with an error, without sending. Adding a server of another address family, or to a multicast resolver, is refused by panicking.",
     ["schedules", "fault_sequences", "configurations"], "all server lists, timeouts, packet schedules and socket errors, sync and async",
     "No test exercises a resolver or a socket timeout.",
     [RES, ARES], [("resolve_domain", RES + ", " + ARES), ("add_server assertions", RES + ", " + ARES)], [("servers", "configured servers", RES)], ["datagrams sent", "virtual time of return"])
prop("C16", "Discovery reports each matching service or instance once, until told to stop",
     "During one discovery call the callback is invoked exactly once for every distinct instance of the requested service (or distinct service type) named by a PTR answer, owned by the queried name, ignoring ASCII case, in a received response, in order of first appearance; two instances are distinct if their names, service names or transports differ; answers for other names, other services, queries, and malformed packets or records cause no callback and do not suppress later ones. After the callback asks to stop it is not invoked again and the call returns successfully without further sends or receives. The sync and async discoverer behave alike.",
     ["histories", "schedules", "inputs"], "all sequences of received packets (duplicates, reordering, foreign records) and all points at which the callback stops",
     "Discovery has no tests.",
     [DIS, ADIS, SVC], [("discover_instances / discover_service_types callbacks", DIS + ", " + ADIS), ("decode_answer", DIS)], [("instances / service_types", "already reported", DIS)], ["callback invocations"])
prop("C17", "Discovery retransmits on silence and ends at its time limit",
     "A discovery call sends its query immediately, sends the identical query again each time the retransmit timeout passes without any packet, and at no other time. Unless stopped by the callback or a socket error it keeps accepting packets until the discovery timeout has elapsed and then returns without having overrun it (except to finish a callback that is running), regardless of how much or little traffic arrives and how long callbacks take; socket errors are returned to the caller, and a name that does not fit into one query packet is rejected with an error before anything is sent.",
     ["schedules", "fault_sequences", "configurations"], "all timeout settings and packet arrival schedules, sync and async",
     "Discovery has no tests; timing behaviour needs controlled clocks.",
     [DIS, ADIS], [("send_query retransmit loop", DIS + ", " + ADIS)], [("discovery_timeout, retransmit_timeout", "limits", DIS)], ["datagrams sent and virtual time of each", "virtual time of return"])
prop("C18", "Loaded instance details are those published for that very instance",
     "Loading the details of an instance returns host and port of the first SRV record owned by that instance's name and the metadata of the first TXT record owned by it, whichever of the two is received first and whether in one packet or several, and returns as soon as both are known; records of other instances, such as late answers to earlier calls, are never used. Without an SRV record before the discovery timeout it fails with a timeout error; with an SRV but no TXT record it succeeds with empty metadata.",
     ["histories", "schedules", "inputs"], "all sequences of received packets and all orders of SRV and TXT within and across packets, sync and async",
     "Discovery has no tests.",
     [DIS, ADIS, SVC], [("load_instance_details callback", DIS + ", " + ADIS), ("InstanceDetails::from_srv", SVC)], [("details, txt_records", "collected so far", DIS)], ["InstanceDetails accessors", "io::Error"])
prop("C19", "TXT metadata keys are case-insensitive, first wins, bytes are preserved",
     "Metadata parsed from a TXT record contains, for every distinct key ignoring ASCII case, the first entry with that key: its value is exactly the bytes after the first '=' (possibly empty), or no value if there is no '='. Entries without a key or with a non-UTF-8 key are ignored, so a TXT record of one empty string is empty metadata; lookups ignore ASCII case, a flag added by the user is found afterwards, iteration lists each key once, and the text form shows each key with its value ('key' or 'key=value' with escaped bytes).",
     ["inputs", "histories"], "all TXT entry lists and all sequences of add_flag/get/iter",
     "TxtRecords has no tests.",
     [SVC], [("TxtRecords::from_txt, add_flag, get, iter", SVC)], [("map", "lowercased key to record", SVC)], ["TxtRecords public API"])
prop("C20", "Service and instance names convert to and from PTR targets faithfully",
     "A PTR target is accepted as a service type if and only if it reads <service>.<_tcp|_udp>.<domain...> and as an instance if and only if it reads <instance>.<service>.<_tcp|_udp>.<domain...>, where <service> starts with an underscore and <domain> is not empty; the parsed value has exactly these components. Service types and instances can never be created with a service name lacking the underscore, two of them compare equal exactly when all components are equal, and their text form is '<service>.<transport>' or '<instance>.<service>.<transport>' with escaped labels.",
     ["inputs"], "all domain names",
     "No test parses a service name.",
     [SVC], [("Service::from_ptr, ServiceInstance::from_ptr, new", SVC), ("ServiceTransport::from_str", SVC)], [], ["Service, ServiceInstance, ServiceTransport public API"])
prop("C21", "What is advertised can be discovered and resolved end to end",
     "Over a network that loses, delays, duplicates and reorders datagrams, everything a client learns from an advertiser is something that was registered: service types, instances, host, port, metadata and addresses are reported exactly as registered. Whenever a complete response to one of the client's query transmissions arrives within the time limit, discovery reports every registered service type and every registered instance, details equal the registered ones, and host names resolve to all their registered addresses.",
     ["schedules", "fault_sequences", "configurations"], "all sets of registrations, network fault schedules and client calls, sync and async client",
     "Nothing tests advertiser and client together, let alone over a faulty network.",
     [ADV, DIS, RES, ADIS, ARES], [("Advertiser::handle_packet", ADV), ("send_query", DIS), ("resolve_domain", RES)], [], ["callbacks, details and addresses at the client"])
prop("C22", "The tap reports every entry of every received packet and never stops",
     "For every sequence of received packets the tap logs, for each packet in order, its header summary and then one line per question and record in message order with name, TTL, class, type and data, up to the first entry that does not decode. Malformed packets never end it or hide later packets; only a socket error does, and that error is returned.",
     ["histories", "inputs", "fault_sequences"], "all sequences of packets and socket errors",
     "The format routine is tested on four messages; the tap loop and malformed packets are not.",
     [TAP, DEC, REC], [("SyncTap::listen/process", TAP), ("MessageDecoder::format", DEC), ("Display impls", DEC + ", " + REC)], [], ["log output"])
prop("C23", "Every client call starts afresh, however earlier calls ended",
     "A resolver or discoverer treats each call as if it were its first one (apart from the query id and the packets still waiting in its socket), however earlier calls ended: returned, failed, timed out, stopped by the callback, left by a panic of the callback, async futures dropped at any point or never polled, resulting address iterators consumed only in part or not at all. Clients do not affect each other: calls on different client objects, one after another or concurrently, each behave as if they were alone.",
     ["histories", "schedules", "fault_sequences"], "all histories of calls and ways to end them, all interleavings of concurrent async calls on several clients",
     "No test makes two calls on one client, drops a future or runs two calls at once.",
     [RES, ARES, DIS, ADIS], [("resolve_domain", RES + ", " + ARES), ("discover_service_types, discover_instances, load_instance_details", DIS + ", " + ADIS)], [("ip_buf, next_id, recv_buf", "kept between calls", RES + ", " + DIS)], ["results, callbacks and datagrams of each call"])
prop("C24", "Query and answer helpers encode one query and decode one answer exactly",
     "For every name, list of types and buffer of at least header size, the encode_query functions of resolver and discovery return, at the start of the buffer, one message that asks exactly one question per requested type, in order (resolver: A and AAAA, recursion desired, an id different from its previous one), or an error if it does not fit. resolver::decode_answer appends exactly the IPv4 and IPv6 addresses of a response's Answer section, in order, to what the list holds; other messages add nothing, malformed ones are errors and add at most the addresses before the defect. discovery::decode_answer and decode_answer_for hand every decodable record of a response's Answer section (for the latter: owned by the given name, ignoring ASCII case) to the callback once, in order, until it asks to stop, and return whether it did. is_instance_of holds exactly if transport and, ignoring ASCII case, service name agree.",
     ["inputs", "histories"], "all names, type lists, buffer sizes, packets, list contents and stopping points",
     "The helpers have no tests; other clients are built on them.",
     [RES, DIS], [("encode_query, decode_answer", RES), ("encode_query, decode_answer, decode_answer_for, is_instance_of", DIS)], [("NEXT_ID", "last query id", RES)], ["returned slices, lists and callbacks"])
prop("C25", "Sockets are set up completely or not at all, coexist, and are released",
     "Every resolver and discoverer, blocking or async, has one socket of its server's address family on a port chosen by the system; a listening advertiser (blocking, async, or a caller of create_socket) and a tap have one IPv4 socket on port 5353 of all interfaces that is a member of 224.0.0.251 and shares the port, so any number of clients, listeners and other port-sharing mDNS programs coexist and all listeners hear the group. Multicast queries stay visible on the own machine; sockets of blocking objects block, those of async ones do not. If any system call of setting up fails, creating the object or starting to listen returns that error and leaves no socket open. A timeout setting that the system refuses is reported and the previous setting stays in force; a refused system call during a call ends that call with the error. Dropping an object, and the end of listening of a blocking advertiser or a tap, closes its socket; no operation touches the sockets of other objects.",
     ["fault_sequences", "histories", "configurations"], "all histories of objects of all kinds being made, used, listening and dropped, a fault at every system call, other software on the port",
     "No test creates a socket or injects a failing system call.",
     [ADV, RES, DIS, TAP, ARES, ADIS], [("create_socket", ADV), ("new, set_timeout", RES + ", " + ARES), ("new, set_retransmit_timeout", DIS + ", " + ADIS), ("SyncTap::new", TAP)], [("sock", "the object's socket", ADV + ", " + RES + ", " + DIS + ", " + TAP)], ["results of constructors and setters", "open sockets and their options"])
prop("C26", "Values are their contents: equality, order, hash, sets and clones agree",
     "Two labels, names, service types, instances, transports, type/class/code numbers or record data values compare equal exactly when all their components do, byte for byte, however each was made (built, parsed, decoded or cloned). Where an order exists it is total and agrees with equality, and equal values hash alike, so sorted and hashed sets and maps hold each value exactly once, find it again and lose nothing else. A clone equals its original; taking a name apart by value, by reference or as a list gives its labels in order, each once.",
     ["inputs", "histories"], "all pairs and triples of values of each kind and ways to make them, all histories of insertions, lookups and removals",
     "Tests compare a few literals; equality, order and hash laws quantify over all pairs and triples of values, and discovery's de-duplication and registries rest on them.",
     [NAME, SVC, REC, PKT], [("PartialEq, Ord, Hash of Label; PartialEq of DomainName; IntoIterator", NAME), ("PartialEq, Ord, Hash of Service, ServiceInstance, ServiceTransport", SVC), ("PartialEq of record data", REC), ("PartialEq of Type, QType, Class, QClass, Opcode, RCode", PKT)],
     [("bytes, labels", "contents", NAME)], ["==, !=, cmp, partial_cmp, hash, clone", "BTreeSet and HashSet of values"])
prop("C27", "Errors name their cause, also once they are I/O errors",
     "When input is rejected the error names the first defect in reading order. Decoding: unexpected end exactly when the message (or the record's data) ends before the field being read does, pointer loop exactly when a complete compression pointer does not lead strictly back, invalid value exactly when the length byte is reserved; so more data can only ever change an unexpected end. Text: empty or too long exactly when a part of the name (or the label) is so. PTR targets: unexpected end when components are missing, otherwise invalid value when the service name or transport is none; a transport that is none is an invalid value. Encoding and query helpers: truncated. Converted to I/O errors they stay unexpected end, invalid data or invalid input, a truncated one never looks like a time-out or an interruption, and each has a text of its own. Resolving an invalid host name reports invalid input.",
     ["inputs"], "all byte strings as names, entries and record data, all texts, PTR targets and buffer sizes",
     "Tests compare the error of a handful of inputs; which defect comes first is a statement over all inputs, at every length and cut.",
     ["src/error.rs", DEC, NAME, SVC, ENC, RES], [("Error and its conversion to io::Error", "src/error.rs"), ("Reader errors", DEC + ": read_obj, read_slice, read_domain_name"), ("label errors", NAME + ": Label::try_new, DomainName::from_str"), ("from_ptr errors", SVC), ("finish", ENC)],
     [], ["Err(_) of every fallible function", "io::Error::kind of conversions and of resolve()"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
