//! Sessions without I/O: decoder, encoder, header, names, matching, TXT metadata, PTR parsing, advertiser.
use crate::conv::*;
use crate::json::{jb, script_error, J};
use crate::{guarded, obj};
use std::fmt::Write;
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::decoder::{MessageDecoder, Question, ResourceRecord};
use uwuhi::packet::encoder::{self, MessageEncoder};
use uwuhi::packet::records::{PTR, TXT};
use uwuhi::packet::section::{Additional, Answer, Authority, Question as QSec};
use uwuhi::packet::Header;
use uwuhi::service::advertising::Advertiser;
use uwuhi::service::{InstanceDetails, Service, ServiceInstance, ServiceTransport, TxtRecordValue, TxtRecords};
use uwuhi::Error;

fn getters(h: &Header) -> J {
    J::Arr(Vec::<J>::from([
        h.id().into(),
        h.is_response().into(),
        h.is_query().into(),
        raw8(h.opcode()).into(),
        h.is_authority().into(),
        h.is_truncated().into(),
        h.is_recursion_desired().into(),
        h.is_recursion_available().into(),
        raw8(h.rcode()).into(),
        h.question_count().into(),
        h.answer_count().into(),
        h.authoritative_count().into(),
        h.additional_count().into(),
    ])
    .into_iter()
    .map(|v: J| J::Int(v.int()))
    .collect())
}

enum D<'a> {
    Q(MessageDecoder<'a, QSec>),
    An(MessageDecoder<'a, Answer>),
    Ns(MessageDecoder<'a, Authority>),
    Ar(MessageDecoder<'a, Additional>),
}

fn step_obj(r: &str) -> Vec<(String, J)> {
    vec![("op".into(), "next".into()), ("r".into(), r.into())]
}
fn ev_none() -> J {
    J::Obj(step_obj("none"))
}
fn ev_err(e: Error) -> J {
    let mut o = step_obj("err");
    o.push(("e".into(), jerr(e)));
    J::Obj(o)
}
fn ev_q(q: Question) -> J {
    let mut o = step_obj("q");
    let mut s = String::new();
    let _ = write!(s, "{q}{q:?}");
    o.push(("n".into(), jname(q.qname())));
    o.push(("t".into(), raw16(q.qtype()).into()));
    o.push(("c".into(), raw16(q.qclass()).into()));
    J::Obj(o)
}
fn ev_rr(r: ResourceRecord<'_>) -> J {
    let mut o = step_obj("rr");
    let mut s = String::new();
    let _ = write!(s, "{r}{r:?}");
    o.push(("n".into(), jname(r.name())));
    o.push(("t".into(), raw16(r.type_()).into()));
    o.push(("c".into(), raw16(r.class()).into()));
    o.push(("f".into(), r.cache_flush().into()));
    o.push(("ttl".into(), j32(r.ttl())));
    let rec = match r.as_enum() {
        None => rec_none(),
        Some(Err(e)) => rec_err(e),
        Some(Ok(rec)) => {
            let _ = write!(s, "{rec}{rec:?}");
            if raw16(rec.record_type()) == raw16(r.type_()) {
                jrec(&rec)
            } else {
                obj! {"k": "wrongtype", "i": vec![], "n": vec![], "x": vec![], "e": ""}
            }
        }
    };
    o.push(("rec".into(), rec));
    // The record data must still be available (and unchanged) after it was decoded.
    o.push(("rd".into(), jb(r.rdata())));
    J::Obj(o)
}

pub fn dec(s: &J, ev: &mut Vec<J>) {
    let bytes = s.at("b").bytes();
    let plan = s.at("plan").arr();
    let mut d = match MessageDecoder::new(&bytes) {
        Ok(d) => {
            let h = *d.header();
            ev.push(obj! {"op": "new", "ok": true, "g": getters(&h), "h": jb(bytemuck::bytes_of(&h))});
            D::Q(d)
        }
        Err(e) => {
            ev.push(obj! {"op": "new", "ok": false, "e": jerr(e)});
            return;
        }
    };
    for p in plan {
        let p = p.str();
        match p {
            "n" | "i" | "I" => loop {
                let res = guarded(|| {
                    let it = p != "n";
                    match &mut d {
                        D::Q(d) => match if it { d.iter().next() } else { d.next() } {
                            None => ev_none(),
                            Some(Ok(q)) => ev_q(q),
                            Some(Err(e)) => ev_err(e),
                        },
                        D::An(d) => rr_ev(if it { d.iter().next() } else { d.next() }),
                        D::Ns(d) => rr_ev(if it { d.iter().next() } else { d.next() }),
                        D::Ar(d) => rr_ev(if it { d.iter().next() } else { d.next() }),
                    }
                });
                match res {
                    Ok(e) => {
                        let stop = p != "I" || e.at("r").str() == "none";
                        ev.push(e);
                        if stop {
                            break;
                        }
                    }
                    Err(m) => {
                        ev.push(obj! {"op": "next", "r": "panic", "m": m});
                        return;
                    }
                }
            },
            "g1" | "g2" | "g3" => {
                let to: i64 = p[1..].parse().unwrap();
                let res = guarded(|| match (d, to) {
                    (D::Q(d), 1) => Ok(d.answers().map(D::An)),
                    (D::Q(d), 2) => Ok(d.authority().map(D::Ns)),
                    (D::Q(d), 3) => Ok(d.additional().map(D::Ar)),
                    (D::An(d), 2) => Ok(d.authority().map(D::Ns)),
                    (D::An(d), 3) => Ok(d.additional().map(D::Ar)),
                    (D::Ns(d), 3) => Ok(d.additional().map(D::Ar)),
                    (d, _) => Err(d),
                });
                match res {
                    Ok(Ok(Ok(n))) => {
                        ev.push(obj! {"op": "goto", "s": to, "ok": true});
                        let h = match &n {
                            D::Q(d) => *d.header(),
                            D::An(d) => *d.header(),
                            D::Ns(d) => *d.header(),
                            D::Ar(d) => *d.header(),
                        };
                        if bytemuck::bytes_of(&h) != &bytes[..12] {
                            ev.push(obj! {"op": "headerchanged"});
                        }
                        d = n;
                    }
                    Ok(Ok(Err(e))) => {
                        ev.push(obj! {"op": "goto", "s": to, "ok": false, "e": jerr(e)});
                        return;
                    }
                    Ok(Err(old)) => d = old, // not a forward move: the API does not offer it
                    Err(m) => {
                        ev.push(obj! {"op": "goto", "s": to, "panic": m});
                        return;
                    }
                }
            }
            _ => script_error("bad plan"),
        }
    }
}
fn rr_ev(r: Option<Result<ResourceRecord<'_>, Error>>) -> J {
    match r {
        None => ev_none(),
        Some(Ok(q)) => ev_rr(q),
        Some(Err(e)) => ev_err(e),
    }
}

enum E<'a> {
    Q(MessageEncoder<'a, QSec>),
    An(MessageEncoder<'a, Answer>),
    Ns(MessageEncoder<'a, Authority>),
    Ar(MessageEncoder<'a, Additional>),
}

pub fn enc(s: &J, ev: &mut Vec<J>) {
    let cap = s.at("cap").int() as usize;
    let guard = 32usize;
    let mut big = vec![s.opt_int("fill", 0) as u8; cap + 2 * guard];
    for b in big[..guard].iter_mut() {
        *b = 0x5a;
    }
    for b in big[guard + cap..].iter_mut() {
        *b = 0x5a;
    }
    let res = guarded(|| {
        let buf = &mut big[guard..guard + cap];
        let mut e = E::Q(MessageEncoder::new(buf));
        for op in s.at("ops").arr() {
            match op.at("o").str() {
                "hdr" => {
                    let h = hdr(&op.at("b").bytes());
                    match &mut e {
                        E::Q(e) => e.set_header(h),
                        E::An(e) => e.set_header(h),
                        E::Ns(e) => e.set_header(h),
                        E::Ar(e) => e.set_header(h),
                    }
                }
                "q" => {
                    let n = name(op.at("n"));
                    if let E::Q(e) = &mut e {
                        e.question(encoder::Question::new(&n).class(qclass(op.at("c").int())).ty(qty(op.at("t").int())));
                    }
                }
                "rr" => {
                    let n = name(op.at("n"));
                    let r = rec(op.at("rec"));
                    let rr = encoder::ResourceRecord::new(&n, &r)
                        .ttl(u32of(op.at("ttl")))
                        .class(class(op.at("c").int()));
                    match &mut e {
                        E::Q(_) => {}
                        E::An(e) => e.add_answer(rr),
                        E::Ns(e) => e.add_authority(rr),
                        E::Ar(e) => e.add_additional(rr),
                    }
                }
                "sec" => {
                    e = match e {
                        E::Q(e) => E::An(e.answers()),
                        E::An(e) => E::Ns(e.authority()),
                        E::Ns(e) => E::Ar(e.additional()),
                        E::Ar(e) => E::Ar(e),
                    }
                }
                "fin" => {
                    let r = match e {
                        E::Q(e) => e.finish(),
                        E::An(e) => e.finish(),
                        E::Ns(e) => e.finish(),
                        E::Ar(e) => e.finish(),
                    };
                    return Some(r);
                }
                "drop" => {
                    drop(e);
                    return None;
                }
                _ => script_error("enc op"),
            }
        }
        None
    });
    let intact = big[..guard].iter().chain(&big[guard + cap..]).all(|&b| b == 0x5a);
    let out = jb(&big[guard..guard + cap]);
    ev.push(match res {
        Ok(Some(Ok(n))) => obj! {"op": "done", "r": "ok", "len": n, "out": out, "intact": intact, "e": ""},
        Ok(Some(Err(e))) => obj! {"op": "done", "r": "err", "len": 0, "out": out, "intact": intact, "e": jerr(e)},
        Ok(None) => obj! {"op": "done", "r": "drop", "len": 0, "out": out, "intact": intact, "e": ""},
        Err(m) => obj! {"op": "done", "r": "panic", "len": 0, "out": out, "intact": intact, "e": m},
    });
}

pub fn hdrs(s: &J, ev: &mut Vec<J>) {
    let mut h = hdr(&s.at("b").bytes());
    let st = |h: &Header, op: &str, v: i64| obj! {"op": op, "v": v, "g": getters(h), "b": jb(bytemuck::bytes_of(h))};
    ev.push(st(&h, "init", 0));
    for op in s.at("ops").arr() {
        let o = op.arr();
        let v = o[1].int();
        let name = o[0].str();
        let res = guarded(|| {
            match name {
                "id" => h.set_id(v as u16),
                "qr" => h.set_response(v != 0),
                "op" => h.set_opcode(opcode(v)),
                "aa" => h.set_authority(v != 0),
                "tc" => h.set_truncated(v != 0),
                "rd" => h.set_recursion_desired(v != 0),
                "ra" => h.set_recursion_available(v != 0),
                "rc" => h.set_rcode(rcode(v)),
                _ => script_error("hdr op"),
            }
            let _ = format!("{h:?}");
        });
        match res {
            Ok(()) => ev.push(st(&h, name, v)),
            Err(m) => {
                ev.push(obj! {"op": "panic", "m": m});
                return;
            }
        }
    }
}

fn text(j: &J) -> String {
    String::from_utf8(j.bytes()).unwrap_or_else(|_| script_error("script text is not UTF-8"))
}

fn name_state(n: &DomainName) -> Vec<(String, J)> {
    let disp = n.to_string();
    let _ = format!("{n:?}");
    let by_ref: Vec<J> = n.into_iter().map(|l| jb(l.as_bytes())).collect();
    let by_val: Vec<J> = n.clone().into_iter().map(|l| jb(l.as_bytes())).collect();
    let rt = match disp.parse::<DomainName>() {
        Ok(m) => m == *n,
        Err(_) => false,
    };
    vec![
        ("n".into(), jname(n)),
        ("nr".into(), by_ref.into()),
        ("nv".into(), by_val.into()),
        ("d".into(), jb(disp.as_bytes())),
        ("rt".into(), rt.into()),
        ("eq".into(), (n.clone() == *n).into()),
    ]
}

pub fn names(s: &J, ev: &mut Vec<J>) {
    let mut cur = DomainName::ROOT;
    for op in s.at("ops").arr() {
        let o = op.at("o").str().to_string();
        let res = guarded(|| {
            let mut out: Vec<(String, J)> = vec![("op".into(), o.as_str().into())];
            match o.as_str() {
                "label" => {
                    let b = op.at("b").bytes();
                    let r = Label::try_new(&b);
                    out.push(("ok".into(), r.is_ok().into()));
                    match &r {
                        Ok(l) => {
                            out.push(("e".into(), "".into()));
                            out.push(("v".into(), jb(l.as_bytes())));
                            out.push(("d".into(), jb(l.to_string().as_bytes())));
                            out.push(("dd".into(), jb(format!("{l:?}").as_bytes())));
                        }
                        Err(e) => {
                            out.push(("e".into(), jerr(*e)));
                            out.push(("v".into(), jb(&[])));
                            out.push(("d".into(), jb(&[])));
                            out.push(("dd".into(), jb(&[])));
                        }
                    }
                    // The panicking constructor must agree.
                    let np = std::panic::catch_unwind(|| Label::new(&b)).is_ok();
                    out.push(("np".into(), np.into()));
                    // So must the string conversion.
                    let sp = match std::str::from_utf8(&b) {
                        Ok(st) => st.parse::<Label>() == r,
                        Err(_) => true,
                    };
                    out.push(("sp".into(), sp.into()));
                }
                "parse" => {
                    let t = text(op.at("b"));
                    let r = DomainName::from_str(&t);
                    let r2 = t.parse::<DomainName>();
                    out.push(("ok".into(), r.is_ok().into()));
                    out.push(("same".into(), (r == r2).into()));
                    out.push(("e".into(), r.as_ref().err().map(|e| jerr(*e)).unwrap_or("".into())));
                    if let Ok(n) = r {
                        cur = n;
                    }
                    out.extend(name_state(&cur));
                }
                "push" => {
                    cur.push_label(label(op.at("b")));
                    out.extend(name_state(&cur));
                }
                "ext" => {
                    let other = name(op.at("ns"));
                    if op.opt_int("ref", 0) == 1 {
                        cur.extend(&other);
                    } else {
                        cur.extend(other);
                    }
                    out.extend(name_state(&cur));
                }
                "collect" => {
                    let ls: Vec<Label> = op.at("ns").arr().iter().map(label).collect();
                    cur = if op.opt_int("ref", 0) == 1 { ls.iter().collect() } else { ls.into_iter().collect() };
                    out.extend(name_state(&cur));
                }
                "cmp" => {
                    let other = name(op.at("ns"));
                    out.push(("r".into(), (cur == other).into()));
                }
                _ => script_error("name op"),
            }
            J::Obj(out)
        });
        match res {
            Ok(e) => ev.push(e),
            Err(m) => {
                ev.push(obj! {"op": "panic", "m": m});
                return;
            }
        }
    }
}

pub fn matches(s: &J, ev: &mut Vec<J>) {
    let is_class = s.at("w").str() == "c";
    let ts: Vec<i64> = s.at("t").arr().iter().map(|v| v.int()).collect();
    for q in s.at("q").arr() {
        let q = q.int();
        let hit: Vec<J> = ts
            .iter()
            .filter(|&&t| if is_class { qclass(q).matches(class(t)) } else { qty(q).matches(ty(t)) })
            .map(|&t| J::Int(t))
            .collect();
        ev.push(obj! {"q": q, "hit": hit});
    }
}

/// Counts over the complete 2^16 x 2^16 space: for each q the number of matching values and the first ones.
pub fn matches_all(s: &J, ev: &mut Vec<J>) {
    let is_class = s.at("w").str() == "c";
    for q in s.at("lo").int()..=s.at("hi").int() {
        let mut n = 0i64;
        let mut first = vec![];
        for t in 0..=65535i64 {
            if if is_class { qclass(q).matches(class(t)) } else { qty(q).matches(ty(t)) } {
                n += 1;
                if first.len() < 4 {
                    first.push(J::Int(t));
                }
            }
        }
        ev.push(obj! {"q": q, "n": n, "hit": first});
    }
}

fn jval(v: Option<TxtRecordValue<'_>>) -> (i64, J) {
    match v {
        None => (0, jb(&[])),
        Some(TxtRecordValue::NoValue) => (1, jb(&[])),
        Some(TxtRecordValue::Value(v)) => (2, jb(v)),
    }
}
pub fn jtxt(t: &TxtRecords) -> J {
    let _ = format!("{t}{t:?}");
    J::Arr(
        t.iter()
            .map(|(k, v)| {
                let _ = format!("{v:?}");
                let (h, v) = jval(Some(v));
                obj! {"k": jb(k.as_bytes()), "h": h, "v": v}
            })
            .collect(),
    )
}

pub fn txt(s: &J, ev: &mut Vec<J>) {
    let mut cur = TxtRecords::new();
    for op in s.at("ops").arr() {
        let o = op.at("o").str();
        let res = guarded(|| {
            let mut got = (0, jb(&[]));
            match o {
                "from" => {
                    let x: Vec<Vec<u8>> = op.at("x").arr().iter().map(|x| x.bytes()).collect();
                    cur = TxtRecords::from_txt(&TXT::new(x));
                }
                "flag" => cur.add_flag(text(op.at("b"))),
                "get" => got = jval(cur.get(&text(op.at("b")))),
                _ => script_error("txt op"),
            }
            obj! {"op": o, "all": jtxt(&cur), "empty": cur.is_empty(), "h": got.0, "v": got.1,
                "d": jb(cur.to_string().as_bytes())}
        });
        match res {
            Ok(e) => ev.push(e),
            Err(m) => {
                ev.push(obj! {"op": "panic", "m": m});
                return;
            }
        }
    }
}

pub fn tr(v: i64) -> ServiceTransport {
    if v == 0 {
        ServiceTransport::TCP
    } else {
        ServiceTransport::Other
    }
}
pub fn jtr(t: ServiceTransport) -> J {
    match t {
        ServiceTransport::TCP => 0.into(),
        ServiceTransport::Other => 1.into(),
    }
}
pub fn jservice(v: &Service) -> J {
    let _ = format!("{v}{v:?}");
    J::Arr(vec![jb(v.name().as_bytes()), jtr(v.transport())])
}
pub fn jinstance(v: &ServiceInstance) -> J {
    let _ = format!("{v}{v:?}");
    if v.service_name() != v.service().name() || v.service_transport() != v.service().transport() {
        return J::Arr(vec![]);
    }
    J::Arr(vec![jb(v.instance_name().as_bytes()), jb(v.service_name().as_bytes()), jtr(v.service_transport())])
}

fn shown(v: Option<impl std::fmt::Display>) -> J {
    jb(v.map(|v| v.to_string()).unwrap_or_default().as_bytes())
}

/// PTR target parsing, constructors and equality of services and instances.
pub fn svc(s: &J, ev: &mut Vec<J>) {
    for op in s.at("ops").arr() {
        let o = op.at("o").str();
        let res = guarded(|| match o {
            "ptr" => {
                let n = name(op.at("n"));
                let a = Service::from_ptr(PTR::new(&n));
                let b = ServiceInstance::from_ptr(PTR::new(&n));
                let why = |e: Option<&Error>| e.map(|e| jerr(*e)).unwrap_or("".into());
                obj! {"op": "ptr", "se": why(a.as_ref().err()), "ie": why(b.as_ref().err()),
                "sok": a.is_ok(), "s": a.as_ref().map(jservice).unwrap_or(J::Arr(vec![])),
                "iok": b.is_ok(), "i": b.as_ref().map(jinstance).unwrap_or(J::Arr(vec![])),
                "sd": shown(a.ok()), "id": shown(b.ok())}
            }
            "new" => {
                let (i, sv, t) = (label(op.at("i")), label(op.at("s")), tr(op.at("t").int()));
                let a = std::panic::catch_unwind(|| Service::new(sv.clone(), t)).ok();
                let b = std::panic::catch_unwind(|| ServiceInstance::new(i.clone(), sv.clone(), t)).ok();
                let c = a.clone().map(|a| ServiceInstance::from_service(i.clone(), a));
                obj! {"op": "new", "sok": a.is_some(), "iok": b.is_some(),
                "s": a.as_ref().map(jservice).unwrap_or(J::Arr(vec![])),
                "i": b.as_ref().map(jinstance).unwrap_or(J::Arr(vec![])), "same": b == c,
                "sd": shown(a), "id": shown(b)}
            }
            "cmp" => {
                let mk = |j: &J| {
                    ServiceInstance::new(label(j.at("i")), label(j.at("s")), tr(j.at("t").int()))
                };
                let (a, b) = (mk(op.at("a")), mk(op.at("b")));
                use std::cmp::Ordering::*;
                obj! {"op": "cmp", "ieq": a == b, "seq": a.service() == b.service(),
                "ord": a.cmp(&b) == Equal, "anti": a.cmp(&b) == b.cmp(&a).reverse()}
            }
            "tr" => {
                let r = text(op.at("b")).parse::<ServiceTransport>();
                obj! {"op": "tr", "ok": r.is_ok(), "e": r.as_ref().err().map(|e| jerr(*e)).unwrap_or("".into()), "t": r.map(jtr).unwrap_or(J::Int(-1)),
                "l": r.map(|t| jb(t.to_label().as_bytes())).unwrap_or(jb(&[]))}
            }
            _ => script_error("svc op"),
        });
        match res {
            Ok(e) => ev.push(e),
            Err(m) => {
                ev.push(obj! {"op": "panic", "m": m});
                return;
            }
        }
    }
}

pub enum Adv<'a> {
    Sans(&'a mut Advertiser),
    Sync(&'a mut uwuhi::service::advertising::SyncAdvertiser),
    Async(&'a mut uwuhi_async::service::advertising::AsyncAdvertiser),
}
/// Applies a registration op ("name" or "inst") through the given front end.
pub fn register(a: &mut Adv<'_>, op: &J) {
    match op.at("o").str() {
        "name" => {
            let (h, i) = (label(op.at("h")), ip(op.at("ip")));
            match a {
                Adv::Sans(a) => a.add_name(h, i),
                Adv::Sync(a) => a.add_name(h, i),
                Adv::Async(a) => a.add_name(h, i),
            }
        }
        "inst" => {
            let inst = ServiceInstance::new(label(op.at("i")), label(op.at("s")), tr(op.at("t").int()));
            let mut d = InstanceDetails::new(name(op.at("host")), op.at("port").int() as u16);
            let x: Vec<Vec<u8>> = op.at("x").arr().iter().map(|x| x.bytes()).collect();
            if !x.is_empty() {
                *d.txt_records_mut() = TxtRecords::from_txt(&TXT::new(x));
            }
            for f in op.opt_arr("fl") {
                d.txt_records_mut().add_flag(text(f));
            }
            match a {
                Adv::Sans(a) => a.add_instance(inst, d),
                Adv::Sync(a) => a.add_instance(inst, d),
                Adv::Async(a) => a.add_instance(inst, d),
            }
        }
        _ => script_error("register op"),
    }
}

pub fn adv(s: &J, ev: &mut Vec<J>) {
    let mut a = match Advertiser::new(label(s.at("h")), ip(s.at("ip"))) {
        Ok(a) => a,
        Err(_) => {
            ev.push(obj! {"op": "panic", "m": "Advertiser::new failed"});
            return;
        }
    };
    for op in s.at("ops").arr() {
        let o = op.at("o").str();
        let res = guarded(|| match o {
            "pkt" => {
                let b = op.at("b").bytes();
                let mut one = || match a.handle_packet(&b) {
                    Ok(None) => ("none", vec![]),
                    Ok(Some(p)) => ("resp", p.to_vec()),
                    Err(_) => ("err", vec![]),
                };
                let (r, out) = one();
                // The same packet many times
                let same = (1..op.opt_int("rep", 1)).all(|_| one() == (r, out.clone()));
                obj! {"op": "pkt", "r": r, "b": jb(&out), "same": same}
            }
            _ => {
                register(&mut Adv::Sans(&mut a), op);
                obj! {"op": "reg", "r": "ok", "b": jb(&[])}
            }
        });
        match res {
            Ok(e) => ev.push(e),
            Err(m) => {
                ev.push(obj! {"op": o, "r": "panic", "b": jb(&[]), "m": m});
                return;
            }
        }
    }
}

/// The query and answer helpers of the clients.
#[cfg(feature = "helpers")]
pub fn query(s: &J, ev: &mut Vec<J>) {
    use uwuhi::{resolver as res, service::discovery as disc};
    let mut ips: Vec<std::net::IpAddr> = vec![];
    for op in s.at("ops").arr() {
        let o = op.at("o").str();
        let r = guarded(|| match o {
            "rq" | "dq" => {
                let cap = op.at("cap").int() as usize;
                let n = name(op.at("n"));
                let fill = op.opt_int("fill", 0) as u8;
                let mut big = vec![0x5a; cap + 64];
                big[32..32 + cap].fill(fill);
                let start = big[32..].as_ptr() as usize;
                let out = if o == "rq" {
                    res::encode_query(&mut big[32..32 + cap], &n)
                } else {
                    let ts: Vec<_> = op.at("ts").arr().iter().map(|t| qty(t.int())).collect();
                    disc::encode_query(&mut big[32..32 + cap], &n, &ts)
                };
                let (ok, b, place, e) = match out {
                    Ok(b) => (true, b.to_vec(), b.as_ptr() as usize == start, "".into()),
                    Err(e) => (false, vec![], true, jerr(e)),
                };
                let guard = big[..32].iter().chain(&big[32 + cap..]).all(|&b| b == 0x5a);
                obj! {"op": o, "ok": ok, "b": jb(&b), "place": place, "guard": guard, "e": e}
            }
            "ra" => {
                if op.at("clear").int() == 1 {
                    ips.clear();
                }
                let ok = res::decode_answer(&op.at("b").bytes(), &mut ips).is_ok();
                obj! {"op": o, "ok": ok, "ips": J::Arr(ips.iter().map(jip).collect())}
            }
            "da" => {
                use std::ops::ControlFlow::*;
                let stop = op.at("stop").int() as usize;
                let mut vals = vec![];
                let mut cb = |r: uwuhi::packet::records::Record<'_>| {
                    vals.push(jrec(&r));
                    if vals.len() == stop {
                        Break(())
                    } else {
                        Continue(())
                    }
                };
                let b = op.at("b").bytes();
                let r = match op.get("own") {
                    Some(n) => disc::decode_answer_for(&b, &name(n), &mut cb),
                    None => disc::decode_answer(&b, &mut cb),
                };
                obj! {"op": o, "ok": r.is_ok(), "brk": matches!(r, Ok(Break(()))), "vals": J::Arr(vals)}
            }
            "is" => {
                let i = op.at("i").arr();
                let v = op.at("s").arr();
                let inst = ServiceInstance::new(label(&i[0]), label(&i[1]), tr(i[2].int()));
                obj! {"op": o, "r": disc::is_instance_of(&inst, &Service::new(label(&v[0]), tr(v[1].int())))}
            }
            _ => script_error("query op"),
        });
        match r {
            Ok(e) => ev.push(e),
            Err(m) => {
                ev.push(obj! {"op": "panic", "m": m});
                return;
            }
        }
    }
}

/// What errors say, and what becomes of them as I/O errors.
pub fn conv(ev: &mut Vec<J>) {
    use uwuhi::Error::*;
    let all = [Eof, PointerLoop, InvalidValue, Truncated, InvalidEmptyLabel, LabelTooLong].map(|e| {
        let io = std::io::Error::from(e);
        obj! {"e": jerr(e), "d": jb(e.to_string().as_bytes()), "k": format!("{:?}", io.kind()), "io": jb(io.to_string().as_bytes())}
    });
    ev.push(obj! {"op": "conv", "all": J::Arr(all.into())});
}
