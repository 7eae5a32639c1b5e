//! Sessions over the virtual network: resolver, discoverer (alone or against advertisers), listeners, tap.
use crate::conv::*;
use crate::json::{jb, script_error, J};
use crate::pure::{jinstance, jservice, jtxt, register, Adv};
use crate::sim::{block_on, block_until, sim, with_sim, Pkt, Sim};
use crate::{guarded, obj};
use std::cell::RefCell;
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::ops::ControlFlow;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use uwuhi::resolver::SyncResolver;
use uwuhi::service::advertising::{Advertiser, SyncAdvertiser};
use uwuhi::service::discovery::SyncDiscoverer;
use uwuhi::service::{InstanceDetails, Service, ServiceInstance, ServiceTransport};
use uwuhi::tap::SyncTap;
use uwuhi_async::resolver::AsyncResolver;
use uwuhi_async::service::advertising::AsyncAdvertiser;
use uwuhi_async::service::discovery::AsyncDiscoverer;

/// Addresses are byte arrays: 4 or 16 address bytes and 2 port bytes.
pub fn addr(j: &J) -> SocketAddr {
    let b = j.bytes();
    let (a, p) = b.split_at(b.len() - 2);
    SocketAddr::new(ip(&jb(a)), u16::from_be_bytes([p[0], p[1]]))
}
fn ms(v: i64) -> Duration {
    Duration::from_micros((v as u64).saturating_mul(sim(|s| s.unit)))
}

pub enum Res {
    S(SyncResolver),
    A(AsyncResolver),
}
pub enum Dis {
    S(SyncDiscoverer),
    A(AsyncDiscoverer),
}

fn mk_res(j: &J, is_async: bool) -> io::Result<Res> {
    let servers = j.at("srv").arr();
    let mc = j.at("mc").int();
    let mut r = if is_async {
        Res::A(match mc {
            0 => block_on(AsyncResolver::new(addr(&servers[0])))?,
            4 => block_on(AsyncResolver::new_multicast_v4())?,
            _ => block_on(AsyncResolver::new_multicast_v6())?,
        })
    } else {
        Res::S(match mc {
            0 => SyncResolver::new(addr(&servers[0]))?,
            4 => SyncResolver::new_multicast_v4()?,
            _ => SyncResolver::new_multicast_v6()?,
        })
    };
    if mc == 0 {
        for s in &servers[1..] {
            add_server(&mut r, addr(s));
        }
    }
    set_res(&mut r, &settings(j, &["to"]))?;
    Ok(r)
}
/// Timeouts to set: those listed in `set`, in that order, or the named fields if `setto` is 1.
fn settings(j: &J, fields: &[&str]) -> Vec<(String, Duration)> {
    if j.get("set").is_none() && j.opt_int("setto", 0) == 1 {
        return fields.iter().map(|f| (f.to_string(), ms(j.at(f).int()))).collect();
    }
    // [field, value], or [field, value, factor, summand] for values beyond those of the specification
    let value = |x: &[J]| match x.len() {
        2 => ms(x[1].int()),
        _ => Duration::from_millis((x[1].int() as u64).saturating_mul(x[2].int() as u64).saturating_add(x[3].int() as u64)),
    };
    j.opt_arr("set").iter().map(|x| (x.arr()[0].str().to_string(), value(x.arr()))).collect()
}
fn set_res(r: &mut Res, set: &[(String, Duration)]) -> io::Result<()> {
    for (_, t) in set {
        match r {
            Res::S(r) => r.set_timeout(*t)?,
            Res::A(r) => r.set_timeout(*t)?,
        }
    }
    Ok(())
}
fn set_dis(d: &mut Dis, set: &[(String, Duration)]) -> io::Result<()> {
    for (k, t) in set {
        match (&mut *d, k.as_str()) {
            (Dis::S(d), "rto") => d.set_retransmit_timeout(*t)?,
            (Dis::S(d), _) => d.set_discovery_timeout(*t)?,
            (Dis::A(d), "rto") => d.set_retransmit_timeout(*t)?,
            (Dis::A(d), _) => d.set_discovery_timeout(*t)?,
        }
    }
    Ok(())
}
fn add_server(r: &mut Res, a: SocketAddr) {
    match r {
        Res::S(r) => r.add_server(a),
        Res::A(r) => r.add_server(a),
    }
}
fn mk_dis(j: &J, is_async: bool) -> io::Result<Dis> {
    let mc = j.at("mc").int();
    let mut d = if is_async {
        Dis::A(if mc == 0 {
            block_on(AsyncDiscoverer::new(addr(j.at("srv")), name(j.at("dom"))))?
        } else {
            block_on(AsyncDiscoverer::new_multicast_v4())?
        })
    } else {
        Dis::S(if mc == 0 {
            SyncDiscoverer::new(addr(j.at("srv")), name(j.at("dom")))?
        } else {
            SyncDiscoverer::new_multicast_v4()?
        })
    };
    set_dis(&mut d, &settings(j, &["rto", "dto"]))?;
    Ok(d)
}

#[derive(Default)]
struct Ret {
    ips: Vec<J>,
    host: Vec<J>,
    port: u16,
    txt: Vec<J>,
}
fn ret_event(c: usize, r: Result<io::Result<Ret>, String>) -> J {
    let t = sim(|s| s.ms());
    let (st, os, ek, v) = match r {
        Ok(Ok(v)) => ("ok", 0, "", v),
        Ok(Err(e)) => {
            let ek = match e.kind() {
                io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut => "timeout",
                io::ErrorKind::InvalidInput => "input",
                _ => "other",
            };
            let os = e.raw_os_error().unwrap_or(0);
            ("err", if ek == "timeout" { 0 } else { os }, ek, Ret::default())
        }
        Err(m) => (if m == "dropped" { "dropped" } else { "panic" }, 0, "", Ret::default()),
    };
    obj! {"op": "ret", "c": c, "t": t, "r": st, "os": os, "ek": ek, "ips": v.ips, "host": v.host,
    "port": v.port, "txt": v.txt}
}
fn arr(j: J) -> Vec<J> {
    match j {
        J::Arr(a) => a,
        _ => unreachable!(),
    }
}
fn details(d: InstanceDetails) -> Ret {
    Ret { ips: vec![], host: arr(jname(d.host())), port: d.port(), txt: arr(jtxt(d.txt_records())) }
}

struct Cb {
    n: i64,
    brk: i64,
    /// The invocation at which the callback panics.
    pan: i64,
    /// How long the invocations take.
    took: Vec<i64>,
}
impl Cb {
    fn hit(&mut self, v: J) -> ControlFlow<()> {
        self.n += 1;
        let stop = self.n == self.brk || self.n == self.pan;
        sim(|s| {
            let t = s.ms();
            let d = self.took.get(self.n as usize - 1).copied().unwrap_or(0) as u64;
            s.log.push(obj! {"op": "cb", "t": t, "v": v, "stop": stop, "d": d});
            s.now += d * s.unit;
        });
        if self.n == self.pan {
            panic!("the callback panics");
        }
        if stop {
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    }
}

fn transport(v: i64) -> ServiceTransport {
    if v == 0 {
        ServiceTransport::TCP
    } else {
        ServiceTransport::Other
    }
}

/// The client objects of a session: up to two of each kind.
#[derive(Default)]
struct Objs {
    res: [RefCell<Option<Res>>; 2],
    dis: [RefCell<Option<Dis>>; 2],
}
fn owner_of(c: &J) -> usize {
    c.opt_int("w", 0) as usize * 2 + if c.at("o").str() == "res" { 0 } else { 1 }
}
/// Collects a result, or takes some of its elements and drops or forgets the rest.
fn consume<'a>(it: impl Iterator<Item = std::net::IpAddr> + 'a, c: &J) -> Vec<J> {
    let mut it = it;
    if c.get("take").is_none() {
        return it.map(|i| jip(&i)).collect();
    }
    let v = it.by_ref().take(c.at("take").int() as usize).map(|i| jip(&i)).collect();
    if c.opt_int("leak", 0) == 1 {
        std::mem::forget(it);
    }
    v
}

async fn do_call(c: &J, objs: &Objs) -> io::Result<Ret> {
    let w = c.opt_int("w", 0) as usize;
    let mut cb = Cb { n: 0, brk: c.opt_int("brk", 0), pan: c.opt_int("pan", 0), took: c.opt_arr("cbd").iter().map(|d| d.int()).collect() };
    if c.at("o").str() == "res" {
        let mut o = objs.res[w].borrow_mut();
        let o = o.as_mut().unwrap_or_else(|| script_error("no resolver"));
        set_res(o, &settings(c, &[]))?;
        let h = c.get("h").map(|h| String::from_utf8(h.bytes()).unwrap_or_else(|_| script_error("utf8")));
        let ips = match (o, h) {
            (Res::S(r), Some(h)) => consume(r.resolve(&h)?, c),
            (Res::S(r), None) => consume(r.resolve_domain(&name(c.at("n")))?, c),
            (Res::A(r), Some(h)) => consume(r.resolve(&h).await?, c),
            (Res::A(r), None) => consume(r.resolve_domain(&name(c.at("n"))).await?, c),
        };
        return Ok(Ret { ips, ..Ret::default() });
    }
    let mut o = objs.dis[w].borrow_mut();
    let o = o.as_mut().unwrap_or_else(|| script_error("no discoverer"));
    set_dis(o, &settings(c, &[]))?;
    match c.at("o").str() {
        "types" => {
            let f = |s: &Service| cb.hit(jservice(s));
            match o {
                Dis::S(d) => d.discover_service_types(f)?,
                Dis::A(d) => d.discover_service_types(f).await?,
            }
            Ok(Ret::default())
        }
        "inst" => {
            let svc = Service::new(label(c.at("s")), transport(c.at("t").int()));
            let f = |s: &ServiceInstance| cb.hit(jinstance(s));
            match o {
                Dis::S(d) => d.discover_instances(&svc, f)?,
                Dis::A(d) => d.discover_instances(&svc, f).await?,
            }
            Ok(Ret::default())
        }
        "load" => {
            let i = ServiceInstance::new(label(c.at("i")), label(c.at("s")), transport(c.at("t").int()));
            match o {
                Dis::S(d) => d.load_instance_details(&i).map(details),
                Dis::A(d) => d.load_instance_details(&i).await.map(details),
            }
        }
        _ => script_error("call"),
    }
}

/// Runs calls side by side (async) or one call, each until it ends or is dropped ("stop": after so many ms, -1:
/// without having been polled at all). The events of one call follow those of another.
fn run_calls(objs: &Objs, calls: &[(usize, &J)], begin: Vec<J>) {
    let start = sim(|s| s.now);
    let mut futs: Vec<_> = calls.iter().map(|(_, c)| Some(Box::pin(do_call(c, objs)))).collect();
    let mut logs: Vec<Vec<J>> = begin.into_iter().map(|e| vec![e]).collect();
    let head = sim(|s| s.log.len());
    let mut cx = Context::from_waker(Waker::noop());
    while futs.iter().any(|f| f.is_some()) {
        for (k, (ci, c)) in calls.iter().enumerate() {
            let Some(f) = &mut futs[k] else { continue };
            sim(|s| s.owner = owner_of(c));
            let stop = c.opt_int("stop", i64::MAX);
            let r = if stop < 0 { Ok(Poll::Pending) } else { guarded(|| f.as_mut().poll(&mut cx)) };
            let end = match r {
                Ok(Poll::Ready(r)) => Some(ret_event(ci + 1, Ok(r))),
                Err(m) => Some(ret_event(ci + 1, Err(m))),
                Ok(Poll::Pending) if sim(|s| s.now as i64 - start as i64) >= stop.saturating_mul(sim(|s| s.unit) as i64) => {
                    Some(ret_event(ci + 1, Err("dropped".to_string())))
                }
                _ => None,
            };
            if let Some(e) = end {
                sim(|s| s.log.push(e));
                if let Err(m) = guarded(|| futs[k] = None) {
                    sim(|s| s.log.push(obj! {"op": "panic", "m": m}));
                }
            }
            logs[k].extend(sim(|s| s.log.split_off(head)));
        }
        if futs.iter().any(|f| f.is_some()) {
            sim(|s| s.tick());
        }
    }
    sim(|s| s.log.extend(logs.into_iter().flatten()));
}

/// Many calls that are not logged one by one: every one must end like the first, no two in a row may use the same id.
fn warm_up(ci: usize, c: &J, w: &J, objs: &Objs) -> J {
    let owner = owner_of(c);
    let n = w.at("n").int();
    let until = w.opt_int("until", -1);
    let body = w.get("b").map(|b| b.bytes());
    sim(|s| {
        s.quiet = true;
        s.owner = owner;
        s.call[owner] = ci;
        s.send_faults[owner].clear();
        s.send_delays[owner].clear();
    });
    let (mut k, mut bad, mut first, mut last) = (0, false, None, None);
    while k < n {
        sim(|s| {
            s.steps = 0;
            s.sends_in_call[owner] = 0;
            if let Some(i) = s.ids.get_mut(ci) {
                *i = None;
            }
            let err = if body.is_some() { 0 } else { libc::EIO };
            let b = body.clone().unwrap_or_default();
            s.push(Pkt { at: s.now, seq: 0, owner, from: SocketAddr::from(([10, 0, 0, 1], 53)), b, err, id: Some((ci, 0)), rep: 1 });
        });
        let r = guarded(|| block_on(do_call(c, objs)));
        let e = ret_event(0, r);
        let e = match e {
            J::Obj(o) => J::Obj(o.into_iter().filter(|(k, _)| k != "t").collect()).dump(),
            _ => unreachable!(),
        };
        let id = sim(|s| s.last_id);
        bad |= *first.get_or_insert(e.clone()) != e || (owner == 0 && id == last);
        last = id;
        k += 1;
        if id.map(|i| i as i64) == Some(until) {
            break;
        }
    }
    sim(|s| {
        s.quiet = false;
        s.steps = 0;
        if let Some(i) = s.ids.get_mut(ci) {
            *i = None;
        }
    });
    obj! {"op": "warm", "n": k, "id": last.unwrap_or(0) as i64, "bad": bad}
}

pub fn net(s: &J, ev: &mut Vec<J>) {
    let is_async = s.at("m").str() == "async";
    let mut sm = Sim::new(is_async);
    if s.opt_int("us", 0) == 1 {
        sm.unit = 1; // times are microseconds
    }
    for a in s.opt_arr("advs") {
        let mut ad = Advertiser::new(label(a.at("h")), ip(a.at("ip"))).unwrap_or_else(|_| script_error("advertiser"));
        for op in a.at("ops").arr() {
            register(&mut Adv::Sans(&mut ad), op);
        }
        sm.advs.push((ad, addr(a.at("from"))));
    }
    for f in s.opt_arr("fates") {
        sm.fates.push(f.arr().iter().map(|a| a.arr().iter().map(|d| d.int() as u64).collect()).collect());
    }
    let ((), sm) = with_sim(sm, || {
        let objs = Objs::default();
        let setup = guarded(|| -> io::Result<()> {
            for w in 0..=s.opt_int("twin", 0) as usize {
                if let Some(j) = s.get("res") {
                    sim(|s| s.owner = 2 * w);
                    *objs.res[w].borrow_mut() = Some(mk_res(j, is_async)?);
                }
                if let Some(j) = s.get("disc") {
                    sim(|s| s.owner = 2 * w + 1);
                    *objs.dis[w].borrow_mut() = Some(mk_dis(j, is_async)?);
                }
            }
            Ok(())
        });
        match setup {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                sim(|s| s.log.push(obj! {"op": "setup", "r": "err", "m": e.to_string()}));
                return;
            }
            Err(m) => {
                sim(|s| s.log.push(obj! {"op": "setup", "r": "panic", "m": m}));
                return;
            }
        };
        for a in s.opt_arr("adds") {
            let r = guarded(|| add_server(objs.res[0].borrow_mut().as_mut().unwrap(), addr(a)));
            sim(|s| s.log.push(obj! {"op": "adds", "a": a.clone(), "ok": r.is_ok()}));
        }
        let calls: Vec<(usize, &J)> = s.at("calls").arr().iter().enumerate().collect();
        let mut first = 0;
        while first < calls.len() {
            // a call marked "par" runs together with the next one
            let mut end = first + 1;
            while is_async && end < calls.len() && calls[end - 1].1.opt_int("par", 0) == 1 {
                end += 1;
            }
            let group = &calls[first..end];
            first = end;
            for (ci, c) in group {
                if let Some(w) = c.get("warm") {
                    let e = warm_up(*ci, c, w, &objs);
                    sim(|s| s.log.push(e));
                }
                sim(|s| s.now += c.opt_int("gap", 0) as u64 * s.unit);
            }
            let mut begin = vec![];
            for &(ci, c) in group {
                let owner = owner_of(c);
                begin.push(sim(|s| {
                    s.owner = owner;
                    s.call[owner] = ci;
                    s.sends_in_call[owner] = 0;
                    s.send_faults[owner] =
                        c.opt_arr("sf").iter().map(|f| (f.arr()[0].int() as usize, f.arr()[1].int() as i32)).collect();
                    s.send_delays[owner] = c.opt_arr("sd").iter().map(|d| d.int() as u64).collect();
                    for p in c.opt_arr("net") {
                        let id = p.get("id").map(|v| {
                            let back = v.int();
                            ((ci as i64 - back).max(0) as usize, p.opt_int("x", 0) as u16)
                        });
                        let from = p.get("from").map(addr).unwrap_or(SocketAddr::from(([10, 0, 0, 1], 53)));
                        let at = s.now + p.at("at").int() as u64 * s.unit;
                        let err = p.opt_int("err", 0) as i32;
                        let b = p.get("b").map(|b| b.bytes()).unwrap_or_default();
                        s.push(Pkt { at, seq: 0, owner, from, b, err, id, rep: p.opt_int("rep", 1) });
                    }
                    obj! {"op": "call", "c": ci + 1, "t": s.ms()}
                }));
            }
            run_calls(&objs, group, begin);
        }
        // Sockets are closed while the environment is still in place.
        drop(objs);
    });
    ev.extend(sm.log);
}

/// Loads the scripted datagrams (absolute times) into the environment.
fn load_net(sm: &mut Sim, s: &J) {
    for p in s.at("net").arr() {
        let from = p.get("from").map(addr).unwrap_or(SocketAddr::from(([10, 0, 0, 1], 53)));
        let b = p.get("b").map(|b| b.bytes()).unwrap_or_default();
        let err = p.opt_int("err", 0) as i32;
        let rep = p.opt_int("rep", 1);
        sm.push(Pkt { at: sm.now + p.at("at").int() as u64 * 1000, seq: 0, owner: 0, from, b, err, id: None, rep });
    }
    sm.send_faults[0] = s.opt_arr("sf").iter().map(|f| (f.arr()[0].int() as usize, f.arr()[1].int() as i32)).collect();
}

enum Listener {
    S(SyncAdvertiser),
    A(AsyncAdvertiser),
}
/// One round: registrations, then listening until it ends by itself or (false) is dropped by its caller.
fn listen_once(a: &mut Option<Listener>, s: &J, round: &J, is_async: bool) -> io::Result<bool> {
    if a.is_none() {
        let (h, i) = (label(s.at("h")), ip(s.at("ip")));
        *a = Some(if is_async { Listener::A(AsyncAdvertiser::new(h, i)?) } else { Listener::S(SyncAdvertiser::new(h, i)?) });
    }
    match a.as_mut().unwrap() {
        Listener::S(a) => {
            for op in round.at("ops").arr() {
                register(&mut Adv::Sync(a), op);
            }
            a.listen_blocking()?;
        }
        Listener::A(a) => {
            for op in round.at("ops").arr() {
                register(&mut Adv::Async(a), op);
            }
            let end = round.get("stop").map(|t| sim(|s| s.now) + t.int() as u64 * 1000);
            match block_until(a.listen(), end) {
                Some(r) => r?,
                None => return Ok(false),
            }
        }
    }
    Ok(true)
}

pub fn listen(s: &J, ev: &mut Vec<J>) {
    let is_async = s.at("m").str() == "async";
    let mut sm = Sim::new(is_async);
    load_net(&mut sm, s);
    let ((), sm) = with_sim(sm, || {
        let mut a = None;
        let mut rounds = vec![s];
        rounds.extend(s.opt_arr("more"));
        for (k, round) in rounds.iter().enumerate() {
            if k > 0 {
                sim(|sm| {
                    sm.sends_in_call[0] = 0;
                    load_net(sm, round);
                    sm.log.push(obj! {"op": "round", "n": k});
                });
            }
            let r = guarded(|| listen_once(&mut a, s, round, is_async));
            let (r, left) = (
                match r {
                    Ok(Ok(true)) => Ok(Ok(Ret::default())),
                    Ok(Ok(false)) => Err("dropped".to_string()),
                    Ok(Err(e)) => Ok(Err(e)),
                    Err(m) => Err(m),
                },
                sim(|s| s.due()),
            );
            let e = ret_event(1, r);
            sim(|s| {
                s.log.push(e);
                s.log.push(obj! {"op": "left", "n": left});
            });
        }
    });
    ev.push(obj! {"op": "sock", "port": sm.bound_port, "mc": jb(&sm.joined)});
    ev.extend(if s.opt_int("short", 0) == 1 { shorten(sm.log) } else { sm.log });
}

/// Replaces repetitions of a block "recv" or "recv send" by one "rep" event.
fn shorten(log: Vec<J>) -> Vec<J> {
    let mut out: Vec<J> = vec![];
    let texts: Vec<String> = log.iter().map(|e| e.dump()).collect();
    let is = |i: usize, op: &str| i < log.len() && log[i].at("op").str() == op;
    let (mut i, mut log_i) = (0, log.iter().cloned());
    while i < log.len() {
        let len = if is(i, "recv") && is(i + 1, "send") { 2 } else { 1 };
        let mut n = 0;
        if is(i, "recv") {
            while i + (n + 2) * len <= log.len() && (0..len).all(|k| texts[i + k] == texts[i + (n + 1) * len + k])
                && (len == 2 || !is(i + (n + 1) * len + 1, "send"))
            {
                n += 1;
            }
        }
        out.extend(log_i.by_ref().take(len));
        for _ in 0..n * len {
            log_i.next();
        }
        i += (n + 1) * len;
        if n > 0 {
            out.push(obj! {"op": "rep", "n": n as i64});
        }
    }
    out
}

pub fn tap(s: &J, ev: &mut Vec<J>) {
    let mut sm = Sim::new(false);
    load_net(&mut sm, s);
    sm.capture = true;
    let ((), sm) = with_sim(sm, || {
        let r = guarded(|| -> io::Result<Ret> {
            SyncTap::new()?.listen()?;
            Ok(Ret::default())
        });
        let e = ret_event(1, r);
        sim(|s| s.log.push(e));
    });
    ev.push(obj! {"op": "sock", "port": sm.bound_port, "mc": jb(&sm.joined)});
    ev.extend(sm.log);
}
