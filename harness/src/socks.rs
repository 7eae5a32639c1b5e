//! Sessions about the sockets themselves: what is set up, what happens when a step of it fails, what is left open.
use crate::json::{jb, script_error, J};
use crate::net::{addr, Dis, Res};
use crate::sim::{block_on, sim, with_sim, Pkt, Sim};
use crate::{guarded, obj};
use std::io;
use std::net::{IpAddr, SocketAddr, UdpSocket};
use std::time::Duration;
use uwuhi::name::DomainName;
use uwuhi::resolver::SyncResolver;
use uwuhi::service::advertising::{Advertiser, SyncAdvertiser};
use uwuhi::service::discovery::SyncDiscoverer;
use uwuhi::tap::SyncTap;
use uwuhi_async::resolver::AsyncResolver;
use uwuhi_async::service::advertising::AsyncAdvertiser;
use uwuhi_async::service::discovery::AsyncDiscoverer;

/// What the operating system knows about one socket the code has asked for.
pub struct Rec {
    ino: u64,
    v6: bool,
    at: Option<SocketAddr>,
    /// The port could be shared when the socket was bound.
    shared: bool,
    reuse: bool,
    groups: Vec<Vec<u8>>,
    looped: bool,
}
/// The operating system: sockets and the fault to inject.
#[derive(Default)]
pub struct Os {
    recs: Vec<Rec>,
    /// Other software on port 5353: 0 none, 1 sharing the port, 2 not.
    foreign: i64,
    calls: i64,
    fault: i64,
    errno: i32,
    injected: i32,
    /// The open sockets when the operation first receives.
    live: Option<Vec<J>>,
}

fn inode(fd: i32) -> u64 {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    unsafe { libc::fstat(fd, &mut st) };
    st.st_ino
}
/// Open sockets of this process: inode and descriptor.
fn open_sockets() -> Vec<(u64, i32)> {
    let mut v = vec![];
    for e in std::fs::read_dir("/proc/self/fd").unwrap().flatten() {
        let Ok(t) = std::fs::read_link(e.path()) else { continue };
        if let Some(i) = t.to_string_lossy().strip_prefix("socket:[").and_then(|s| s.strip_suffix(']')) {
            v.push((i.parse().unwrap(), e.file_name().to_string_lossy().parse().unwrap()));
        }
    }
    v
}

impl Os {
    fn step(&mut self) -> Result<(), i32> {
        self.calls += 1;
        if self.calls == self.fault {
            self.injected = self.errno;
            return Err(self.errno);
        }
        Ok(())
    }
    fn rec(&mut self, fd: i32) -> Option<&mut Rec> {
        let i = inode(fd);
        self.recs.iter_mut().find(|r| r.ino == i)
    }
    pub fn socket(&mut self) -> Result<(), i32> {
        self.step()
    }
    pub fn made(&mut self, fd: i32, v6: bool) {
        let ino = inode(fd);
        self.recs.retain(|r| r.ino != ino);
        self.recs.push(Rec { ino, v6, at: None, shared: false, reuse: false, groups: vec![], looped: true });
    }
    pub fn bind(&mut self, fd: i32, a: SocketAddr) -> Result<(), i32> {
        self.step()?;
        let open = open_sockets();
        let reuse = self.rec(fd).map(|r| r.reuse).unwrap_or(false);
        let me = inode(fd);
        let clash = self.recs.iter().any(|r| {
            r.ino != me && open.iter().any(|o| o.0 == r.ino) && r.at.is_some_and(|x| x.port() == a.port()) && !(reuse && r.reuse)
        });
        let foreign = a.port() == 5353 && (self.foreign == 2 || self.foreign == 1 && !reuse);
        if a.port() != 0 && (clash || foreign) {
            return Err(libc::EADDRINUSE);
        }
        if let Some(r) = self.rec(fd) {
            r.at = Some(a);
            r.shared = reuse;
        }
        Ok(())
    }
    pub fn option(&mut self, fd: i32, level: i32, name: i32, val: &[u8]) -> Result<(), i32> {
        self.step()?;
        let on = val.iter().any(|b| *b != 0);
        let Some(r) = self.rec(fd) else { return Ok(()) };
        match (level, name) {
            (libc::SOL_SOCKET, libc::SO_REUSEADDR | libc::SO_REUSEPORT) => r.reuse = on,
            (libc::IPPROTO_IP, libc::IP_ADD_MEMBERSHIP) => r.groups.push(val[..4].to_vec()),
            (libc::IPPROTO_IP, libc::IP_DROP_MEMBERSHIP) => r.groups.retain(|g| g[..] != val[..4]),
            (libc::IPPROTO_IP, libc::IP_MULTICAST_LOOP) | (libc::IPPROTO_IPV6, libc::IPV6_MULTICAST_LOOP) => r.looped = on,
            _ => {}
        }
        Ok(())
    }
    pub fn receiving(&mut self) {
        if self.live.is_none() {
            self.live = Some(self.snapshot());
        }
    }
    /// The open sockets, oldest first.
    fn snapshot(&self) -> Vec<J> {
        let open = open_sockets();
        let mut v = vec![];
        for r in &self.recs {
            let Some((_, fd)) = open.iter().find(|o| o.0 == r.ino) else { continue };
            let any = r.at.is_none_or(|a| match a.ip() {
                IpAddr::V4(a) => a.is_unspecified(),
                IpAddr::V6(a) => a.is_unspecified(),
            });
            let nb = unsafe { libc::fcntl(*fd, libc::F_GETFL) } & libc::O_NONBLOCK != 0;
            let groups: Vec<J> = r.groups.iter().map(|g| jb(g)).collect();
            v.push(obj! {
                "id": r.ino % 1_000_000_000, "fam": if r.v6 { 6 } else { 4 }, "port": r.at.map(|a| a.port()).unwrap_or(0), "any": any,
                "shared": r.shared, "groups": groups, "loop": r.looped, "nb": nb
            });
        }
        v
    }
}

enum Thing {
    Res(Res),
    Dis(Dis),
    SyncAdv(SyncAdvertiser),
    AsyncAdv(AsyncAdvertiser),
    Plain(Advertiser),
    Raw(#[allow(dead_code)] UdpSocket),
    Tap(SyncTap),
}

fn dom() -> DomainName {
    DomainName::from_str("local").unwrap()
}
fn make(o: &J, things: &[Option<Thing>]) -> io::Result<Thing> {
    let (h, i) = (uwuhi::name::Label::new("h"), IpAddr::from([10, 0, 0, 9]));
    Ok(match o.at("w").str() {
        "res" => Thing::Res(Res::S(SyncResolver::new(addr(o.at("srv")))?)),
        "resm4" => Thing::Res(Res::S(SyncResolver::new_multicast_v4()?)),
        "resm6" => Thing::Res(Res::S(SyncResolver::new_multicast_v6()?)),
        "ares" => Thing::Res(Res::A(block_on(AsyncResolver::new(addr(o.at("srv"))))?)),
        "aresm4" => Thing::Res(Res::A(block_on(AsyncResolver::new_multicast_v4())?)),
        "aresm6" => Thing::Res(Res::A(block_on(AsyncResolver::new_multicast_v6())?)),
        "dis" => Thing::Dis(Dis::S(SyncDiscoverer::new(addr(o.at("srv")), dom())?)),
        "dism4" => Thing::Dis(Dis::S(SyncDiscoverer::new_multicast_v4()?)),
        "adis" => Thing::Dis(Dis::A(block_on(AsyncDiscoverer::new(addr(o.at("srv")), dom()))?)),
        "adism4" => Thing::Dis(Dis::A(block_on(AsyncDiscoverer::new_multicast_v4())?)),
        "adv" => Thing::SyncAdv(SyncAdvertiser::new(h, i)?),
        "aadv" => Thing::AsyncAdv(AsyncAdvertiser::new(h, i)?),
        "plain" => Thing::Plain(Advertiser::new(h, i)?),
        "raw" => match things.get(o.opt_int("of", 0) as usize).and_then(|t| t.as_ref()) {
            Some(Thing::Plain(a)) => Thing::Raw(a.create_socket()?),
            _ => Thing::Raw(Advertiser::new(h, i)?.create_socket()?),
        },
        "tap" => Thing::Tap(SyncTap::new()?),
        _ => script_error("unknown kind of object"),
    })
}
/// Listens until the first receive operation fails.
fn listen(t: &mut Option<Thing>) -> io::Result<()> {
    let fail = Pkt { at: sim(|s| s.now), seq: 0, owner: 0, from: SocketAddr::from(([10, 0, 0, 1], 53)), b: vec![], err: libc::ENODEV, id: None, rep: 1 };
    sim(|s| {
        s.queue.clear();
        s.push(fail)
    });
    match t {
        Some(Thing::SyncAdv(a)) => a.listen_blocking(),
        Some(Thing::AsyncAdv(a)) => block_on(a.listen()),
        Some(Thing::Tap(_)) => match t.take() {
            Some(Thing::Tap(t)) => t.listen(),
            _ => unreachable!(),
        },
        _ => Ok(()),
    }
}
/// A setting is made.
fn set(t: &mut Option<Thing>, what: &str, v: Duration) -> io::Result<()> {
    match (t, what) {
        (Some(Thing::Res(Res::S(r))), _) => r.set_timeout(v),
        (Some(Thing::Res(Res::A(r))), _) => r.set_timeout(v),
        (Some(Thing::Dis(Dis::S(d))), "rto") => d.set_retransmit_timeout(v),
        (Some(Thing::Dis(Dis::S(d))), _) => d.set_discovery_timeout(v),
        (Some(Thing::Dis(Dis::A(d))), "rto") => d.set_retransmit_timeout(v),
        (Some(Thing::Dis(Dis::A(d))), _) => d.set_discovery_timeout(v),
        _ => Ok(()),
    }
}
/// A call that nobody replies to.
fn call(t: &mut Option<Thing>) -> io::Result<()> {
    sim(|s| s.queue.clear());
    let name = dom();
    match t {
        Some(Thing::Res(Res::S(r))) => r.resolve_domain(&name).map(|_| ()),
        Some(Thing::Res(Res::A(r))) => block_on(r.resolve_domain(&name)).map(|_| ()),
        Some(Thing::Dis(Dis::S(d))) => d.discover_service_types(|_| std::ops::ControlFlow::Continue(())),
        Some(Thing::Dis(Dis::A(d))) => block_on(d.discover_service_types(|_| std::ops::ControlFlow::Continue(()))),
        _ => Ok(()),
    }
}
fn is_async(t: &Option<Thing>) -> bool {
    matches!(t, Some(Thing::Res(Res::A(_)) | Thing::Dis(Dis::A(_)) | Thing::AsyncAdv(_)))
}

pub fn socks(s: &J, ev: &mut Vec<J>) {
    let sm = {
        let mut sm = Sim::new(false);
        sm.os = Some(Os::default());
        sm
    };
    let ((), mut sm) = with_sim(sm, || {
        let mut things: Vec<Option<Thing>> = vec![];
        let mut out: Vec<J> = vec![];
        for o in s.at("ops").arr() {
            let op = o.at("o").str();
            let n = o.opt_int("i", 0) as usize;
            let asy = match op {
                "mk" => o.at("w").str().starts_with('a') && o.at("w").str() != "adv",
                _ => things.get(n).is_some_and(is_async),
            };
            let start = sim(|s| {
                s.log.clear();
                s.owner = 0;
                s.nonblocking = asy;
                let k = s.os.as_mut().unwrap();
                k.calls = 0;
                k.injected = 0;
                k.live = None;
                k.fault = o.opt_int("f", 0);
                k.errno = o.opt_int("e", libc::EACCES as i64) as i32;
                s.now
            });
            // Every blocking object waits as its own socket was told to.
            if op != "mk" {
                sim(|s| s.timeout[0] = s.timeouts.get(n).copied().flatten());
            } else {
                sim(|s| s.timeout[0] = None);
            }
            let r = guarded(|| -> io::Result<()> {
                match op {
                    "mk" => {
                        let t = make(o, &things);
                        match t {
                            Ok(t) => things.push(Some(t)),
                            Err(e) => {
                                things.push(None);
                                return Err(e);
                            }
                        }
                    }
                    "drop" => things[n] = None,
                    "listen" => listen(&mut things[n])?,
                    "set" => set(&mut things[n], o.at("what").str(), Duration::from_millis(o.at("v").int() as u64))?,
                    "call" => call(&mut things[n])?,
                    "foreign" => sim(|s| s.os.as_mut().unwrap().foreign = o.at("x").int()),
                    _ => script_error("unknown op"),
                }
                Ok(())
            });
            let slot = if op == "mk" { things.len().max(1) - 1 } else { n };
            let e = sim(|s| {
                while s.timeouts.len() <= slot {
                    s.timeouts.push(None);
                }
                if matches!(op, "mk" | "set" | "call") {
                    s.timeouts[slot] = s.timeout[0];
                }
                let k = s.os.as_ref().unwrap();
                let (inj, socks, live) = (k.injected, k.snapshot(), k.live.clone());
                let (res, kind) = match &r {
                    Ok(Ok(())) => ("ok", String::new()),
                    Ok(Err(e)) => ("err", format!("{:?}", e.kind())),
                    Err(_) => ("panic", String::new()),
                };
                let want = if inj == 0 { String::new() } else { format!("{:?}", io::Error::from_raw_os_error(inj).kind()) };
                let gone = format!("{:?}", io::Error::from_raw_os_error(libc::ENODEV).kind());
                let sent: Vec<J> = s.log.iter().filter(|e| e.at("op").str() == "send").map(|e| (e.at("t").int() - (start / s.unit) as i64).into()).collect();
                let mut e = obj! {"op": op, "r": res, "kind": kind, "want": want, "gone": gone, "socks": socks,
                      "t": (s.now - start) / s.unit, "sent": sent};
                if let (J::Obj(o), Some(l)) = (&mut e, live) {
                    o.push(("live".into(), J::Arr(l)));
                }
                e
            });
            out.push(e);
        }
        // The objects' sockets are closed while the environment is still in place.
        drop(things);
        sim(|s| s.log = out);
    });
    ev.append(&mut sm.log);
}
