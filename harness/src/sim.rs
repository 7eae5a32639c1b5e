//! Virtual network and virtual clock.
//!
//! The harness binary defines the libc symbols below itself, so the crate's unmodified socket code (std's
//! `UdpSocket`, socket2, async-io) runs against a scripted environment: every datagram, socket error and
//! timeout is a deterministic step. Outside a session (and on every other thread) the calls go to the kernel.
use crate::json::{jb, J};
use crate::obj;
use libc::{c_int, c_void, size_t, sockaddr, socklen_t, ssize_t};
use std::cell::Cell;
use std::net::{IpAddr, SocketAddr};
use uwuhi::service::advertising::Advertiser;

thread_local! {
    static SIM: Cell<*mut Sim> = const { Cell::new(std::ptr::null_mut()) };
}

pub struct Pkt {
    pub at: u64,
    pub seq: u64,
    pub owner: usize,
    pub from: SocketAddr,
    pub b: Vec<u8>,
    pub err: i32,
    /// Patch the message id at delivery: id of the query sent by call `.0`, xored with `.1`.
    pub id: Option<(usize, u16)>,
    /// How many times it arrives.
    pub rep: i64,
}

pub struct Sim {
    /// Virtual time in microseconds.
    pub now: u64,
    /// Unit of the times in scripts and traces, in microseconds.
    pub unit: u64,
    pub nonblocking: bool,
    /// Per owner (see net.rs): receive timeout, running call, its sends and send faults, connected peer.
    pub timeout: [Option<u64>; 4],
    pub queue: Vec<Pkt>,
    pub log: Vec<J>,
    pub owner: usize,
    pub call: [usize; 4],
    pub ids: Vec<Option<u16>>,
    pub sends_in_call: [usize; 4],
    pub send_faults: [Vec<(usize, i32)>; 4],
    /// How long the first sends of the call take.
    pub send_delays: [Vec<u64>; 4],
    pub advs: Vec<(Advertiser, SocketAddr)>,
    /// fates[send][adv] = delays (in ms) after which a copy of the reply arrives.
    pub fates: Vec<Vec<Vec<u64>>>,
    pub sends: usize,
    pub seq: u64,
    pub steps: u64,
    pub capture: bool,
    /// Nothing is logged (many calls whose traces are of no interest one by one).
    pub quiet: bool,
    pub last_id: Option<u16>,
    pub joined: Vec<u8>,
    pub bound_port: u16,
    pub peer: [Option<SocketAddr>; 4],
    /// In sessions about sockets: what becomes of them, and the receive timeout of each object's socket.
    pub os: Option<crate::socks::Os>,
    pub timeouts: Vec<Option<u64>>,
}

const MAX_STEPS: u64 = 4_000_000;
const MAX_EVENTS: usize = 400_000;
const CLOCK_BASE_S: u64 = 500_000_000;

impl Pkt {
    fn copy(&self) -> Pkt {
        Pkt { b: self.b.clone(), ..*self }
    }
}

impl Sim {
    pub fn new(nonblocking: bool) -> Box<Sim> {
        Box::new(Sim {
            now: 0,
            unit: 1000,
            nonblocking,
            timeout: [None; 4],
            queue: vec![],
            log: vec![],
            owner: 0,
            call: [0; 4],
            ids: vec![],
            sends_in_call: [0; 4],
            send_faults: Default::default(),
            send_delays: Default::default(),
            advs: vec![],
            fates: vec![],
            sends: 0,
            seq: 0,
            steps: 0,
            capture: false,
            quiet: false,
            last_id: None,
            joined: vec![],
            bound_port: 0,
            peer: [None; 4],
            os: None,
            timeouts: vec![],
        })
    }
    pub fn ms(&self) -> J {
        (self.now / self.unit).into()
    }
    pub fn push(&mut self, mut p: Pkt) {
        p.seq = self.seq;
        self.seq += 1;
        self.queue.push(p);
    }
    fn note(&mut self, e: J) {
        if !self.quiet {
            self.log.push(e);
        }
    }
    /// Time passes for everybody who waits.
    pub fn tick(&mut self) {
        self.step();
        self.now += 1000;
    }
    /// Packets that were due some time ago and still wait.
    pub fn due(&self) -> usize {
        self.queue.iter().filter(|p| p.owner == self.owner && p.at + 10_000 < self.now).count()
    }
    fn step(&mut self) {
        self.steps += 1;
        if self.steps > MAX_STEPS || self.log.len() > MAX_EVENTS {
            crate::die_hang();
        }
    }
    /// Index and time of the next packet for the active socket.
    fn next(&self) -> Option<(usize, u64)> {
        self.queue
            .iter()
            .enumerate()
            .filter(|(_, p)| p.owner == self.owner)
            .min_by_key(|(_, p)| (p.at, p.seq))
            .map(|(i, p)| (i, p.at))
    }
    fn recv(&mut self, buf: &mut [u8], peek: bool) -> Result<(usize, SocketAddr), i32> {
        self.step();
        if let Some(os) = &mut self.os {
            os.receiving();
        }
        let next = self.next();
        let idx = match next {
            Some((i, at)) if at <= self.now => i,
            _ if self.nonblocking => return Err(libc::EAGAIN),
            _ => match (next, self.timeout[self.owner]) {
                (Some((i, at)), t) if t.is_none() || at <= self.now.saturating_add(t.unwrap()) => {
                    self.now = at;
                    i
                }
                (_, Some(t)) => {
                    self.now = self.now.saturating_add(t);
                    return Err(libc::EAGAIN);
                }
                (_, None) => {
                    // Blocking forever: no script does this on purpose.
                    self.log.push(obj! {"op": "stuck", "t": self.ms()});
                    return Err(libc::EIO);
                }
            },
        };
        let more = self.queue[idx].rep > 1;
        self.queue[idx].rep -= if more && !peek { 1 } else { 0 };
        let mut p = if peek || more { self.queue[idx].copy() } else { self.queue.remove(idx) };
        if p.err != 0 && peek {
            return Err(p.err);
        }
        if p.err != 0 {
            let e = obj! {"op": "rerr", "t": self.ms(), "os": p.err};
            self.note(e);
            return Err(p.err);
        }
        if let Some((c, x)) = p.id {
            if let (Some(Some(id)), true) = (self.ids.get(c), p.b.len() >= 2) {
                let v = (id ^ x).to_be_bytes();
                p.b[..2].copy_from_slice(&v);
            }
        }
        let n = p.b.len().min(buf.len());
        // Datagrams beyond the size of an mDNS packet: what the code chose to receive.
        let shown = n.max(p.b.len().min(1500));
        if !peek {
            let e = obj! {"op": "recv", "t": self.ms(), "from": jaddr(&p.from), "b": jb(&p.b[..shown])};
            self.note(e);
        }
        buf[..n].copy_from_slice(&p.b[..n]);
        Ok((n, p.from))
    }
    fn send(&mut self, b: &[u8], to: SocketAddr) -> Result<usize, i32> {
        self.step();
        let (o, k) = (self.owner, self.sends_in_call[self.owner]);
        self.sends_in_call[o] += 1;
        let fault = self.send_faults[o].iter().find(|(i, _)| *i == k).map(|f| f.1).unwrap_or(0);
        let d = self.send_delays[o].get(k).copied().unwrap_or(0);
        let e = obj! {"op": "send", "t": self.ms(), "to": jaddr(&to), "b": jb(b), "os": fault, "d": d};
        self.note(e);
        self.now += d * self.unit;
        if b.len() >= 2 {
            let id = u16::from_be_bytes([b[0], b[1]]);
            while self.ids.len() <= self.call[o] {
                self.ids.push(None);
            }
            self.ids[self.call[o]].get_or_insert(id);
            self.last_id = Some(id);
        }
        if fault != 0 {
            return Err(fault);
        }
        let s = self.sends;
        self.sends += 1;
        for a in 0..self.advs.len() {
            let fate = match self.fates.get(s) {
                Some(f) => f.get(a).cloned().unwrap_or_default(),
                None => vec![],
            };
            if fate.is_empty() {
                continue; // the query or its reply is lost
            }
            let (adv, from) = &mut self.advs[a];
            let from = *from;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match adv.handle_packet(b) {
                Ok(Some(p)) => ("resp", p.to_vec()),
                Ok(None) => ("none", vec![]),
                Err(_) => ("err", vec![]),
            }))
            .unwrap_or(("panic", vec![]));
            let dl: Vec<J> = fate.iter().map(|&d| d.into()).collect();
            self.log.push(obj! {"op": "resp", "t": self.ms(), "a": a + 1, "r": r.0, "b": jb(&r.1), "dl": dl});
            if r.0 == "resp" {
                for d in fate {
                    let p = Pkt { at: self.now + d * self.unit, seq: 0, owner: self.owner, from, b: r.1.clone(), err: 0, id: None, rep: 1 };
                    self.push(p);
                }
            }
        }
        Ok(b.len())
    }
}

pub fn jaddr(a: &SocketAddr) -> J {
    let mut v = match a.ip() {
        IpAddr::V4(a) => a.octets().to_vec(),
        IpAddr::V6(a) => a.octets().to_vec(),
    };
    v.extend_from_slice(&a.port().to_be_bytes());
    jb(&v)
}

/// Runs `f` with `sim` as this thread's environment.
pub fn with_sim<R>(sim: Box<Sim>, f: impl FnOnce() -> R) -> (R, Box<Sim>) {
    let p = Box::into_raw(sim);
    SIM.set(p);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    SIM.set(std::ptr::null_mut());
    let sim = unsafe { Box::from_raw(p) };
    match r {
        Ok(r) => (r, sim),
        Err(e) => std::panic::resume_unwind(e),
    }
}
/// Access to the running environment (from callbacks and between calls).
pub fn sim<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    let p = SIM.get();
    assert!(!p.is_null());
    f(unsafe { &mut *p })
}
pub fn active() -> bool {
    !SIM.get().is_null()
}

/// Polls a future to completion under the virtual clock.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    block_until(f, None).unwrap()
}
/// Likewise, or until the given moment, when the future is dropped.
pub fn block_until<F: std::future::Future>(f: F, end: Option<u64>) -> Option<F::Output> {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return Some(r);
        }
        if end.is_some_and(|e| sim(|s| s.now) >= e) {
            return None;
        }
        sim(|s| s.tick());
    }
}

unsafe fn set_errno(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}
unsafe fn addr_from(p: *const sockaddr) -> SocketAddr {
    match (*p).sa_family as c_int {
        libc::AF_INET6 => {
            let a = &*(p as *const libc::sockaddr_in6);
            SocketAddr::new(IpAddr::V6(a.sin6_addr.s6_addr.into()), u16::from_be(a.sin6_port))
        }
        _ => {
            let a = &*(p as *const libc::sockaddr_in);
            SocketAddr::new(IpAddr::V4(u32::from_be(a.sin_addr.s_addr).into()), u16::from_be(a.sin_port))
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn recvfrom(
    fd: c_int, buf: *mut c_void, len: size_t, flags: c_int, addr: *mut sockaddr, alen: *mut socklen_t,
) -> ssize_t {
    let p = SIM.get();
    if p.is_null() {
        return libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, addr, alen) as ssize_t;
    }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    match (*p).recv(b, flags & libc::MSG_PEEK != 0) {
        Ok((n, from)) => {
            if !addr.is_null() {
                match from {
                    SocketAddr::V4(a) => {
                        let mut s: libc::sockaddr_in = std::mem::zeroed();
                        s.sin_family = libc::AF_INET as _;
                        s.sin_port = a.port().to_be();
                        s.sin_addr.s_addr = u32::from(*a.ip()).to_be();
                        std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, addr as *mut u8, size_of_val(&s));
                        *alen = size_of_val(&s) as _;
                    }
                    SocketAddr::V6(a) => {
                        let mut s: libc::sockaddr_in6 = std::mem::zeroed();
                        s.sin6_family = libc::AF_INET6 as _;
                        s.sin6_port = a.port().to_be();
                        s.sin6_addr.s6_addr = a.ip().octets();
                        std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, addr as *mut u8, size_of_val(&s));
                        *alen = size_of_val(&s) as _;
                    }
                }
            }
            n as ssize_t
        }
        Err(e) => set_errno(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendto(
    fd: c_int, buf: *const c_void, len: size_t, flags: c_int, addr: *const sockaddr, alen: socklen_t,
) -> ssize_t {
    let p = SIM.get();
    if p.is_null() {
        return libc::syscall(libc::SYS_sendto, fd, buf, len, flags, addr, alen) as ssize_t;
    }
    let to = if addr.is_null() { (*p).peer[(*p).owner] } else { Some(addr_from(addr)) };
    let Some(to) = to else { return set_errno(libc::EDESTADDRREQ) };
    match (*p).send(std::slice::from_raw_parts(buf as *const u8, len), to) {
        Ok(n) => n as ssize_t,
        Err(e) => set_errno(e),
    }
}
// The same calls in their other forms.
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    recvfrom(fd, buf, len, flags, std::ptr::null_mut(), std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    sendto(fd, buf, len, flags, std::ptr::null(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    let p = SIM.get();
    if p.is_null() {
        return libc::syscall(libc::SYS_connect, fd, addr, len) as c_int;
    }
    (*p).peer[(*p).owner] = Some(addr_from(addr));
    0
}
#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    // A real socket is created (async-io registers it with epoll) but never bound or used.
    let real = if active() && domain == libc::AF_INET6 { libc::AF_INET } else { domain };
    let p = SIM.get();
    if !p.is_null() {
        if let Some(os) = &mut (*p).os {
            if let Err(e) = os.socket() {
                return set_errno(e) as c_int;
            }
            let fd = libc::syscall(libc::SYS_socket, real, ty, proto) as c_int;
            os.made(fd, domain == libc::AF_INET6);
            return fd;
        }
    }
    libc::syscall(libc::SYS_socket, real, ty, proto) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    let p = SIM.get();
    if p.is_null() {
        return libc::syscall(libc::SYS_bind, fd, addr, len) as c_int;
    }
    (*p).bound_port = addr_from(addr).port();
    if let Some(os) = &mut (*p).os {
        if let Err(e) = os.bind(fd, addr_from(addr)) {
            return set_errno(e) as c_int;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, val: *const c_void, len: socklen_t) -> c_int {
    let p = SIM.get();
    if p.is_null() {
        return libc::syscall(libc::SYS_setsockopt, fd, level, name, val, len) as c_int;
    }
    if let Some(os) = &mut (*p).os {
        if let Err(e) = os.option(fd, level, name, std::slice::from_raw_parts(val as *const u8, len as usize)) {
            return set_errno(e) as c_int;
        }
    }
    if level == libc::SOL_SOCKET && name == libc::SO_RCVTIMEO {
        let tv = &*(val as *const libc::timeval);
        let us = (tv.tv_sec as u64).saturating_mul(1_000_000).saturating_add(tv.tv_usec as u64);
        (*p).timeout[(*p).owner] = if us == 0 { None } else { Some(us) };
    }
    if level == libc::IPPROTO_IP && name == libc::IP_ADD_MEMBERSHIP {
        let m = &*(val as *const libc::ip_mreqn);
        (*p).joined = u32::from_be(m.imr_multiaddr.s_addr).to_be_bytes().to_vec();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, val: *mut c_void, len: *mut socklen_t) -> c_int {
    let p = SIM.get();
    if !p.is_null() && level == libc::SOL_SOCKET && name == libc::SO_RCVTIMEO {
        let us = (*p).timeout[(*p).owner].unwrap_or(0);
        let tv = libc::timeval { tv_sec: (us / 1_000_000) as _, tv_usec: (us % 1_000_000) as _ };
        *(val as *mut libc::timeval) = tv;
        *len = size_of::<libc::timeval>() as _;
        return 0;
    }
    libc::syscall(libc::SYS_getsockopt, fd, level, name, val, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    let p = SIM.get();
    if p.is_null() || clk == libc::CLOCK_REALTIME {
        return libc::syscall(libc::SYS_clock_gettime, clk, ts) as c_int;
    }
    (*p).step();
    (*ts).tv_sec = (CLOCK_BASE_S + (*p).now / 1_000_000) as _;
    (*ts).tv_nsec = ((*p).now % 1_000_000 * 1000) as _;
    0
}
