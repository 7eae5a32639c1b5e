//! Executes scripts (one JSON session per line) on the real code and records what is observable.
//!
//! usage: uwh run SCRIPT.ndjson TRACE.ndjson PROGRESS [FIRST]
//!
//! Every output line is the input object plus "ev", the recorded events. PROGRESS always names the session
//! being executed, so that the driver can attribute an abort or a hang to it.
mod conv;
mod json;
mod net;
mod pure;
mod sim;
mod socks;
mod vals;

use json::J;
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs code under test; a panic is an observation, not an error of the harness.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.take())
}
/// The session does not terminate: leave with the code the driver understands.
pub fn die_hang() -> ! {
    unsafe { libc::_exit(77) }
}

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        if !r.target().starts_with("uwuhi") {
            return;
        }
        // Always format: formatting code of the crate is code under test, too.
        let s = r.args().to_string();
        if r.level() == log::Level::Debug && sim::active() {
            sim::sim(|m| {
                if m.capture {
                    m.log.push(obj! {"op": "line", "b": json::jb(s.as_bytes())});
                }
            });
        }
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;
static CURRENT: AtomicU64 = AtomicU64::new(0);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 || args[1] != "run" {
        eprintln!("usage: uwh run SCRIPT TRACE PROGRESS [FIRST]");
        std::process::exit(2);
    }
    let first: u64 = args.get(5).map(|s| s.parse().unwrap()).unwrap_or(0);
    unsafe {
        // A runaway allocation ends this process, not the sandbox.
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = s.chars().filter(|c| c.is_ascii()).collect());
    }));
    log::set_logger(&LOGGER).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    // Watchdog: a session that burns more than 20 s is a hang.
    std::thread::spawn(|| {
        let (mut last, mut n) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let c = CURRENT.load(Ordering::Relaxed);
            if c == last {
                n += 1;
            } else {
                n = 0;
            }
            last = c;
            if n >= 20 {
                die_hang();
            }
        }
    });
    let fail = |m: &str| -> ! {
        eprintln!("{m}");
        std::process::exit(2)
    };
    let script = std::fs::File::open(&args[2]).unwrap_or_else(|_| fail("cannot open script"));
    let mut out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[3])
        .unwrap_or_else(|_| fail("cannot open trace"));
    let progress = std::fs::File::create(&args[4]).unwrap_or_else(|_| fail("cannot open progress"));
    let mut k = 0u64;
    for line in std::io::BufReader::new(script).lines() {
        let line = line.unwrap_or_else(|_| fail("read"));
        if line.trim().is_empty() {
            continue;
        }
        if k < first {
            k += 1;
            continue;
        }
        let s = json::parse(&line);
        CURRENT.store(k + 1, Ordering::Relaxed);
        let _ = progress.write_at(format!("{k:>12}").as_bytes(), 0);
        let mut ev = vec![];
        let kind = s.at("k").str().to_string();
        let r = guarded(|| match kind.as_str() {
            "dec" => pure::dec(&s, &mut ev),
            "enc" => pure::enc(&s, &mut ev),
            "hdr" => pure::hdrs(&s, &mut ev),
            "name" => pure::names(&s, &mut ev),
            "match" => pure::matches(&s, &mut ev),
            "matchall" => pure::matches_all(&s, &mut ev),
            "txt" => pure::txt(&s, &mut ev),
            "svc" => pure::svc(&s, &mut ev),
            #[cfg(feature = "helpers")]
            "query" => pure::query(&s, &mut ev),
            "adv" => pure::adv(&s, &mut ev),
            "net" => net::net(&s, &mut ev),
            "listen" => net::listen(&s, &mut ev),
            "socks" => socks::socks(&s, &mut ev),
            "conv" => pure::conv(&mut ev),
            "val" => vals::vals(&s, &mut ev),
            "tap" => net::tap(&s, &mut ev),
            _ => json::script_error("unknown session kind"),
        });
        if let Err(m) = r {
            ev.push(obj! {"op": "panic", "m": m});
        }
        let mut o = match s {
            J::Obj(o) => o,
            _ => unreachable!(),
        };
        o.push(("ev".into(), J::Arr(ev)));
        let mut text = J::Obj(o).dump();
        text.push('\n');
        out.write_all(text.as_bytes()).unwrap_or_else(|_| fail("write"));
        k += 1;
    }
    let _ = progress.write_at(b"        done", 0);
}
