//! The simulator once more, compiled for another host computer and executed by Miri:
//! an interpreter that detects undefined behaviour and stands in for hosts of the
//! other byte order and word size.  Each worker owns one interpreter per host; it
//! is given one run at a time and returns the digest of its execution.
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

pub struct Host {
    pub name: &'static str,
    target: Option<&'static str>,
    flags: &'static str,
    /// not interpreted but compiled: profile, all the library's features
    build: Option<(&'static str, bool)>,
}
/// as this computer, with every check for undefined behaviour
pub const SAME: usize = 0;
const N: usize = 6;
pub const HOSTS: [Host; N] = [
    Host { name: "x86_64", target: None, flags: "-Zmiri-disable-isolation -Zmiri-ignore-leaks", build: None },
    Host { name: "i686 (32-bit)", target: Some("i686-unknown-linux-gnu"), flags: FAST, build: None },
    Host { name: "s390x (big-endian)", target: Some("s390x-unknown-linux-gnu"), flags: FAST, build: None },
    Host { name: "optimised, without checks", target: None, flags: "", build: Some(("shipped", true)) },
    Host { name: "for size, without any feature", target: None, flags: "", build: Some(("small", false)) },
    Host { name: "not optimised", target: None, flags: "", build: Some(("dev", true)) },
];
/// other computers, other builds for this one
pub const FOREIGN: std::ops::Range<usize> = 1..3;
pub const BUILDS: std::ops::Range<usize> = 3..N;
pub fn lean(k: usize) -> bool {
    matches!(HOSTS[k].build, Some((_, false)))
}
const FAST: &str = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check";

static READY: [AtomicBool; N] = [const { AtomicBool::new(false) }; N];
static SERVERS: AtomicU64 = AtomicU64::new(0);

pub enum Answer {
    /// digest, simulated time, violation
    Done(u64, u64, Option<(String, String)>),
    Undefined(String),
    /// the interpreter failed by itself
    Lost(String),
}

fn dir() -> std::path::PathBuf {
    std::env::current_dir().unwrap_or_default().join("sim/target")
}

fn cargo(h: &Host) -> Command {
    let mut c = Command::new("cargo");
    c.arg("+nightly").arg("miri");
    for k in ["RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "RUSTC", "RUSTDOC", "CARGO", "MIRI_SYSROOT"] {
        c.env_remove(k);
    }
    c.env("CARGO_NET_OFFLINE", "true").env("RUSTFLAGS", "--cfg z80emu_dst").env("CARGO_TARGET_DIR", dir().join("miri")).env("MIRIFLAGS", h.flags);
    if let Some(t) = h.target {
        c.env("MIRI_SYSROOT", dir().join("miri-sysroot").join(t));
    }
    c
}

/// Where a build goes, and what it is called.
fn built(profile: &str, full: bool) -> std::path::PathBuf {
    dir().join(if full { "builds" } else { "builds-lean" }).join(if profile == "dev" { "debug" } else { profile }).join("dst")
}

fn compile(profile: &str, full: bool) -> Result<(), String> {
    let mut c = Command::new("cargo");
    for k in ["CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"] {
        c.env_remove(k);
    }
    let at = built(profile, full);
    c.env("CARGO_NET_OFFLINE", "true").env("RUSTFLAGS", "--cfg z80emu_dst --cap-lints warn").env("CARGO_TARGET_DIR", at.parent().unwrap().parent().unwrap());
    c.args(["build", "-q", "--offline", "--manifest-path", "sim/Cargo.toml", "--profile", profile]);
    c.arg("--no-default-features");
    if full {
        c.args(["--features", "saved"]);
    }
    let o = c.stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    if o.status.success() {
        Ok(())
    } else {
        Err(String::from_utf8_lossy(&o.stderr).lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join("; "))
    }
}

fn run(h: &Host) -> Command {
    if let Some((p, full)) = h.build {
        let mut c = Command::new(built(p, full));
        c.arg("serve");
        return c;
    }
    let mut c = cargo(h);
    c.args(["run", "-q", "--offline", "--manifest-path", "sim/Cargo.toml"]);
    if let Some(t) = h.target {
        c.arg("--target").arg(t);
    }
    c.arg("--").arg("serve");
    c
}

/// Build the standard library for that host, and the simulator against the current tree.
pub fn prepare(k: usize) -> Result<(), String> {
    let h = &HOSTS[k];
    let last = |b: &[u8]| {
        let s = String::from_utf8_lossy(b).to_string();
        s.lines().filter(|l| !l.trim().is_empty()).last().unwrap_or("").to_string()
    };
    if let Some(t) = h.target {
        if !dir().join("miri-sysroot").join(t).join("lib").exists() {
            let o = cargo(h).args(["setup", "--target", t]).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
            if !o.status.success() {
                return Err(format!("no standard library for {}: {}", h.name, last(&o.stderr)));
            }
        }
    }
    if let Some((p, full)) = h.build {
        compile(p, full)?;
    }
    let o = run(h).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    if !o.status.success() || !String::from_utf8_lossy(&o.stdout).contains("ready") {
        return Err(format!("interpreter for {}: {}", h.name, last(&o.stderr)));
    }
    READY[k].store(true, Ordering::SeqCst);
    Ok(())
}

struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    log: std::path::PathBuf,
}
impl Server {
    fn start(k: usize) -> Result<Server, String> {
        let n = SERVERS.fetch_add(1, Ordering::Relaxed);
        let log = std::env::temp_dir().join(format!("dst-miri-{}-{}.log", std::process::id(), n));
        let f = std::fs::File::create(&log).map_err(|e| e.to_string())?;
        let mut child = run(&HOSTS[k]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(f).spawn().map_err(|e| e.to_string())?;
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        let mut s = Server { child, to, from, log };
        match s.line() {
            Some(l) if l == "ready" => Ok(s),
            x => Err(format!("the interpreter did not start: {:?} {}", x, s.diagnosis())),
        }
    }
    fn line(&mut self) -> Option<String> {
        let mut l = String::new();
        match self.from.read_line(&mut l) {
            Ok(n) if n > 0 => Some(l.trim_end().to_string()),
            _ => None,
        }
    }
    fn diagnosis(&mut self) -> String {
        let _ = self.child.wait();
        let mut s = String::new();
        let _ = std::fs::File::open(&self.log).and_then(|mut f| f.read_to_string(&mut s));
        let mut at = s.lines().skip_while(|l| !l.starts_with("error"));
        let what = at.next().unwrap_or("").to_string();
        let place = at.next().map(|l| l.trim().trim_start_matches("--> ").to_string()).unwrap_or_default();
        format!("{} at {}", what, place.rsplit("repo/").next().unwrap_or(""))
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.log);
    }
}

thread_local! {
    static MINE: RefCell<[Option<Server>; N]> = const { RefCell::new([const { None }; N]) };
}

/// Execute one run on the given host.
pub fn ask(k: usize, id: &str, kind: &str, arg: &str) -> Answer {
    if !READY[k].load(Ordering::SeqCst) {
        return Answer::Lost("no interpreter".into());
    }
    MINE.with(|m| {
        let slot = &mut m.borrow_mut()[k];
        if slot.is_none() {
            match Server::start(k) {
                Ok(s) => *slot = Some(s),
                Err(e) => return Answer::Lost(e),
            }
        }
        let s = slot.as_mut().unwrap();
        let sent = writeln!(s.to, "{} {} {}", id, kind, arg).and_then(|_| s.to.flush());
        match (sent, s.line()) {
            (Ok(()), Some(l)) => match serde_json::from_str(&l) {
                Ok((d, t, v)) => Answer::Done(d, t, v),
                Err(_) => {
                    *slot = None;
                    Answer::Lost(format!("unreadable answer {:?}", l))
                }
            },
            _ => {
                let d = s.diagnosis();
                *slot = None;
                if d.contains("Undefined Behavior") {
                    Answer::Undefined(d)
                } else {
                    Answer::Lost(d)
                }
            }
        }
    })
}
