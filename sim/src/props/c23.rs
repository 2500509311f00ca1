//! C23: the emulation thread obeys every control message.
//!
//! The thread's own source runs against a standard library whose clock, sleep, channels
//! and output are those of a simulated host; a specification of the control loop, driving
//! another computer, has to explain everything the thread did.
use crate::engine::*;
use crate::cpu::get_state;
use crate::ensure;
use crate::model::State;
use crate::machine::{snippet, KNOWN_PANICS};
use crate::rng::{hash2, hash3, Rng};
use fakestd::sync::mpsc::{Drain, Receiver, RecvError, SendError, Source, SyncSender, TryRecvError, TrySendError};
use fakestd::world::{self, World};
use ral1243::bus::{Bus, Terminator};
use ral1243::ctc::Ctc;
use ral1243::ctc_trigger::CtcActive;
use ral1243::debug::{was_just_a_call, was_just_a_ret, Debugger, Header, Preview};
use ral1243::memory::Memory;
use ral1243::pio::Pio;
use ral1243::pio_device::{PioInput, PioOutput};
use ral1243::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;
use z80emu::z80::NMOS;
use z80emu::{CpuDebug, Z80};

const EXT: u32 = 10_000;
const FPS: u32 = 500;
const FRAME_NS: u64 = 1_000_000_000 / FPS as u64;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Msg {
    Terminate,
    Reset,
    Nmi,
    Next,
    Completion,
    RunIrq,
    Continue,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sc {
    hz: u32,
    ramkb: u8,
    /// no cartridges but the usual ones
    stock: bool,
    seed: u64,
    guest: Vec<Vec<u8>>,
    /// control messages: delay after the previous one, ns
    msgs: Vec<(u64, Msg)>,
    /// how long after the last one the controller disappears
    gone: u64,
    keys: Vec<(u64, u8)>,
    /// the output channel is full in this many of 8 stretches of time, closed after this time
    refuse: u8,
    closed: Option<u64>,
    /// how slow the host is: 0 fast, 1 about as slow as the computer, 2 stalls
    host: u8,
    /// partial writes
    short: bool,
    /// this flush of the output fails
    flush_fails: Option<u32>,
}

#[derive(Clone, Debug, PartialEq)]
enum L {
    Now,
    Sleep(u64),
    Ctl(bool, Option<Msg>, bool),
    Key(u8),
    /// asked in vain this often
    NoKey(u32),
    Sink(u8, bool),
    Text(Vec<u8>),
}

struct Host {
    sc: Sc,
    now: Cell<u64>,
    n: Cell<u64>,
    left: Cell<u64>,
    msgs: RefCell<VecDeque<(u64, Msg)>>,
    gone: u64,
    keys: RefCell<VecDeque<(u64, u8)>>,
    log: RefCell<Vec<(u64, L)>>,
    stalls: Cell<u64>,
    partial: Cell<u64>,
    flushes: Cell<u32>,
    flush_failed: Cell<bool>,
}
impl Host {
    fn new(sc: &Sc) -> Host {
        let sum = |d: &mut u64, x: u64| {
            *d += x;
            *d
        };
        let mut t = 0;
        let msgs: VecDeque<_> = sc.msgs.iter().map(|&(d, m)| (sum(&mut t, d), m)).collect();
        let gone = t + sc.gone;
        let mut t = 0;
        let keys = sc.keys.iter().map(|&(d, k)| (sum(&mut t, d), k)).collect();
        Host {
            sc: sc.clone(),
            now: Cell::new(0),
            n: Cell::new(0),
            left: Cell::new(400_000),
            msgs: RefCell::new(msgs),
            gone,
            keys: RefCell::new(keys),
            log: RefCell::new(Vec::new()),
            stalls: Cell::new(0),
            partial: Cell::new(0),
            flushes: Cell::new(0),
            flush_failed: Cell::new(false),
        }
    }
    fn rnd(&self) -> u64 {
        let n = self.n.get();
        self.n.set(n + 1);
        if self.left.get() == 0 {
            panic!("no end: the thread goes on without asking for messages or after its end");
        }
        self.left.set(self.left.get() - 1);
        hash2(self.sc.seed, n)
    }
    fn ev(&self, e: L) {
        self.log.borrow_mut().push((self.now.get(), e));
    }
    fn pass(&self, ns: u64) {
        self.now.set(self.now.get() + ns);
    }
    fn hiccup(&self, h: u64) {
        if self.sc.host == 2 && h % 23 == 0 {
            self.stalls.set(self.stalls.get() + 1);
            self.pass(match h >> 8 & 3 {
                0 => 5_000_000_000,
                1 => 300_000_000,
                _ => 1_000_000 + (h >> 16) % 20_000_000,
            });
        }
    }
    /// Is there a message, and is the controller still there?
    fn message(&self, block: bool) -> Result<Msg, bool> {
        self.rnd();
        let mut q = self.msgs.borrow_mut();
        let now = self.now.get();
        let r = match q.front() {
            Some(&(t, _)) if t <= now || block => {
                let (t, m) = q.pop_front().unwrap();
                self.now.set(now.max(t));
                Ok(m)
            }
            Some(_) => Err(false),
            None if block => {
                self.now.set(now.max(self.gone));
                Err(true)
            }
            None => Err(now >= self.gone),
        };
        self.ev(L::Ctl(block, r.ok(), r == Err(true)));
        r
    }
}
impl World for Host {
    fn now(&self) -> u64 {
        let h = self.rnd();
        self.pass(match self.sc.host {
            0 => h % 2_000,
            1 => h % 3_000_000,
            _ => h % 300_000,
        });
        self.hiccup(h >> 20);
        self.ev(L::Now);
        self.now.get()
    }
    fn sleep(&self, ns: u64) {
        let h = self.rnd();
        self.ev(L::Sleep(ns));
        self.pass(ns);
        self.pass(if self.sc.host == 0 { h % 100 } else { h % 100_000 });
        self.hiccup(h >> 20);
    }
    fn write(&self, b: &[u8]) -> std::io::Result<usize> {
        let h = self.rnd();
        let mut n = b.len();
        if self.sc.short && n > 0 {
            match h % 8 {
                0 => {
                    self.partial.set(self.partial.get() + 1);
                    return Err(std::io::ErrorKind::Interrupted.into());
                }
                1 | 2 if n > 1 => {
                    self.partial.set(self.partial.get() + 1);
                    n = 1 + (h >> 8) as usize % (n - 1);
                }
                _ => {}
            }
        }
        self.ev(L::Text(b[..n].to_vec()));
        Ok(n)
    }
    fn flush(&self) -> std::io::Result<()> {
        self.rnd();
        let k = self.flushes.get();
        self.flushes.set(k + 1);
        if self.sc.flush_fails == Some(k) {
            self.flush_failed.set(true);
            return Err(std::io::ErrorKind::StorageFull.into());
        }
        Ok(())
    }
}
struct Ctl(Rc<Host>);
impl Source<ral1243sim::RunnerMsg> for Ctl {
    fn try_recv(&self) -> Result<ral1243sim::RunnerMsg, TryRecvError> {
        self.0.message(false).map(theirs).map_err(|gone| if gone { TryRecvError::Disconnected } else { TryRecvError::Empty })
    }
    fn recv(&self) -> Result<ral1243sim::RunnerMsg, RecvError> {
        self.0.message(true).map(theirs).map_err(|_| RecvError)
    }
}
fn theirs(m: Msg) -> ral1243sim::RunnerMsg {
    use ral1243sim::RunnerMsg::*;
    match m {
        Msg::Terminate => Terminate,
        Msg::Reset => Reset,
        Msg::Nmi => Nmi,
        Msg::Next => DebugNext,
        Msg::Completion => DebugCompletion,
        Msg::RunIrq => DebugRunIrq,
        Msg::Continue => Continue,
    }
}
struct Keys(Rc<Host>);
impl Source<u8> for Keys {
    fn try_recv(&self) -> Result<u8, TryRecvError> {
        let h = &self.0;
        let mut q = h.keys.borrow_mut();
        let r = match q.front() {
            Some(&(t, k)) if t <= h.now.get() => {
                q.pop_front();
                Ok(k)
            }
            Some(_) => Err(TryRecvError::Empty),
            None => Err(TryRecvError::Disconnected),
        };
        match r {
            Ok(k) => h.ev(L::Key(k)),
            Err(_) => {
                let mut log = h.log.borrow_mut();
                match log.last_mut() {
                    Some((_, L::NoKey(n))) => *n += 1,
                    _ => log.push((h.now.get(), L::NoKey(1))),
                }
            }
        }
        r
    }
    fn recv(&self) -> Result<u8, RecvError> {
        panic!("blocks on input")
    }
}
struct Sink(Rc<Host>);
impl Drain<u8> for Sink {
    fn try_send(&self, v: u8) -> Result<(), TrySendError<u8>> {
        let h = &self.0;
        let t = h.now.get();
        let full = hash3(h.sc.seed, 5, t / 3_000_000) % 8 < h.sc.refuse as u64;
        let r = if h.sc.closed.map_or(false, |c| t >= c) {
            Err(TrySendError::Disconnected(v))
        } else if full {
            Err(TrySendError::Full(v))
        } else {
            Ok(())
        };
        h.ev(L::Sink(v, r.is_ok()));
        r
    }
    fn send(&self, _v: u8) -> Result<(), SendError<u8>> {
        panic!("blocks on output")
    }
}

// ---- what explains it ----
struct Script {
    log: Vec<(u64, L)>,
    at: Cell<usize>,
    nokey: Cell<u32>,
    bad: RefCell<Option<String>>,
}
impl Script {
    fn next(&self) -> Option<&(u64, L)> {
        if self.nokey.get() > 0 {
            self.wrong("input asked for", None);
        }
        let k = self.at.get();
        self.at.set(k + 1);
        self.log.get(k)
    }
    fn wrong(&self, want: &str, got: Option<&(u64, L)>) {
        self.bad.borrow_mut().get_or_insert_with(|| format!("event {}: {:?}, expected {}", self.at.get() - 1, got, want));
    }
}
struct SIn(Rc<Script>);
impl PioStream for SIn {
    fn slurp(&mut self) -> Option<u8> {
        let s = &self.0;
        if s.nokey.get() > 0 {
            s.nokey.set(s.nokey.get() - 1);
            return None;
        }
        match s.next() {
            Some((_, L::Key(k))) => Some(*k),
            Some((_, L::NoKey(n))) => {
                s.nokey.set(n - 1);
                None
            }
            x => {
                self.0.wrong("input asked for", x);
                None
            }
        }
    }
}
struct SOut(Rc<Script>);
impl PioSink for SOut {
    fn flush(&mut self, d: u8) -> bool {
        match self.0.next() {
            Some((_, L::Sink(v, ok))) if *v == d => *ok,
            x => {
                self.0.wrong(&format!("output of {:02x}", d), x);
                false
            }
        }
    }
}
struct Spec {
    runner: FrameRunner<EXT, FPS>,
    cpu: Z80<NMOS>,
    bus: BusT<SIn, SOut>,
    script: Rc<Script>,
    text: String,
    pending: bool,
    frames: u64,
    commands: u64,
    waited: u64,
    control: Option<String>,
}
enum End {
    Ended,
    Wrong(String),
}
impl Spec {
    fn new(sc: &Sc, script: Rc<Script>) -> Spec {
        let mut m = Memory::new(ROM, sc.ramkb as usize);
        match cards(sc) {
            None => {
                m.attach_exrom(Memory::make_rom(EX_ROM001));
                m.attach_exrom(Memory::make_rom(EX_ROM002));
            }
            Some(c) => {
                m.attach_exroms(c.iter().map(|c| Memory::make_rom(c)));
            }
        }
        let pio = Pio::new(PioInput::new(SIn(script.clone())), PioOutput::new(SOut(script.clone())), Terminator::new()).with_port_bits(PIO_PORT_MASK, PIO_PORT_BITS, PIO_PORT_CHANNEL_SELECT, PIO_PORT_CONTROL_SELECT);
        let (c0, c2) = (CtcActive::new(sc.hz / EXT), CtcActive::new(sc.hz / EXT));
        let (c1, c3) = (c0.new_passive(), c2.new_passive());
        let ctc = Ctc::new(c0, c1, c2, c3, pio).with_port_bits(CTC_PORT_MASK, CTC_PORT_BITS, CTC_PORT_CHANNEL_SELECT1, CTC_PORT_CHANNEL_SELECT0);
        let bus = Bus::new(ctc, m).with_port_bits(MEMORY_PORT_MASK, MEMORY_PORT_BITS);
        let mut s = Spec { runner: FrameRunner::new(sc.hz), cpu: Z80::default(), bus, script, text: String::new(), pending: false, frames: 0, commands: 0, waited: 0, control: None };
        s.runner.start(&mut s.cpu, &mut s.bus);
        s
    }
    /// The next message the thread must have asked for now.
    fn ctl(&mut self, block: bool) -> Result<Option<Msg>, End> {
        if let Some(b) = self.script.bad.borrow().clone() {
            return Err(End::Wrong(b));
        }
        self.text.push('\x01');
        let x = self.script.next();
        match x {
            Some((_, L::Ctl(b, m, gone))) if *b == block => {
                if *gone || *m == Some(Msg::Terminate) {
                    return Err(End::Ended);
                }
                Ok(*m)
            }
            x => Err(End::Wrong(format!("event {}: {:?}, expected a look for messages (blocking {})", self.script.at.get() - 1, x, block))),
        }
    }
    fn nmi(&mut self) -> Option<u32> {
        let a = get_state(&self.cpu);
        let r = self.runner.nmi(&mut self.cpu, &mut self.bus);
        let b = get_state(&self.cpu);
        // refused within an instruction and after EI only, and then without a trace
        let waits = a.prefix != 0 || a.ei;
        let ok = match r {
            Some(_) => !waits && b.pc == 0x66 && !b.iff1 && !b.halt && b.sp == a.sp.wrapping_sub(2),
            None => waits && a == b,
        };
        if !ok {
            self.control.get_or_insert(format!("non-maskable interrupt accepted {} in {:?}, then {:?}", r.is_some(), a, b));
        }
        r
    }
    fn reset(&mut self) {
        self.pending = false;
        self.runner.reset(&mut self.cpu, &mut self.bus);
        let b = get_state(&self.cpu);
        if b != State::reset() {
            self.control.get_or_insert(format!("after a reset {:?}", b));
        }
    }
    fn line(&mut self, d: &CpuDebug) {
        self.text.push_str(&format!("{}\n", Debugger::of(d, &self.cpu)));
    }
    /// Again until there is something or the time is over.
    fn repeat<T>(&mut self, mut ts: u32, mut f: impl FnMut(&mut Self) -> (Option<T>, u32)) -> (Option<T>, u32) {
        for _ in 0..=FPS {
            let (x, t) = f(self);
            ts += t;
            if x.is_some() {
                return (x, ts);
            }
        }
        (None, ts)
    }
    fn run(&mut self) -> End {
        loop {
            if self.pending {
                self.waited += 1;
                self.pending = self.nmi().is_none();
            }
            self.runner.step(&mut self.cpu, &mut self.bus);
            self.frames += 1;
            match self.ctl(false) {
                Err(e) => return e,
                Ok(None) | Ok(Some(Msg::Continue)) | Ok(Some(Msg::Terminate)) => {}
                Ok(Some(Msg::Reset)) => self.reset(),
                Ok(Some(Msg::Nmi)) => self.pending = self.nmi().is_none(),
                Ok(Some(Msg::Next | Msg::Completion | Msg::RunIrq)) => {
                    if let Err(e) = self.debug() {
                        return e;
                    }
                }
            }
        }
    }
    fn debug(&mut self) -> Result<(), End> {
        let mut last = 0;
        loop {
            if self.pending {
                self.waited += 1;
                if let Some(t) = self.nmi() {
                    last += t;
                    self.pending = false;
                }
            }
            let d = self.runner.debug_preview(&self.cpu, &self.bus);
            self.text.push_str(&format!("{}T: +{}        \r", Preview::of(&d), last));
            let m = self.ctl(true)?;
            self.commands += 1;
            let (d, ts) = match m {
                None | Some(Msg::Terminate) | Some(Msg::Continue) => return Ok(()),
                Some(Msg::Reset) => {
                    self.reset();
                    continue;
                }
                Some(Msg::Nmi) => {
                    self.pending = true;
                    continue;
                }
                Some(Msg::Next) => self.runner.debug_step(&mut self.cpu, &mut self.bus),
                Some(Msg::RunIrq) => self.repeat(0, |s| s.runner.debug_runto_int(&mut s.cpu, &mut s.bus)),
                Some(Msg::Completion) => {
                    let (d, ts) = self.runner.debug_step(&mut self.cpu, &mut self.bus);
                    match d {
                        Some(d) if was_just_a_ret(&d, &self.cpu) => (Some(d), ts),
                        Some(d) if was_just_a_call(&d, &self.cpu) => {
                            self.line(&d);
                            let next = [d.pc.wrapping_add(d.code.len() as u16)];
                            let (_, ts) = self.repeat(ts, |s| s.runner.run_until_brkpt(&mut s.cpu, &mut s.bus, &next));
                            (None, ts)
                        }
                        _ => self.repeat(ts, |s| s.runner.debug_runto_ret(&mut s.cpu, &mut s.bus)),
                    }
                }
            };
            last = ts;
            if let Some(d) = d {
                self.line(&d);
            }
        }
    }
}

fn cards(sc: &Sc) -> Option<Vec<Vec<u8>>> {
    if sc.stock {
        return None;
    }
    let mut g: Vec<u8> = Vec::new();
    for s in &sc.guest {
        if g.len() + s.len() < 0x1F00 {
            g.extend(s);
        }
    }
    // round and round
    g.extend([0xC3, 0x00, 0x20]);
    Some(vec![g])
}

/// Emulated time follows the host's: never ahead, and no sleep longer than that needs.
fn pacing(log: &[(u64, L)]) -> Res {
    let mut lo = 0;
    let mut hi = None;
    let mut k = 0;
    let mut debugging = false;
    for (t, e) in log {
        match e {
            L::Now => {
                if hi.is_none() && !debugging {
                    hi = Some(*t);
                }
            }
            L::Ctl(false, m, _) => {
                ensure!(*t >= lo + k * FRAME_NS, "ahead", "frame {} since {} ends at {}", k, lo, t);
                k += 1;
                if matches!(m, Some(Msg::Next | Msg::Completion | Msg::RunIrq)) {
                    debugging = true;
                }
            }
            L::Ctl(true, Some(Msg::Continue), _) => {
                debugging = false;
                lo = *t;
                hi = None;
                k = 0;
            }
            L::Sleep(ns) => {
                let h = hi.unwrap_or(*t);
                ensure!(!debugging, "sleep", "sleeps in debug mode at {}", t);
                ensure!(t + ns <= h + k * FRAME_NS, "lag", "after frame {} since {}..{} at {} sleeps {} ns, past the time of the next", k, lo, h, t, ns);
            }
            _ => {}
        }
    }
    Ok(())
}

pub struct C23;
impl Prop for C23 {
    const ID: &'static str = "C23";
    type Sc = Sc;
    fn gen(rng: &mut Rng, _i: u64) -> Sc {
        let unit = 2 * EXT as u64;
        let hz = (match rng.below(4) {
            0 => rng.range(100_000, 200_000),
            1 | 2 => rng.range(200_000, 2_000_000),
            _ => rng.range(2_000_000, 8_000_000),
        } / unit
            * unit) as u32;
        let mut guest = Vec::new();
        for _ in 0..rng.range(1, 12) {
            guest.push(match rng.below(7) {
                // where a non-maskable interrupt has to wait
                0 => vec![0xFB; 1 + rng.below(3000) as usize],
                1 => vec![*rng.pick(&[0xDD, 0xFD]); 1 + rng.below(3000) as usize],
                2 => vec![0xFB, 0x76],
                3 => vec![0xFB, 0x18, 0xFD],
                _ => {
                    let wild = rng.chance(1, 8);
                    snippet(rng, hz / FPS, hz / EXT, wild, true)
                }
            });
        }
        let mut msgs = Vec::new();
        let mut debugging = false;
        for _ in 0..rng.below(14) {
            let d = match rng.below(5) {
                0 => 0,
                1 => rng.below(2000),
                2 => rng.below(FRAME_NS * 2),
                3 => rng.below(FRAME_NS * 20),
                _ => rng.below(FRAME_NS * 60),
            };
            let m = match rng.below(24) {
                0 => Msg::Terminate,
                1..=2 => Msg::Reset,
                3..=6 => Msg::Nmi,
                7 => Msg::Continue,
                8..=11 if debugging => Msg::Continue,
                8..=17 => Msg::Next,
                18..=20 => Msg::Completion,
                _ => Msg::RunIrq,
            };
            debugging = match m {
                Msg::Continue => false,
                Msg::Next | Msg::Completion | Msg::RunIrq => true,
                _ => debugging,
            };
            msgs.push((d, m));
        }
        if rng.chance(1, 2) {
            msgs.push((rng.below(FRAME_NS * 20), Msg::Terminate));
        }
        let stock = rng.chance(1, 3);
        let keys = (0..rng.below(10)).map(|_| (rng.below(FRAME_NS * 30), if stock { *rng.pick(b"12 ?hH\r\n\x1b?AZaz09") } else { rng.u8() })).collect();
        Sc {
            hz,
            ramkb: *rng.pick(&[1, 1, 2, 16]),
            stock,
            seed: rng.u64(),
            guest,
            msgs,
            gone: rng.below(FRAME_NS * 60),
            keys,
            refuse: *rng.pick(&[0, 0, 2, 6]),
            closed: if rng.chance(1, 8) { Some(rng.below(FRAME_NS * 200)) } else { None },
            host: *rng.pick(&[0, 0, 1, 2]),
            short: rng.chance(1, 3),
            flush_fails: if rng.chance(1, 60) { Some(rng.below(6) as u32) } else { None },
        }
    }
    fn run(sc: &Sc, st: &mut Stats) -> Res {
        let host = Rc::new(Host::new(sc));
        world::set(Some(host.clone()));
        let roms = cards(sc).map(|c| c.iter().map(|c| ral1243sim::exrom_from_slice(c)).collect::<Vec<_>>());
        let h = ral1243sim::Ral1243::<NMOS, Receiver<u8>, SyncSender<u8>, EXT, FPS>::start_thread(Receiver(Rc::new(Ctl(host.clone()))), sc.ramkb as usize, sc.hz, roms, Receiver(Rc::new(Keys(host.clone()))), SyncSender(Rc::new(Sink(host.clone()))));
        world::set(None);
        let r = h.join();
        let log = host.log.borrow().clone();
        st.steps += log.len() as u64;
        st.fault("host_stalls", host.stalls.get());
        st.fault("partial_writes", host.partial.get());
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if host.flush_failed.get() && m.contains("unwrap") {
                return fail("output-failure", format!("the thread died when its debug output failed: {}", m));
            }
            if KNOWN_PANICS.iter().any(|k| m.contains(k)) {
                st.probe("runs_cut_short_by_a_peripheral", 1);
                return Ok(());
            }
            return fail("panic", format!("the thread panicked: {}", m));
        }
        // the thread is over: why?
        let last = log.iter().rev().find_map(|(_, e)| if let L::Ctl(_, m, gone) = e { Some((*m, *gone)) } else { None });
        ensure!(matches!(last, Some((Some(Msg::Terminate), _)) | Some((_, true))), "end", "the thread ended after {:?}", last);
        pacing(&log)?;
        let mut real = String::new();
        for (t, e) in &log {
            match e {
                L::Text(b) => real.push_str(&String::from_utf8_lossy(b)),
                L::Ctl(block, m, gone) => {
                    real.push('\x01');
                    if let Some(m) = m {
                        st.fault("messages", 1);
                        st.cover(hash3(*m as u64, *block as u64, (*t / 200_000).min(4000)));
                        if *block {
                            st.probe("debug_messages", 1);
                        }
                    }
                    if *gone {
                        st.fault("controller_gone", 1);
                    }
                    st.eat(*t);
                }
                L::Key(_) => st.fault("input_bytes", 1),
                L::Sink(v, true) => {
                    st.eat(*v as u64);
                    st.probe("output_bytes", 1)
                }
                L::Sink(_, false) => st.fault("output_refusals", 1),
                L::Sleep(_) => st.probe("sleeps", 1),
                _ => {}
            }
        }
        let real = real.replace(&format!("{}\n", Header), "");
        st.eat(real.bytes().fold(0u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64)));
        let script = Rc::new(Script { log: log.iter().filter(|(_, e)| !matches!(e, L::Now | L::Sleep(_) | L::Text(_))).cloned().collect(), at: Cell::new(0), nokey: Cell::new(0), bad: RefCell::new(None) });
        let mut spec = Spec::new(sc, script.clone());
        let end = spec.run();
        st.probe("frames", spec.frames);
        st.probe("commands", spec.commands);
        st.probe("nmi_retries", spec.waited);
        st.sim_ts += spec.frames * (sc.hz / FPS) as u64;
        st.nontrivial = true;
        if let Some(m) = spec.control.take() {
            return fail("control", m);
        }
        if let End::Wrong(m) = end {
            return fail("order", m);
        }
        ensure!(script.at.get() == script.log.len(), "late", "after the end: {:?}", &script.log[script.at.get().min(script.log.len())..]);
        if spec.text != real {
            let k = spec.text.bytes().zip(real.bytes()).take_while(|(a, b)| a == b).count();
            let near = |s: &str| s.chars().skip(k.saturating_sub(60)).take(160).collect::<String>();
            return fail("output", format!("printed {:?}, expected {:?}", near(&real), near(&spec.text)));
        }
        Ok(())
    }
    fn shrink(sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
        let mut sc = sc;
        loop {
            let before = sc.clone();
            sc.msgs = ddmin(sc.msgs.clone(), &mut |o| test(&Sc { msgs: o.to_vec(), ..sc.clone() }));
            sc.guest = ddmin(sc.guest.clone(), &mut |o| test(&Sc { guest: o.to_vec(), ..sc.clone() }));
            sc.keys = ddmin(sc.keys.clone(), &mut |o| test(&Sc { keys: o.to_vec(), ..sc.clone() }));
            for k in 0..sc.msgs.len() {
                for d in [0, sc.msgs[k].0 / 2] {
                    let mut c = sc.clone();
                    c.msgs[k].0 = d;
                    if c != sc && test(&c) {
                        sc = c;
                        break;
                    }
                }
            }
            for c in [Sc { refuse: 0, ..sc.clone() }, Sc { host: 0, ..sc.clone() }, Sc { short: false, ..sc.clone() }, Sc { closed: None, ..sc.clone() }, Sc { flush_fails: None, ..sc.clone() }, Sc { gone: 0, ..sc.clone() }, Sc { hz: 100_000, ..sc.clone() }] {
                if c != sc && test(&c) {
                    sc = c;
                }
            }
            if sc == before {
                return sc;
            }
        }
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 20_000,
            Tier::Thorough => 1_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run is a guest, a history of control messages and keystrokes in host time, the host's speed, stalls and refusals; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (message, mode in which it was taken, host time to 0.2 ms) hashed into a bitmap"
    }
    fn real() -> &'static [&'static str] {
        &["ral1243 thread.rs (start_thread, run, debug, run_to_completion, run_for), compiled from /repo against the simulated standard library", "ral1243 computer, z80emu::Z80<NMOS>"]
    }
    fn stub() -> &'static [&'static str] {
        &["std::time::Instant, thread::spawn and sleep, mpsc channels, standard output", "the specification of the control loop drives a second real computer"]
    }
    fn assumptions() -> &'static [&'static str] {
        &["Instant never goes backwards (as std documents)", "frames and debug commands are judged by C21 and C22, here only when they are performed", "500 frames per second"]
    }
}
