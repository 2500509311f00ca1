//! C18: the parallel port and its host ends.
use crate::engine::*;
use crate::rng::{hash2, hash3, Rng};
use crate::pinned::{self, Call, Pair};
use ral1243::bus::Terminator;
use ral1243::pio::Pio;
use ral1243::pio_device::{PioInput, PioOutput};
use ral1243::{PioSink, PioStream};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

pub struct C18;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// the host offers bytes
    Push(u8),
    /// the host input stalls or resumes
    InStall(bool),
    /// the host output: 0 ready, 255 stalled, else refuses n calls out of 8
    Sink(u8),
    M1,
    Poll,
    Ack,
    Reti,
    Frame,
    Second,
    Reset,
    ReadA,
    ReadB,
    WriteA(u8),
    WriteB,
    CtlA(u8),
    CtlB(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sc {
    pub seed: u64,
    pub port: (u16, u16, u8, u8),
    pub ops: Vec<Op>,
    /// the program does not overrun the host
    #[serde(default)]
    pub polite: bool,
}

#[derive(Default)]
struct Host {
    seed: u64,
    input: VecDeque<u8>,
    in_stall: bool,
    sink: u8,
    flushes: u64,
    /// the program may be given a byte
    credit: bool,
    taken: Option<u8>,
    ntaken: u64,
    /// what the program wrote: number of the first entry, bytes
    written: Vec<u8>,
    /// entries below were delivered or overtaken
    upto: usize,
    /// the last write was delivered
    refused: u64,
    delivered: u64,
    err: Option<(&'static str, String)>,
    /// everything the port did with this host
    trace: u64,
}
impl Host {
    fn bad(&mut self, k: &'static str, m: String) {
        if self.err.is_none() {
            self.err = Some((k, m));
        }
    }
    fn ready(&self) -> bool {
        match self.sink {
            0 => true,
            255 => false,
            n => hash2(self.seed, self.flushes) % 8 >= n as u64,
        }
    }
    fn last_delivered(&self) -> bool {
        self.upto == self.written.len()
    }
}
type H = Rc<RefCell<Host>>;
struct Stream(H);
impl PioStream for Stream {
    fn slurp(&mut self) -> Option<u8> {
        let mut h = self.0.borrow_mut();
        if !h.credit {
            let m = format!("byte {} asked for before the program took the previous one", h.ntaken);
            h.bad("early", m);
        }
        if h.in_stall {
            return None;
        }
        let b = h.input.pop_front();
        h.trace = hash2(h.trace, b.map_or(256, |b| b as u64));
        if b.is_some() {
            h.credit = false;
            h.taken = b;
            h.ntaken += 1;
        }
        b
    }
}
impl pinned::pio_device::PioStream for Stream {
    fn slurp(&mut self) -> Option<u8> {
        PioStream::slurp(self)
    }
}
struct SinkEnd(H);
impl pinned::pio_device::PioSink for SinkEnd {
    fn flush(&mut self, d: u8) -> bool {
        PioSink::flush(self, d)
    }
}
impl PioSink for SinkEnd {
    fn flush(&mut self, d: u8) -> bool {
        let mut h = self.0.borrow_mut();
        let ok = h.ready();
        h.flushes += 1;
        h.trace = hash2(h.trace, 512 + d as u64 + 256 * ok as u64);
        // the bytes of the last 256 writes are all different
        let lo = h.upto;
        let hit = h.written[lo..].iter().rposition(|x| *x == d).map(|p| p + lo);
        match hit {
            None => {
                let m = format!("byte {:02x} offered to the host after byte {} of {} was delivered", d, h.upto, h.written.len());
                h.bad("order", m);
            }
            Some(p) => {
                if ok {
                    h.upto = p + 1;
                    h.delivered += 1;
                }
            }
        }
        if !ok {
            h.refused += 1;
        }
        ok
    }
}

/// A requirement; the run goes on without the model if the recorded port deviates equally.
macro_rules! soft {
    ($r:ident, $cond:expr, $kind:expr, $($arg:tt)*) => {
        if !$cond {
            let v = fail($kind, format!($($arg)*));
            $r.pio.judge(v)?;
        }
    };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tri {
    No,
    Maybe,
    Yes,
}

/// Interrupt logic of one channel as the program sees it.
#[derive(Clone, Debug)]
struct Chan {
    out: bool,
    want: bool,
    en: bool,
    pend: Tri,
    vector: u8,
    data_out: u8,
    data_in: u8,
    /// output: a byte is being handed over
    open: bool,
    /// interrupts were enabled when the hand-over may have been noticed
    fuzzy: Option<bool>,
}
impl Chan {
    fn new(vector: u8) -> Chan {
        Chan { out: false, want: false, en: false, pend: Tri::No, vector, data_out: 0, data_in: 0, open: false, fuzzy: None }
    }
    fn m1(&mut self) {
        if self.want {
            self.want = false;
            self.en = true;
        }
    }
    fn set(&mut self) {
        if self.en {
            self.pend = Tri::Yes;
        }
    }
}

type RealPio = Pio<u32, PioInput<Stream>, PioOutput<SinkEnd>, Terminator<u32>>;

type PinPio = pinned::pio::Pio<u32, pinned::pio_device::PioInput<Stream>, pinned::pio_device::PioOutput<SinkEnd>, Terminator<u32>>;

struct Rig {
    pio: Pair<RealPio, PinPio>,
    h: H,
    /// the host of the recorded port
    hp: H,
    a: Chan,
    b: Chan,
    ieo: bool,
    ts: u32,
    port: (u16, u16, u8, u8),
    op: usize,
    next_out: u8,
}
impl Rig {
    fn check(&mut self) -> Res {
        let e = self.h.borrow_mut().err.take();
        match e {
            Some((k, m)) => {
                let v = fail(k, format!("op {}: {}", self.op, m));
                self.pio.judge(v)
            }
            None => Ok(()),
        }
    }
    fn call(&mut self, c: Call) -> Result<u32, Violation> {
        let x = self.pio.call(c, self.ts)?;
        self.pio.same &= self.h.borrow().trace == self.hp.borrow().trace;
        Ok(x)
    }
    fn hosts(&self, f: impl Fn(&mut Host)) {
        f(&mut self.h.borrow_mut());
        f(&mut self.hp.borrow_mut());
    }
    fn addr(&self, ch: u16, ctl: u16) -> u16 {
        self.port.1 | ch << self.port.2 | ctl << self.port.3
    }
    /// What the port may do with the host when it is looked at.
    fn look_a(&mut self, before: u64) -> Res {
        let (ntaken, byte) = {
            let h = self.h.borrow();
            (h.ntaken, h.taken)
        };
        if ntaken != before {
            self.a.data_in = byte.unwrap();
            self.a.set();
        } else if !self.a.out {
            let h = self.h.borrow();
            soft!(self, h.input.is_empty() || h.in_stall || !h.credit, "stuck", "op {}: the host has a byte, the program is ready and the port does not take it", self.op);
        }
        Ok(())
    }
    fn look_b(&mut self, definite: bool) -> Res {
        if !self.b.out || !self.b.open {
            return Ok(());
        }
        let done = self.h.borrow().last_delivered();
        if definite {
            if done {
                self.b.open = false;
                match self.b.fuzzy.take() {
                    Some(e) if e != self.b.en => self.b.pend = if self.b.pend == Tri::Yes { Tri::Yes } else { Tri::Maybe },
                    _ => self.b.set(),
                }
            } else {
                let h = self.h.borrow();
                soft!(self, h.sink != 0, "stuck", "op {}: the host is ready and the port does not hand over byte {}", self.op, h.written.len());
            }
        } else if done && self.b.fuzzy.is_none() {
            self.b.fuzzy = Some(self.b.en);
            if self.b.en && self.b.pend == Tri::No {
                self.b.pend = Tri::Maybe;
            }
        } else if done && self.b.fuzzy != Some(self.b.en) {
            if self.b.pend == Tri::No {
                self.b.pend = Tri::Maybe;
            }
        }
        Ok(())
    }
    fn poll(&mut self) -> Result<bool, Violation> {
        self.ts += 4;
        let before = self.h.borrow().ntaken;
        let x = self.call(Call::Irq)? != 0;
        self.check()?;
        if self.ieo {
            soft!(self, !x, "service", "op {}: interrupt requested during service", self.op);
            let n = self.h.borrow().ntaken;
            if n != before {
                self.look_a(before)?;
            }
            return Ok(x);
        }
        self.look_a(before)?;
        let a = self.a.pend == Tri::Yes;
        self.look_b(!a)?;
        let want = match (self.a.pend, self.b.pend) {
            (Tri::Yes, _) | (_, Tri::Yes) => Some(true),
            (Tri::No, Tri::No) => Some(false),
            _ => None,
        };
        if let Some(w) = want {
            soft!(self, x == w, "interrupt", "op {}: interrupt requested: {}, should be {} (input {:?}, output {:?})", self.op, x, w, self.a.pend, self.b.pend);
        }
        Ok(x)
    }
    fn ack(&mut self) -> Res {
        if !self.poll()? {
            return Ok(());
        }
        self.ts += 7;
        let v = self.call(Call::IrqData)? as u8;
        self.check()?;
        let is_a = if self.a.vector == self.b.vector { self.a.pend != Tri::No } else { v == self.a.vector };
        if is_a {
            soft!(self, v == self.a.vector && self.a.pend != Tri::No, "vector", "op {}: acknowledged with vector {:02x}, no request of the input", self.op, v);
            self.a.pend = Tri::No;
        } else {
            soft!(self, v == self.b.vector && self.b.pend != Tri::No && self.a.pend != Tri::Yes, "vector", "op {}: acknowledged with vector {:02x} (input {:?} {:02x}, output {:?} {:02x})", self.op, v, self.a.pend, self.a.vector, self.b.pend, self.b.vector);
            self.b.pend = Tri::No;
            if self.b.fuzzy.is_some() {
                self.b.open = false;
                self.b.fuzzy = None;
            }
        }
        self.ieo = true;
        Ok(())
    }
    fn read_a(&mut self) -> Result<u8, Violation> {
        self.ts += 11;
        if !self.a.out {
            self.h.borrow_mut().credit = true;
        }
        let before = self.h.borrow().ntaken;
        let x = self.call(Call::Read(self.addr(0, 0)))? as u8;
        self.check()?;
        let want = if self.a.out { self.a.data_out } else { self.a.data_in };
        soft!(self, x == want, "data", "op {}: the program reads {:02x}, should read {:02x}", self.op, x, want);
        let n = self.h.borrow().ntaken;
        if n != before {
            self.look_a(before)?;
        }
        Ok(x)
    }
    fn write_b(&mut self, d: u8) -> Res {
        self.ts += 11;
        self.b.data_out = d;
        let was_open = self.b.open;
        let prev_done = self.h.borrow().last_delivered();
        let ready = self.h.borrow().sink == 0;
        if self.b.out {
            let mut h = self.h.borrow_mut();
            h.written.push(d);
        } else {
            // not transferred
            let mut h = self.h.borrow_mut();
            h.upto = h.written.len();
        }
        let n0 = self.h.borrow().delivered;
        self.call(Call::Write(self.addr(1, 0), d))?;
        self.check()?;
        if self.b.out {
            let h = self.h.borrow();
            if ready {
                soft!(self, h.last_delivered(), "lost", "op {}: the host was ready and the byte {:02x} was not handed over", self.op, d);
            }
            let n1 = h.delivered - n0;
            drop(h);
            if was_open {
                // the previous byte was taken by now: before this write, or just in front of this byte
                let last = self.h.borrow().last_delivered() as u64;
                if prev_done || n1 > last {
                    match self.b.fuzzy.take() {
                        Some(e) if e != self.b.en => self.b.pend = if self.b.pend == Tri::Yes { Tri::Yes } else { Tri::Maybe },
                        _ => self.b.set(),
                    }
                }
            }
            self.b.fuzzy = None;
            self.b.open = true;
        }
        Ok(())
    }
    fn ctl(&mut self, b: bool, d: u8) -> Res {
        self.ts += 11;
        // unsupported by the machine
        if d & 15 == 7 || d & 15 == 15 && d >= 0x80 {
            return Ok(());
        }
        let c = if b { &mut self.b } else { &mut self.a };
        if d & 1 == 0 {
            c.vector = d;
        } else if d & 15 == 15 {
            c.out = d & 0x40 == 0;
            c.open = false;
            if c.fuzzy.take().is_some() && c.pend == Tri::No {
                c.pend = Tri::Maybe;
            }
            let mut h = self.h.borrow_mut();
            if b {
                // nothing of before the selection has to be delivered; nor reordered
                let n = h.written.len();
                if !c.out {
                    h.upto = n;
                }
            } else {
                h.credit = !c.out;
            }
        } else if d & 15 == 3 {
            if d & 0x80 != 0 {
                if !c.en {
                    c.want = true;
                }
            } else {
                c.want = false;
                c.en = false;
                c.pend = Tri::No;
            }
        }
        self.call(Call::Write(self.addr(b as u16, 1), d))?;
        self.check()
    }
    fn frame(&mut self) -> Res {
        self.ts += 4;
        let before = self.h.borrow().ntaken;
        self.call(Call::Frame)?;
        self.check()?;
        self.look_a(before)?;
        self.look_b(true)
    }
}

impl Prop for C18 {
    const ID: &'static str = "C18";
    type Sc = Sc;
    fn gen(rng: &mut Rng, _i: u64) -> Sc {
        let mut ops = Vec::new();
        let va = rng.u8() & 0xFE;
        let vb = va.wrapping_add(2 * rng.range(1, 100) as u8);
        for o in [Op::CtlA(va), Op::CtlB(vb), Op::CtlA(0x4F), Op::CtlB(0x0F), Op::CtlA(0x83), Op::CtlB(0x83), Op::M1] {
            if rng.chance(7, 8) {
                ops.push(o);
            }
        }
        let polite = rng.chance(1, 2);
        let n = rng.range(6, 150);
        for _ in 0..n {
            match rng.below(if polite { 20 } else { 30 }) {
                0..=1 => ops.push(Op::Push(rng.range(1, 4) as u8)),
                2 => ops.push(Op::InStall(rng.chance(1, 2))),
                3 => ops.push(Op::Sink(*rng.pick(&[0, 0, 255, 1, 4, 7]))),
                4..=5 => ops.push(Op::M1),
                6..=9 => ops.push(Op::Poll),
                10..=14 => {
                    ops.push(Op::Ack);
                    if rng.chance(3, 4) {
                        ops.push(if rng.chance(1, 2) { Op::ReadA } else { Op::WriteB });
                    }
                    if rng.chance(7, 8) {
                        ops.push(Op::Reti);
                    }
                }
                15 => ops.push(Op::Frame),
                16..=17 => ops.push(Op::ReadA),
                18..=19 => ops.push(Op::WriteB),
                20..=21 => ops.push(Op::WriteB),
                22 => ops.push(Op::Reti),
                23 => ops.push(Op::ReadB),
                24 => ops.push(Op::WriteA(rng.u8())),
                25 => ops.push(rng.pick(&[Op::CtlA(0x4F), Op::CtlA(0x0F), Op::CtlB(0x0F), Op::CtlB(0x4F), Op::CtlB(0x0F), Op::CtlA(0x4F)]).clone()),
                26 => ops.push(rng.pick(&[Op::CtlA(0x83), Op::CtlB(0x83), Op::CtlA(0x03), Op::CtlB(0x03), Op::CtlB(0x83)]).clone()),
                27 => ops.push(if rng.chance(1, 2) { Op::CtlA(rng.u8()) } else { Op::CtlB(rng.u8()) }),
                28 => ops.push(Op::Second),
                _ => {
                    if rng.chance(1, 4) {
                        ops.push(Op::Reset)
                    } else {
                        ops.push(Op::Frame)
                    }
                }
            }
        }
        let port = if rng.chance(1, 2) {
            (0xFC, 0x08, 1, 0)
        } else {
            let b1 = rng.below(16) as u8;
            let b0 = (b1 + 1 + rng.below(15) as u8) % 16;
            let mask = rng.u16() & !(1 << b1) & !(1 << b0);
            (mask, mask & rng.u16(), b1, b0)
        };
        Sc { polite: rng.chance(2, 3), seed: rng.u64(), port, ops }
    }
    fn run(sc: &Sc, st: &mut Stats) -> Res {
        let h: H = Rc::new(RefCell::new(Host { seed: sc.seed, credit: true, ..Default::default() }));
        let (mask, base, chb, ctb) = sc.port;
        let pio = Pio::new(PioInput::new(Stream(h.clone())), PioOutput::new(SinkEnd(h.clone())), Terminator::new()).with_port_bits(mask, base, chb as u32, ctb as u32);
        let hp: H = Rc::new(RefCell::new(Host { seed: sc.seed, credit: true, ..Default::default() }));
        let pin = pinned::pio::Pio::new(pinned::pio_device::PioInput::new(Stream(hp.clone())), pinned::pio_device::PioOutput::new(SinkEnd(hp.clone())), Terminator::new()).with_port_bits(mask, base, chb as u32, ctb as u32);
        let mut r = Rig { pio: Pair::new(pio, pin), h: h.clone(), hp, a: Chan::new(0), b: Chan::new(0), ieo: false, ts: 1000, port: sc.port, op: 0, next_out: 0 };
        r.call(Call::Reset)?;
        let mut next_in = 0u8;
        let mut reads = 0u64;
        for (k, op) in sc.ops.iter().enumerate() {
            r.op = k;
            match *op {
                Op::Push(n) => {
                    for _ in 0..n {
                        next_in = next_in.wrapping_add(1);
                        r.hosts(|h| h.input.push_back(next_in));
                    }
                }
                Op::InStall(s) => {
                    r.hosts(|h| h.in_stall = s);
                    st.fault("input_stalls", s as u64);
                }
                Op::Sink(n) => {
                    r.hosts(|h| h.sink = n);
                    st.fault("output_stalls", (n != 0) as u64);
                }
                Op::M1 => {
                    r.ts += 4;
                    r.call(Call::M1)?;
                    r.a.m1();
                    r.b.m1();
                }
                Op::Poll => {
                    r.poll()?;
                }
                Op::Ack => r.ack()?,
                Op::Reti => {
                    r.ts += 8;
                    r.call(Call::Reti)?;
                    r.ieo = false;
                }
                Op::Frame => r.frame()?,
                Op::Second => {
                    r.call(Call::Second(1000))?;
                }
                Op::Reset => {
                    r.ts += 4;
                    {
                        let mut h = h.borrow_mut();
                        h.credit = true;
                        h.upto = h.written.len();
                    }
                    r.call(Call::Reset)?;
                    r.a = Chan::new(r.a.vector);
                    r.b = Chan::new(r.b.vector);
                    r.ieo = false;
                    st.fault("resets", 1);
                }
                Op::ReadA => {
                    r.read_a()?;
                    reads += 1;
                }
                Op::ReadB => {
                    r.ts += 11;
                    let x = r.call(Call::Read(r.addr(1, 0)))? as u8;
                    let want = if r.b.out { r.b.data_out } else { r.b.data_in };
                    soft!(r, x == want, "data", "op {}: reading the output gives {:02x}, should give {:02x}", k, x, want);
                }
                Op::WriteA(d) => {
                    r.ts += 11;
                    r.a.data_out = d;
                    r.call(Call::Write(r.addr(0, 0), d))?;
                }
                Op::WriteB if sc.polite && !h.borrow().last_delivered() => st.probe("held_back", 1),
                Op::WriteB => {
                    r.next_out = r.next_out.wrapping_add(1);
                    let d = r.next_out;
                    r.write_b(d)?;
                }
                Op::CtlA(d) => r.ctl(false, d)?,
                Op::CtlB(d) => r.ctl(true, d)?,
            }
            r.check()?;
            st.steps += 1;
            let hb = h.borrow();
            st.cover(hash3(
                r.a.out as u64 | (r.a.en as u64) << 1 | (r.a.pend as u64) << 2 | (r.b.out as u64) << 4 | (r.b.en as u64) << 5 | (r.b.pend as u64) << 6 | (r.b.open as u64) << 8 | (r.ieo as u64) << 9,
                (hb.sink.min(2) as u64) | (hb.in_stall as u64) << 2 | (hb.credit as u64) << 3 | (hb.input.is_empty() as u64) << 4 | (hb.last_delivered() as u64) << 5,
                std::mem::discriminant(op).hash_it(),
            ));
        }
        // the host recovers and the program serves its interrupts: everything moves again
        r.op = sc.ops.len();
        r.hosts(|h| {
            h.in_stall = false;
            h.sink = 0;
        });
        r.call(Call::Reti)?;
        r.ieo = false;
        r.frame()?;
        for d in [0x83u8, 0x4F] {
            r.ctl(false, d)?;
        }
        r.ctl(true, 0x83)?;
        r.call(Call::M1)?;
        r.a.m1();
        r.b.m1();
        let left = h.borrow().input.len();
        let mut expect: VecDeque<u8> = h.borrow().input.clone();
        for _ in 0..2 * left + 8 {
            if expect.is_empty() {
                break;
            }
            let n0 = h.borrow().ntaken;
            r.ack()?;
            if h.borrow().ntaken != n0 {
                let x = r.read_a()?;
                let e = expect.pop_front();
                soft!(r, Some(x) == e, "order", "after recovery the program reads {:02x}, the host sent {:02x?}", x, e);
            }
            r.call(Call::Reti)?;
            r.ieo = false;
        }
        soft!(r, expect.is_empty(), "stuck", "after recovery {} bytes of the host never reached the program", expect.len());
        let hb = h.borrow();
        soft!(r, !r.b.out || !r.b.open || hb.last_delivered(), "stuck", "after recovery byte {} never reached the host", hb.written.len());
        st.fault("refused_bytes", hb.refused);
        st.probe("bytes_in", hb.ntaken);
        st.probe("bytes_out", hb.delivered);
        st.eat(hash3(hb.ntaken, hb.delivered, hb.flushes));
        st.eat(hash3(hb.refused, reads, r.ts as u64));
        st.sim_ts += r.ts as u64;
        st.nontrivial = hb.ntaken > 0 && hb.delivered > 0;
        r.pio.end()
    }
    fn shrink(mut sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
        for _ in 0..2 {
            let ops = ddmin(sc.ops.clone(), &mut |o| test(&Sc { ops: o.to_vec(), ..sc.clone() }));
            if test(&Sc { ops: ops.clone(), ..sc.clone() }) {
                sc.ops = ops;
            }
            for c in [Sc { port: (0xFC, 8, 1, 0), ..sc.clone() }, Sc { seed: 0, ..sc.clone() }] {
                if c != sc && test(&c) {
                    sc = c;
                }
            }
        }
        sc
    }
    fn real() -> &'static [&'static str] {
        &["ral1243::pio::Pio", "ral1243::pio_device::{PioInput, PioOutput}", "ral1243::bus::Terminator"]
    }
    fn stub() -> &'static [&'static str] {
        &["host input stream (PioStream)", "host output sink (PioSink)", "processor (polls, acknowledges and port accesses are scheduled by the simulator)"]
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 4_000_000,
            Tier::Thorough => 40_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run is one seeded history of host offers, stalls and refusals interleaved with the program's accesses, polls, services, mode changes and resets, ending with a recovery phase; non-trivial = bytes moved both ways; distinct = different traffic digests"
    }
    fn state_measure() -> &'static str {
        "distinct (mode, interrupt and hand-over state of both channels, host state, operation), hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &[
            "a program that writes again before the previous byte was taken, or re-selects a mode, gives up the byte not yet taken",
            "modes the README says are unsupported are not selected here (C24 does)",
        ]
    }
}

trait HashIt {
    fn hash_it(&self) -> u64;
}
impl<T> HashIt for std::mem::Discriminant<T> {
    fn hash_it(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }
}
