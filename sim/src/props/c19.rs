//! C19: the daisy chain of interrupting devices.
use crate::engine::*;
use crate::ensure;
use crate::pinned::{call, Call};
use crate::rng::{hash3, Rng};
use ral1243::bus::{BusDevice, Terminator};
use ral1243::ctc::{Ctc, CtcTrigger};
use ral1243::pio::{Pio, PioDevice};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::num::NonZeroU16;
use std::rc::Rc;
use z80emu::host::TsCounter;
use z80emu::z80::NMOS;
use z80emu::{Clock, Cpu, Io, Memory, Z80};

pub struct C19;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// an external pulse on a counter channel
    Edge(u8, u8),
    /// the peripheral of a parallel channel strobes
    Strobe(u8, u8),
    M1(u8),
    Poll,
    /// acknowledge if requested, the vector is read this much later
    Ack(u8),
    Reti,
    Frame,
    Reset,
    /// link, channel, software reset, interrupts, time constant (0: none)
    Ctc(u8, u8, bool, bool, u8),
    CtcVec(u8, u8),
    /// link, channel, interrupts
    PioInt(u8, u8, bool),
    /// link, channel, input
    PioMode(u8, u8, bool),
    PioVec(u8, u8, u8),
    PioData(u8, u8, bool),
    /// an access to a port of nobody
    Stray(u8),
    /// processor runs: NMI
    Nmi,
    /// time passes
    Gap(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sc {
    pub shape: u8,
    /// run a real processor with interrupt handlers; operations are events in time
    pub cpu: bool,
    pub seed: u64,
    pub ops: Vec<Op>,
}

#[derive(Default)]
struct World {
    edges: [[VecDeque<u32>; 4]; 4],
    avail: [[u32; 2]; 4],
}
type W = Rc<RefCell<World>>;
struct Trig(W, usize, usize);
impl CtcTrigger for Trig {
    type Timestamp = u32;
    fn next_clk_trg(&mut self, rising: bool, ts: u32) -> Result<u32, u32> {
        let mut w = self.0.borrow_mut();
        let q = &mut w.edges[self.1][self.2];
        match q.front() {
            Some(&t) if t <= ts && rising => {
                q.pop_front();
                Ok(t)
            }
            _ => Err(ts + 1),
        }
    }
    fn purge_clk_trg(&mut self, ts: u32) -> u32 {
        self.0.borrow_mut().edges[self.1][self.2].retain(|t| *t > ts);
        ts + 1
    }
    fn zc_to_pulse(&mut self, _ts: u32) {}
    fn next_second(&mut self, _delta: u32) {}
}
struct Dev(W, usize, usize);
impl PioDevice for Dev {
    type Timestamp = u32;
    fn set_floating_bus(&mut self, _ts: u32) {}
    fn set_bus_data(&mut self, _data: u8, _ts: u32) {}
    fn try_sample_data(&mut self, _ts: u32) -> Option<u8> {
        let mut w = self.0.borrow_mut();
        let a = &mut w.avail[self.1][self.2];
        if *a > 0 {
            *a -= 1;
            Some(*a as u8)
        } else {
            None
        }
    }
    fn was_strobe(&mut self, ts: u32) -> bool {
        self.try_sample_data(ts).is_some()
    }
}

trait Chain {
    fn call(&mut self, c: Call, ts: u32) -> Result<u32, String>;
}
impl<D> Chain for D
where
    D: BusDevice<Timestamp = u32> + Io<Timestamp = u32, WrIoBreak = (), RetiBreak = ()>,
{
    fn call(&mut self, c: Call, ts: u32) -> Result<u32, String> {
        call(self, c, ts)
    }
}

fn ctc<D: BusDevice<Timestamp = u32> + Io<Timestamp = u32, WrIoBreak = (), RetiBreak = ()>>(w: &W, l: usize, d: D) -> Ctc<u32, Trig, Trig, Trig, Trig, D> {
    let t = |c| Trig(w.clone(), l, c);
    Ctc::new(t(0), t(1), t(2), t(3), d).with_port_bits(0xF0, (l as u16) << 4, 1, 0)
}
fn pio<D: BusDevice<Timestamp = u32> + Io<Timestamp = u32, WrIoBreak = (), RetiBreak = ()>>(w: &W, l: usize, d: D) -> Pio<u32, Dev, Dev, D> {
    Pio::new(Dev(w.clone(), l, 0), Dev(w.clone(), l, 1), d).with_port_bits(0xF0, (l as u16) << 4, 1, 0)
}

const SHAPES: [&[u8]; 4] = [b"cp", b"pc", b"cpp", b"pccp"];

fn build(w: &W, shape: u8) -> Box<dyn Chain> {
    match shape & 3 {
        0 => Box::new(ctc(w, 0, pio(w, 1, Terminator::new()))),
        1 => Box::new(pio(w, 0, ctc(w, 1, Terminator::new()))),
        2 => Box::new(ctc(w, 0, pio(w, 1, pio(w, 2, Terminator::new())))),
        _ => Box::new(pio(w, 0, ctc(w, 1, ctc(w, 2, pio(w, 3, Terminator::new()))))),
    }
}

/// One channel as the program and the peripherals see it.
#[derive(Clone, Copy, Default, Debug)]
struct Ch {
    en: bool,
    pend: bool,
    // counter-timer
    tc: u8,
    cur: u8,
    // parallel
    want: bool,
    ready: bool,
    avail: u32,
    input: bool,
    vector: u8,
    requests: u64,
    served: u64,
}
impl Ch {
    fn req(&mut self) {
        if self.en {
            if !self.pend {
                self.requests += 1;
            }
            self.pend = true;
        }
    }
    fn drop_req(&mut self) {
        if self.pend {
            self.requests -= 1;
        }
        self.pend = false;
    }
    fn sample(&mut self) {
        if self.ready && self.avail > 0 {
            self.avail -= 1;
            self.ready = false;
            self.req();
        }
    }
}
#[derive(Clone, Debug)]
struct Link {
    ctc: bool,
    ch: [Ch; 4],
    vector: u8,
    svc: bool,
}

struct Model {
    links: Vec<Link>,
    /// what the last poll found
    top: Option<(usize, usize)>,
}
impl Model {
    fn new(shape: u8) -> Model {
        let links = SHAPES[shape as usize & 3]
            .iter()
            .map(|k| {
                let mut l = Link { ctc: *k == b'c', ch: Default::default(), vector: 0, svc: false };
                if !l.ctc {
                    for c in &mut l.ch[..2] {
                        c.input = true;
                        c.ready = true;
                    }
                }
                l
            })
            .collect();
        Model { links, top: None }
    }
    fn reset(&mut self) {
        self.top = None;
        for l in &mut self.links {
            l.svc = false;
            for c in &mut l.ch {
                c.drop_req();
                *c = Ch { avail: c.avail, vector: c.vector, input: !l.ctc, ready: !l.ctc, requests: c.requests, served: c.served, ..Ch::default() };
            }
        }
    }
    fn edge(&mut self, l: usize, c: usize) {
        let c = &mut self.links[l].ch[c];
        if c.tc > 0 {
            c.cur -= 1;
            if c.cur == 0 {
                c.cur = c.tc;
                c.req();
            }
        }
    }
    fn flush(&mut self) {
        for l in &mut self.links {
            if !l.ctc {
                l.ch[0].sample();
                l.ch[1].sample();
            }
        }
    }
    fn m1(&mut self) {
        for l in self.links.iter_mut().filter(|l| !l.ctc) {
            for c in &mut l.ch {
                if c.want {
                    c.want = false;
                    c.en = true;
                }
            }
        }
    }
    fn poll(&mut self) -> bool {
        self.top = None;
        for (i, l) in self.links.iter_mut().enumerate() {
            if l.svc {
                return false;
            }
            for (k, c) in l.ch.iter_mut().enumerate() {
                c.sample();
                if c.pend {
                    self.top = Some((i, k));
                    return true;
                }
            }
        }
        false
    }
    fn vector(&self, l: usize, c: usize) -> u8 {
        if self.links[l].ctc {
            self.links[l].vector & 0xF8 | (c as u8) << 1
        } else {
            self.links[l].ch[c].vector
        }
    }
    fn reti(&mut self) {
        if let Some(l) = self.links.iter_mut().find(|l| l.svc) {
            l.svc = false;
        }
    }
}

/// The chain, judged at every call.
struct Watch {
    chain: Box<dyn Chain>,
    w: W,
    m: Model,
    mem: Vec<u8>,
    err: Option<Violation>,
    polls: u64,
    acks: u64,
    nested: u64,
    retis: u64,
    log: u64,
    /// events to come, in time
    sched: VecDeque<(u32, Op)>,
}
impl Watch {
    fn new(shape: u8) -> Watch {
        let w: W = Default::default();
        Watch { chain: build(&w, shape), w, m: Model::new(shape), mem: Vec::new(), err: None, polls: 0, acks: 0, nested: 0, retis: 0, log: 0, sched: VecDeque::new() }
    }
    fn bad(&mut self, kind: &str, msg: String) {
        if self.err.is_none() {
            self.err = Some(Violation { kind: kind.into(), msg });
        }
    }
    fn call(&mut self, c: Call, ts: u32) -> u32 {
        match self.chain.call(c, ts) {
            Ok(x) => x,
            Err(m) => {
                self.bad("panic", format!("panicked: {}", m));
                0
            }
        }
    }
    fn due(&mut self, ts: u32) {
        while self.sched.front().map_or(false, |e| e.0 <= ts) {
            let (t, op) = self.sched.pop_front().unwrap();
            self.event(op, t);
        }
    }
    fn event(&mut self, op: Op, ts: u32) {
        let n = self.m.links.len();
        match op {
            Op::Edge(l, c) => {
                let (l, c) = (l as usize % n, c as usize & 3);
                if self.m.links[l].ctc {
                    self.w.borrow_mut().edges[l][c].push_back(ts);
                    self.m.edge(l, c);
                    // the circuit is looked at between two pulses (what happens otherwise is C17's business)
                    self.m.m1();
                    self.call(Call::M1, ts);
                }
            }
            Op::Strobe(l, c) => {
                let (l, c) = (l as usize % n, c as usize & 1);
                if !self.m.links[l].ctc {
                    self.w.borrow_mut().avail[l][c] += 1;
                    self.m.links[l].ch[c].avail += 1;
                }
            }
            _ => {}
        }
    }
    fn m1(&mut self, ts: u32) {
        self.due(ts);
        self.m.m1();
        self.call(Call::M1, ts);
    }
    fn frame(&mut self, ts: u32) {
        self.due(ts);
        self.m.flush();
        self.call(Call::Frame, ts);
    }
    fn poll(&mut self, ts: u32) -> bool {
        self.due(ts);
        let x = self.call(Call::Irq, ts) != 0;
        let y = self.m.poll();
        self.polls += 1;
        if x != y {
            let m = format!("at {} an interrupt is requested: {}, should be {} (highest {:?}, in service {:?})", ts, x, y, self.m.top, self.m.links.iter().map(|l| l.svc).collect::<Vec<_>>());
            self.bad(if y { "lost" } else { "spurious" }, m);
        }
        x
    }
    fn ack(&mut self, ts: u32) -> u8 {
        let v = self.call(Call::IrqData, ts) as u8;
        match self.m.top.take() {
            Some((l, c)) => {
                let want = self.m.vector(l, c);
                if v != want {
                    let m = format!("at {} acknowledged with vector {:02x}, the highest request is of link {} channel {} with {:02x}", ts, v, l, c, want);
                    self.bad("vector", m);
                }
                self.nested += self.m.links.iter().any(|l| l.svc) as u64;
                self.m.links[l].svc = true;
                self.m.links[l].ch[c].pend = false;
                self.m.links[l].ch[c].served += 1;
                self.acks += 1;
            }
            None => self.bad("vector", format!("acknowledge at {} without a request gives {:02x}", ts, v)),
        }
        self.log = hash3(self.log, v as u64, ts as u64);
        v
    }
    fn reti(&mut self, ts: u32) {
        self.due(ts);
        self.call(Call::Reti, ts);
        self.m.reti();
        self.retis += 1;
    }
    fn port(l: usize, c: usize, ctl: bool, ctc: bool) -> u16 {
        (l << 4 | if ctc { c } else { c << 1 | ctl as usize }) as u16
    }
    fn write(&mut self, port: u16, d: u8, ts: u32) {
        self.due(ts);
        self.call(Call::Write(port, d), ts);
        let l = (port >> 4 & 15) as usize;
        if l >= self.m.links.len() {
            return;
        }
        let link = &mut self.m.links[l];
        if link.ctc {
            let c = &mut link.ch[port as usize & 3];
            if c.want {
                // a time constant
                c.want = false;
                if c.tc == 0 {
                    c.cur = d;
                }
                c.tc = d;
            } else if d & 1 != 0 {
                if d & 2 != 0 {
                    c.tc = 0;
                }
                c.want = d & 4 != 0;
                c.en = d & 0x80 != 0;
                if !c.en {
                    c.drop_req();
                }
            } else {
                link.vector = d;
            }
        } else {
            let c = &mut link.ch[port as usize >> 1 & 1];
            if port & 1 == 0 {
                if !c.input {
                    if c.ready {
                        if c.avail > 0 {
                            c.avail -= 1;
                            c.req();
                        }
                    } else {
                        c.ready = true;
                    }
                }
            } else if d & 1 == 0 {
                c.vector = d;
            } else if d & 15 == 15 {
                c.input = d & 0x40 != 0;
                c.ready = c.input;
            } else if d & 15 == 3 {
                if d & 0x80 == 0 {
                    c.want = false;
                    c.en = false;
                    c.drop_req();
                } else if !c.en {
                    c.want = true;
                }
            }
        }
    }
    fn read(&mut self, port: u16, ts: u32) -> u8 {
        self.due(ts);
        let x = self.call(Call::Read(port), ts) as u8;
        let l = (port >> 4 & 15) as usize;
        if l >= self.m.links.len() {
            if x != 0xFF {
                self.bad("stray", format!("a foreign port {:04x} reads {:02x}", port, x));
            }
        } else if !self.m.links[l].ctc {
            let c = &mut self.m.links[l].ch[port as usize >> 1 & 1];
            if c.input {
                c.ready = true;
            }
        }
        x
    }
    fn reset(&mut self, ts: u32) {
        self.due(ts);
        self.call(Call::Reset, ts);
        self.m.reset();
    }
    fn program(&mut self, op: Op, ts: u32) {
        let n = self.m.links.len();
        match op {
            Op::Ctc(l, c, sr, en, tc) => {
                let (l, c) = (l as usize % n, c as usize & 3);
                if self.m.links[l].ctc {
                    let p = Watch::port(l, c, false, true);
                    if self.m.links[l].ch[c].want {
                        self.write(p, 1, ts); // finish a half-done programming
                    }
                    self.write(p, 0x51 | (sr as u8) << 1 | ((tc > 0) as u8) << 2 | (en as u8) << 7, ts);
                    if tc > 0 {
                        self.write(p, tc, ts + 3);
                    }
                }
            }
            Op::CtcVec(l, v) => {
                let l = l as usize % n;
                if self.m.links[l].ctc && !self.m.links[l].ch[0].want {
                    self.write(Watch::port(l, 0, false, true), v & 0xFE, ts);
                }
            }
            Op::PioInt(l, c, en) => {
                let (l, c) = (l as usize % n, c as usize & 1);
                if !self.m.links[l].ctc {
                    self.write(Watch::port(l, c, true, false), 3 | (en as u8) << 7, ts);
                }
            }
            Op::PioMode(l, c, input) => {
                let (l, c) = (l as usize % n, c as usize & 1);
                if !self.m.links[l].ctc {
                    self.write(Watch::port(l, c, true, false), 0x0F | (input as u8) << 6, ts);
                }
            }
            Op::PioVec(l, c, v) => {
                let (l, c) = (l as usize % n, c as usize & 1);
                if !self.m.links[l].ctc {
                    self.write(Watch::port(l, c, true, false), v & 0xFE, ts);
                }
            }
            Op::PioData(l, c, write) => {
                let (l, c) = (l as usize % n, c as usize & 1);
                if !self.m.links[l].ctc {
                    let p = Watch::port(l, c, false, false);
                    if write {
                        self.write(p, ts as u8, ts);
                    } else {
                        self.read(p, ts);
                    }
                }
            }
            Op::Stray(p) => {
                self.write(0x40 | p as u16, p, ts);
                self.read(0x40 | p as u16 | 0x80, ts);
            }
            _ => {}
        }
    }
    /// Distinct vectors, interrupts on.
    fn setup(&mut self, seed: u64, mut ts: u32) -> u32 {
        let kinds: Vec<bool> = self.m.links.iter().map(|l| l.ctc).collect();
        for (l, is_ctc) in kinds.into_iter().enumerate() {
            let l8 = l as u8;
            if is_ctc {
                self.program(Op::CtcVec(l8, l8 << 4), ts);
                for c in 0..4u8 {
                    ts += 11;
                    let h = hash3(seed, l as u64, c as u64);
                    self.program(Op::Ctc(l8, c, true, h & 7 != 0, 1 + (h >> 8 & 1) as u8 * (h >> 16 & 3) as u8), ts);
                }
            } else {
                for c in 0..2u8 {
                    ts += 11;
                    let h = hash3(seed, l as u64, c as u64);
                    self.program(Op::PioVec(l8, c, l8 << 4 | 8 | c << 1), ts);
                    self.program(Op::PioMode(l8, c, h & 1 != 0), ts);
                    self.program(Op::PioInt(l8, c, h & 14 != 0), ts);
                    self.m1(ts + 4);
                    if h & 1 == 0 {
                        self.program(Op::PioData(l8, c, true), ts + 6);
                    }
                }
            }
            ts += 11;
        }
        ts
    }
}
impl Io for Watch {
    type Timestamp = u32;
    type WrIoBreak = ();
    type RetiBreak = ();
    fn is_irq(&mut self, ts: u32) -> bool {
        self.poll(ts)
    }
    fn irq_data(&mut self, _pc: u16, ts: u32) -> (u8, Option<NonZeroU16>) {
        (self.ack(ts), None)
    }
    fn reti(&mut self, _pc: u16, ts: u32) -> Option<()> {
        Watch::reti(self, ts);
        None
    }
    fn read_io(&mut self, port: u16, ts: u32) -> (u8, Option<NonZeroU16>) {
        (self.read(port & 0xFF, ts), None)
    }
    fn write_io(&mut self, port: u16, d: u8, ts: u32) -> (Option<()>, Option<NonZeroU16>) {
        self.write(port & 0xFF, d, ts);
        (None, None)
    }
}
impl Memory for Watch {
    type Timestamp = u32;
    fn read_opcode(&mut self, pc: u16, _ir: u16, ts: u32) -> u8 {
        self.m1(ts);
        self.mem[pc as usize & 0x7FFF]
    }
    fn read_mem(&self, a: u16, _ts: u32) -> u8 {
        self.mem[a as usize & 0x7FFF]
    }
    fn read_mem16(&self, a: u16, ts: u32) -> u16 {
        u16::from_le_bytes([self.read_mem(a, ts), self.read_mem(a.wrapping_add(1), ts)])
    }
    fn write_mem(&mut self, a: u16, d: u8, _ts: u32) {
        self.mem[a as usize & 0x7FFF] = d;
    }
    fn read_debug(&self, a: u16) -> u8 {
        self.mem[a as usize & 0x7FFF]
    }
}

/// The guest: main program at 0, NMI handler at 66, handlers at 1000 + 64 * vector.
/// Returns false if some handler ends without RETI.
fn guest(mem: &mut Vec<u8>, m: &Model, seed: u64) -> bool {
    mem.clear();
    mem.resize(0x8000, 0);
    let mut rng = Rng::new(seed);
    let mut p = vec![0x31, 0x00, 0x70, 0x3E, 0x20, 0xED, 0x47, 0xED, 0x5E, 0xFB];
    let top = p.len() as u8;
    for _ in 0..rng.below(6) {
        match rng.below(5) {
            0 => p.push(0x00),
            1 => p.extend([0xDD, 0x23]),
            2 => p.extend([0xF3, 0x04, 0xFB]),
            3 => p.extend([0x21, 0x00, 0x50, 0xE5, 0xE1]),
            _ => p.extend([0xED, 0x44]),
        }
    }
    if rng.chance(1, 2) {
        p.push(0x76);
    }
    let d = (p.len() as u8 + 2).wrapping_sub(top);
    p.extend([0x18, 0u8.wrapping_sub(d)]);
    mem[..p.len()].copy_from_slice(&p);
    mem[0x66..0x6A].copy_from_slice(&[0x3C, 0x3D, 0xED, 0x45]);
    let mut all = true;
    for v in (0..256usize).step_by(2) {
        let at = 0x1000 + v * 32;
        mem[0x2000 + v] = at as u8;
        mem[0x2001 + v] = (at >> 8) as u8;
    }
    // the table is at 2000..2100, the handlers of high vectors would be there
    for (l, link) in m.links.iter().enumerate() {
        for c in 0..if link.ctc { 4 } else { 2 } {
            let v = m.vector(l, c) as usize;
            let at = 0x1000 + v * 32;
            let mut h = vec![0xF5];
            let mut nest = rng.chance(1, 3);
            for _ in 0..rng.below(10) {
                if nest && rng.chance(1, 3) {
                    nest = false;
                    h.push(0xFB);
                }
                match rng.below(4) {
                    0 => h.push(0x00),
                    1 => h.extend([0xFD, 0x2B]),
                    2 if !link.ctc => h.extend([0xDB, Watch::port(l, c, false, false) as u8]),
                    2 => h.extend([0xDB, Watch::port(l, c, false, true) as u8]),
                    _ if !link.ctc => h.extend([0xD3, Watch::port(l, c, false, false) as u8]),
                    _ => h.extend([0xE3, 0xE3]),
                }
            }
            if !link.ctc {
                // make ready for the next
                h.extend([0xDB, Watch::port(l, c, false, false) as u8, 0xD3, Watch::port(l, c, false, false) as u8]);
            }
            h.extend([0xF1, 0xFB]);
            if rng.chance(1, 40) {
                // the device is not told
                all = false;
                h.extend(*rng.pick(&[&[0xC9u8, 0x00], &[0xED, 0x45], &[0xED, 0x5D]]));
            } else {
                h.extend([0xED, 0x4D]);
            }
            mem[at..at + h.len()].copy_from_slice(&h);
        }
    }
    all
}

fn run_protocol(sc: &Sc, st: &mut Stats, b: &mut Watch) -> Res {
    let mut ts = 100u32;
    b.reset(ts);
    ts = b.setup(sc.seed, ts + 10);
    for (k, op) in sc.ops.iter().enumerate() {
        ts += 4;
        match *op {
            Op::M1(n) => {
                for _ in 0..n {
                    ts += 4;
                    b.m1(ts);
                }
            }
            Op::Poll => {
                b.poll(ts);
            }
            Op::Ack(d) => {
                if b.poll(ts) {
                    ts += d as u32;
                    b.ack(ts);
                }
            }
            Op::Reti => b.reti(ts),
            Op::Frame => b.frame(ts),
            Op::Reset => {
                b.reset(ts);
                st.fault("resets", 1);
            }
            Op::Gap(n) => ts += n as u32,
            Op::Edge(..) | Op::Strobe(..) => {
                b.event(*op, ts);
                st.fault("peripheral_events", 1);
            }
            Op::Nmi => {}
            op => b.program(op, ts),
        }
        ts += 3;
        st.steps += 1;
        cover(b, st, k);
        if let Some(v) = b.err.take() {
            return fail(&v.kind, format!("op {}: {}", k, v.msg));
        }
    }
    // every handler ends and everything that waits is served, in order
    let mut bound = 4 * (b.m.links.len() + 2) + b.m.links.iter().flat_map(|l| l.ch.iter()).map(|c| c.avail as usize + 1).sum::<usize>() * 2;
    for _ in 0..b.m.links.len() {
        b.reti(ts);
        ts += 8;
    }
    b.frame(ts);
    while b.m.links.iter().any(|l| l.ch.iter().any(|c| c.pend)) {
        ts += 20;
        if b.poll(ts) {
            b.ack(ts + 7);
            b.reti(ts + 13);
        }
        bound -= 1;
        ensure!(bound > 0, "stuck", "requests are never served: {:?}", b.m.links);
        if let Some(v) = b.err.take() {
            return fail(&v.kind, format!("finally: {}", v.msg));
        }
    }
    st.sim_ts += ts as u64;
    Ok(())
}

fn cover(b: &Watch, st: &mut Stats, _k: usize) {
    let mut h = 0u64;
    for l in &b.m.links {
        h = h << 1 | l.svc as u64;
        for c in &l.ch[..if l.ctc { 4 } else { 2 }] {
            h = h << 1 | c.pend as u64;
        }
    }
    st.cover(hash3(b.m.links.len() as u64, b.m.links[0].ctc as u64, h));
}

fn run_cpu(sc: &Sc, st: &mut Stats, b: &mut Watch) -> Res {
    let mut clk = TsCounter::<u32>::from(std::num::Wrapping(100u32));
    b.reset(100);
    let t0 = b.setup(sc.seed, 110);
    let all_reti = guest(&mut b.mem, &b.m, sc.seed);
    let mut cpu = Z80::<NMOS>::default();
    let mut t = t0;
    let mut late: Vec<(u32, Op)> = Vec::new();
    for op in &sc.ops {
        match *op {
            Op::Gap(n) => t += n as u32,
            Op::Edge(..) | Op::Strobe(..) => {
                t += 1;
                b.sched.push_back((t, *op));
                st.fault("peripheral_events", 1);
            }
            Op::Reset | Op::Nmi | Op::Frame => {
                t += 1;
                late.push((t, *op));
            }
            _ => {}
        }
    }
    let end = t + 50;
    while clk.as_timestamp() < t0 {
        clk.add_wait_states(0, NonZeroU16::new(1).unwrap());
    }
    let mut n = 0u64;
    let slice = 1 + (sc.seed >> 32 & 255) as u32;
    let mut hosts: VecDeque<(u32, Op)> = late.into();
    while clk.as_timestamp() < end {
        let lim = hosts.front().map_or(end, |h| h.0).min(clk.as_timestamp() + slice);
        if lim > clk.as_timestamp() {
            if sc.seed & 1 == 0 {
                let _ = cpu.execute_with_limit(b, &mut clk, lim);
            } else {
                let _ = cpu.execute_next::<_, _, fn(z80emu::CpuDebug)>(b, &mut clk, None);
            }
        }
        n += 1;
        let ts = clk.as_timestamp();
        while hosts.front().map_or(false, |h| h.0 <= ts) {
            match hosts.pop_front().unwrap().1 {
                Op::Nmi => {
                    cpu.nmi(b, &mut clk);
                    st.fault("nmi_requests", 1);
                }
                Op::Frame => b.frame(ts),
                _ => {
                    cpu.reset();
                    b.reset(ts);
                    b.setup(sc.seed, ts);
                    st.fault("resets", 1);
                }
            }
        }
        cover(b, st, 0);
        if let Some(v) = b.err.take() {
            return fail(&v.kind, format!("step {}: {}", n, v.msg));
        }
    }
    st.steps += n;
    // no more events: everything is served
    if all_reti {
        let mut left = 400 + b.m.links.iter().flat_map(|l| l.ch.iter()).map(|c| c.avail as usize + 1).sum::<usize>() * 80;
        loop {
            let busy = b.m.links.iter().any(|l| l.svc || l.ch.iter().any(|c| c.pend));
            if !busy {
                break;
            }
            left -= 1;
            ensure!(left > 0, "stuck", "requests are never served: {:?}", b.m.links);
            let _ = cpu.execute_next::<_, _, fn(z80emu::CpuDebug)>(b, &mut clk, None);
            if let Some(v) = b.err.take() {
                return fail(&v.kind, format!("finally: {}", v.msg));
            }
        }
    }
    st.sim_ts += clk.as_timestamp() as u64;
    Ok(())
}

impl Prop for C19 {
    const ID: &'static str = "C19";
    type Sc = Sc;
    fn gen(rng: &mut Rng, i: u64) -> Sc {
        let shape = rng.below(4) as u8;
        let cpu = i % 3 == 0;
        let n = SHAPES[shape as usize].len() as u64;
        let burst = rng.chance(1, 3);
        let ops = (0..rng.range(4, 150))
            .map(|_| {
                let l = rng.below(n) as u8;
                let c = rng.below(4) as u8;
                match rng.below(if cpu { 24 } else { 40 }) {
                    0..=6 => Op::Edge(l, c),
                    7..=11 => Op::Strobe(l, c),
                    12..=20 if cpu => Op::Gap(if burst { rng.below(12) } else { *rng.clone().pick(&[3, 20, 60, 300]) + rng.below(20) } as u16),
                    21 if cpu => Op::Nmi,
                    22 if cpu => Op::Frame,
                    23 if cpu => {
                        if rng.chance(1, 4) {
                            Op::Reset
                        } else {
                            Op::Nmi
                        }
                    }
                    12..=14 => Op::Poll,
                    15..=22 => Op::Ack(*rng.pick(&[0, 2, 7, 7, 30])),
                    23..=27 => Op::Reti,
                    28 => Op::Frame,
                    29..=30 => Op::M1(rng.range(1, 4) as u8),
                    31 => Op::Ctc(l, c, rng.chance(1, 3), rng.chance(3, 4), *rng.pick(&[0, 1, 1, 2, 3])),
                    32 => Op::PioInt(l, c, rng.chance(3, 4)),
                    33 => Op::PioMode(l, c, rng.chance(1, 2)),
                    34..=36 => Op::PioData(l, c, rng.chance(1, 2)),
                    37 => {
                        if rng.chance(1, 2) {
                            Op::PioVec(l, c, rng.u8())
                        } else {
                            Op::CtcVec(l, rng.u8())
                        }
                    }
                    38 => {
                        if rng.chance(1, 3) {
                            Op::Reset
                        } else {
                            Op::Stray(rng.u8() & 0x3F)
                        }
                    }
                    _ => Op::Gap(rng.below(100) as u16),
                }
            })
            .collect();
        Sc { shape, cpu, seed: rng.u64(), ops }
    }
    fn run(sc: &Sc, st: &mut Stats) -> Res {
        let mut b = Watch::new(sc.shape);
        let r = if sc.cpu { run_cpu(sc, st, &mut b) } else { run_protocol(sc, st, &mut b) };
        st.probe("polls", b.polls);
        st.probe("acknowledged", b.acks);
        st.probe("nested_services", b.nested);
        st.probe("releases", b.retis);
        st.eat(hash3(b.log, b.polls, b.retis));
        st.nontrivial = b.acks > 0;
        r?;
        for (i, l) in b.m.links.iter().enumerate() {
            for (k, c) in l.ch.iter().enumerate() {
                ensure!(c.served + c.pend as u64 == c.requests, "exactly-once", "link {} channel {}: {} requests, {} served", i, k, c.requests, c.served);
            }
        }
        Ok(())
    }
    fn shrink(mut sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
        let ops = ddmin(sc.ops.clone(), &mut |o| test(&Sc { ops: o.to_vec(), ..sc.clone() }));
        if test(&Sc { ops: ops.clone(), ..sc.clone() }) {
            sc.ops = ops;
        }
        for i in 0..sc.ops.len() {
            let c = match sc.ops[i] {
                Op::Gap(n) => Op::Gap(n / 2),
                Op::M1(_) => Op::M1(1),
                Op::Ack(_) => Op::Ack(7),
                _ => continue,
            };
            let mut s = sc.clone();
            s.ops[i] = c;
            if s != sc && test(&s) {
                sc = s;
            }
        }
        sc
    }
    fn real() -> &'static [&'static str] {
        &["ral1243::ctc::Ctc", "ral1243::pio::Pio", "ral1243::bus::Terminator", "z80emu::Z80<NMOS> with interrupt handlers (a third of the runs)"]
    }
    fn stub() -> &'static [&'static str] {
        &["pulse sources of the counter-timer and peripherals of the parallel ports (scripted)", "processor (scheduled calls, two thirds of the runs)"]
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 3_000_000,
            Tier::Thorough => 30_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run is one seeded history of peripheral events, polls, acknowledges, returns, programming and resets on one of four chains of counter-timers and parallel ports; non-trivial = some interrupt was acknowledged; distinct = different digests of vectors and times"
    }
    fn state_measure() -> &'static str {
        "distinct (chain, devices in service, channels requesting), hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["the processor fetches between two pulses of a channel", "a device is one link: its own channels do not interrupt each other's service", "a peripheral's strobe is noticed when the processor polls or at a frame end", "a vector is read right after the poll that requested it"]
    }
}
