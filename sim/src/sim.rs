//! The simulated host: clock, memory and devices behind z80emu's own seams
//! (`Clock`, `Memory`, `Io`).  Everything it does is a pure function of the
//! scenario's `Env`, the simulated time and per-kind ordinals, so one scenario
//! is one exactly repeatable execution.
use crate::rng::{hash2, hash3};
use serde::{Deserialize, Serialize};
use std::num::{NonZeroU16, NonZeroU8};
use z80emu::{Clock, Io, Memory};

/// When the maskable interrupt line is active.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Line {
    /// Never.
    Off,
    /// Active exactly inside the given [start, end) intervals of simulated time.
    Level(Vec<(u64, u64)>),
    /// A request is raised at each of the given times and held until acknowledged.
    Latched(Vec<u64>),
    /// Stuck active.
    Stuck,
    /// A request is raised when this many opcodes were fetched, and held until acknowledged.
    Fetches(Vec<u64>),
    /// Glitches: active at pseudo-random T-states, one in `n`.
    Noise(u64),
}

/// The environment: data, delays and faults that the host injects.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Env {
    pub seed: u64,
    /// Contention: 0 none, else one in `cont` cycles (in the address range) is delayed ...
    pub cont: u32,
    /// ... by 1..=`cont_max` T-states,
    pub cont_max: u32,
    /// in this address range.
    pub cont_range: (u16, u16),
    /// Stall faults: one cycle in `stall` is delayed by `stall_len` (0: never).
    pub stall: u32,
    pub stall_len: u64,
    /// Wait states: one in `wait` device accesses adds 1..=`wait_max` (0: never).
    pub wait: u32,
    pub wait_max: u16,
    pub line: Line,
    /// Bytes a device supplies at each acknowledge (cyclic).
    pub ack: Vec<u8>,
    /// One output in `brk_wr` requests a break (0: never).
    pub brk_wr: u32,
    /// One RETI in `brk_reti` requests a break (0: never).
    pub brk_reti: u32,
    /// Data read from ports depends on time too.
    pub io_timed: bool,
    /// Writes in this range are ignored by the memory.
    pub rom: Option<(u16, u16)>,
    /// In this range opcode fetches see another bank (byte xor).
    pub m1_bank: Option<(u16, u16, u8)>,
    /// (address modulo 65536) ports read as this constant instead of pseudo-random data
    pub io_const: Option<u8>,
}

impl Default for Env {
    fn default() -> Self {
        Env {
            seed: 0,
            cont: 0,
            cont_max: 0,
            cont_range: (0, 0xFFFF),
            stall: 0,
            stall_len: 0,
            wait: 0,
            wait_max: 0,
            line: Line::Off,
            ack: vec![0xFF],
            brk_wr: 0,
            brk_reti: 0,
            io_timed: false,
            rom: None,
            m1_bank: None,
            io_const: None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cy {
    M1,
    Mreq,
    NoMreq,
    Io,
    Irq,
    Wait,
}

/// One entry of the clock stream.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct CEv {
    pub kind: Cy,
    pub addr: u16,
    /// T-states asked for
    pub n: u16,
    /// time before the cycle
    pub ts: u64,
    /// time after the cycle
    pub end: u64,
}

pub struct SimClock {
    pub ts: u64,
    pub env: Env,
    pub log: Vec<CEv>,
    pub logging: bool,
    /// Remaining clock calls before the run is declared stuck.
    pub budget: u64,
    /// Injected delays so far (contention + stalls + waits) and counts.
    pub injected: u64,
    pub n_cont: u64,
    pub n_stall: u64,
    pub n_wait: u64,
    pub waited: u64,
    /// Start of the current cycle after delays (used for timestamps).
    flat: bool,
    /// Called in the middle of instructions, on every cycle.
    pub hook: Option<Hook>,
}

pub struct Hook(pub Box<dyn FnMut() + Send>);

pub const STUCK: &str = "simulation budget exceeded: execution does not terminate";

impl SimClock {
    pub fn new(env: &Env, ts: u64) -> Self {
        let flat = env.cont == 0 && env.stall == 0;
        SimClock { ts, env: env.clone(), log: Vec::new(), logging: true, budget: 40_000_000, injected: 0, n_cont: 0, n_stall: 0, n_wait: 0, waited: 0, flat, hook: None }
    }
    #[inline]
    fn delay(&mut self, addr: u16) -> u64 {
        if self.flat {
            return 0;
        }
        let e = &self.env;
        let mut d = 0;
        if e.cont != 0 && addr >= e.cont_range.0 && addr <= e.cont_range.1 {
            let h = hash3(e.seed ^ 0xC0, self.ts, addr as u64);
            if h % e.cont as u64 == 0 {
                d = 1 + (h >> 32) % e.cont_max.max(1) as u64;
                self.n_cont += 1;
            }
        }
        if e.stall != 0 {
            let h = hash3(e.seed ^ 0x57A11, self.ts, addr as u64);
            if h % e.stall as u64 == 0 {
                d += e.stall_len;
                self.n_stall += 1;
            }
        }
        self.injected += d;
        d
    }
    #[inline]
    fn push(&mut self, kind: Cy, addr: u16, n: u16, ts: u64) {
        assert!(self.budget > 0, "{}", STUCK);
        self.budget -= 1;
        if let Some(h) = self.hook.as_mut() {
            (h.0)();
        }
        if self.logging {
            if kind == Cy::NoMreq {
                // adjacent internal cycles on the same address are one entry:
                // they cannot be told apart on the bus
                if let Some(l) = self.log.last_mut() {
                    if l.kind == Cy::NoMreq && l.addr == addr && l.end == ts {
                        l.n += n;
                        l.end = self.ts;
                        return;
                    }
                }
            }
            let end = self.ts;
            self.log.push(CEv { kind, addr, n, ts, end });
        }
    }
    pub fn m1(&mut self, a: u16) -> u64 {
        let s = self.ts;
        self.ts += self.delay(a) + 4;
        self.push(Cy::M1, a, 4, s);
        self.ts
    }
    pub fn mreq(&mut self, a: u16) -> u64 {
        let s = self.ts;
        self.ts += self.delay(a) + 3;
        self.push(Cy::Mreq, a, 3, s);
        self.ts
    }
    pub fn no_mreq(&mut self, a: u16, n: u8) {
        let s = self.ts;
        if self.flat {
            self.ts += n as u64;
        } else {
            for _ in 0..n {
                let d = self.delay(a);
                self.ts += d + 1;
            }
        }
        self.push(Cy::NoMreq, a, n as u16, s);
    }
    pub fn io(&mut self, p: u16) -> u64 {
        let s = self.ts;
        let d = self.delay(p);
        self.ts += d + 4;
        self.push(Cy::Io, p, 4, s);
        s + d + 1
    }
    pub fn irq(&mut self, pc: u16) -> u64 {
        let s = self.ts;
        let d = self.delay(pc);
        self.ts += d + 6;
        self.push(Cy::Irq, pc, 6, s);
        s + d + 2
    }
    pub fn wait(&mut self, bus: u16, n: u16) {
        let s = self.ts;
        self.ts += n as u64;
        self.injected += n as u64;
        self.n_wait += 1;
        self.waited += n as u64;
        self.push(Cy::Wait, bus, n, s);
    }
}

impl Clock for SimClock {
    type Limit = u64;
    type Timestamp = u64;
    fn is_past_limit(&self, limit: u64) -> bool {
        self.ts >= limit
    }
    fn add_irq(&mut self, pc: u16) -> u64 {
        self.irq(pc)
    }
    fn add_no_mreq(&mut self, address: u16, add_ts: NonZeroU8) {
        self.no_mreq(address, add_ts.get())
    }
    fn add_m1(&mut self, address: u16) -> u64 {
        self.m1(address)
    }
    fn add_mreq(&mut self, address: u16) -> u64 {
        self.mreq(address)
    }
    fn add_io(&mut self, port: u16) -> u64 {
        self.io(port)
    }
    fn add_wait_states(&mut self, bus: u16, ws: NonZeroU16) {
        self.wait(bus, ws.get())
    }
    fn as_timestamp(&self) -> u64 {
        self.ts
    }
}

/// Timestamp that the seam does not define (second byte of a 16-bit read).
pub const NA: u64 = u64::MAX;

/// One entry of the bus stream.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BEv {
    Op { pc: u16, ir: u16, ts: u64, v: u8 },
    Rd { a: u16, ts: u64, v: u8 },
    Wr { a: u16, ts: u64, v: u8 },
    In { p: u16, ts: u64, v: u8 },
    Out { p: u16, ts: u64, v: u8 },
    Ack { pc: u16, ts: u64, v: u8 },
    Reti { a: u16, ts: u64 },
}

impl BEv {
    /// The same event with time removed.
    pub fn untimed(self) -> BEv {
        use BEv::*;
        match self {
            Op { pc, ir, v, .. } => Op { pc, ir, ts: 0, v },
            Rd { a, v, .. } => Rd { a, ts: 0, v },
            Wr { a, v, .. } => Wr { a, ts: 0, v },
            In { p, v, .. } => In { p, ts: 0, v },
            Out { p, v, .. } => Out { p, ts: 0, v },
            Ack { pc, v, .. } => Ack { pc, ts: 0, v },
            Reti { a, .. } => Reti { a, ts: 0 },
        }
    }
    pub fn ts(self) -> u64 {
        use BEv::*;
        match self {
            Op { ts, .. } | Rd { ts, .. } | Wr { ts, .. } | In { ts, .. } | Out { ts, .. } | Ack { ts, .. } | Reti { ts, .. } => ts,
        }
    }
    pub fn with_ts(self, ts: u64) -> BEv {
        use BEv::*;
        match self {
            Op { pc, ir, v, .. } => Op { pc, ir, ts, v },
            Rd { a, v, .. } => Rd { a, ts, v },
            Wr { a, v, .. } => Wr { a, ts, v },
            In { p, v, .. } => In { p, ts, v },
            Out { p, v, .. } => Out { p, ts, v },
            Ack { pc, v, .. } => Ack { pc, ts, v },
            Reti { a, .. } => Reti { a, ts },
        }
    }
    /// Equal, except that an undefined timestamp matches any.
    pub fn matches(self, o: BEv) -> bool {
        if self.ts() == NA || o.ts() == NA {
            self.untimed() == o.untimed()
        } else {
            self == o
        }
    }
    /// Like `matches`, ignoring the data byte.
    pub fn matches_but_data(self, o: BEv) -> bool {
        fn z(e: BEv) -> BEv {
            use BEv::*;
            match e {
                Op { pc, ir, ts, .. } => Op { pc, ir, ts, v: 0 },
                Rd { a, ts, .. } => Rd { a, ts, v: 0 },
                Wr { a, ts, .. } => Wr { a, ts, v: 0 },
                In { p, ts, .. } => In { p, ts, v: 0 },
                Out { p, ts, .. } => Out { p, ts, v: 0 },
                Ack { pc, ts, .. } => Ack { pc, ts, v: 0 },
                r => r,
            }
        }
        z(self).matches(z(o))
    }
}

pub struct SimBus {
    pub mem: Box<[u8; 65536]>,
    pub env: Env,
    pub log: std::cell::RefCell<Vec<BEv>>,
    pub logging: bool,
    pub n_op: u64,
    pub n_in: u64,
    pub n_out: u64,
    pub n_ack: u64,
    pub n_reti: u64,
    /// per-port input ordinals are not needed: data depends on (seed, port, n_in)
    /// number of latched requests already served
    served: usize,
    pub polls: u64,
    /// wait states asked for
    pub waits: u64,
    pub last_poll: Option<(u64, bool)>,
    /// written addresses since last cleared (for cheap memory sync)
    pub dirty: Vec<u16>,
    /// breaks requested (token values) in order
    pub brk_tokens: Vec<(bool, u32)>,
}

impl SimBus {
    pub fn new(env: &Env) -> Self {
        SimBus {
            mem: vec![0u8; 65536].into_boxed_slice().try_into().unwrap(),
            env: env.clone(),
            log: Default::default(),
            logging: true,
            n_op: 0,
            waits: 0,
            n_in: 0,
            n_out: 0,
            n_ack: 0,
            n_reti: 0,
            served: 0,
            polls: 0,
            last_poll: None,
            dirty: Vec::new(),
            brk_tokens: Vec::new(),
        }
    }
    #[inline]
    fn rec(&self, e: BEv) {
        if self.logging {
            self.log.borrow_mut().push(e)
        }
    }
    /// A copy of everything that influences future behaviour.
    pub fn fork(&self) -> SimBus {
        SimBus {
            mem: self.mem.clone(),
            env: self.env.clone(),
            log: Default::default(),
            logging: self.logging,
            n_op: self.n_op,
            waits: 0,
            n_in: self.n_in,
            n_out: self.n_out,
            n_ack: self.n_ack,
            n_reti: self.n_reti,
            served: self.served,
            polls: 0,
            last_poll: None,
            dirty: Vec::new(),
            brk_tokens: Vec::new(),
        }
    }
    /// Make ordinals equal to those of another bus (after a judged step).
    pub fn sync_from(&mut self, o: &SimBus) {
        self.n_op = o.n_op;
        self.n_in = o.n_in;
        self.n_out = o.n_out;
        self.n_ack = o.n_ack;
        self.n_reti = o.n_reti;
        self.served = o.served;
    }
    pub fn op(&mut self, pc: u16, ir: u16, ts: u64) -> u8 {
        self.n_op += 1;
        let mut v = self.mem[pc as usize];
        if let Some((lo, hi, x)) = self.env.m1_bank {
            if pc >= lo && pc <= hi {
                v ^= x;
            }
        }
        self.rec(BEv::Op { pc, ir, ts, v });
        v
    }
    pub fn rd(&self, a: u16, ts: u64) -> u8 {
        let v = self.mem[a as usize];
        self.rec(BEv::Rd { a, ts, v });
        v
    }
    pub fn wr(&mut self, a: u16, v: u8, ts: u64) {
        self.rec(BEv::Wr { a, ts, v });
        if let Some((lo, hi)) = self.env.rom {
            if a >= lo && a <= hi {
                return;
            }
        }
        self.mem[a as usize] = v;
        self.dirty.push(a);
    }
    /// Data of the next input, without consuming it.
    pub fn peek_in(&self, p: u16, ts: u64) -> u8 {
        if let Some(c) = self.env.io_const {
            return c;
        }
        let h = hash3(self.env.seed ^ 0x1111, p as u64, self.n_in ^ if self.env.io_timed { ts << 20 } else { 0 });
        if h & 7 == 0 {
            [0u8, 0xFF, 0x80, 0x7F][(h >> 8 & 3) as usize]
        } else {
            (h >> 16) as u8
        }
    }
    fn ws(&mut self, kind: u64, n: u64) -> u16 {
        if self.env.wait == 0 {
            return 0;
        }
        let h = hash3(self.env.seed ^ 0x3333, kind, n);
        if h % self.env.wait as u64 == 0 {
            let n = 1 + ((h >> 32) % self.env.wait_max.max(1) as u64) as u16;
            self.waits += n as u64;
            n
        } else {
            0
        }
    }
    pub fn inp(&mut self, p: u16, ts: u64) -> (u8, u16) {
        let v = self.peek_in(p, ts);
        self.n_in += 1;
        self.rec(BEv::In { p, ts, v });
        (v, self.ws(1, self.n_in))
    }
    pub fn out(&mut self, p: u16, v: u8, ts: u64) -> (Option<u32>, u16) {
        self.n_out += 1;
        self.rec(BEv::Out { p, ts, v });
        let brk = if self.env.brk_wr != 0 {
            let h = hash2(self.env.seed ^ 0x4444, self.n_out);
            if h % self.env.brk_wr as u64 == 0 {
                let t = (h >> 32) as u32;
                self.brk_tokens.push((false, t));
                Some(t)
            } else {
                None
            }
        } else {
            None
        };
        (brk, self.ws(2, self.n_out))
    }
    pub fn line(&self, ts: u64) -> bool {
        match &self.env.line {
            Line::Off => false,
            Line::Stuck => true,
            Line::Noise(n) => hash2(self.env.seed ^ 0x5555, ts) % n == 0,
            Line::Level(v) => {
                let i = v.partition_point(|w| w.1 <= ts);
                i < v.len() && v[i].0 <= ts
            }
            Line::Fetches(v) => v.partition_point(|&t| t <= self.n_op) > self.served,
            Line::Latched(v) => v.partition_point(|&t| t <= ts) > self.served,
        }
    }
    pub fn ack(&mut self, pc: u16, ts: u64) -> (u8, u16) {
        let n = self.env.ack.len().max(1) as u64;
        let v = self.env.ack.get((self.n_ack % n) as usize).copied().unwrap_or(0xFF);
        self.n_ack += 1;
        // one acknowledge serves every request raised so far
        match &self.env.line {
            Line::Latched(l) => self.served = self.served.max(l.partition_point(|&t| t <= ts)),
            Line::Fetches(l) => self.served = self.served.max(l.partition_point(|&t| t <= self.n_op)),
            _ => {}
        }
        self.rec(BEv::Ack { pc, ts, v });
        (v, self.ws(3, self.n_ack))
    }
    pub fn do_reti(&mut self, a: u16, ts: u64) -> Option<u32> {
        self.n_reti += 1;
        self.rec(BEv::Reti { a, ts });
        if self.env.brk_reti != 0 {
            let h = hash2(self.env.seed ^ 0x6666, self.n_reti);
            if h % self.env.brk_reti as u64 == 0 {
                let t = (h >> 32) as u32;
                self.brk_tokens.push((true, t));
                return Some(t);
            }
        }
        None
    }
}

impl Io for SimBus {
    type Timestamp = u64;
    type WrIoBreak = u32;
    type RetiBreak = u32;
    fn read_io(&mut self, port: u16, ts: u64) -> (u8, Option<NonZeroU16>) {
        let (v, w) = self.inp(port, ts);
        (v, NonZeroU16::new(w))
    }
    fn write_io(&mut self, port: u16, data: u8, ts: u64) -> (Option<u32>, Option<NonZeroU16>) {
        let (b, w) = self.out(port, data, ts);
        (b, NonZeroU16::new(w))
    }
    fn is_irq(&mut self, ts: u64) -> bool {
        self.polls += 1;
        let r = self.line(ts);
        self.last_poll = Some((ts, r));
        r
    }
    fn irq_data(&mut self, pc: u16, ts: u64) -> (u8, Option<NonZeroU16>) {
        let (v, w) = self.ack(pc, ts);
        (v, NonZeroU16::new(w))
    }
    fn reti(&mut self, address: u16, ts: u64) -> Option<u32> {
        self.do_reti(address, ts)
    }
}

impl Memory for SimBus {
    type Timestamp = u64;
    fn read_mem(&self, a: u16, ts: u64) -> u8 {
        self.rd(a, ts)
    }
    fn read_mem16(&self, a: u16, ts: u64) -> u16 {
        let lo = self.rd(a, ts);
        let hi = self.rd(a.wrapping_add(1), NA);
        u16::from_le_bytes([lo, hi])
    }
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: u64) -> u8 {
        self.op(pc, ir, ts)
    }
    fn write_mem(&mut self, a: u16, v: u8, ts: u64) {
        self.wr(a, v, ts)
    }
    fn read_debug(&self, a: u16) -> u8 {
        self.mem[a as usize]
    }
}

impl crate::model::MClk for SimClock {
    fn now(&self) -> u64 {
        self.ts
    }
    fn m1(&mut self, a: u16) -> u64 {
        SimClock::m1(self, a)
    }
    fn mreq(&mut self, a: u16) -> u64 {
        SimClock::mreq(self, a)
    }
    fn no_mreq(&mut self, a: u16, n: u8) {
        SimClock::no_mreq(self, a, n)
    }
    fn io(&mut self, p: u16) -> u64 {
        SimClock::io(self, p)
    }
    fn irq(&mut self, pc: u16) -> u64 {
        SimClock::irq(self, pc)
    }
    fn wait(&mut self, bus: u16, n: u16) {
        SimClock::wait(self, bus, n)
    }
}

impl crate::model::MBus for SimBus {
    fn op(&mut self, pc: u16, ir: u16, ts: u64) -> u8 {
        SimBus::op(self, pc, ir, ts)
    }
    fn rd(&mut self, a: u16, ts: u64) -> u8 {
        SimBus::rd(self, a, ts)
    }
    fn wr(&mut self, a: u16, v: u8, ts: u64) {
        SimBus::wr(self, a, v, ts)
    }
    fn peek(&self, a: u16) -> u8 {
        self.mem[a as usize]
    }
    fn inp(&mut self, p: u16, ts: u64) -> (u8, u16) {
        SimBus::inp(self, p, ts)
    }
    fn out(&mut self, p: u16, v: u8, ts: u64) -> (Option<u32>, u16) {
        SimBus::out(self, p, v, ts)
    }
    fn line(&mut self, ts: u64) -> bool {
        SimBus::line(self, ts)
    }
    fn ack(&mut self, pc: u16, ts: u64) -> (u8, u16) {
        SimBus::ack(self, pc, ts)
    }
    fn do_reti(&mut self, a: u16, ts: u64) -> Option<u32> {
        SimBus::do_reti(self, a, ts)
    }
}
