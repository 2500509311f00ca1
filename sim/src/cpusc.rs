//! Scenarios for the bare processor: a seeded machine, a seeded host with its
//! faults, and a list of operations at instruction boundaries.
use crate::cpu::{convert, real, real_any, ApiOp, RCpu, Snap};
use crate::engine::{ddmin, min_prefix, Stats};
use crate::model::{Fl, State, FLS};
use crate::rng::{hash2, hash3, Rng};
use crate::sim::{BEv, Env, Line, SimBus, SimClock, NA};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// n times execute_next
    Step(u16),
    /// execute_with_limit to now + n
    Slice(u32),
    /// n times execute_with_limit to now + 1
    Tick(u16),
    Nmi,
    /// host calls irq() directly
    Irq,
    /// host calls execute_instruction directly
    Exec(u8),
    Reset,
    /// jolt: load every register from this seed
    Load(u64),
    /// load given registers
    Set(Box<State>),
    Api(ApiOp),
    /// DMA write by the host
    Poke(u16, Vec<u8>),
    /// DMA write at the program counter
    Code(Vec<u8>),
    /// save and restore
    Snap(Snap),
    /// convert to another variant
    Conv(Fl),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MemSpec {
    pub seed: u64,
    /// 0 zero, 1 uniform, 2 boosted prefixes, 3 corner bytes, 4 constant `seed as u8`
    pub mode: u8,
    /// explicit contents on top
    pub cells: Vec<(u16, Vec<u8>)>,
}

impl MemSpec {
    pub fn fill(&self, m: &mut [u8; 65536]) {
        match self.mode {
            0 => m.fill(0),
            4 => m.fill(self.seed as u8),
            mode => {
                let mut r = Rng::new(self.seed);
                for ch in m.chunks_exact_mut(8) {
                    ch.copy_from_slice(&r.u64().to_le_bytes());
                }
                if mode >= 2 {
                    let mut i = 0usize;
                    while i < 65536 {
                        let v = r.u64();
                        let b = (v >> 32) as u8;
                        if mode == 2 {
                            m[i] = [0xDD, 0xFD, 0xCB, 0xED, 0xED, 0xDD, 0xFD, 0xCB][(v & 7) as usize];
                            i += 1 + (v >> 8 & 15) as usize;
                            if v & 0xF0_0000 == 0 && i < 65536 {
                                m[i] = 0xCB;
                                i += 1
                            }
                        } else {
                            m[i] = [0, 1, 0x7F, 0x80, 0xFF, 0x0F, 0xF0, b][(v & 7) as usize];
                            i += 1 + (v >> 8 & 3) as usize;
                        }
                    }
                }
            }
        }
        for (a, v) in &self.cells {
            for (k, b) in v.iter().enumerate() {
                m[a.wrapping_add(k as u16) as usize] = *b;
            }
        }
    }
    pub fn gen(rng: &mut Rng) -> MemSpec {
        let mode = *rng.pick(&[1, 2, 2, 2, 3]);
        MemSpec { seed: rng.u64(), mode, cells: Vec::new() }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CpuSc {
    pub fl: Fl,
    /// run-time selected variant
    pub any: bool,
    pub start_ts: u64,
    pub init: State,
    pub mem: MemSpec,
    pub env: Env,
    pub ops: Vec<Op>,
    /// free per-property parameter
    pub extra: u64,
}

pub fn rand_state(rng: &mut Rng) -> State {
    State {
        af: rng.corner16(),
        bc: if rng.chance(1, 3) { rng.below(6) as u16 | (rng.below(4) as u16) << 8 } else { rng.corner16() },
        de: rng.corner16(),
        hl: rng.corner16(),
        af_: rng.corner16(),
        bc_: rng.corner16(),
        de_: rng.corner16(),
        hl_: rng.corner16(),
        ix: rng.corner16(),
        iy: rng.corner16(),
        sp: rng.corner16(),
        pc: rng.corner16(),
        wz: rng.u16(),
        i: rng.corner8(),
        r: rng.corner8(),
        iff1: rng.chance(1, 2),
        iff2: rng.chance(1, 2),
        im: rng.below(3) as u8,
        halt: false,
        prefix: 0,
        ei: false,
    }
}

/// A complete instruction, all tables about equally likely.
pub fn gen_instr(rng: &mut Rng) -> Vec<u8> {
    let mut v = Vec::with_capacity(5);
    match rng.below(10) {
        0..=2 => {
            v.push(rng.u8());
            v.push(rng.corner8());
            v.push(rng.corner8());
        }
        3 => {
            v.push(0xCB);
            v.push(rng.u8());
        }
        4 => {
            v.push(0xED);
            v.push(0x40 | rng.u8() & 0x3F);
            v.push(rng.corner8());
            v.push(rng.corner8());
        }
        5 => {
            v.push(0xED);
            v.push(0xA0 | rng.u8() & 0x1B);
        }
        6 => {
            v.push(*rng.pick(&[0xDD, 0xFD]));
            v.push(rng.u8());
            v.push(rng.corner8());
            v.push(rng.corner8());
        }
        7 => {
            v.push(*rng.pick(&[0xDD, 0xFD]));
            v.push(0xCB);
            v.push(rng.corner8());
            v.push(rng.u8());
        }
        8 => {
            // arithmetic and flags
            v.push(*rng.pick(&[0x27, 0x2F, 0x37, 0x3F, 0x27, 0x08, 0xD9, 0xEB, 0x07, 0x0F, 0x17, 0x1F, 0x10, 0xFB, 0xF3]));
            v.push(rng.corner8());
        }
        _ => {
            // control: EI, DI, HALT, RETs, prefix chains, LD A,I/R, IM
            let w: &[&[u8]] = &[
                &[0xFB],
                &[0xF3],
                &[0x76],
                &[0xFB, 0x76],
                &[0xFB, 0xFB],
                &[0xED, 0x4D],
                &[0xED, 0x45],
                &[0xED, 0x57],
                &[0xED, 0x5F],
                &[0xED, 0x46],
                &[0xED, 0x56],
                &[0xED, 0x5E],
                &[0xDD, 0xFD],
                &[0xFD, 0xDD, 0xDD],
                &[0xDD, 0xED],
                &[0xDD, 0xFB],
                &[0xFD, 0x76],
                &[0xFF],
                &[0xC7],
                &[0xED, 0xB0],
                &[0xED, 0xB1],
                &[0xED, 0xB2],
                &[0xED, 0xB3],
                &[0xED, 0xB8],
                &[0xED, 0x4F],
                &[0xED, 0x47],
            ];
            v.extend_from_slice(rng.pick(w));
        }
    }
    v
}

pub fn gen_line(rng: &mut Rng, span: u64) -> Line {
    match rng.below(8) {
        0 => Line::Off,
        1 => Line::Stuck,
        2 => Line::Noise(rng.range(2, 40)),
        3 | 4 => {
            let mut t = rng.below(200);
            let mut v = Vec::new();
            let gap = *rng.pick(&[20, 100, 400]);
            while t < span && v.len() < 400 {
                let w = *rng.pick(&[2u64, 8, 60]);
                let e = t + 1 + rng.below(w);
                v.push((t, e));
                t = e + 1 + rng.below(gap);
            }
            Line::Level(v)
        }
        _ => {
            let mut t = rng.below(200);
            let mut v = Vec::new();
            let gap = *rng.pick(&[5, 40, 200, 800]);
            while t < span && v.len() < 400 {
                v.push(t);
                t += 1 + rng.below(gap);
            }
            Line::Latched(v)
        }
    }
}

pub fn gen_env(rng: &mut Rng, span: u64) -> Env {
    let mut e = Env { seed: rng.u64(), ..Default::default() };
    if rng.chance(1, 3) {
        e.cont = rng.range(1, 5) as u32;
        e.cont_max = rng.range(1, 8) as u32;
        let (a, b) = (rng.corner16(), rng.corner16());
        e.cont_range = if rng.chance(1, 2) { (0, 0xFFFF) } else { (a.min(b), a.max(b)) };
    }
    if rng.chance(1, 8) {
        e.stall = rng.range(20, 200) as u32;
        e.stall_len = *rng.pick(&[1, 100, 70000, 10_000_000]);
    }
    if rng.chance(1, 3) {
        e.wait = rng.range(1, 3) as u32;
        e.wait_max = *rng.pick(&[1, 3, 300, 65535]);
    }
    e.line = gen_line(rng, span);
    let n = rng.range(1, 5);
    e.ack = (0..n)
        .map(|_| match rng.below(4) {
            0 => *rng.pick(&[0xFFu8, 0xC7, 0xCF, 0xFB, 0x76, 0xDD, 0xFD, 0xED, 0xCB, 0xCD, 0xC3, 0x00, 0xF3, 0xD3, 0xE3, 0x18, 0x10]),
            _ => rng.u8(),
        })
        .collect();
    if rng.chance(1, 4) {
        e.brk_wr = rng.range(1, 4) as u32;
    }
    if rng.chance(1, 4) {
        e.brk_reti = rng.range(1, 3) as u32;
    }
    if rng.chance(1, 8) {
        let (a, b) = (rng.u16(), rng.u16());
        e.rom = Some((a.min(b), a.max(b)));
    }
    if rng.chance(1, 12) {
        let (a, b) = (rng.u16(), rng.u16());
        e.m1_bank = Some((a.min(b), a.max(b), rng.u8()));
    }
    if rng.chance(1, 20) {
        e.io_const = Some(rng.corner8());
    }
    e
}

/// A change of the refresh counter, the greatest ones included.
pub fn gen_delta(rng: &mut Rng) -> i32 {
    match rng.below(4) {
        0 => i32::MAX - rng.below(300) as i32,
        1 => i32::MIN + rng.below(300) as i32,
        _ => rng.u64() as i32 >> rng.below(31),
    }
}

pub fn gen_api(rng: &mut Rng) -> ApiOp {
    use ApiOp::*;
    match rng.below(27) {
        0 => SetPc(rng.corner16()),
        1 => SetSp(rng.corner16()),
        2 => SetAcc(rng.corner8()),
        3 => SetFlags(rng.corner8()),
        4 => IncR,
        5 => AddR(gen_delta(rng)),
        6 => SetR(rng.corner8()),
        7 => SetI(rng.corner8()),
        8 => SetIffs(rng.chance(1, 2), rng.chance(1, 2)),
        9 => Halt,
        10 => SetIm(rng.u8() % 3),
        11 => ExAfAf,
        12 => Exx,
        13 => SetReg(rng.u8(), rng.u8() % 3, rng.corner8()),
        14 => GetReg(rng.u8(), rng.u8() % 3),
        15 => SetReg16(rng.u8(), rng.corner16()),
        16 => SetReg2(rng.u8(), rng.corner8(), rng.corner8()),
        17 => GetReg2(rng.u8()),
        18 => GetAlt2(rng.u8()),
        19 => SetIndex16(rng.u8(), rng.corner16()),
        20 => SetIndex2(rng.u8(), rng.corner8(), rng.corner8()),
        21 => GetIndex2(rng.u8()),
        22 => RestoreIff1,
        23 => DisableInt,
        24 => EnableInt,
        25 => SetMemptr(rng.u16()),
        _ => Queries,
    }
}

/// Relative weights of operations.
#[derive(Clone, Copy)]
pub struct Profile {
    pub step: u64,
    pub slice: u64,
    pub tick: u64,
    pub nmi: u64,
    pub irq: u64,
    pub exec: u64,
    pub reset: u64,
    pub load: u64,
    pub api: u64,
    pub poke: u64,
    pub code: u64,
    pub snap: u64,
    pub conv: u64,
    pub ops: (u64, u64),
    pub steps: u64,
    pub slice_max: u64,
}

impl Profile {
    pub const BASE: Profile =
        Profile { step: 30, slice: 0, tick: 10, nmi: 4, irq: 3, exec: 3, reset: 1, load: 14, api: 4, poke: 3, code: 25, snap: 0, conv: 0, ops: (10, 60), steps: 12, slice_max: 300 };
}

pub fn gen_snap(rng: &mut Rng) -> Snap {
    *rng.pick(&[Snap::Json, Snap::JsonSnake, Snap::JsonAlt, Snap::Bincode, Snap::BincodeStream, Snap::Tree, Snap::Clone])
}

pub fn gen_op(rng: &mut Rng, p: &Profile) -> Op {
    let tot = p.step + p.slice + p.tick + p.nmi + p.irq + p.exec + p.reset + p.load + p.api + p.poke + p.code + p.snap + p.conv;
    let mut k = rng.below(tot);
    macro_rules! w {
        ($n:expr, $e:expr) => {
            if k < $n {
                return $e;
            }
            k -= $n;
        };
    }
    w!(p.step, Op::Step(rng.range(1, p.steps) as u16));
    w!(p.slice, Op::Slice(if rng.chance(1, 3) { rng.below(24) } else { rng.below(p.slice_max) } as u32));
    w!(p.tick, Op::Tick(rng.range(1, p.steps) as u16));
    w!(p.nmi, Op::Nmi);
    w!(p.irq, Op::Irq);
    w!(p.exec, Op::Exec(if rng.chance(1, 3) { *rng.pick(&[0xDD, 0xFD, 0xED, 0xCB, 0xFB, 0x76, 0xD3, 0xDB]) } else { rng.u8() }));
    w!(p.reset, Op::Reset);
    w!(p.load, Op::Load(rng.u64()));
    w!(p.api, Op::Api(gen_api(rng)));
    w!(p.poke, {
        let n = rng.range(1, 4);
        Op::Poke(rng.corner16(), (0..n).map(|_| rng.u8()).collect())
    });
    w!(p.code, {
        let n = rng.range(1, 4);
        let mut v = Vec::new();
        for _ in 0..n {
            v.extend(gen_instr(rng));
        }
        Op::Code(v)
    });
    w!(p.snap, Op::Snap(gen_snap(rng)));
    let _ = k;
    Op::Conv(*rng.pick(&FLS))
}

pub fn gen_sc(rng: &mut Rng, p: &Profile) -> CpuSc {
    let n = rng.range(p.ops.0, p.ops.1);
    let ops = (0..n).map(|_| gen_op(rng, p)).collect();
    let mut init = rand_state(rng);
    init.halt = false;
    CpuSc {
        fl: *rng.pick(&FLS),
        any: rng.chance(1, 3),
        start_ts: if rng.chance(1, 2) { 0 } else { rng.below(100_000) },
        init,
        mem: MemSpec::gen(rng),
        env: gen_env(rng, 20_000),
        ops,
        extra: rng.u64(),
    }
}

/// One machine: processor, memory and devices, clock.
pub struct Side {
    pub cpu: Box<dyn RCpu>,
    pub bus: SimBus,
    pub clk: SimClock,
    pub fl: Fl,
    pub any: bool,
}

pub fn make(fl: Fl, any: bool) -> Box<dyn RCpu> {
    if any {
        real_any(fl)
    } else {
        real(fl)
    }
}

impl Side {
    pub fn new(sc: &CpuSc) -> Side {
        let mut bus = SimBus::new(&sc.env);
        sc.mem.fill(&mut bus.mem);
        let mut cpu = make(sc.fl, sc.any);
        cpu.load(&sc.init);
        Side { cpu, bus, clk: SimClock::new(&sc.env, sc.start_ts), fl: sc.fl, any: sc.any }
    }
    pub fn fork(&self) -> Side {
        let mut clk = SimClock::new(&self.clk.env, self.clk.ts);
        clk.logging = self.clk.logging;
        Side { cpu: self.cpu.dup(), bus: self.bus.fork(), clk, fl: self.fl, any: self.any }
    }
    pub fn poke(&mut self, a: u16, v: &[u8]) {
        for (k, b) in v.iter().enumerate() {
            self.bus.mem[a.wrapping_add(k as u16) as usize] = *b;
        }
    }
    /// Operations that execute nothing. Returns false if it is not one of them.
    pub fn host_op(&mut self, op: &Op) -> bool {
        match op {
            Op::Reset => self.cpu.reset(),
            Op::Load(seed) => self.cpu.load(&rand_state(&mut Rng::new(*seed))),
            Op::Set(s) => self.cpu.load(s),
            Op::Api(a) => {
                self.cpu.api(a);
            }
            Op::Poke(a, v) => self.poke(*a, v),
            Op::Code(v) => {
                let pc = self.cpu.state().pc;
                self.poke(pc, v)
            }
            Op::Snap(how) => {
                let d = self.cpu.save(*how);
                let r = self.cpu.restore(*how, &d);
                if let Err(e) = r {
                    panic!("own snapshot refused: {}", e);
                }
            }
            Op::Conv(to) => {
                if self.any {
                    // converted through the static form
                    let s = self.cpu.state();
                    let _ = s;
                    self.cpu = crate::cpu::convert_any(&*self.cpu, *to);
                } else {
                    self.cpu = convert(&*self.cpu, self.fl, *to);
                }
                self.fl = *to;
            }
            _ => return false,
        }
        true
    }
    pub fn marks(&self) -> (usize, usize) {
        (self.clk.log.len(), self.bus.log.borrow().len())
    }
    pub fn clear_logs(&mut self) {
        self.clk.log.clear();
        self.bus.log.borrow_mut().clear();
        self.bus.dirty.clear();
    }
    pub fn end(&self, st: &mut Stats) {
        st.sim_ts += self.clk.ts;
        st.fault("contention_delays", self.clk.n_cont);
        st.fault("stalls", self.clk.n_stall);
        st.fault("wait_state_bursts", self.clk.n_wait);
        st.fault("break_requests", self.bus.brk_tokens.len() as u64);
        st.probe("interrupt_acknowledges", self.bus.n_ack);
        st.probe("io_reads", self.bus.n_in);
        st.probe("io_writes", self.bus.n_out);
        st.probe("reti", self.bus.n_reti);
    }
}

pub fn show_b(v: &[BEv]) -> String {
    let mut s = String::new();
    for e in v.iter().take(24) {
        s += &format!("{:x?} ", e);
    }
    if v.len() > 24 {
        s += "...";
    }
    s
}

/// First difference of two event lists.
pub fn first_diff<T: PartialEq + std::fmt::Debug + Copy>(a: &[T], b: &[T], eq: impl Fn(T, T) -> bool) -> Option<(usize, String)> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if eq(*x, *y) => {}
            (x, y) => return Some((i, format!("event {}: {:x?} vs {:x?}", i, x, y))),
        }
    }
    None
}

pub fn mem_diff(a: &[u8; 65536], b: &[u8; 65536]) -> Option<String> {
    if a[..] == b[..] {
        return None;
    }
    let i = (0..65536).find(|&i| a[i] != b[i]).unwrap();
    Some(format!("memory at {:04x}: {:02x} vs {:02x}", i, a[i], b[i]))
}

/// Feed the executed stream into the digest and the state coverage.
pub fn digest_side(s: &Side, st: &mut Stats) {
    let mut h = 0u64;
    for e in s.bus.log.borrow().iter() {
        let (k, a, ts, v) = match *e {
            BEv::Op { pc, ir, ts, v } => (1, pc as u64 | (ir as u64) << 16, ts, v),
            BEv::Rd { a, ts, v } => (2, a as u64, ts, v),
            BEv::Wr { a, ts, v } => (3, a as u64, ts, v),
            BEv::In { p, ts, v } => (4, p as u64, ts, v),
            BEv::Out { p, ts, v } => (5, p as u64, ts, v),
            BEv::Ack { pc, ts, v } => (6, pc as u64, ts, v),
            BEv::Reti { a, ts } => (7, a as u64, ts, 0),
        };
        if ts != NA {
            h = hash3(h, k << 56 | a << 8 | v as u64, ts);
        }
    }
    st.eat(h);
    let z = s.cpu.state();
    st.eat(hash3(z.af as u64 | (z.bc as u64) << 16 | (z.de as u64) << 32 | (z.hl as u64) << 48, z.pc as u64 | (z.sp as u64) << 16 | (z.wz as u64) << 32, z.r as u64));
    st.eat(hash2(s.clk.ts, s.bus.log.borrow().len() as u64));
}

// ---- minimisation ----

fn touched(sc: &CpuSc) -> Vec<(u16, u8)> {
    use std::collections::BTreeMap;
    let mut m: Box<[u8; 65536]> = vec![0u8; 65536].into_boxed_slice().try_into().unwrap();
    sc.mem.fill(&mut m);
    let mut acc: BTreeMap<u16, u8> = BTreeMap::new();
    let _ = crate::engine::guard(std::panic::AssertUnwindSafe(|| {
        let mut s = Side::new(sc);
        for op in &sc.ops {
            let pc = s.cpu.state().pc;
            for k in 0..4u16 {
                let a = pc.wrapping_add(k);
                acc.entry(a).or_insert(m[a as usize]);
            }
            exec_op(&mut s, op, &mut |_, _| {});
            let log = s.bus.log.borrow();
            for e in log.iter() {
                if let BEv::Op { pc: a, .. } | BEv::Rd { a, .. } = *e {
                    for k in 0..3u16 {
                        let a = a.wrapping_add(k);
                        acc.entry(a).or_insert(m[a as usize]);
                    }
                }
            }
            drop(log);
            s.clear_logs();
        }
    }));
    acc.into_iter().collect()
}

/// Execute an operation on one real machine (no judging); `f` is called after every
/// processor call with its result.
pub fn exec_op(s: &mut Side, op: &Op, f: &mut dyn FnMut(&Side, crate::model::Brk)) {
    use crate::model::Brk;
    match op {
        Op::Step(n) => {
            let mut halted = 0;
            for _ in 0..*n {
                let b = s.cpu.step(&mut s.bus, &mut s.clk);
                f(s, b);
                halted = if s.cpu.state().halt { halted + 1 } else { 0 };
                if halted > 3 {
                    break;
                }
            }
        }
        Op::Tick(n) => {
            let mut halted = 0;
            for _ in 0..*n {
                let l = s.clk.ts + 1;
                let b = s.cpu.limit(&mut s.bus, &mut s.clk, l);
                f(s, b);
                halted = if s.cpu.state().halt { halted + 1 } else { 0 };
                if halted > 3 {
                    break;
                }
            }
        }
        Op::Slice(n) => {
            let l = s.clk.ts + *n as u64;
            let b = s.cpu.limit(&mut s.bus, &mut s.clk, l);
            f(s, b);
        }
        Op::Nmi => {
            s.cpu.nmi(&mut s.bus, &mut s.clk);
            f(s, Brk::None);
        }
        Op::Irq => {
            let b = s.cpu.irq(&mut s.bus, &mut s.clk).unwrap_or(Brk::None);
            f(s, b);
        }
        Op::Exec(c) => {
            let b = s.cpu.exec(&mut s.bus, &mut s.clk, *c);
            f(s, b);
        }
        _ => {
            s.host_op(op);
        }
    }
}

/// Generic minimisation of a processor scenario.
pub fn shrink_sc(mut sc: CpuSc, test: &mut dyn FnMut(&CpuSc) -> bool) -> CpuSc {
    macro_rules! attempt {
        ($c:expr) => {{
            let c = $c;
            if c != sc && test(&c) {
                sc = c;
                true
            } else {
                false
            }
        }};
    }
    let p = min_prefix(&sc.ops, &mut |o| test(&CpuSc { ops: o.to_vec(), ..sc.clone() }));
    attempt!(CpuSc { ops: p, ..sc.clone() });
    for round in 0..3 {
        let ops = ddmin(sc.ops.clone(), &mut |o| test(&CpuSc { ops: o.to_vec(), ..sc.clone() }));
        attempt!(CpuSc { ops, ..sc.clone() });
        // faults off one at a time
        let d = Env::default();
        attempt!(CpuSc { env: Env { cont: 0, cont_max: 0, ..sc.env.clone() }, ..sc.clone() });
        attempt!(CpuSc { env: Env { stall: 0, stall_len: 0, ..sc.env.clone() }, ..sc.clone() });
        attempt!(CpuSc { env: Env { wait: 0, wait_max: 0, ..sc.env.clone() }, ..sc.clone() });
        attempt!(CpuSc { env: Env { line: Line::Off, ..sc.env.clone() }, ..sc.clone() });
        attempt!(CpuSc { env: Env { brk_wr: 0, ..sc.env.clone() }, ..sc.clone() });
        attempt!(CpuSc { env: Env { brk_reti: 0, ..sc.env.clone() }, ..sc.clone() });
        attempt!(CpuSc { env: Env { rom: None, ..sc.env.clone() }, ..sc.clone() });
        attempt!(CpuSc { env: Env { m1_bank: None, ..sc.env.clone() }, ..sc.clone() });
        attempt!(CpuSc { env: Env { io_const: Some(0), ..sc.env.clone() }, ..sc.clone() });
        attempt!(CpuSc { env: Env { cont_range: d.cont_range, ..sc.env.clone() }, ..sc.clone() });
        attempt!(CpuSc { any: false, ..sc.clone() });
        attempt!(CpuSc { start_ts: 0, ..sc.clone() });
        if let Line::Level(v) = sc.env.line.clone() {
            let w = ddmin(v, &mut |o| test(&CpuSc { env: Env { line: Line::Level(o.to_vec()), ..sc.env.clone() }, ..sc.clone() }));
            attempt!(CpuSc { env: Env { line: Line::Level(w), ..sc.env.clone() }, ..sc.clone() });
        }
        if let Line::Latched(v) = sc.env.line.clone() {
            let w = ddmin(v, &mut |o| test(&CpuSc { env: Env { line: Line::Latched(o.to_vec()), ..sc.env.clone() }, ..sc.clone() }));
            attempt!(CpuSc { env: Env { line: Line::Latched(w), ..sc.env.clone() }, ..sc.clone() });
        }
        // smaller operations
        for i in 0..sc.ops.len() {
            let mut cands: Vec<Op> = Vec::new();
            match &sc.ops[i] {
                Op::Step(n) | Op::Tick(n) => {
                    for m in [1, 2, *n / 2, n.saturating_sub(1)] {
                        if m >= 1 && m < *n {
                            cands.push(Op::Step(m));
                        }
                    }
                    if matches!(sc.ops[i], Op::Tick(_)) {
                        cands.push(Op::Step(*n));
                    }
                }
                Op::Slice(n) => {
                    for m in [1, *n / 4, *n / 2, n.saturating_sub(8), n.saturating_sub(1)] {
                        if m < *n {
                            cands.push(Op::Slice(m));
                        }
                    }
                }
                Op::Code(v) | Op::Poke(_, v) if v.len() > 1 => {
                    for cut in [1, v.len() / 2, v.len() - 1] {
                        let w = v[..cut].to_vec();
                        cands.push(match &sc.ops[i] {
                            Op::Poke(a, _) => Op::Poke(*a, w),
                            _ => Op::Code(w),
                        });
                    }
                }
                Op::Load(seed) => cands.push(Op::Set(Box::new(rand_state(&mut Rng::new(*seed))))),
                _ => {}
            }
            for c in cands {
                let mut ops = sc.ops.clone();
                ops[i] = c;
                if attempt!(CpuSc { ops, ..sc.clone() }) {
                    break;
                }
            }
        }
        // initial memory: only what is touched
        if sc.mem.mode != 0 && sc.mem.mode != 4 {
            let cells: Vec<(u16, Vec<u8>)> = touched(&sc).into_iter().map(|(a, b)| (a, vec![b])).collect();
            attempt!(CpuSc { mem: MemSpec { seed: 0, mode: 0, cells }, ..sc.clone() });
        }
        if sc.mem.mode == 0 {
            let cells = ddmin(sc.mem.cells.clone(), &mut |o| test(&CpuSc { mem: MemSpec { cells: o.to_vec(), ..sc.mem.clone() }, ..sc.clone() }));
            attempt!(CpuSc { mem: MemSpec { cells, ..sc.mem.clone() }, ..sc.clone() });
        }
        // registers towards the reset state
        let r = State::reset();
        let mut regs: Vec<(Option<usize>, State)> = vec![(None, sc.init)];
        for (i, o) in sc.ops.iter().enumerate() {
            if let Op::Set(s) = o {
                regs.push((Some(i), **s));
            }
        }
        for (at, s0) in regs {
            let mut cur = s0;
            macro_rules! field {
                ($($f:ident)*) => {$(
                    let mut c = cur;
                    c.$f = r.$f;
                    if c != cur {
                        let cand = match at {
                            None => CpuSc { init: c, ..sc.clone() },
                            Some(i) => {
                                let mut ops = sc.ops.clone();
                                ops[i] = Op::Set(Box::new(c));
                                CpuSc { ops, ..sc.clone() }
                            }
                        };
                        if test(&cand) {
                            sc = cand;
                            cur = c;
                        }
                    }
                )*};
            }
            field!(af bc de hl af_ bc_ de_ hl_ ix iy sp pc wz i r iff1 iff2 im halt);
            let _ = cur;
        }
        let _ = round;
    }
    sc
}
