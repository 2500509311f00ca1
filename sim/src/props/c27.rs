//! C27: no safe use panics, hangs or corrupts memory, whatever the host does.
use crate::cpu::{api_real, get_state, put_state, ApiOp};
use crate::cpusc::{gen_api, gen_instr, rand_state};
use crate::engine::*;
use crate::ensure;
use crate::miri;
use crate::model::Fl;
use crate::rng::{hash2, hash3, hash_bytes, Rng};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::num::{NonZeroU16, NonZeroU8};
use std::rc::Rc;
use z80emu::z80::{any::Z80Any, BM1, CMOS, NMOS};
use z80emu::{Clock, Cpu, CpuDebug, Io, Memory, Z80};

/// A host that keeps no promise: inconsistent data, glitching interrupts, breaks at any
/// output, time that jumps and runs backwards, and panics in its callbacks.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HostSpec {
    pub seed: u64,
    /// every read gives something else
    pub noise: bool,
    pub code: Vec<(u16, Vec<u8>)>,
    /// one query in `irq` finds the line active (0: never)
    pub irq: u64,
    pub brk: u64,
    pub wait: u64,
    pub jump: u64,
    pub start: u64,
    /// host calls that panic
    pub panics: Vec<u64>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum X {
    /// 0: no callback, 1: used, 2: panics
    Next(u8),
    Run(u16),
    Irq(u8),
    Nmi,
    Exec(u8, u8),
    Reset,
    Api(ApiOp),
    Load(u64),
    Conv(Fl),
    /// between the static and the run-time selected form
    Form,
    /// save, damage (position, bits), load: format, position, bits
    Store(u8, u16, u8),
    Compare,
    Disasm { pc: u16, bytes: Vec<u8>, fail: u8, how: u8 },
    Parse(u8, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub fl: Fl,
    pub any: bool,
    pub host: HostSpec,
    pub ops: Vec<X>,
    /// executed once more in the interpreter
    #[serde(default)]
    pub interp: bool,
}

const INJECTED: &str = "injected host panic";
const RUNAWAY: &str = "the call does not return";

struct Core {
    spec: HostSpec,
    calls: Cell<u64>,
    left: Cell<u64>,
    queries: Cell<u64>,
    n_panic: Cell<u64>,
    n_brk: Cell<u64>,
    n_irq: Cell<u64>,
    n_jump: Cell<u64>,
    n_wait: Cell<u64>,
    trace: Cell<u64>,
}
impl Core {
    fn call(&self, what: u8, a: u16, x: u64) -> u64 {
        self.trace.set(hash3(self.trace.get(), (what as u64) << 16 | a as u64, x));
        let n = self.calls.get() + 1;
        self.calls.set(n);
        if self.left.get() == 0 {
            panic!("{}", RUNAWAY);
        }
        self.left.set(self.left.get() - 1);
        if self.spec.panics.contains(&n) {
            self.n_panic.set(self.n_panic.get() + 1);
            panic!("{}", INJECTED);
        }
        n
    }
    fn one_in(&self, n: u64, tag: u64, k: u64, count: &Cell<u64>) -> Option<u64> {
        if n == 0 {
            return None;
        }
        let h = hash3(self.spec.seed, tag, k);
        if h % n == 0 {
            count.set(count.get() + 1);
            Some(h >> 20)
        } else {
            None
        }
    }
    fn wait(&self, k: u64) -> Option<NonZeroU16> {
        self.one_in(self.spec.wait, 3, k, &self.n_wait).and_then(|h| NonZeroU16::new(if h & 1 == 0 { h as u16 } else { h as u16 & 7 }))
    }
}

struct Host {
    c: Rc<Core>,
    mem: Vec<(u16, u8)>,
}
struct Time {
    c: Rc<Core>,
    ts: u64,
}
impl Host {
    fn byte(&self, a: u16, k: u64) -> u8 {
        if self.c.spec.noise {
            return hash3(self.c.spec.seed, a as u64, k) as u8;
        }
        if let Some(w) = self.mem.iter().rev().find(|w| w.0 == a) {
            return w.1;
        }
        for (at, v) in &self.c.spec.code {
            let o = a.wrapping_sub(*at) as usize;
            if o < v.len() {
                return v[o];
            }
        }
        hash2(self.c.spec.seed, a as u64) as u8
    }
}
impl Memory for Host {
    type Timestamp = u64;
    fn read_debug(&self, a: u16) -> u8 {
        let k = self.c.call(1, a, 0);
        self.byte(a, k)
    }
    fn read_mem(&self, a: u16, ts: u64) -> u8 {
        let k = self.c.call(2, a, ts);
        self.byte(a, k)
    }
    fn read_mem16(&self, a: u16, ts: u64) -> u16 {
        let k = self.c.call(3, a, ts);
        u16::from_le_bytes([self.byte(a, k), self.byte(a.wrapping_add(1), k)])
    }
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: u64) -> u8 {
        let k = self.c.call(4, pc, hash2(ir as u64, ts));
        self.byte(pc, k)
    }
    fn write_mem(&mut self, a: u16, v: u8, ts: u64) {
        self.c.call(5, a, hash2(v as u64, ts));
        if self.mem.len() < 24 {
            self.mem.push((a, v));
        } else {
            let n = self.mem.len();
            self.mem[a as usize % n] = (a, v);
        }
    }
}
impl Io for Host {
    type Timestamp = u64;
    type WrIoBreak = String;
    type RetiBreak = String;
    fn read_io(&mut self, p: u16, ts: u64) -> (u8, Option<NonZeroU16>) {
        let k = self.c.call(6, p, ts);
        (hash3(self.c.spec.seed, p as u64, k) as u8, self.c.wait(k))
    }
    fn write_io(&mut self, p: u16, v: u8, ts: u64) -> (Option<String>, Option<NonZeroU16>) {
        let k = self.c.call(7, p, hash2(v as u64, ts));
        let c = &self.c;
        (c.one_in(c.spec.brk, 5, k, &c.n_brk).map(|_| format!("out {:x} {:x}", p, v)), c.wait(k))
    }
    fn is_irq(&mut self, ts: u64) -> bool {
        let k = self.c.call(8, 0, ts);
        let c = &self.c;
        c.one_in(c.spec.irq, 7, k, &c.n_irq).is_some()
    }
    fn irq_data(&mut self, pc: u16, ts: u64) -> (u8, Option<NonZeroU16>) {
        let k = self.c.call(9, pc, ts);
        (hash2(self.c.spec.seed, k) as u8, self.c.wait(k))
    }
    fn reti(&mut self, a: u16, ts: u64) -> Option<String> {
        let k = self.c.call(10, a, ts);
        let c = &self.c;
        c.one_in(c.spec.brk, 9, k, &c.n_brk).map(|_| format!("reti {:x}", a))
    }
}
impl Time {
    fn add(&mut self, what: u8, a: u16, n: u64) -> u64 {
        let k = self.c.call(what, a, n);
        let t = self.ts;
        self.ts = self.ts.wrapping_add(n);
        if let Some(h) = self.c.one_in(self.c.spec.jump, 11, k, &self.c.n_jump) {
            self.ts = if h & 1 == 0 { self.ts.wrapping_add(h) } else { self.ts.wrapping_sub(h) };
        }
        t
    }
}
impl Clock for Time {
    type Limit = u64;
    type Timestamp = u64;
    fn is_past_limit(&self, limit: u64) -> bool {
        self.c.call(11, 0, limit);
        let q = self.c.queries.get();
        self.c.queries.set(q.saturating_sub(1));
        q == 0 || self.ts >= limit
    }
    fn add_irq(&mut self, a: u16) -> u64 {
        self.add(20, a, 6)
    }
    fn add_no_mreq(&mut self, a: u16, n: NonZeroU8) {
        self.add(21, a, n.get() as u64);
    }
    fn add_m1(&mut self, a: u16) -> u64 {
        self.add(22, a, 4)
    }
    fn add_mreq(&mut self, a: u16) -> u64 {
        self.add(23, a, 3)
    }
    fn add_io(&mut self, a: u16) -> u64 {
        self.add(24, a, 4)
    }
    fn add_wait_states(&mut self, a: u16, n: NonZeroU16) {
        self.add(25, a, n.get() as u64);
    }
    fn as_timestamp(&self) -> u64 {
        self.c.call(12, 0, 0);
        self.ts
    }
}

#[derive(Clone, PartialEq, Debug)]
enum P {
    N(Z80<NMOS>),
    C(Z80<CMOS>),
    B(Z80<BM1>),
    A(Z80Any),
}
macro_rules! with {
    ($p:expr, $c:ident => $e:expr) => {
        match $p {
            P::N($c) => $e,
            P::C($c) => $e,
            P::B($c) => $e,
            P::A($c) => $e,
        }
    };
}
fn make(fl: Fl, any: bool) -> P {
    match (fl, any) {
        (Fl::Nmos, false) => P::N(Z80::new()),
        (Fl::Cmos, false) => P::C(Z80::new()),
        (Fl::Bm1, false) => P::B(Z80::new()),
        (Fl::Nmos, true) => P::A(Z80Any::new_nmos()),
        (Fl::Cmos, true) => P::A(Z80Any::with_tag("cmos").expect("cmos")),
        (Fl::Bm1, true) => P::A(Z80Any::new_bm1()),
        (Fl::Custom, _) => unreachable!(),
    }
}

type Dbg<'a> = &'a mut dyn FnMut(CpuDebug);

fn text(d: &CpuDebug) -> u64 {
    let mut h = 0;
    let mut put = |s: String| h = hash2(h, hash_bytes(s.as_bytes()));
    match d.pc & 3 {
        0 => put(format!("{} {:?}", d, d)),
        1 => put(format!("{:x} {:#x}", d, d)),
        2 => put(format!("{:X} {:#X}", d, d)),
        _ => put(format!("{:+} {:12} {:#12x} {:<1X} {:.1} {:#X}", d.args, d.args, d.args, d.args, d.args, d.args)),
    }
    assert!(d.clone() == *d);
    h
}

/// A writer that fails when its space runs out.
struct Small(usize);
impl std::fmt::Write for Small {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        match self.0.checked_sub(s.len()) {
            Some(n) => {
                self.0 = n;
                Ok(())
            }
            None => Err(std::fmt::Error),
        }
    }
}

fn disasm<C: Cpu>(pc: u16, bytes: &[u8], fail: u8, how: u8) -> (u64, u64) {
    use z80emu::disasm::*;
    let mut n = 0u64;
    let mut h = 0;
    match how % 3 {
        0 => {
            let r = disasm_memory::<C, _, u8>(pc, bytes, |d| {
                n += 1;
                h = hash2(h, text(&d));
                if n == fail as u64 {
                    Err(fail)
                } else {
                    Ok(())
                }
            });
            h = hash2(h, r.is_ok() as u64);
        }
        1 => h = disasm_memory_once::<C>(pc, bytes).map_or(0, |d| text(&d)),
        _ => h = disasm_memory_write_text::<C, _>(pc, bytes, Small(fail as usize * 5)).is_ok() as u64,
    }
    (n, h)
}

#[cfg(not(feature = "saved"))]
fn store<C>(_: &C, _: u8, _: u16, _: u8) -> Option<C> {
    unreachable!()
}

#[cfg(feature = "saved")]
fn store<C: Serialize + serde::de::DeserializeOwned>(c: &C, fmt: u8, pos: u16, bits: u8) -> Option<C> {
    let hit = |mut v: Vec<u8>| {
        if bits != 0 && !v.is_empty() {
            let n = v.len();
            if pos & 0x8000 != 0 {
                v.truncate(pos as usize % n);
            } else {
                v[pos as usize % n] ^= bits;
            }
        }
        v
    };
    match fmt % 3 {
        0 => serde_json::from_slice(&hit(serde_json::to_vec(c).expect("serialize"))).ok(),
        1 => bincode::deserialize(&hit(bincode::serialize(c).expect("serialize"))).ok(),
        _ => serde_json::from_reader(&hit(serde_json::to_vec(c).expect("serialize"))[..]).ok(),
    }
}

fn parse(b: u8, s: &str) -> u64 {
    use z80emu::{Condition, CpuFlags, InterruptMode, Prefix, Reg16, Reg8, StkReg16};
    let mut h = b as u64;
    let mut t = |x: String| h = hash2(h, hash_bytes(x.as_bytes()));
    t(format!("{:?}", Reg8::try_from(b).map(|x| (x.to_code(), x.to_string()))));
    t(format!("{:?}", Prefix::try_from(b).map(|x| (u8::from(x), x.to_string()))));
    t(format!("{:?}", InterruptMode::try_from(b).map(u8::from)));
    t(format!("{} {} {}", StkReg16::from(b), Reg16::from_code(b), Condition::from(b)));
    t(format!("{} {:?}", Condition::from_jr_subset(b), Condition::from_code(b).is_satisfied(CpuFlags::from_bits_retain(s.len() as u8 ^ b))));
    t(format!("{:?} {:?}", s.parse::<Condition>(), Z80Any::with_tag(s).map(|x| x.to_string())));
    #[cfg(feature = "saved")]
    {
        t(format!("{:?}", serde_json::from_str::<Z80<NMOS>>(s).is_ok()));
        t(format!("{:?}", serde_json::from_str::<z80emu::RegisterPair>(s)));
    }
    let f = CpuFlags::from_bits_retain(b);
    t(format!("{:?} {} {} {}", f, f.sf(), f.pvf(), f.cf()));
    h
}

fn gen_text(rng: &mut Rng) -> String {
    let mut s: String = rng.pick(&["NMOS", "bm1", "Cmos", "PE", "", "null", "0x1234", "\"$ff\"", "\"0xfffff\"", "\"\u{17f}\u{212a}\"", "[1,2]", "[1,2,3]", "-32769", "1e9", "{\"af\":1}", "\"0x\"", "\"\u{e9}1\""]).to_string();
    if rng.chance(1, 3) {
        let n = rng.below(s.chars().count() as u64 + 1) as usize;
        s = s.chars().take(n).chain(std::iter::once(*rng.pick(&['0', 'x', '"', '\u{fffd}', '-', ' ', '\u{10000}']))).collect();
    }
    s
}

pub fn gen_sc(rng: &mut Rng) -> Sc {
    let one = |rng: &mut Rng, a: &[u64]| *rng.pick(a);
    let mut code = Vec::new();
    for _ in 0..1 + rng.below(3) {
        let mut v = Vec::new();
        for _ in 0..1 + rng.below(6) {
            v.extend(gen_instr(rng));
        }
        code.push((rng.corner16(), v));
    }
    let calm = rng.chance(1, 4);
    let mut panics = Vec::new();
    if !calm {
        let mut at = 0;
        for _ in 0..rng.below(4) {
            at += 1 + rng.below(60);
            panics.push(at);
        }
    }
    let host = HostSpec {
        seed: rng.u64(),
        noise: rng.chance(1, 4),
        irq: one(rng, &[0, 1, 2, 5, 20]),
        brk: one(rng, &[0, 1, 3]),
        wait: one(rng, &[0, 0, 1, 4]),
        jump: if calm { 0 } else { one(rng, &[0, 0, 3, 20]) },
        start: one(rng, &[0, u64::MAX - 20, 1 << 40]),
        panics,
        code,
    };
    let starts: Vec<u16> = host.code.iter().map(|c| c.0).collect();
    let mut ops = vec![X::Load(rng.u64()), X::Api(ApiOp::SetPc(*rng.pick(&starts)))];
    for _ in 0..4 + rng.below(20) {
        let d = *rng.pick(&[0u8, 0, 1, 1, 2]);
        ops.push(match rng.below(40) {
            0..=11 => X::Next(d),
            12..=16 => X::Run(1 + rng.below(12) as u16),
            17 => X::Irq(d),
            18 => X::Nmi,
            19..=21 => X::Exec(*rng.pick(&[0xCB, 0xDD, 0xED, 0xFD, 0x76, 0xFB, rng.clone().u8(), rng.clone().u8()]), d),
            22 => X::Reset,
            23..=26 => X::Api(gen_api(rng)),
            27 => X::Load(rng.u64()),
            28 => X::Conv(*rng.pick(&[Fl::Nmos, Fl::Cmos, Fl::Bm1])),
            29 => X::Form,
            30..=31 => X::Store(rng.u8(), rng.u16(), if rng.chance(1, 3) { 0 } else { 1 << rng.below(8) }),
            32 => X::Compare,
            33..=35 => {
                let mut bytes = Vec::new();
                for _ in 0..rng.below(6) {
                    bytes.extend(gen_instr(rng));
                }
                if rng.chance(1, 2) {
                    let n = rng.below(bytes.len() as u64 + 1) as usize;
                    bytes.truncate(n);
                }
                X::Disasm { pc: rng.corner16(), bytes, fail: rng.u8() % 8, how: rng.u8() }
            }
            36 => X::Parse(rng.u8(), gen_text(rng)),
            _ => X::Api(ApiOp::SetPc(*rng.pick(&starts))),
        });
    }
    Sc { fl: *rng.pick(&[Fl::Nmos, Fl::Cmos, Fl::Bm1]), any: rng.chance(1, 2), host, ops, interp: false }
}

/// One run in so many is executed once more in the interpreter.
const EVERY: u64 = 800;

pub struct C27;
impl Prop for C27 {
    const ID: &'static str = "C27";
    type Sc = Sc;
    fn gen(rng: &mut Rng, i: u64) -> Sc {
        Sc { interp: i % EVERY == EVERY / 2, ..gen_sc(rng) }
    }
    fn prepare() -> Result<(), String> {
        // without the interpreter the native runs still decide what they can
        if let Err(e) = miri::prepare(miri::SAME) {
            println!("no interpreter, its runs are left out: {}", e);
        }
        Ok(())
    }
    fn run(sc: &Sc, st: &mut Stats) -> Res {
        run_host(sc, st)?;
        if !sc.interp {
            return Ok(());
        }
        let text = serde_json::to_string(&Sc { interp: false, ..sc.clone() }).unwrap();
        match miri::ask(miri::SAME, Self::ID, "scenario", &text) {
            miri::Answer::Done(d, _, None) => {
                st.probe("miri_runs", 1);
                ensure!(d == st.digest, "interpreter", "the interpreted run differs from the compiled one: {:016x} and {:016x}", d, st.digest);
                Ok(())
            }
            miri::Answer::Done(_, _, Some((k, m))) => fail(&k, format!("interpreted: {}", m)),
            miri::Answer::Undefined(m) => fail("undefined-behaviour", m),
            miri::Answer::Lost(_) => {
                st.probe("miri_runs_lost", 1);
                Ok(())
            }
        }
    }
    fn shrink(sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
        shrink_host(sc, test)
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 400_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run is a seeded sequence of any operations of the interface against a host that keeps no promise (inconsistent data, glitching interrupts, breaks, time jumping back and forth, panics inside host calls and callbacks, damaged snapshots, failing receivers), with a bound on the host calls of every operation; some runs are repeated in an interpreter that detects undefined behaviour (miri_runs); non-trivial = the host was called; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (operation, unwound or not, halted, EI shadow, prefix, mode, host calls so far up to 500), hashed into a bitmap"
    }
    fn real() -> &'static [&'static str] {
        &["z80emu::Z80<NMOS|CMOS|BM1>", "z80emu::Z80Any", "z80emu::disasm", "z80emu::cpu parse and debug", "z80emu serde"]
    }
    fn stub() -> &'static [&'static str] {
        &["clock, memory, devices and callbacks of the host"]
    }
    fn assumptions() -> &'static [&'static str] {
        &[
            "a panic raised by the host itself may pass through; afterwards the processor only has to stay usable",
            "undefined behaviour is what Miri detects, in the runs it interprets",
        ]
    }
}

/// One run against the careless host.
pub fn run_host(sc: &Sc, st: &mut Stats) -> Res {
let core = Rc::new(Core {
    spec: sc.host.clone(),
    calls: Cell::new(0),
    left: Cell::new(0),
    queries: Cell::new(0),
    n_panic: Cell::new(0),
    n_brk: Cell::new(0),
    n_irq: Cell::new(0),
    n_jump: Cell::new(0),
    n_wait: Cell::new(0),
    trace: Cell::new(0),
});
let mut host = Host { c: core.clone(), mem: Vec::new() };
let mut time = Time { c: core.clone(), ts: sc.host.start };
let mut cpu = make(sc.fl, sc.any);
let mut fl = sc.fl;
for (i, op) in sc.ops.iter().enumerate() {
    core.left.set(match op {
        X::Run(n) => 120 * (*n as u64 + 2),
        _ => 120,
    });
    core.queries.set(match op {
        X::Run(n) => *n as u64,
        _ => 0,
    });
    let mut h = 0u64;
    let mut thrown = 0u64;
    let r = guard(|| {
        let mut used = |d: CpuDebug| h = hash2(h, text(&d));
        let mut throws = |_: CpuDebug| {
            thrown += 1;
            panic!("{}", INJECTED)
        };
        let dbg: Option<Dbg> = match op {
            X::Next(1) | X::Irq(1) | X::Exec(_, 1) => Some(&mut used),
            X::Next(2) | X::Irq(2) | X::Exec(_, 2) => Some(&mut throws),
            _ => None,
        };
        match op {
            X::Next(_) => with!(&mut cpu, c => format!("{:?}", c.execute_next(&mut host, &mut time, dbg))),
            X::Exec(code, _) => with!(&mut cpu, c => format!("{:?}", c.execute_instruction(&mut host, &mut time, dbg, *code))),
            X::Irq(_) => with!(&mut cpu, c => format!("{:?}", c.irq(&mut host, &mut time, dbg))),
            X::Nmi => with!(&mut cpu, c => format!("{:?}", c.nmi(&mut host, &mut time))),
            X::Run(_) => with!(&mut cpu, c => format!("{:?}", c.execute_with_limit(&mut host, &mut time, u64::MAX))),
            X::Reset => {
                with!(&mut cpu, c => c.reset());
                String::new()
            }
            X::Api(a) => with!(&mut cpu, c => format!("{:x}", api_real(c, a))),
            X::Load(s) => {
                with!(&mut cpu, c => put_state(c, &rand_state(&mut Rng::new(*s))));
                String::new()
            }
            X::Conv(to) => {
                macro_rules! conv {
                    ($c:expr) => {
                        match to {
                            Fl::Nmos => P::N($c.into_flavour()),
                            Fl::Cmos => P::C($c.into_flavour()),
                            Fl::Bm1 => P::B($c.into_flavour()),
                            Fl::Custom => unreachable!(),
                        }
                    };
                }
                fl = *to;
                cpu = match cpu.clone() {
                    P::N(c) => conv!(c),
                    P::C(c) => conv!(c),
                    P::B(c) => conv!(c),
                    P::A(c) => P::A(match to {
                        Fl::Nmos => c.into_nmos(),
                        Fl::Cmos => c.into_cmos(),
                        Fl::Bm1 => c.into_bm1(),
                        Fl::Custom => unreachable!(),
                    }),
                };
                String::new()
            }
            X::Form => {
                cpu = match cpu.clone() {
                    P::N(c) => P::A(c.into()),
                    P::C(c) => P::A(c.into()),
                    P::B(c) => P::A(c.into()),
                    P::A(c) => match fl {
                        Fl::Nmos => P::N(c.unwrap_nmos()),
                        Fl::Cmos => P::C(c.unwrap_cmos()),
                        Fl::Bm1 => P::B(c.unwrap_bm1()),
                        Fl::Custom => unreachable!(),
                    },
                };
                String::new()
            }
            X::Store(f, pos, bits) => {
                let was = cpu.clone();
                let ok = match &mut cpu {
                    P::N(c) => store(c, *f, *pos, *bits).map(|x| *c = x).is_some(),
                    P::C(c) => store(c, *f, *pos, *bits).map(|x| *c = x).is_some(),
                    P::B(c) => store(c, *f, *pos, *bits).map(|x| *c = x).is_some(),
                    P::A(c) => match store(c, *f, *pos, *bits) {
                        // a damaged name of the variant may name another one
                        Some(x) if x.tag() == c.tag() => {
                            *c = x;
                            true
                        }
                        _ => *bits != 0,
                    },
                };
                let _ = was;
                assert!(ok || *bits != 0, "an undamaged snapshot was refused");
                format!("{}", ok)
            }
            X::Compare => {
                let o = cpu.clone();
                assert!(o == cpu, "a clone is unequal");
                with!(&cpu, c => hash_bytes(format!("{:?}", c).as_bytes())).to_string()
            }
            X::Disasm { pc, bytes, fail, how } => {
                let (n, t) = match &cpu {
                    P::N(_) => disasm::<Z80<NMOS>>(*pc, bytes, *fail, *how),
                    P::C(_) => disasm::<Z80<CMOS>>(*pc, bytes, *fail, *how),
                    P::B(_) => disasm::<Z80<BM1>>(*pc, bytes, *fail, *how),
                    P::A(_) => disasm::<Z80Any>(*pc, bytes, *fail, *how),
                };
                format!("{} {:x}", n, t)
            }
            X::Parse(b, s) => format!("{:x}", parse(*b, s)),
        }
    });
    st.steps += 1;
    st.fault("callback_panics", thrown);
    let unwound = match r {
        Ok(s) => {
            h = hash2(h, hash_bytes(s.as_bytes()));
            false
        }
        Err(m) if m.contains(INJECTED) => true,
        Err(m) if m.contains(RUNAWAY) => return fail("hang", format!("op {} {:?}: the call does not return: it used the host more than {} times", i, op, core.calls.get())),
        Err(m) => return fail("panic", format!("op {} {:?} panicked: {}", i, op, m)),
    };
    // whatever happened, the processor can be looked at and used
    let z = match guard(|| with!(&cpu, c => get_state(c))) {
        Ok(z) => z,
        Err(m) => return fail("panic", format!("op {} {:?}: the processor cannot be read afterwards: {}", i, op, m)),
    };
    ensure!(z.im <= 2, "state", "op {}: invalid mode", i);
    let (h, saved) = match op {
        #[cfg(feature = "saved")]
        X::Store(..) => (h, hash_bytes(&with!(&cpu, c => [serde_json::to_vec(c).expect("save"), bincode::serialize(c).expect("save")].concat()))),
        _ => (h, 0),
    };
    st.eat(hash3(h, unwound as u64, core.trace.get()));
    let w = |a: u16, b: u16, c: u16, d: u16| a as u64 | (b as u64) << 16 | (c as u64) << 32 | (d as u64) << 48;
    let flags = [z.iff1, z.iff2, z.halt, z.ei].iter().fold(z.im as u64 | (z.prefix as u64) << 8 | (z.i as u64) << 16 | (z.r as u64) << 24, |h, b| h << 1 | *b as u64);
    st.eat(hash3(hash3(w(z.af, z.bc, z.de, z.hl), w(z.af_, z.bc_, z.de_, z.hl_), w(z.ix, z.iy, z.sp, z.pc)), hash3(flags, z.wz as u64, time.ts), saved));
    st.cover(hash3(unwound as u64, hash_bytes(format!("{:?}", std::mem::discriminant(op)).as_bytes()), (z.halt as u64) | (z.ei as u64) << 1 | (z.prefix as u64) << 2 | (z.im as u64) << 11 | core.calls.get().min(500) << 16));
}
st.fault("host_panics", core.n_panic.get());
st.fault("break_requests", core.n_brk.get());
st.fault("irq_glitches", core.n_irq.get());
st.fault("clock_jumps", core.n_jump.get());
st.fault("wait_states", core.n_wait.get());
st.probe("host_calls", core.calls.get());
st.fault("damaged_snapshots", sc.ops.iter().filter(|o| matches!(o, X::Store(_, _, b) if *b != 0)).count() as u64);
st.fault("failing_receivers", sc.ops.iter().filter(|o| matches!(o, X::Disasm { .. })).count() as u64);
st.sim_ts += time.ts.wrapping_sub(sc.host.start).min(1 << 20);
st.nontrivial = core.calls.get() > 0;
Ok(())
}

pub fn shrink_host(mut sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
    sc.ops = ddmin(sc.ops.clone(), &mut |o| test(&Sc { ops: o.to_vec(), ..sc.clone() }));
    sc.host.panics = ddmin(sc.host.panics.clone(), &mut |o| test(&Sc { host: HostSpec { panics: o.to_vec(), ..sc.host.clone() }, ..sc.clone() }));
    sc.host.code = ddmin(sc.host.code.clone(), &mut |o| test(&Sc { host: HostSpec { code: o.to_vec(), ..sc.host.clone() }, ..sc.clone() }));
    for k in 0..6 {
        let mut t = sc.clone();
        match k {
            0 => t.host.irq = 0,
            1 => t.host.brk = 0,
            2 => t.host.wait = 0,
            3 => t.host.jump = 0,
            4 => t.host.noise = false,
            _ => t.any = false,
        }
        if test(&t) {
            sc = t;
        }
    }
    sc
}
