//! C14: the stock cycle counter, the forwarding helpers and the default host methods.
use crate::cpu::*;
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::model::Brk;
use crate::rng::{hash2, hash3, Rng};
use crate::sim::{BEv, Line, SimBus};
use std::cell::{Cell, RefCell};
use std::num::{NonZeroU16, NonZeroU8, Wrapping};
use z80emu::host::TsCounter;
use z80emu::*;

pub struct C14;

/// Counter widths.
pub trait Ts: Copy + PartialOrd + std::fmt::Debug + 'static {
    const MAX: u128;
    const BITS: u32;
    fn trunc(v: u128) -> Self;
    fn bits(self) -> u128;
}
macro_rules! ts {
    ($($t:ty)*) => {$(
        impl Ts for $t {
            const MAX: u128 = <$t>::MAX as u128;
            const BITS: u32 = <$t>::BITS;
            fn trunc(v: u128) -> $t { v as $t }
            fn bits(self) -> u128 { if <$t>::BITS == 128 { self as u128 } else { self as u128 & ((1u128 << (<$t>::BITS & 127)) - 1) } }
        }
    )*};
}
ts!(u16 i32 u32 i64 u64 usize i128 u128);

/// Every counter behind one type, so that the processor is compiled once. Times and
/// limits are the counter's bits.
#[derive(Clone)]
enum Ctr {
    /// the documented clock over unbounded time, limits compared at a given width
    Ref(u128, Kind),
    U16(TsCounter<u16>),
    I32(TsCounter<i32>),
    U32(TsCounter<u32>),
    I64(TsCounter<i64>),
    U64(TsCounter<u64>),
    Us(TsCounter<usize>),
    I128(TsCounter<i128>),
    U128(TsCounter<u128>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    U16,
    I32,
    U32,
    I64,
    U64,
    Us,
    I128,
    U128,
}
const KINDS: [Kind; 8] = [Kind::U16, Kind::I32, Kind::U32, Kind::I64, Kind::U64, Kind::Us, Kind::I128, Kind::U128];

macro_rules! by_kind {
    ($k:expr, $t:ident => $e:expr) => {
        match $k {
            Kind::U16 => { type $t = u16; $e }
            Kind::I32 => { type $t = i32; $e }
            Kind::U32 => { type $t = u32; $e }
            Kind::I64 => { type $t = i64; $e }
            Kind::U64 => { type $t = u64; $e }
            Kind::Us => { type $t = usize; $e }
            Kind::I128 => { type $t = i128; $e }
            Kind::U128 => { type $t = u128; $e }
        }
    };
}
impl Kind {
    fn max(self) -> u128 {
        by_kind!(self, T => <T as Ts>::MAX)
    }
    fn width(self) -> u32 {
        by_kind!(self, T => <T as Ts>::BITS)
    }
    /// truncated to this width, as bits
    fn trunc(self, v: u128) -> u128 {
        by_kind!(self, T => <T as Ts>::trunc(v).bits())
    }
    fn ge(self, a: u128, b: u128) -> bool {
        by_kind!(self, T => <T as Ts>::trunc(a) >= <T as Ts>::trunc(b))
    }
}
macro_rules! real_ctr {
    ($self:expr, $c:ident => $e:expr, ($ts:ident, $k:ident) => $r:expr) => {
        match $self {
            Ctr::Ref($ts, $k) => $r,
            Ctr::U16($c) => $e,
            Ctr::I32($c) => $e,
            Ctr::U32($c) => $e,
            Ctr::I64($c) => $e,
            Ctr::U64($c) => $e,
            Ctr::Us($c) => $e,
            Ctr::I128($c) => $e,
            Ctr::U128($c) => $e,
        }
    };
}
impl Ctr {
    fn new(k: Kind, at: u128) -> Ctr {
        match k {
            Kind::U16 => Ctr::U16(TsCounter::from(u16::trunc(at))),
            Kind::I32 => Ctr::I32(TsCounter(Wrapping(i32::trunc(at)))),
            Kind::U32 => Ctr::U32(TsCounter::from(Wrapping(u32::trunc(at)))),
            Kind::I64 => Ctr::I64(TsCounter::from(i64::trunc(at))),
            Kind::U64 => Ctr::U64(TsCounter::from(u64::trunc(at))),
            Kind::Us => Ctr::Us(TsCounter::from(usize::trunc(at))),
            Kind::I128 => Ctr::I128(TsCounter::from(i128::trunc(at))),
            Kind::U128 => Ctr::U128(TsCounter::from(u128::trunc(at))),
        }
    }
    #[cfg(not(feature = "saved"))]
    fn stored(&self) -> Result<Ctr, String> {
        Ok(self.clone())
    }
    /// Stored and loaded again.
    #[cfg(feature = "saved")]
    fn stored(&self) -> Result<Ctr, String> {
        macro_rules! go {
            ($($v:ident)*) => {
                match self {
                    $(Ctr::$v(c) => {
                        let a: Ctr = Ctr::$v(serde_json::from_str(&serde_json::to_string(c).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?);
                        let b: Ctr = Ctr::$v(bincode::deserialize(&bincode::serialize(c).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?);
                        if a.as_timestamp() != b.as_timestamp() {
                            return Err("formats disagree".into());
                        }
                        Ok(a)
                    })*
                    r => Ok(r.clone()),
                }
            };
        }
        go!(U16 I32 U32 I64 U64 Us I128 U128)
    }
}
impl Clock for Ctr {
    type Limit = u128;
    type Timestamp = u128;
    fn is_past_limit(&self, limit: u128) -> bool {
        fn real<T: Ts, C: Clock<Limit = T>>(c: &C, l: u128) -> bool {
            c.is_past_limit(T::trunc(l))
        }
        real_ctr!(self, c => real(c, limit), (ts, k) => k.ge(*ts, limit))
    }
    fn add_irq(&mut self, a: u16) -> u128 {
        real_ctr!(self, c => c.add_irq(a).bits(), (ts, k) => { *ts = ts.wrapping_add(6); k.trunc(ts.wrapping_sub(4)) })
    }
    fn add_no_mreq(&mut self, a: u16, n: NonZeroU8) {
        real_ctr!(self, c => c.add_no_mreq(a, n), (ts, _k) => *ts = ts.wrapping_add(n.get() as u128))
    }
    fn add_m1(&mut self, a: u16) -> u128 {
        real_ctr!(self, c => c.add_m1(a).bits(), (ts, k) => { *ts = ts.wrapping_add(4); k.trunc(*ts) })
    }
    fn add_mreq(&mut self, a: u16) -> u128 {
        real_ctr!(self, c => c.add_mreq(a).bits(), (ts, k) => { *ts = ts.wrapping_add(3); k.trunc(*ts) })
    }
    fn add_io(&mut self, a: u16) -> u128 {
        real_ctr!(self, c => c.add_io(a).bits(), (ts, k) => { *ts = ts.wrapping_add(4); k.trunc(ts.wrapping_sub(3)) })
    }
    fn add_wait_states(&mut self, a: u16, n: NonZeroU16) {
        real_ctr!(self, c => c.add_wait_states(a, n), (ts, _k) => *ts = ts.wrapping_add(n.get() as u128))
    }
    fn as_timestamp(&self) -> u128 {
        real_ctr!(self, c => c.as_timestamp().bits(), (ts, k) => k.trunc(*ts))
    }
}

/// A bus with timestamps of type T around the simulated one.
struct TBus {
    b: SimBus,
    stamps: RefCell<Vec<u128>>,
    dbg: Cell<u64>,
}
impl TBus {
    fn new(b: SimBus) -> Self {
        TBus { b, stamps: Default::default(), dbg: Cell::new(0) }
    }
    fn s(&self, ts: u128) -> u64 {
        self.stamps.borrow_mut().push(ts);
        0
    }
}
impl Io for TBus {
    type Timestamp = u128;
    type WrIoBreak = u32;
    type RetiBreak = u32;
    fn read_io(&mut self, p: u16, ts: u128) -> (u8, Option<NonZeroU16>) {
        let t = self.s(ts);
        self.b.read_io(p, t)
    }
    fn write_io(&mut self, p: u16, v: u8, ts: u128) -> (Option<u32>, Option<NonZeroU16>) {
        let t = self.s(ts);
        self.b.write_io(p, v, t)
    }
    fn is_irq(&mut self, ts: u128) -> bool {
        let t = self.s(ts);
        self.b.is_irq(t)
    }
    fn irq_data(&mut self, pc: u16, ts: u128) -> (u8, Option<NonZeroU16>) {
        let t = self.s(ts);
        self.b.irq_data(pc, t)
    }
    fn reti(&mut self, a: u16, ts: u128) -> Option<u32> {
        let t = self.s(ts);
        self.b.do_reti(a, t)
    }
}
impl Memory for TBus {
    type Timestamp = u128;
    fn read_mem(&self, a: u16, ts: u128) -> u8 {
        self.b.rd(a, self.s(ts))
    }
    fn read_mem16(&self, a: u16, ts: u128) -> u16 {
        let t = self.s(ts);
        self.b.read_mem16(a, t)
    }
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: u128) -> u8 {
        let t = self.s(ts);
        self.b.op(pc, ir, t)
    }
    fn write_mem(&mut self, a: u16, v: u8, ts: u128) {
        let t = self.s(ts);
        self.b.wr(a, v, t)
    }
    fn read_debug(&self, a: u16) -> u8 {
        self.dbg.set(self.dbg.get() + 1);
        self.b.mem[a as usize] ^ 0 // what a debugger sees
    }
}

// ---- hosts that implement any subset of the operations ----

/// Every way of reading the memory gives different data.
#[derive(Clone)]
struct MBase {
    mem: Box<[u8; 65536]>,
}
impl Memory for MBase {
    type Timestamp = u128;
    fn read_mem(&self, a: u16, ts: u128) -> u8 {
        self.mem[a as usize] ^ 0x11 ^ (ts as u8 & 1)
    }
    fn read_mem16(&self, a: u16, _: u128) -> u16 {
        u16::from_le_bytes([self.mem[a as usize] ^ 0x22, self.mem[a.wrapping_add(1) as usize] ^ 0x33])
    }
    fn read_opcode(&mut self, pc: u16, ir: u16, _: u128) -> u8 {
        self.mem[pc as usize] ^ (ir as u8 & 4)
    }
    fn write_mem(&mut self, a: u16, v: u8, _: u128) {
        self.mem[a as usize] = v
    }
    fn read_debug(&self, a: u16) -> u8 {
        self.mem[a as usize]
    }
}
#[derive(Clone)]
struct IBase {
    seed: u64,
    n: u64,
}
impl IBase {
    fn next(&mut self, a: u16) -> (u64, Option<NonZeroU16>) {
        self.n += 1;
        let h = hash3(self.seed, self.n, a as u64);
        (h, if h & 3 == 0 { NonZeroU16::new(h as u16 >> 12) } else { None })
    }
}
impl Io for IBase {
    type Timestamp = u128;
    type WrIoBreak = u32;
    type RetiBreak = u32;
    fn read_io(&mut self, p: u16, _: u128) -> (u8, Option<NonZeroU16>) {
        let (h, w) = self.next(p);
        ((h >> 40) as u8, w)
    }
    fn write_io(&mut self, p: u16, v: u8, _: u128) -> (Option<u32>, Option<NonZeroU16>) {
        let (h, w) = self.next(p);
        (if h >> 40 & 7 == 0 { Some(v as u32) } else { None }, w)
    }
    fn is_irq(&mut self, _: u128) -> bool {
        self.next(1).0 >> 40 & 15 == 0
    }
    fn irq_data(&mut self, pc: u16, _: u128) -> (u8, Option<NonZeroU16>) {
        let (h, w) = self.next(pc);
        ((h >> 40) as u8, w)
    }
    fn reti(&mut self, a: u16, _: u128) -> Option<u32> {
        if self.next(a).0 >> 40 & 3 == 0 {
            Some(a as u32)
        } else {
            None
        }
    }
}

type DM = Box<dyn Memory<Timestamp = u128>>;
type DI = Box<dyn Io<Timestamp = u128, WrIoBreak = u32, RetiBreak = u32>>;

macro_rules! subsets {
    ($mac:ident $v:ident [$($done:ident)*]) => { $mac!($v $($done)*) };
    ($mac:ident $v:ident [$($done:ident)*] $h:ident $($t:ident)*) => {
        subsets!($mac $v [$($done)*] $($t)*);
        subsets!($mac $v [$($done)* $h] $($t)*);
    };
}
macro_rules! part_mem {
    ($v:ident $($f:ident)*) => {{
        struct P(MBase);
        impl Memory for P {
            type Timestamp = u128;
            forward_host_memory_methods! { ($($f)*) => |p| p.0 }
        }
        fn make(b: MBase) -> DM {
            Box::new(P(b))
        }
        $v.push((&[$(stringify!($f)),*], make));
    }};
}
macro_rules! part_io {
    ($v:ident $($f:ident)*) => {{
        struct P(IBase);
        impl Io for P {
            type Timestamp = u128;
            type WrIoBreak = u32;
            type RetiBreak = u32;
            forward_host_io_methods! { ($($f)*) => |p| p.0 }
        }
        fn make(b: IBase) -> DI {
            Box::new(P(b))
        }
        $v.push((&[$(stringify!($f)),*], make));
    }};
}
type PartMem = (&'static [&'static str], fn(MBase) -> DM);
type PartIo = (&'static [&'static str], fn(IBase) -> DI);
fn parts_mem() -> Vec<PartMem> {
    let mut v: Vec<PartMem> = Vec::new();
    subsets!(part_mem v [] read_mem read_mem16 read_opcode write_mem read_debug);
    v
}
fn parts_io() -> Vec<PartIo> {
    let mut v: Vec<PartIo> = Vec::new();
    subsets!(part_io v [] read_io write_io is_irq irq_data reti);
    v
}

/// The documented behaviour of a host with only the operations listed.
struct DocMem(MBase, &'static [&'static str]);
impl Memory for DocMem {
    type Timestamp = u128;
    fn read_mem(&self, a: u16, ts: u128) -> u8 {
        if self.1.contains(&"read_mem") {
            self.0.read_mem(a, ts)
        } else {
            self.read_debug(a)
        }
    }
    fn read_mem16(&self, a: u16, ts: u128) -> u16 {
        if self.1.contains(&"read_mem16") {
            self.0.read_mem16(a, ts)
        } else {
            self.read_debug(a) as u16 | (self.read_debug(a.wrapping_add(1)) as u16) << 8
        }
    }
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: u128) -> u8 {
        if self.1.contains(&"read_opcode") {
            self.0.read_opcode(pc, ir, ts)
        } else {
            self.read_debug(pc)
        }
    }
    fn write_mem(&mut self, a: u16, v: u8, ts: u128) {
        if self.1.contains(&"write_mem") {
            self.0.write_mem(a, v, ts)
        }
    }
    fn read_debug(&self, a: u16) -> u8 {
        if self.1.contains(&"read_debug") {
            self.0.read_debug(a)
        } else {
            0xFF
        }
    }
}
struct DocIo(IBase, &'static [&'static str]);
impl Io for DocIo {
    type Timestamp = u128;
    type WrIoBreak = u32;
    type RetiBreak = u32;
    fn read_io(&mut self, p: u16, ts: u128) -> (u8, Option<NonZeroU16>) {
        if self.1.contains(&"read_io") {
            self.0.read_io(p, ts)
        } else {
            (0xFF, None)
        }
    }
    fn write_io(&mut self, p: u16, v: u8, ts: u128) -> (Option<u32>, Option<NonZeroU16>) {
        if self.1.contains(&"write_io") {
            self.0.write_io(p, v, ts)
        } else {
            (None, None)
        }
    }
    fn is_irq(&mut self, ts: u128) -> bool {
        self.1.contains(&"is_irq") && self.0.is_irq(ts)
    }
    fn irq_data(&mut self, pc: u16, ts: u128) -> (u8, Option<NonZeroU16>) {
        if self.1.contains(&"irq_data") {
            self.0.irq_data(pc, ts)
        } else {
            (0xFF, None)
        }
    }
    fn reti(&mut self, a: u16, ts: u128) -> Option<u32> {
        if self.1.contains(&"reti") {
            self.0.reti(a, ts)
        } else {
            None
        }
    }
}

/// A computer put together from parts.
struct Parts {
    m: DM,
    io: DI,
}
impl Memory for Parts {
    type Timestamp = u128;
    fn read_mem(&self, a: u16, ts: u128) -> u8 {
        self.m.read_mem(a, ts)
    }
    fn read_mem16(&self, a: u16, ts: u128) -> u16 {
        self.m.read_mem16(a, ts)
    }
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: u128) -> u8 {
        self.m.read_opcode(pc, ir, ts)
    }
    fn write_mem(&mut self, a: u16, v: u8, ts: u128) {
        self.m.write_mem(a, v, ts)
    }
    fn read_debug(&self, a: u16) -> u8 {
        self.m.read_debug(a)
    }
}
impl Io for Parts {
    type Timestamp = u128;
    type WrIoBreak = u32;
    type RetiBreak = u32;
    fn read_io(&mut self, p: u16, ts: u128) -> (u8, Option<NonZeroU16>) {
        self.io.read_io(p, ts)
    }
    fn write_io(&mut self, p: u16, v: u8, ts: u128) -> (Option<u32>, Option<NonZeroU16>) {
        self.io.write_io(p, v, ts)
    }
    fn is_irq(&mut self, ts: u128) -> bool {
        self.io.is_irq(ts)
    }
    fn irq_data(&mut self, pc: u16, ts: u128) -> (u8, Option<NonZeroU16>) {
        self.io.irq_data(pc, ts)
    }
    fn reti(&mut self, a: u16, ts: u128) -> Option<u32> {
        self.io.reti(a, ts)
    }
}

// ---- wrappers made with the supplied helpers, in every documented form ----
struct WAll<B>(B);
impl<B: Io> Io for WAll<B> {
    forward_host_io_types! { @ => B }
    forward_host_io_methods! { @ => |b| b.0 }
}
impl<B: Memory> Memory for WAll<B> {
    forward_host_memory_types! { @ => B }
    forward_host_memory_methods! { @ => |b| b.0 }
}
impl<C: Clock> Clock for WAll<C> {
    forward_host_clock_types! { @ => C }
    forward_host_clock_methods! { @ => |c| c.0 }
}

struct WSplit<B>(B);
impl<B> WSplit<B> {
    fn r(&self) -> &B {
        &self.0
    }
    fn m(&mut self) -> &mut B {
        &mut self.0
    }
}
impl<B: Io> Io for WSplit<B> {
    type Timestamp = <B as Io>::Timestamp;
    forward_host_io_types! { (WrIoBreak RetiBreak) => B }
    forward_host_io_methods! { (write_io, read_io, is_irq, reti) => |me| me.m() }
    forward_host_io_methods! { irq_data => |me| me.m() }
}
impl<B: Memory> Memory for WSplit<B> {
    forward_host_memory_types! { Timestamp => B }
    forward_host_memory_methods! { @ref => |me| me.r() }
    forward_host_memory_methods! { @mut => |me| me.m() }
}
impl<C: Clock> Clock for WSplit<C> {
    forward_host_clock_types! { (Limit Timestamp) => C }
    forward_host_clock_methods! { @ref => |me| me.r() }
    forward_host_clock_methods! { @mut => |me| me.m() }
}

struct WList<B> {
    inner: Vec<B>,
}
impl<B: Io> Io for WList<B> {
    forward_host_io_types! { (Timestamp, RetiBreak) => B }
    forward_host_io_types! { WrIoBreak => B }
    forward_host_io_methods! { (reti irq_data) => |w| w.inner[0] }
    forward_host_io_methods! { (is_irq read_io write_io) => |w| w.inner[0] }
}
impl<B: Memory> Memory for WList<B> {
    forward_host_memory_types! { (Timestamp) => B }
    forward_host_memory_methods! { (read_opcode write_mem) => |w| w.inner[0] }
    forward_host_memory_methods! { (read_mem, read_mem16) => |w| w.inner[0] }
    forward_host_memory_methods! { read_debug => |w| w.inner[0] }
}
impl<C: Clock> Clock for WList<C> {
    forward_host_clock_types! { (Limit, Timestamp) => C }
    forward_host_clock_methods! { (add_wait_states, add_io, add_mreq, add_irq) => |w| w.inner[0] }
    forward_host_clock_methods! { (add_m1 add_no_mreq) => |w| w.inner[0] }
    forward_host_clock_methods! { is_past_limit => |w| w.inner[0] }
    forward_host_clock_methods! { as_timestamp => |w| w.inner[0] }
}

#[derive(Clone, Copy)]
enum Do {
    Step,
    Limit(u128),
    Nmi,
    Irq,
    Exec(u8),
}

fn drive<M, C>(cpu: &mut Z80NMOS, m: &mut M, c: &mut C, what: Do) -> (Brk, String)
where
    C: Clock<Limit = u128, Timestamp = u128>,
    M: Memory<Timestamp = u128> + Io<Timestamp = u128, WrIoBreak = u32, RetiBreak = u32>,
{
    let mut out = String::new();
    let mut see = |d: CpuDebug| out += &format!("{} {:?}", d, d.code);
    let b = match what {
        Do::Step => brk(cpu.execute_next(m, c, Some(&mut see))),
        Do::Limit(l) => brk(cpu.execute_with_limit(m, c, l)),
        Do::Nmi => {
            if cpu.nmi(m, c) {
                Brk::Halt
            } else {
                Brk::None
            }
        }
        Do::Irq => cpu.irq(m, c, Some(&mut see)).map_or(Brk::None, brk),
        Do::Exec(op) => brk(cpu.execute_instruction(m, c, Some(&mut see), op)),
    };
    (b, out)
}

fn cpu_of(sc: &CpuSc) -> Z80NMOS {
    let mut c = Z80NMOS::new();
    put_state(&mut c, &sc.init);
    c
}

fn cpu_op(c: &mut Z80NMOS, op: &Op) {
    match op {
        Op::Reset => c.reset(),
        Op::Load(s) => put_state(c, &rand_state(&mut Rng::new(*s))),
        Op::Set(s) => put_state(c, s),
        _ => {}
    }
}

fn run_k(kind: Kind, sc: &CpuSc, st: &mut Stats) -> Res {
    let back = sc.extra >> 8 & 0x3FFF;
    let start: u128 = match sc.extra & 3 {
        0 => 0,
        // shortly before the counter or its sign wraps, or its low half carries
        1 => kind.max().wrapping_sub(back as u128),
        2 => (kind.max() << 1 | 1).wrapping_sub(back as u128),
        _ => (1u128 << (kind.width() / 2)).wrapping_sub(1 + (back as u128 & 0x7F)),
    };
    let tn = format!("{:?}", kind);
    let mut bus = SimBus::new(&sc.env);
    sc.mem.fill(&mut bus.mem);
    let base = MBase { mem: bus.mem.clone() };
    let mut rb = TBus::new(bus.fork());
    let mut rc = Ctr::Ref(start, kind);
    let mut pb = TBus::new(bus.fork());
    let mut pc = Ctr::new(kind, start);
    let mut wb = WAll(WSplit(WList { inner: vec![TBus::new(bus)] }));
    let mut wc = WList { inner: vec![WAll(WSplit(Ctr::new(kind, start)))] };
    let (mut c0, mut c1, mut c2) = (cpu_of(sc), cpu_of(sc), cpu_of(sc));
    // a host that implements only some operations is compared with one that spells out
    // the documented defaults
    let mut lc = Ctr::new(kind, start);
    let (mut c3, mut c4) = (cpu_of(sc), cpu_of(sc));
    let mut dc = Ctr::Ref(start, kind);
    let (pm, pi) = (parts_mem(), parts_io());
    let (pm, pi) = (pm[(sc.extra >> 40 & 31) as usize], pi[(sc.extra >> 48 & 31) as usize]);
    let ib = IBase { seed: sc.extra, n: 0 };
    let mut lazy = Parts { m: pm.1(base.clone()), io: pi.1(ib.clone()) };
    let mut db = Parts { m: Box::new(DocMem(base, pm.0)), io: Box::new(DocIo(ib, pi.0)) };

    for (i, op) in sc.ops.iter().enumerate() {
        let (n, slice) = match op {
            Op::Step(n) => (*n, None),
            Op::Tick(n) => (*n, Some(1)),
            Op::Slice(n) => (1, Some(*n as u128)),
            Op::Nmi | Op::Irq | Op::Exec(_) => (1, None),
            Op::Poke(..) | Op::Code(_) => {
                let (a, v) = match op {
                    Op::Poke(a, v) => (*a, v),
                    Op::Code(v) => (c0.get_pc(), v),
                    _ => unreachable!(),
                };
                for (k, x) in v.iter().enumerate() {
                    let a = a.wrapping_add(k as u16);
                    rb.b.mem[a as usize] = *x;
                    pb.b.mem[a as usize] = *x;
                    wb.0 .0.inner[0].b.mem[a as usize] = *x;
                }
                if let Op::Code(v) = op {
                    for (k, x) in v.iter().enumerate() {
                        let a = c3.get_pc().wrapping_add(k as u16);
                        lazy.write_mem(a, *x, 0);
                        db.write_mem(a, *x, 0);
                    }
                }
                continue;
            }
            op => {
                for c in [&mut c0, &mut c1, &mut c2, &mut c3, &mut c4] {
                    cpu_op(c, op);
                }
                continue;
            }
        };
        for k in 0..n {
            st.steps += 1;
            let act = |now: u128| match (op, slice) {
                (_, Some(len)) => {
                    // a limit that is reached before the counter wraps
                    let to = kind.trunc(now.wrapping_add(len));
                    if !kind.ge(to, now) || kind.ge(to, kind.max() - 4000) {
                        Do::Step
                    } else {
                        Do::Limit(to)
                    }
                }
                (Op::Nmi, _) => Do::Nmi,
                (Op::Irq, _) => Do::Irq,
                (Op::Exec(c), _) => Do::Exec(*c),
                _ => Do::Step,
            };
            let what = act(rc.as_timestamp());
            let x0 = drive(&mut c0, &mut rb, &mut rc, what);
            let x1 = drive(&mut c1, &mut pb, &mut pc, what);
            let x2 = drive(&mut c2, &mut wb, &mut wc, what);
            st.probe("calls", 3);
            ensure!(x0 == x1, "counter", "op {}: with TsCounter<{}> {:?}, expected {:?}", i, tn, x1, x0);
            ensure!(x1 == x2, "wrapper", "op {}: wrapped {:?}, unwrapped {:?}", i, x2, x1);
            // clocks
            let want = rc.as_timestamp();
            ensure!(pc.as_timestamp() == want, "counter", "op {}: TsCounter<{}> at {:?}, expected {:?}", i, tn, pc.as_timestamp(), want);
            ensure!(wc.as_timestamp() == want, "wrapper", "op {}: wrapped TsCounter<{}> at {:?}, expected {:?}", i, tn, wc.as_timestamp(), want);
            // accesses
            {
                let w = &wb.0 .0.inner[0];
                let f = |x: BEv, y: BEv| x == y;
                if let Some((_, d)) = first_diff(&rb.b.log.borrow(), &pb.b.log.borrow(), f) {
                    return fail("counter", format!("op {}: accesses with TsCounter<{}> differ: {}", i, tn, d));
                }
                if let Some((_, d)) = first_diff(&pb.b.log.borrow(), &w.b.log.borrow(), f) {
                    return fail("wrapper", format!("op {}: accesses through wrappers differ: {}", i, d));
                }
                let (sr, sp, sw) = (rb.stamps.borrow(), pb.stamps.borrow(), w.stamps.borrow());
                ensure!(*sr == *sp, "counter", "op {}: timestamps with TsCounter<{}>: {:x?}, expected {:x?}", i, tn, &sp[..sp.len().min(12)], &sr[..sr.len().min(12)]);
                ensure!(*sp == *sw, "wrapper", "op {}: timestamps through wrappers differ", i);
                ensure!(pb.dbg.get() == w.dbg.get() && pb.b.polls == w.b.polls, "wrapper", "op {}: debug reads {} / {}, polls {} / {}", i, pb.dbg.get(), w.dbg.get(), pb.b.polls, w.b.polls);
                st.cover(hash3(kind as u64, sp.len() as u64, (want < 0x10000) as u64 | (want >> (kind.width() - 1)) as u64 * 2));
            }
            ensure!(c0 == c1, "counter", "op {}: processor state with TsCounter<{}> differs", i, tn);
            ensure!(c1 == c2, "wrapper", "op {}: processor state with wrappers differs", i);
            st.eat(hash2(rc.as_timestamp() as u64, get_state(&c0).pc as u64 | (rb.b.log.borrow().len() as u64) << 16));
            rb.b.log.borrow_mut().clear();
            pb.b.log.borrow_mut().clear();
            wb.0 .0.inner[0].b.log.borrow_mut().clear();
            rb.stamps.borrow_mut().clear();
            pb.stamps.borrow_mut().clear();
            wb.0 .0.inner[0].stamps.borrow_mut().clear();
            // the host that leaves everything to the defaults
            let what = act(dc.as_timestamp());
            let x3 = drive(&mut c3, &mut lazy, &mut lc, what);
            let x4 = drive(&mut c4, &mut db, &mut dc, what);
            ensure!(x3 == x4 && c3 == c4, "default", "op {}: a host with only {:?} {:?}: {:?}, documented defaults {:?}: {}", i, pm.0, pi.0, x3, x4, get_state(&c3).diff(&get_state(&c4)));
            ensure!(lc.as_timestamp() == dc.as_timestamp(), "default", "op {}: time with default methods differs", i);
            if get_state(&c0).halt && k > 3 {
                break;
            }
        }
        // the counter itself: copies, order, storage
        match pc.stored() {
            Ok(x) => ensure!(x.as_timestamp() == pc.as_timestamp(), "counter", "op {}: stored counter {} comes back as {}", i, pc.as_timestamp(), x.as_timestamp()),
            Err(e) => return fail("counter", format!("op {}: stored counter {} refused: {}", i, pc.as_timestamp(), e)),
        }
    }
    for (what, a, b) in [("counter", &rb.b.mem, &pb.b.mem), ("wrapper", &pb.b.mem, &wb.0 .0.inner[0].b.mem)] {
        if let Some(d) = mem_diff(a, b) {
            return fail(what, format!("end of run: {}", d));
        }
    }
    for a in 0..=0xFFFFu16 {
        let (x, y) = (lazy.read_debug(a), db.read_debug(a));
        ensure!(x == y, "default", "end of run: memory of a host with only {:?} at {:04x}: {:02x}, expected {:02x}", pm.0, a, x, y);
    }
    st.fault("wait_states", rb.b.waits);
    st.fault("counter_wraps", (kind.trunc(start) > rc.as_timestamp()) as u64);
    st.probe("interrupt_acknowledges", rb.b.n_ack);
    st.sim_ts += rc.as_timestamp().wrapping_sub(kind.trunc(start)) as u64 & 0xFFFF_FFFF;
    st.nontrivial = true;
    Ok(())
}

impl Prop for C14 {
    const ID: &'static str = "C14";
    type Sc = CpuSc;
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.slice = 8;
        p.api = 0;
        p.ops = (10, 40);
        p.irq = 5;
        let mut sc = gen_sc(rng, &p);
        let mut t = rng.below(40);
        let mut v = Vec::new();
        while v.len() < 60 {
            v.push(t);
            t += 1 + rng.below(30);
        }
        sc.env.line = if rng.chance(1, 6) { Line::Stuck } else { Line::Fetches(v) };
        sc.env.cont = 0;
        sc.env.stall = 0;
        sc.env.wait_max = sc.env.wait_max.min(300);
        sc
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        run_k(KINDS[(sc.extra >> 32 & 7) as usize], sc, st)
    }
    fn shrink(sc: CpuSc, test: &mut dyn FnMut(&CpuSc) -> bool) -> CpuSc {
        shrink_sc(sc, test)
    }
    fn real() -> &'static [&'static str] {
        &["z80emu::host::TsCounter", "forward_host_* macros", "default methods of Memory and Io", "z80emu::Z80<NMOS>"]
    }
    fn stub() -> &'static [&'static str] {
        &["memory and devices behind the wrappers", "interrupt line", "host that issues NMI, IRQ, reset and DMA"]
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run drives five machines through the same calls: unbounded reference time, TsCounter of one width near a wrap, the same behind three nested wrappers, and a host implementing any subset of the ten memory and device operations (all 1024 combinations) against one spelling out the documented defaults; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (counter width, accesses in one call, before or after a wrap), hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["limits are chosen at least 4000 T-states before the counter wraps", "a stored 128-bit counter is compared through JSON and bincode"]
    }
}
