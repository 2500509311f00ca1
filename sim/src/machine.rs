//! The whole example computer twice: the real one (real processor, frame runner,
//! debug commands, peripherals, memory), and one in which the reference processor
//! drives another set of the real peripherals and memory in a time that is never
//! rebased.
use crate::cpu::get_state;
use crate::cpusc::gen_instr;
use crate::disref::{decode, Fmt};
use crate::engine::*;
use crate::model::{Fl, MBus, MClk, Model, State, StepKind};
use crate::rng::{hash2, hash3, mix, Rng};
use ral1243::bus::{Bus, BusDevice, Terminator};
use ral1243::ctc::Ctc;
use ral1243::ctc_trigger::CtcActive;
use ral1243::memory::Memory as RalMemory;
use ral1243::pio::Pio;
use ral1243::pio_device::{PioInput, PioOutput};
use ral1243::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::num::NonZeroU16;
use std::rc::Rc;
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::{CpuDebug, Io, Memory, Z80};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    Op(u16, u8, u64),
    Rd(u16, u8),
    Wr(u16, u8, u64),
    In(u16, u8, u64),
    Out(u16, u8, u64),
    Ack(u16, u8, u64),
    Reti(u16, u64),
    HostIn(u8, u64),
    HostOut(u8, u64),
    Frame(u64),
    Reset(u64),
}

/// The outside world of one machine, in time that is never rebased.
pub struct Host {
    now: Cell<u64>,
    keys: RefCell<VecDeque<(u64, u8)>>,
    /// the receiver is stalled in this many of 8 stretches of time
    refuse: u8,
    seed: u64,
    log: RefCell<Vec<Ev>>,
    pub taken: Cell<u64>,
    pub given: Cell<u64>,
    pub refused: Cell<u64>,
}
impl Host {
    fn at(&self, ts: u64) {
        self.now.set(ts)
    }
    pub fn log(&self) -> std::cell::Ref<'_, Vec<Ev>> {
        self.log.borrow()
    }
    pub fn clear(&self) {
        self.log.borrow_mut().clear()
    }
    /// Keep the first end of a frame only.
    pub fn one_frame_end(&self) {
        let mut n = 0;
        self.log.borrow_mut().retain(|e| !matches!(e, Ev::Frame(_)) || {
            n += 1;
            n == 1
        });
    }
    fn ev(&self, e: Ev) {
        self.log.borrow_mut().push(e)
    }
}
pub struct HostIn(Rc<Host>);
pub struct HostOut(Rc<Host>);
impl PioStream for HostIn {
    fn slurp(&mut self) -> Option<u8> {
        let h = &self.0;
        let mut q = h.keys.borrow_mut();
        match q.front() {
            Some(&(t, v)) if t <= h.now.get() => {
                q.pop_front();
                h.taken.set(h.taken.get() + 1);
                h.ev(Ev::HostIn(v, h.now.get()));
                Some(v)
            }
            _ => None,
        }
    }
}
impl PioSink for HostOut {
    fn flush(&mut self, data: u8) -> bool {
        let h = &self.0;
        if hash2(h.seed, h.now.get() / 1000) % 8 < h.refuse as u64 {
            h.refused.set(h.refused.get() + 1);
            return false;
        }
        h.given.set(h.given.get() + 1);
        h.ev(Ev::HostOut(data, h.now.get()));
        true
    }
}

// the recorded peripherals have the same seams
impl crate::pinned::pio_device::PioStream for HostIn {
    fn slurp(&mut self) -> Option<u8> {
        PioStream::slurp(self)
    }
}
impl crate::pinned::pio_device::PioSink for HostOut {
    fn flush(&mut self, data: u8) -> bool {
        PioSink::flush(self, data)
    }
}

/// The bus of the real computer, or one with the recorded peripherals.
pub trait Inner {
    fn write_io(&mut self, p: u16, v: u8, ts: u32) -> (Option<()>, Option<NonZeroU16>);
    fn read_io(&mut self, p: u16, ts: u32) -> (u8, Option<NonZeroU16>);
    fn is_irq(&mut self, ts: u32) -> bool;
    fn irq_data(&mut self, pc: u16, ts: u32) -> (u8, Option<NonZeroU16>);
    fn reti(&mut self, a: u16, ts: u32) -> Option<()>;
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: u32) -> u8;
    fn read_mem(&self, a: u16, ts: u32) -> u8;
    fn read_mem16(&self, a: u16, ts: u32) -> u16;
    fn write_mem(&mut self, a: u16, v: u8, ts: u32);
    fn read_debug(&self, a: u16) -> u8;
    fn reset(&mut self, ts: u32);
    fn frame_end(&mut self, ts: u32);
    fn m1(&mut self, ts: u32);
    fn next_second(&mut self, delta: u32);
    fn memory(&mut self) -> &mut RalMemory;
    fn take_memory(self: Box<Self>) -> RalMemory;
}
impl<D> Inner for Bus<D, RalMemory>
where
    D: BusDevice<Timestamp = u32> + Io<Timestamp = u32, WrIoBreak = (), RetiBreak = ()>,
{
    fn write_io(&mut self, p: u16, v: u8, ts: u32) -> (Option<()>, Option<NonZeroU16>) {
        Io::write_io(self, p, v, ts)
    }
    fn read_io(&mut self, p: u16, ts: u32) -> (u8, Option<NonZeroU16>) {
        Io::read_io(self, p, ts)
    }
    fn is_irq(&mut self, ts: u32) -> bool {
        Io::is_irq(self, ts)
    }
    fn irq_data(&mut self, pc: u16, ts: u32) -> (u8, Option<NonZeroU16>) {
        Io::irq_data(self, pc, ts)
    }
    fn reti(&mut self, a: u16, ts: u32) -> Option<()> {
        Io::reti(self, a, ts)
    }
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: u32) -> u8 {
        Memory::read_opcode(self, pc, ir, ts)
    }
    fn read_mem(&self, a: u16, ts: u32) -> u8 {
        Memory::read_mem(self, a, ts)
    }
    fn read_mem16(&self, a: u16, ts: u32) -> u16 {
        Memory::read_mem16(self, a, ts)
    }
    fn write_mem(&mut self, a: u16, v: u8, ts: u32) {
        Memory::write_mem(self, a, v, ts)
    }
    fn read_debug(&self, a: u16) -> u8 {
        Memory::read_debug(self, a)
    }
    fn reset(&mut self, ts: u32) {
        BusDevice::reset(self, ts)
    }
    fn frame_end(&mut self, ts: u32) {
        BusDevice::frame_end(self, ts)
    }
    fn m1(&mut self, ts: u32) {
        BusDevice::m1(self, ts)
    }
    fn next_second(&mut self, delta: u32) {
        BusDevice::next_second(self, delta)
    }
    fn memory(&mut self) -> &mut RalMemory {
        self.memory_mut()
    }
    fn take_memory(self: Box<Self>) -> RalMemory {
        self.into_inner().1
    }
}

/// The bus with everything that passes recorded.
pub struct RecBus {
    inner: Box<dyn Inner>,
    pub host: Rc<Host>,
    /// what has been subtracted from the time of the peripherals
    base: u64,
    /// The peripherals are looked at once at every fetch, and once however often the
    /// processor asks in between: how often it asks is not what is compared here
    /// (but matters to the external clock, see the findings of C17).
    polled: Option<(u32, bool)>,
    /// ask the peripherals exactly as often as the processor asks
    raw: bool,
    /// control words the parallel port is not made for do not reach it
    tame: bool,
    /// how often the bus may still be used before the frame has to end
    left: Cell<u64>,
    pub budget: u64,
}
impl RecBus {
    fn used(&self) {
        let n = self.left.get();
        if n == 0 {
            panic!("no progress: the bus was used {} times and no frame or command ended", self.budget);
        }
        self.left.set(n - 1);
    }
    pub fn base(&self) -> u64 {
        self.base
    }
    /// The host's time starts again with the computer's.
    pub fn restart(&mut self) {
        self.base = 0;
    }
    pub fn refill(&self) {
        self.left.set(self.budget);
    }
    fn t(&self, ts: u32) -> u64 {
        let t = self.base + ts as u64;
        self.host.at(t);
        t
    }
    fn short(&self, t: u64) -> u32 {
        (t - self.base) as u32
    }
    fn poll(&mut self, ts: u32) -> bool {
        self.used();
        if self.raw {
            self.t(ts);
            return self.inner.is_irq(ts);
        }
        match self.polled {
            Some((t, x)) if t == ts => x,
            _ => {
                self.t(ts);
                let x = self.inner.is_irq(ts);
                self.polled = Some((ts, x));
                x
            }
        }
    }
}
impl Io for RecBus {
    type Timestamp = u32;
    type WrIoBreak = ();
    type RetiBreak = ();
    fn write_io(&mut self, p: u16, v: u8, ts: u32) -> (Option<()>, Option<NonZeroU16>) {
        let t = self.t(ts);
        self.polled = None;
        self.host.ev(Ev::Out(p, v, t));
        if self.tame && p & 0x7D == 9 && v & 7 == 7 && (v & 8 == 0 || v & 0x80 != 0) {
            return (None, None);
        }
        self.inner.write_io(p, v, ts)
    }
    fn read_io(&mut self, p: u16, ts: u32) -> (u8, Option<NonZeroU16>) {
        let t = self.t(ts);
        self.polled = None;
        let r = self.inner.read_io(p, ts);
        self.host.ev(Ev::In(p, r.0, t));
        r
    }
    fn is_irq(&mut self, ts: u32) -> bool {
        self.poll(ts)
    }
    fn irq_data(&mut self, pc: u16, ts: u32) -> (u8, Option<NonZeroU16>) {
        let t = self.t(ts);
        self.polled = None;
        let r = self.inner.irq_data(pc, ts);
        self.host.ev(Ev::Ack(pc, r.0, t));
        r
    }
    fn reti(&mut self, a: u16, ts: u32) -> Option<()> {
        let t = self.t(ts);
        self.polled = None;
        self.host.ev(Ev::Reti(a, t));
        self.inner.reti(a, ts)
    }
}
impl Memory for RecBus {
    type Timestamp = u32;
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: u32) -> u8 {
        if !self.raw {
            self.poll(ts - 4);
        }
        self.used();
        self.polled = None;
        let t = self.t(ts);
        let v = self.inner.read_opcode(pc, ir, ts);
        self.host.ev(Ev::Op(pc, v, t));
        v
    }
    fn read_mem(&self, a: u16, ts: u32) -> u8 {
        let v = self.inner.read_mem(a, ts);
        self.host.ev(Ev::Rd(a, v));
        v
    }
    fn read_mem16(&self, a: u16, ts: u32) -> u16 {
        let v = self.inner.read_mem16(a, ts);
        self.host.ev(Ev::Rd(a, v as u8));
        self.host.ev(Ev::Rd(a.wrapping_add(1), (v >> 8) as u8));
        v
    }
    fn write_mem(&mut self, a: u16, v: u8, ts: u32) {
        let t = self.t(ts);
        self.host.ev(Ev::Wr(a, v, t));
        self.inner.write_mem(a, v, ts)
    }
    fn read_debug(&self, a: u16) -> u8 {
        self.inner.read_debug(a)
    }
}
impl BusDevice for RecBus {
    type Timestamp = u32;
    type NextDevice = Terminator<u32>;
    fn reset(&mut self, ts: u32) {
        let t = self.t(ts);
        self.polled = None;
        self.host.ev(Ev::Reset(t));
        self.inner.reset(ts)
    }
    fn frame_end(&mut self, ts: u32) {
        let t = self.t(ts);
        self.polled = None;
        self.host.ev(Ev::Frame(t));
        self.refill();
        self.inner.frame_end(ts)
    }
    fn m1(&mut self, ts: u32) {
        self.inner.m1(ts)
    }
    fn next_device(&mut self) -> &mut Terminator<u32> {
        unreachable!()
    }
    fn next_second(&mut self, delta: u32) {
        self.base += delta as u64;
        self.polled = self.polled.map(|(t, x)| (t - delta, x));
        self.inner.next_second(delta)
    }
}
/// The reference processor on the same bus; its time is never rebased.
impl MBus for RecBus {
    fn op(&mut self, pc: u16, ir: u16, ts: u64) -> u8 {
        Memory::read_opcode(self, pc, ir, self.short(ts))
    }
    fn rd(&mut self, a: u16, _ts: u64) -> u8 {
        Memory::read_mem(self, a, 0)
    }
    fn wr(&mut self, a: u16, v: u8, ts: u64) {
        Memory::write_mem(self, a, v, self.short(ts))
    }
    fn peek(&self, a: u16) -> u8 {
        self.inner.read_debug(a)
    }
    fn inp(&mut self, p: u16, ts: u64) -> (u8, u16) {
        let (v, w) = Io::read_io(self, p, self.short(ts));
        (v, w.map_or(0, |w| w.get()))
    }
    fn out(&mut self, p: u16, v: u8, ts: u64) -> (Option<u32>, u16) {
        let (b, w) = Io::write_io(self, p, v, self.short(ts));
        (b.map(|_| 0), w.map_or(0, |w| w.get()))
    }
    fn line(&mut self, ts: u64) -> bool {
        Io::is_irq(self, self.short(ts))
    }
    fn ack(&mut self, pc: u16, ts: u64) -> (u8, u16) {
        let (v, w) = Io::irq_data(self, pc, self.short(ts));
        (v, w.map_or(0, |w| w.get()))
    }
    fn do_reti(&mut self, a: u16, ts: u64) -> Option<u32> {
        Io::reti(self, a, self.short(ts)).map(|_| 0)
    }
}

/// The cycles of the computer's clock.
pub struct RClk(pub u64);
impl MClk for RClk {
    fn now(&self) -> u64 {
        self.0
    }
    fn m1(&mut self, _a: u16) -> u64 {
        self.0 += 4;
        self.0
    }
    fn mreq(&mut self, _a: u16) -> u64 {
        self.0 += 3;
        self.0
    }
    fn no_mreq(&mut self, _a: u16, n: u8) {
        self.0 += n as u64;
    }
    fn io(&mut self, _p: u16) -> u64 {
        self.0 += 4;
        self.0
    }
    fn irq(&mut self, _pc: u16) -> u64 {
        self.0 += 6;
        self.0
    }
    fn wait(&mut self, _b: u16, n: u16) {
        self.0 += n as u64;
    }
}

// ---- scenarios ----
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Frames(u16),
    Nmi,
    Reset,
    Start,
    DStep(u16),
    DInt(u8),
    DRet(u8),
    DBrk(Vec<u16>, u8),
    Preview,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sc {
    pub cfg: u8,
    pub hz: u32,
    pub ramkb: u8,
    /// the computer's own ROM
    pub stock: bool,
    pub seed: u64,
    /// the main loop of the guest
    pub body: Vec<Vec<u8>>,
    /// input bytes with the time since the previous one
    pub keys: Vec<(u32, u8)>,
    pub refuse: u8,
    /// a restart is compared with new peripherals
    #[serde(default)]
    pub fresh: bool,
    /// 1: random memory, 2: random port writes, 3: a storm of both
    #[serde(default)]
    pub wild: u8,
    #[serde(default)]
    pub raw: bool,
    #[serde(default)]
    pub tame: bool,
    pub ops: Vec<Op>,
}

/// External clock, frames per second, variant.
pub const CFGS: [(u32, u32, Fl); 4] = [(10_000, 500, Fl::Nmos), (1_000, 60, Fl::Cmos), (250, 13, Fl::Bm1), (50, 500, Fl::Nmos)];

pub fn gen_hz(rng: &mut Rng, cfg: u8) -> u32 {
    let ext = CFGS[cfg as usize].0;
    let hz = match rng.below(8) {
        0..=4 => rng.range(70_000, 140_000),
        5 | 6 => rng.range(140_000, 400_000),
        _ => rng.range(400_000, 1_500_000),
    } as u32;
    (hz / (2 * ext)).max(5) * 2 * ext
}
pub fn frame_ts(sc: &Sc) -> u32 {
    sc.hz / CFGS[sc.cfg as usize].1
}

fn ctc_setup(rng: &mut Rng, v: &mut Vec<u8>, c: u8, frame: u32, ext: u32, fast: bool) {
    let mut ctl = 5 | rng.u8() & 0xF0;
    if rng.chance(1, 5) {
        ctl |= 8;
    }
    if rng.chance(1, 2) {
        ctl |= 2;
    }
    if rng.chance(2, 3) {
        ctl |= 0x80;
    }
    let unit = if ctl & 0x40 != 0 { ext } else if ctl & 0x20 != 0 { 256 } else { 16 };
    let lo = if fast { 1 } else { (frame / 2 / unit + 1).min(256) } as u64;
    let tc = match rng.below(3) {
        0 => lo,
        1 => rng.range(lo, (lo + 8).min(256)),
        _ => rng.range(lo, 256),
    } as u8;
    v.extend([0x3E, ctl, 0xD3, 4 + c, 0x3E, tc, 0xD3, 4 + c]);
    if rng.chance(1, 6) {
        v.extend([0x3E, rng.u8() & 0xF8, 0xD3, 4]);
    }
}
fn pio_setup(rng: &mut Rng, v: &mut Vec<u8>) {
    let ch = rng.below(2) as u8 * 2;
    let words: &[u8] = match (rng.below(4), ch) {
        (0, _) => &[0x83, 0x03],
        (1, 0) => &[0x4F, 0x83],
        (1, _) => &[0x0F, 0x83],
        (2, _) => &[0x83],
        _ => &[0x4F, 0x0F],
    };
    for w in words {
        if rng.chance(3, 4) {
            v.extend([0x3E, *w, 0xD3, 9 + ch]);
        }
    }
    if rng.chance(1, 3) {
        v.extend([0x3E, rng.u8() & 0xFE, 0xD3, 9 + ch]);
    }
}

/// A piece of guest program that keeps the stack balanced.
pub fn snippet(rng: &mut Rng, frame: u32, ext: u32, wild: bool, leaf: bool) -> Vec<u8> {
    let mut v = Vec::new();
    match rng.below(20) {
        0 => v.extend([0xFB, 0x76]),
        1 => v.push(*rng.pick(&[0xFB, 0xFB, 0xF3])),
        2 => v.extend([0xF3, 0x00, 0xFB]),
        3 if !leaf => v.extend([*rng.pick(&[0xCD, 0xCD, 0xC4, 0xCC, 0xD4, 0xDC, 0xFC]), 0x20 * rng.below(8) as u8, 0x10]),
        4 if !leaf => v.push(0xC7 | 8 * rng.range(1, 6) as u8),
        5 => v.extend([0xDB, *rng.pick(&[4, 5, 6, 7, 8, 8, 10, 124])]),
        6 => v.extend([0x3E, rng.u8(), 0xD3, 10]),
        7 => v.extend([0x3E, rng.below(4) as u8, 0xD3, 124]),
        8 => v.extend([0x06, 1 + rng.below(40) as u8, 0x10, 0xFE]),
        9 => v.extend([*rng.pick(&[0xDD, 0xFD]), *rng.pick(&[0xDD, 0xFD]), *rng.pick(&[0x00, 0x23, 0x7C, 0xFB])]),
        10 => {
            let a = *rng.pick(&[0x2100u16, 0x3E00, 0x4100, 0x7FFE, 0xC000]) + rng.below(64) as u16;
            v.extend([*rng.pick(&[0x32, 0x3A, 0x22, 0x2A]), a as u8, (a >> 8) as u8]);
        }
        11 => {
            let (h, d) = (*rng.pick(&[0x1A00u16, 0x2100, 0x4200]), *rng.pick(&[0x2200u16, 0x4300, 0xFFF8]));
            v.extend([0x21, h as u8, (h >> 8) as u8, 0x11, d as u8, (d >> 8) as u8, 0x01, 1 + rng.below(20) as u8, 0]);
            v.extend([0xED, *rng.pick(&[0xB0, 0xA0, 0xB1, 0xB8])]);
        }
        12 => v.extend([0xED, *rng.pick(&[0x57, 0x5F, 0x44, 0x67, 0x6F])]),
        13 if rng.chance(1, 2) => {
            let c = rng.below(4) as u8;
            ctc_setup(rng, &mut v, c, frame, ext, false)
        }
        14 if rng.chance(1, 2) => pio_setup(rng, &mut v),
        15 if !leaf => v.extend([0xCD, 0x00, 0x40]),
        16 => v.extend([0xF5, 0x3C, 0xF1]),
        17 => v.extend([0xED, *rng.pick(&[0x46, 0x56, 0x5E, 0x5E, 0x5E])]),
        18 if wild => v.extend(gen_instr(rng)),
        _ => v.extend(*rng.pick(&[
            &[0x3Cu8][..], &[0x87], &[0xCB, 0x12], &[0x2C], &[0x1D], &[0x08], &[0xD9], &[0xEB], &[0x27], &[0xDD, 0x23], &[0xFD, 0x86, 0x05], &[0xDD, 0xCB, 0x03, 0x46], &[0xB7], &[0x37], &[0x3F], &[0x28, 0x00], &[0x38, 0x01, 0x00], &[0x9F], &[0xED, 0x52],
        ])),
    }
    v
}

/// The images of a guest: ROM and two cartridges.
fn images(sc: &Sc) -> (Vec<u8>, Vec<Vec<u8>>) {
    let mut rng = Rng::new(sc.seed);
    let (ext_hz, ..) = CFGS[sc.cfg as usize];
    let (frame, ext) = (frame_ts(sc), sc.hz / ext_hz);
    let wild = sc.seed & 3 == 0;
    if sc.wild != 0 {
        return wild_images(sc, &mut rng);
    }
    let mut rom = vec![0u8; 0x2000];
    let put = |rom: &mut Vec<u8>, at: usize, b: &[u8]| rom[at..at + b.len()].copy_from_slice(b);
    put(&mut rom, 0, &[0xC3, 0x00, 0x01]);
    for k in 1..7 {
        put(&mut rom, k * 8, *rng.pick(&[&[0x3Cu8, 0xC9][..], &[0xC9], &[0xB7, 0xC0, 0xC9], &[0xC8, 0x3C, 0xC9], &[0xED, 0x4D], &[0xDD, 0xC9]]));
    }
    put(&mut rom, 0x38, &[0xC3, 0x80, 0x00]);
    put(&mut rom, 0x66, *rng.pick(&[&[0xED, 0x45][..], &[0xF5, 0x3A, 0x00, 0x3F, 0x3C, 0x32, 0x00, 0x3F, 0xF1, 0xED, 0x45], &[0xED, 0x5D], &[0xFB, 0x00, 0xED, 0x45]]));
    let handler = |rng: &mut Rng| {
        let mut h = vec![0xF5];
        for _ in 0..rng.below(4) {
            let x = match rng.below(6) {
                0 => vec![0xDB, 8],
                1 => vec![0xDB, 4 + rng.below(4) as u8],
                2 => vec![0x3A, 0x10, 0x3F, 0x3C, 0x32, 0x10, 0x3F],
                3 => vec![0x3E, rng.u8(), 0xD3, 10],
                4 if rng.chance(1, 3) => vec![0xFB],
                _ => vec![0x00],
            };
            h.extend(x);
        }
        h.push(0xF1);
        if rng.chance(9, 10) {
            h.push(0xFB);
        }
        h.extend(*rng.pick(&[&[0xEDu8, 0x4D][..], &[0xED, 0x4D], &[0xED, 0x4D], &[0xED, 0x4D], &[0xED, 0x45], &[0xC9]]));
        h
    };
    let h = handler(&mut rng);
    put(&mut rom, 0x80, &h);
    let mut p = vec![0xF3];
    let sp = *rng.pick(&[0x3FF0u16, 0x4400, 0x0000]);
    p.extend([0x31, sp as u8, (sp >> 8) as u8, 0x3E, 0x1E, 0xED, 0x47]);
    p.extend([0xED, *rng.pick(&[0x46, 0x56, 0x5E, 0x5E, 0x5E, 0x5E])]);
    p.extend([0x21, 0x00, 0x1A, 0x11, 0x00, 0x40, 0x01, 0x00, 0x01, 0xED, 0xB0]);
    for c in 0..4u8 {
        if rng.chance(2, 3) {
            let fast = rng.chance(1, if c & 1 == 0 { 60 } else { 12 });
            ctc_setup(&mut rng, &mut p, c, frame, ext, fast);
        }
    }
    if rng.chance(1, 2) {
        p.extend([0x3E, rng.u8() & 0xF8, 0xD3, 4]);
    }
    for _ in 0..rng.below(4) {
        pio_setup(&mut rng, &mut p);
    }
    p.push(0xFB);
    let top = 0x100 + p.len() as u16;
    for b in &sc.body {
        if p.len() + b.len() > 0xE00 {
            break;
        }
        p.extend(b);
    }
    p.extend([0xC3, top as u8, (top >> 8) as u8]);
    put(&mut rom, 0x100, &p);
    for k in 0..8 {
        let mut s = Vec::new();
        for _ in 0..rng.below(4) {
            s.extend(snippet(&mut rng, frame, ext, false, true));
        }
        s.truncate(26);
        s.extend(*rng.pick(&[&[0xC9u8][..], &[0xC8, 0xC9], &[0xD0, 0x00, 0xC9], &[0xE8, 0xC9]]));
        put(&mut rom, 0x1000 + 0x20 * k, &s);
    }
    let mut hs = Vec::new();
    for k in 0..8usize {
        let at = if k == 5 { 0x17C9 } else { 0x1400 + 0x40 * k };
        let h = handler(&mut rng);
        put(&mut rom, at, &h);
        hs.push(at as u16);
    }
    for v in 0..128 {
        let a = *rng.pick(&hs);
        put(&mut rom, 0x1E00 + 2 * v, &a.to_le_bytes());
    }
    let block = |rng: &mut Rng, n: usize, leaf: bool| {
        let mut s = Vec::new();
        for _ in 0..n {
            s.extend(snippet(rng, frame, ext, wild, leaf));
        }
        s
    };
    let mut s = Vec::new();
    for _ in 0..2 + rng.below(4) {
        s.extend(block(&mut rng, 2, true));
        if rng.chance(1, 2) {
            s.extend([0xCD, 0x00, 0x20]);
        }
    }
    s.truncate(250);
    s.push(0xC9);
    put(&mut rom, 0x1A00, &s);
    let mut cards = Vec::new();
    for _ in 0..2 {
        let mut c = block(&mut rng, 4, true);
        c.push(0xC9);
        c.truncate(0x2000);
        cards.push(c);
    }
    (rom, cards)
}

/// Images of a guest nobody has thought about.
fn wild_images(sc: &Sc, rng: &mut Rng) -> (Vec<u8>, Vec<Vec<u8>>) {
    let bytes = |rng: &mut Rng, n: usize| {
        let some: Vec<u8> = (0..1 + rng.below(12)).map(|_| rng.u8()).collect();
        let style = rng.below(4);
        (0..n)
            .map(|_| match (style, rng.below(8)) {
                (0, _) => rng.u8(),
                (1, 0..=3) => *rng.pick(&some),
                (1, _) => rng.u8(),
                (2, 0..=2) => *rng.pick(&[0xD3, 0x3E, 0xED, 0xFB, 0x76, 0xDD, 0xFD, 0xCB, 0xF3, 0xDB]),
                (2, 3..=4) => *rng.pick(&[4, 5, 6, 7, 8, 9, 10, 11, 124]),
                (2, _) => rng.u8(),
                _ => 0x40 | rng.u8() & 0x3F,
            })
            .collect::<Vec<u8>>()
    };
    let mut rom = bytes(rng, 0x2000);
    let cards = (0..2).map(|_| bytes(rng, 0x2000)).collect();
    if sc.wild >= 2 {
        // writes to the peripherals, without end
        let mut p = vec![0x31, 0xF0, 0x3F, 0x3E, 0x1E, 0xED, 0x47, 0xED, *rng.pick(&[0x46, 0x56, 0x5E])];
        let fast = rng.chance(1, 2);
        while p.len() < 0x1800 {
            match rng.below(if sc.wild == 2 { 9 } else { 12 }) {
                0..=3 => p.extend([0x3E, rng.u8(), 0xD3, *rng.pick(&[4, 5, 6, 7, 8, 9, 10, 11])]),
                4 => {
                    let c = 4 + rng.below(4) as u8;
                    let tc = if fast { 1 + rng.below(3) as u8 } else { rng.u8() };
                    p.extend([0x3E, 5 | rng.u8() & 0xFA, 0xD3, c, 0x3E, tc, 0xD3, c]);
                }
                5 => p.push(*rng.pick(&[0xFB, 0xF3, 0xFB])),
                6 => p.extend([0xFB, 0x76]),
                7 => p.extend([0x06, rng.u8(), 0x10, 0xFE]),
                8 => p.extend([0xDB, 4 + rng.below(8) as u8]),
                9 => p.extend(gen_instr(rng)),
                10 => p.extend([0x3E, rng.u8(), 0xD3, 124]),
                _ => p.extend(vec![*rng.pick(&[0xDD, 0xFD, 0xFB, 0xF3, 0x76]); 1 + rng.below(300) as usize]),
            }
            if rng.chance(1, 60) {
                break;
            }
        }
        p.extend([0xC3, 9, 0]);
        p.truncate(0x1E00);
        // restarts and handlers lie within: they return at once
        for k in 1..8 {
            if rng.chance(1, 2) && p.len() > k * 8 + 2 {
                p[k * 8] = 0x18;
                p[k * 8 + 1] = 0;
            }
        }
        rom[..p.len()].copy_from_slice(&p);
        let h: &[u8] = *rng.pick(&[&[0xFBu8, 0xED, 0x4D][..], &[0xED, 0x4D], &[0xFB, 0xC9], &[0xC9], &[0x3C, 0x28, 0xFD, 0xFB, 0xED, 0x4D]]);
        rom[0x1F00..0x1F00 + h.len()].copy_from_slice(h);
        for v in 0..128 {
            rom[0x1E00 + 2 * v] = 0x00;
            rom[0x1E01 + 2 * v] = 0x1F;
        }
    }
    (rom, cards)
}

fn build(sc: &Sc, recorded: bool) -> RecBus {
    let mut at = sc.hz as u64;
    let keys = sc.keys.iter().map(|&(g, v)| {
        at += g as u64;
        (at, v)
    });
    let host = Rc::new(Host {
        now: Cell::new(0),
        keys: RefCell::new(keys.collect()),
        refuse: sc.refuse,
        seed: mix(sc.seed),
        log: RefCell::new(Vec::new()),
        taken: Cell::new(0),
        given: Cell::new(0),
        refused: Cell::new(0),
    });
    let memory = if sc.stock {
        let mut m = RalMemory::new(ROM, sc.ramkb as usize);
        m.attach_exrom(RalMemory::make_rom(EX_ROM001));
        m.attach_exrom(RalMemory::make_rom(EX_ROM002));
        m
    } else {
        let (rom, cards) = images(sc);
        let mut m = RalMemory::new(&rom, sc.ramkb as usize);
        m.attach_exroms(cards.iter().map(|c| RalMemory::make_rom(c)));
        m
    };
    let ext = sc.hz / CFGS[sc.cfg as usize].0;
    let inner: Box<dyn Inner> = if recorded {
        use crate::pinned::{ctc::Ctc, ctc_trigger::CtcActive, pio::Pio, pio_device::*};
        let pio = Pio::new(PioInput::new(HostIn(host.clone())), PioOutput::new(HostOut(host.clone())), Terminator::new()).with_port_bits(PIO_PORT_MASK, PIO_PORT_BITS, PIO_PORT_CHANNEL_SELECT, PIO_PORT_CONTROL_SELECT);
        let (c0, c2) = (CtcActive::<4>::new(ext), CtcActive::<4>::new(ext));
        let (c1, c3) = (c0.new_passive(), c2.new_passive());
        let ctc = Ctc::new(c0, c1, c2, c3, pio).with_port_bits(CTC_PORT_MASK, CTC_PORT_BITS, CTC_PORT_CHANNEL_SELECT1, CTC_PORT_CHANNEL_SELECT0);
        Box::new(Bus::new(ctc, memory).with_port_bits(MEMORY_PORT_MASK, MEMORY_PORT_BITS))
    } else {
        let pio = Pio::new(PioInput::new(HostIn(host.clone())), PioOutput::new(HostOut(host.clone())), Terminator::new()).with_port_bits(PIO_PORT_MASK, PIO_PORT_BITS, PIO_PORT_CHANNEL_SELECT, PIO_PORT_CONTROL_SELECT);
        let (c0, c2) = (CtcActive::<4>::new(ext), CtcActive::<4>::new(ext));
        let (c1, c3) = (c0.new_passive(), c2.new_passive());
        let ctc = Ctc::new(c0, c1, c2, c3, pio).with_port_bits(CTC_PORT_MASK, CTC_PORT_BITS, CTC_PORT_CHANNEL_SELECT1, CTC_PORT_CHANNEL_SELECT0);
        Box::new(Bus::new(ctc, memory).with_port_bits(MEMORY_PORT_MASK, MEMORY_PORT_BITS))
    };
    let budget = 4 * frame_ts(sc) as u64 + 20_000;
    RecBus { inner, host, base: 0, polled: None, raw: sc.raw, tame: sc.tame, left: Cell::new(budget), budget }
}

// ---- the real computer ----
pub trait Comp {
    fn start(&mut self);
    fn reset(&mut self);
    fn step(&mut self) -> u32;
    fn nmi(&mut self) -> Option<u32>;
    fn dstep(&mut self) -> (Option<CpuDebug>, u32);
    fn dint(&mut self) -> (Option<CpuDebug>, u32);
    fn dret(&mut self) -> (Option<CpuDebug>, u32);
    fn dbrk(&mut self, b: &[u16]) -> (Option<usize>, u32);
    fn preview(&self) -> CpuDebug;
    fn was_call(&self, d: &CpuDebug) -> bool;
    fn was_ret(&self, d: &CpuDebug) -> bool;
    fn state(&self) -> State;
    fn bus(&mut self) -> &mut RecBus;
}
struct Real<F: Flavour, const E: u32, const H: u32> {
    runner: FrameRunner<E, H>,
    cpu: Z80<F>,
    bus: RecBus,
}
impl<F: Flavour, const E: u32, const H: u32> Comp for Real<F, E, H>
where
    Z80<F>: crate::cpu::Wz,
{
    fn start(&mut self) {
        self.runner.start(&mut self.cpu, &mut self.bus)
    }
    fn reset(&mut self) {
        self.runner.reset(&mut self.cpu, &mut self.bus)
    }
    fn step(&mut self) -> u32 {
        self.runner.step(&mut self.cpu, &mut self.bus)
    }
    fn nmi(&mut self) -> Option<u32> {
        self.runner.nmi(&mut self.cpu, &mut self.bus)
    }
    fn dstep(&mut self) -> (Option<CpuDebug>, u32) {
        self.runner.debug_step(&mut self.cpu, &mut self.bus)
    }
    fn dint(&mut self) -> (Option<CpuDebug>, u32) {
        self.runner.debug_runto_int(&mut self.cpu, &mut self.bus)
    }
    fn dret(&mut self) -> (Option<CpuDebug>, u32) {
        self.runner.debug_runto_ret(&mut self.cpu, &mut self.bus)
    }
    fn dbrk(&mut self, b: &[u16]) -> (Option<usize>, u32) {
        self.runner.run_until_brkpt(&mut self.cpu, &mut self.bus, b)
    }
    fn preview(&self) -> CpuDebug {
        self.runner.debug_preview(&self.cpu, &self.bus)
    }
    fn was_call(&self, d: &CpuDebug) -> bool {
        ral1243::debug::was_just_a_call(d, &self.cpu)
    }
    fn was_ret(&self, d: &CpuDebug) -> bool {
        ral1243::debug::was_just_a_ret(d, &self.cpu)
    }
    fn state(&self) -> State {
        get_state(&self.cpu)
    }
    fn bus(&mut self) -> &mut RecBus {
        &mut self.bus
    }
}

pub fn real(sc: &Sc) -> Box<dyn Comp> {
    let bus = build(sc, false);
    match sc.cfg {
        0 => Box::new(Real::<NMOS, 10_000, 500> { runner: FrameRunner::new(sc.hz), cpu: Z80::default(), bus }),
        1 => Box::new(Real::<CMOS, 1_000, 60> { runner: FrameRunner::new(sc.hz), cpu: Z80::default(), bus }),
        3 => Box::new(Real::<NMOS, 50, 500> { runner: FrameRunner::new(sc.hz), cpu: Z80::default(), bus }),
        _ => Box::new(Real::<BM1, 250, 13> { runner: FrameRunner::new(sc.hz), cpu: Z80::default(), bus }),
    }
}

// ---- the reference computer ----
/// What a debug command has to report.
#[derive(Clone, Debug, PartialEq)]
pub enum Rep {
    Nothing,
    /// a prefix without an instruction, at this address
    Prefix(u8, u16),
    /// prefix executed before, address after it, bytes
    Instr(u8, u16, Vec<u8>),
    /// mode 0 and 1: the supplied instruction
    Supplied(Vec<u8>),
    /// mode 2: address where it happened, address in the table, target
    Vector(u16, u16, Vec<u8>),
}
pub struct Ref {
    pub m: Model,
    pub bus: RecBus,
    pub clk: RClk,
    pub limit: u64,
    pub frame: u64,
    pub hz: u64,
    pub last: Rep,
    pub n: u64,
    pub acks: u64,
    /// recorded peripherals, rebased as at the recorded commit
    rebased: bool,
}
impl Ref {
    pub fn new(sc: &Sc, recorded: bool) -> Ref {
        Ref {
            m: Model::new(CFGS[sc.cfg as usize].2),
            bus: build(sc, recorded),
            clk: RClk(sc.hz as u64),
            limit: sc.hz as u64,
            frame: frame_ts(sc) as u64,
            hz: sc.hz as u64,
            last: Rep::Nothing,
            n: 0,
            acks: 0,
            rebased: recorded,
        }
    }
    fn wrap(&mut self) {
        if self.rebased && self.clk.0 - self.bus.base > 2 * self.hz {
            BusDevice::next_second(&mut self.bus, self.hz as u32);
        }
    }
    pub fn reset(&mut self) {
        self.m = Model::new(self.m.fl);
        let ts = self.bus.short(self.clk.0);
        BusDevice::reset(&mut self.bus, ts);
    }
    pub fn start(&mut self) {
        self.clk.0 = self.hz;
        self.limit = self.hz;
        self.reset();
    }
    /// One instruction, prefix, refresh cycle or interrupt acknowledge.
    pub fn one(&mut self) -> StepKind {
        let (pfx, pc, im) = (self.m.s.prefix, self.m.s.pc, self.m.s.im);
        self.m.step(&mut self.clk, &mut self.bus);
        self.n += 1;
        let k = self.m.kind;
        let code = &self.m.code;
        self.last = match k {
            StepKind::Instr => Rep::Instr(pfx, pc, code.clone()),
            StepKind::Irq => {
                self.acks += 1;
                if im == 2 {
                    let v = self.bus.host.log.borrow().iter().rev().find_map(|e| if let Ev::Ack(_, v, _) = e { Some(*v) } else { None }).unwrap_or(0);
                    Rep::Vector(pc, (self.m.s.i as u16) << 8 | v as u16, code[1..].to_vec())
                } else {
                    Rep::Supplied(code.clone())
                }
            }
            _ => Rep::Nothing,
        };
        k
    }
    fn frame_end(&mut self) {
        let ts = self.bus.short(self.clk.0);
        BusDevice::frame_end(&mut self.bus, ts)
    }
    pub fn step(&mut self) -> u64 {
        self.wrap();
        let t = self.clk.0;
        self.limit += self.frame;
        while self.clk.0 < self.limit {
            self.one();
        }
        self.frame_end();
        self.clk.0 - t
    }
    pub fn nmi(&mut self) -> Option<u64> {
        let t = self.clk.0;
        self.m.nmi(&mut self.clk, &mut self.bus).then(|| self.clk.0 - t)
    }
    /// Ends the frame if it is over.
    fn over(&mut self, lim: u64) -> bool {
        let o = self.clk.0 >= lim;
        if o {
            self.limit = lim;
            self.frame_end();
        }
        o
    }
    pub fn dstep(&mut self) -> (Rep, u64) {
        self.wrap();
        let t = self.clk.0;
        let mut pfx = self.m.s.prefix;
        let mut at = self.m.s.pc.wrapping_sub((pfx != 0) as u16);
        let r = loop {
            let lim = self.limit + self.frame;
            let k = self.one();
            self.over(lim);
            match k {
                StepKind::Prefix if pfx != 0 => break Rep::Prefix(pfx, at),
                StepKind::Prefix => {
                    pfx = self.m.s.prefix;
                    at = self.m.s.pc.wrapping_sub(1);
                }
                _ => break self.last.clone(),
            }
        };
        (r, self.clk.0 - t)
    }
    pub fn dint(&mut self) -> (Rep, u64) {
        self.wrap();
        let t = self.clk.0;
        let lim = self.limit + self.frame;
        let r = loop {
            let k = self.one();
            let over = self.over(lim);
            if k == StepKind::Irq {
                break self.last.clone();
            }
            if over {
                break Rep::Nothing;
            }
        };
        (r, self.clk.0 - t)
    }
    /// Did the last step return from a subroutine?
    pub fn returned(&self) -> bool {
        match &self.last {
            Rep::Instr(_, _, c) | Rep::Supplied(c) => match c[0] {
                0xC9 => true,
                0xED => c[1] & 0xC7 == 0x45,
                x => x & 0xC7 == 0xC0 && self.cond(x >> 3 & 7),
            },
            _ => false,
        }
    }
    /// Did the last step call a subroutine?
    pub fn called(&self) -> bool {
        match &self.last {
            Rep::Instr(_, _, c) | Rep::Supplied(c) => match c[0] {
                0xCD => true,
                x if x & 0xC7 == 0xC7 => true,
                x => x & 0xC7 == 0xC4 && self.cond(x >> 3 & 7),
            },
            _ => false,
        }
    }
    fn cond(&self, y: u8) -> bool {
        use crate::model::*;
        let m = [ZF, CF, PF, SF][(y >> 1) as usize];
        (self.m.s.af as u8 & m != 0) == (y & 1 != 0)
    }
    pub fn dret(&mut self) -> (Rep, u64) {
        self.wrap();
        let t = self.clk.0;
        let lim = self.limit + self.frame;
        let r = loop {
            self.one();
            let over = self.over(lim);
            if self.returned() {
                break self.last.clone();
            }
            if over {
                break Rep::Nothing;
            }
        };
        (r, self.clk.0 - t)
    }
    /// `dt`: how long the real computer ran.
    pub fn dbrk(&mut self, b: &[u16], dt: u64) -> (Option<usize>, u64, Brk) {
        self.wrap();
        let t = self.clk.0;
        let lim = self.limit + self.frame;
        let mut how = Brk::Within;
        loop {
            let hit = b.iter().position(|x| *x == self.m.s.pc);
            // the recorded defect: the end of memory stands for "no breakpoint"
            if hit.is_none() && how != Brk::Within && self.m.s.pc == 0xFFFF && self.clk.0 - t < dt {
                how = Brk::Overrun;
            } else if hit.is_some() || how != Brk::Within {
                return (hit, self.clk.0 - t, how);
            }
            self.one();
            if self.over(lim) && how == Brk::Within {
                how = Brk::AtEnd;
            }
        }
    }
}
/// How a run to a breakpoint ended.
#[derive(Clone, Copy, PartialEq)]
pub enum Brk {
    Within,
    AtEnd,
    Overrun,
}

/// Text of a debug item, independent of its internal form.
fn text(d: &CpuDebug) -> String {
    format!("{:04x} {:02x?} {} {:X}", d.pc, &d.code[..], d.mnemonic, d.args)
}
fn padded(c: &[u8]) -> [u8; 4] {
    let mut b = [0u8; 4];
    b[..c.len().min(4)].copy_from_slice(&c[..c.len().min(4)]);
    b
}
pub fn rep_text(r: &Rep, d: Option<&CpuDebug>) -> Option<String> {
    Some(match r {
        Rep::Nothing => return None,
        Rep::Prefix(p, at) => format!("{:04x} {:02x?} NOP* {}", at, [*p], if *p == 0xDD { "IX" } else { "IY" }),
        Rep::Instr(p, at, c) => {
            let i = decode(*p, &padded(c), *at);
            let mut code = c.clone();
            let mut at = *at;
            if i.uses {
                code.insert(0, *p);
                at = at.wrapping_sub(1);
            }
            format!("{:04x} {:02x?} {} {}", at, code, i.mnem, i.args_text(Fmt::UpX))
        }
        // the address of what a device supplied is nowhere
        Rep::Supplied(c) => {
            let at = d.map_or(0, |d| d.pc);
            let i = decode(0, &padded(c), at);
            format!("{:04x} {:02x?} {} {}", at, c, i.mnem, i.args_text(Fmt::UpX))
        }
        Rep::Vector(at, v, c) => format!("{:04x} {:02x?} IRQ# {}", at, c, crate::disref::h16(*v, Fmt::UpX)),
    })
}

pub struct Both {
    pub real: Box<dyn Comp>,
    pub refr: Ref,
    /// the real time, from the durations reported
    pub t: u64,
    /// judge what the debug commands report
    reports: bool,
    /// deviations after which the run can go on
    soft: Option<Violation>,
    sc: Sc,
    fresh: bool,
    pub restarted: bool,
}
/// What the machines of a run may differ in is decided by the property.
impl Both {
    pub fn new(sc: &Sc, reports: bool, recorded: bool) -> Both {
        let mut b = Both { real: real(sc), refr: Ref::new(sc, recorded), t: sc.hz as u64, reports, soft: None, sc: sc.clone(), fresh: sc.fresh, restarted: false };
        b.real.start();
        b.refr.start();
        b
    }
    fn soft(&mut self, kind: &str, msg: String) {
        if self.soft.is_none() {
            self.soft = Some(Violation { kind: kind.to_string(), msg });
        }
    }
    fn same_report(&mut self, what: &str, d: Option<CpuDebug>, r: &Rep) -> Res {
        if !self.reports {
            return Ok(());
        }
        let x = d.as_ref().map(text);
        let y = rep_text(r, d.as_ref());
        if x != y {
            return fail("report", format!("{}: reported {:?}, executed {:?}", what, x, y));
        }
        if let Some(d) = &d {
            let (c, q) = (self.real.was_call(d), self.real.was_ret(d));
            let (c1, q1) = (self.refr.called(), self.refr.returned());
            if !matches!(r, Rep::Prefix(..)) && (c != c1 || q != q1) {
                // the recorded defect: the target of a vectored interrupt is read as an instruction
                let mut kind = "call";
                if let Rep::Vector(_, _, code) = r {
                    let keep = std::mem::replace(&mut self.refr.last, Rep::Supplied(code.clone()));
                    if (c, q) == (self.refr.called(), self.refr.returned()) {
                        kind = "irq-as-call";
                    }
                    self.refr.last = keep;
                }
                self.soft(kind, format!("{}: {:?} taken for a call {}, for a return {}; is a call {}, a return {}", what, x, c, q, c1, q1));
            }
        }
        Ok(())
    }
    pub fn op(&mut self, i: usize, op: &Op, st: &mut Stats) -> Res {
        let what = format!("op {} {:?}", i, op);
        match op {
            Op::Frames(n) => {
                for k in 0..*n {
                    let dt = self.real.step() as u64;
                    let rt = self.refr.step();
                    st.probe("frames", 1);
                    self.took(&format!("{} frame {}", what, k), dt, rt, st)?;
                }
            }
            Op::Nmi => {
                let (a, b) = (self.real.nmi(), self.refr.nmi());
                if a.is_some() != b.is_some() {
                    return fail("nmi", format!("{}: accepted for {:?} T, expected {:?} T", what, a, b));
                }
                st.fault("nmi", 1);
                self.took(&what, a.unwrap_or(0) as u64, b.unwrap_or(0), st)?;
            }
            Op::Reset => {
                self.real.reset();
                self.refr.reset();
                st.fault("resets", 1);
                self.took(&what, 0, 0, st)?;
            }
            Op::Start => {
                // the host's time starts again too
                let b = &self.refr.bus;
                let d = self.t - self.refr.hz;
                for h in [&b.host, &self.real.bus().host] {
                    h.keys.borrow_mut().iter_mut().for_each(|k| k.0 = k.0.saturating_sub(d));
                }
                let base = std::mem::take(&mut self.real.bus().base) as u32;
                self.real.start();
                if self.refr.rebased {
                    self.refr.bus.base = 0;
                } else if self.fresh {
                    // new peripherals
                    let b = build(&self.sc, false);
                    let old = std::mem::replace(&mut self.refr.bus, b);
                    let host = self.refr.bus.host.clone();
                    *host.keys.borrow_mut() = old.host.keys.borrow().clone();
                    *host.log.borrow_mut() = old.host.log.borrow().clone();
                    *self.refr.bus.inner.memory() = old.inner.take_memory();
                    self.restarted = true;
                } else {
                    // what the peripherals remember is as old as in the real computer
                    self.refr.bus.inner.next_second(base);
                }
                self.refr.start();
                self.t = self.refr.hz;
                st.fault("restarts", 1);
                self.took(&what, 0, 0, st)?;
            }
            Op::DStep(n) => {
                for k in 0..*n {
                    let (d, dt) = self.real.dstep();
                    let (r, rt) = self.refr.dstep();
                    let what = format!("{} step {}", what, k);
                    st.probe("debug_steps", 1);
                    self.took(&what, dt as u64, rt, st)?;
                    self.same_report(&what, d, &r)?;
                }
            }
            Op::DInt(n) => {
                for k in 0..*n {
                    let (d, dt) = self.real.dint();
                    let (r, rt) = self.refr.dint();
                    let what = format!("{} call {}", what, k);
                    st.probe(if r == Rep::Nothing { "runto_int_frame_end" } else { "runto_int_found" }, 1);
                    self.took(&what, dt as u64, rt, st)?;
                    self.same_report(&what, d, &r)?;
                }
            }
            Op::DRet(n) => {
                for k in 0..*n {
                    let (d, dt) = self.real.dret();
                    let (r, rt) = self.refr.dret();
                    let what = format!("{} call {}", what, k);
                    st.probe(if r == Rep::Nothing { "runto_ret_frame_end" } else { "runto_ret_found" }, 1);
                    self.took(&what, dt as u64, rt, st)?;
                    self.same_report(&what, d, &r)?;
                }
            }
            Op::DBrk(b, n) => {
                for k in 0..*n {
                    let (d, dt) = self.real.dbrk(b);
                    let (r, rt, how) = self.refr.dbrk(b, dt as u64);
                    let what = format!("{} call {}", what, k);
                    st.probe(if r.is_none() { "brkpt_frame_end" } else { "brkpt_hit" }, 1);
                    self.took(&what, dt as u64, rt, st)?;
                    if how == Brk::Overrun {
                        self.soft("overrun-at-ffff", format!("{}: went on after the end of the frame at ffff", what));
                    }
                    if d != r && self.reports {
                        let kind = if how != Brk::Within && d.is_none() { "missed-at-frame-end" } else { "breakpoint" };
                        self.soft(kind, format!("{}: breakpoint {:?} hit, expected {:?} at {:04x}", what, d, r, self.refr.m.s.pc));
                    }
                    if r.is_some() {
                        break;
                    }
                }
            }
            Op::Preview => {
                let d = self.real.preview();
                let s = &self.refr.m.s;
                let at = s.pc;
                let mut b = [0u8; 4];
                for (k, x) in b.iter_mut().enumerate() {
                    *x = self.refr.bus.peek(at.wrapping_add(k as u16));
                }
                st.probe("previews", 1);
                // chains of prefixes are documented to be shown otherwise
                let p2 = |x: u8| x == 0xDD || x == 0xFD;
                if !(p2(b[0]) && (s.prefix != 0 || p2(b[1]))) {
                    let (pre, at, code) = if p2(b[0]) {
                        (b[0], at.wrapping_add(1), [b[1], b[2], b[3], self.refr.bus.peek(at.wrapping_add(4))])
                    } else {
                        (s.prefix, at, b)
                    };
                    let i = decode(pre, &code, at);
                    let want = rep_text(&Rep::Instr(pre, at, code[..i.len].to_vec()), None);
                    if Some(text(&d)) != want {
                        return fail("preview", format!("{}: {:?} shown, next is {:?}", what, text(&d), want));
                    }
                }
                self.took(&what, 0, 0, st)?;
            }
        }
        Ok(())
    }
    /// Judge everything the two machines did in the last command.
    fn took(&mut self, what: &str, dt: u64, rt: u64, st: &mut Stats) -> Res {
        self.t += dt;
        {
            let rb = self.real.bus();
            let la = rb.host.log.borrow();
            let lb = self.refr.bus.host.log.borrow();
            if *la != *lb {
                let k = la.iter().zip(lb.iter()).take_while(|(x, y)| x == y).count();
                let kind = match (la.get(k), lb.get(k)) {
                    (Some(Ev::Frame(_)), _) | (_, Some(Ev::Frame(_))) => "frame",
                    (Some(Ev::Ack(..)), _) | (_, Some(Ev::Ack(..))) => "interrupt",
                    _ => "history",
                };
                let near = |l: &[Ev]| format!("{:x?}", &l[k.saturating_sub(2)..(k + 2).min(l.len())]);
                return fail(kind, format!("{}: histories part at event {}: {} vs {}", what, k, near(&la), near(&lb)));
            }
            for e in la.iter() {
                match e {
                    Ev::Frame(t) => {
                        // within one instruction (an acknowledge included) of its nominal time
                        let late = *t as i64 - self.refr.limit as i64;
                        if !(0..=40).contains(&late) {
                            return fail("drift", format!("{}: a frame ended at {}, {} T after its nominal time", what, t, late));
                        }
                        st.eat(*t);
                    }
                    Ev::Ack(_, v, t) => st.eat(t << 8 | *v as u64),
                    Ev::Out(p, v, t) => st.eat(hash3(*p as u64, *v as u64, *t)),
                    Ev::HostIn(..) => st.fault("input_bytes", 1),
                    Ev::HostOut(..) => st.probe("output_bytes", 1),
                    _ => {}
                }
            }
        }
        self.real.bus().host.log.borrow_mut().clear();
        self.refr.bus.host.log.borrow_mut().clear();
        if dt != rt {
            return fail("duration", format!("{}: {} T reported, {} T executed", what, dt, rt));
        }
        let (a, b) = (self.real.state(), self.refr.m.s);
        if a != b {
            return fail("state", format!("{}: {}", what, a.diff(&b)));
        }
        st.cover(hash3(b.pc as u64 >> 2, b.halt as u64 | (b.iff1 as u64) << 1 | (b.im as u64) << 2, dt.min(31)));
        Ok(())
    }
    pub fn end(&mut self, st: &mut Stats) {
        let h = &self.refr.bus.host;
        st.fault("output_refusals", h.refused.get());
        st.fault("interrupts_accepted", self.refr.acks);
        let secs = self.real.bus().base / self.refr.hz;
        st.fault("seconds_rebased", secs);
        st.steps += self.refr.n;
        st.sim_ts += self.refr.clk.0 - self.refr.hz;
    }
}

/// Panics that C24 is about.
pub const KNOWN_PANICS: [&str; 3] = ["too many pulses", "unsupported mode", "unsupported interrupt control"];

/// `recorded`: compare with the recorded peripherals, rebased as recorded.
fn pass(sc: &Sc, st: &mut Stats, reports: bool, recorded: bool) -> (Res, Both) {
    let mut b = Both::new(sc, reports, recorded);
    for (i, op) in sc.ops.iter().enumerate() {
        // a panic of the peripherals ends the run, it is judged by C24
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.op(i, op, st)));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(v)) if b.restarted && !recorded => return (fail("start", format!("[{}] {}", v.kind, v.msg)), b),
            Ok(r) => return (r, b),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if KNOWN_PANICS.iter().any(|k| m.contains(k)) {
                    st.probe("runs_cut_short_by_a_peripheral", 1);
                    break;
                }
                std::panic::resume_unwind(e);
            }
        }
    }
    (Ok(()), b)
}

pub fn run(sc: &Sc, st: &mut Stats, reports: bool) -> Res {
    let (r, mut b) = pass(sc, st, reports, false);
    if let Err(v) = r {
        // Is it one of the recorded defects of the peripherals?  Only if everything in
        // this history is exactly what the recorded ones do.
        if v.kind != "panic" {
            let again = guard(|| pass(sc, &mut Stats::new(), false, true).0);
            if let Ok(Ok(())) = again {
                let what = if v.kind == "start" { "restarted" } else { "rebased" };
                st.nontrivial = true;
                return fail("recorded", format!("[{}] {}: {}", what, v.kind, v.msg));
            }
        }
        return Err(v);
    }
    st.nontrivial = true;
    b.end(st);
    match b.soft.take() {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

pub fn gen(rng: &mut Rng, debug: bool) -> Sc {
    let cfg = *rng.pick(&[0u8, 0, 0, 0, 1, 1, 2]);
    let hz = gen_hz(rng, cfg);
    let mut sc = Sc {
        cfg,
        hz,
        ramkb: *rng.pick(&[48, 48, 48, 1, 2, 16]),
        stock: rng.chance(1, 12),
        seed: rng.u64(),
        body: Vec::new(),
        keys: Vec::new(),
        refuse: *rng.pick(&[0, 0, 2, 6]),
        fresh: !debug && rng.chance(1, 40),
        wild: 0,
        raw: false,
        tame: false,
        ops: Vec::new(),
    };
    let (frame, ext) = (frame_ts(&sc), hz / CFGS[cfg as usize].0);
    let wild = sc.seed & 3 == 0;
    for _ in 0..rng.range(2, 14) {
        sc.body.push(snippet(rng, frame, ext, wild, false));
    }
    let span = rng.range(1, 3 * hz as u64) as u32;
    for _ in 0..rng.below(12) {
        let v = if sc.stock { *rng.pick(b"12 ?hH\r\n\x1b?AZaz09") } else { rng.u8() };
        sc.keys.push((rng.below(span as u64 / 4 + 1) as u32, v));
    }
    // the frames of one second, roughly
    let sec = CFGS[cfg as usize].1 as u64;
    for _ in 0..rng.range(2, 16) {
        let op = if !debug {
            match rng.below(12) {
                0 => Op::Nmi,
                1 => Op::Reset,
                2 => Op::DStep(1 + rng.below(40) as u16),
                3 => Op::DInt(1 + rng.below(3) as u8),
                4 if rng.chance(1, 3) => Op::Start,
                _ => {
                    let n = if rng.chance(1, 3) { sec } else { 20 };
                    Op::Frames(1 + rng.below(n) as u16)
                }
            }
        } else {
            match rng.below(14) {
                0 => Op::Nmi,
                1 => {
                    if rng.chance(1, 3) {
                        Op::Reset
                    } else {
                        Op::Preview
                    }
                }
                2..=4 => Op::DStep(1 + rng.below(60) as u16),
                5..=6 => Op::DInt(1 + rng.below(6) as u8),
                7..=8 => Op::DRet(1 + rng.below(6) as u8),
                9..=10 => {
                    let mut b = Vec::new();
                    for _ in 0..rng.below(5) {
                        b.push(match rng.below(4) {
                            0 => 0x1000 + 0x20 * rng.below(8) as u16,
                            1 => *rng.pick(&[0x08, 0x10, 0x28, 0x38, 0x66, 0x80, 0x4000, 0x2000, 0xFFFF, 0]),
                            2 => 0x1400 + 0x40 * rng.below(8) as u16,
                            _ => 0x100 + rng.below(0xC0) as u16,
                        });
                    }
                    b.sort();
                    b.dedup();
                    Op::DBrk(b, 1 + rng.below(4) as u8)
                }
                _ => {
                    let n = if rng.chance(1, 6) { sec } else { 6 };
                    Op::Frames(1 + rng.below(n) as u16)
                }
            }
        };
        sc.ops.push(op);
    }
    sc
}

pub fn shrink(sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
    let mut sc = sc;
    loop {
        let before = sc.clone();
        sc.ops = ddmin(sc.ops.clone(), &mut |o| test(&Sc { ops: o.to_vec(), ..sc.clone() }));
        sc.body = ddmin(sc.body.clone(), &mut |o| test(&Sc { body: o.to_vec(), ..sc.clone() }));
        sc.keys = ddmin(sc.keys.clone(), &mut |o| test(&Sc { keys: o.to_vec(), ..sc.clone() }));
        for i in 0..sc.ops.len() {
            loop {
                let less = match &sc.ops[i] {
                    Op::Frames(n) if *n > 1 => vec![Op::Frames(n / 2), Op::Frames(n - 1)],
                    Op::DStep(n) if *n > 1 => vec![Op::DStep(n / 2), Op::DStep(n - 1)],
                    Op::DInt(n) if *n > 1 => vec![Op::DInt(n - 1)],
                    Op::DRet(n) if *n > 1 => vec![Op::DRet(n - 1)],
                    Op::DBrk(b, n) if *n > 1 => vec![Op::DBrk(b.clone(), n - 1)],
                    Op::DBrk(b, n) if b.len() > 1 => (0..b.len())
                        .map(|k| {
                            let mut b = b.clone();
                            b.remove(k);
                            Op::DBrk(b, *n)
                        })
                        .collect(),
                    _ => vec![],
                };
                let mut better = None;
                for o in less {
                    let mut c = sc.clone();
                    c.ops[i] = o;
                    if test(&c) {
                        better = Some(c);
                        break;
                    }
                }
                match better {
                    Some(c) => sc = c,
                    None => break,
                }
            }
        }
        for c in [Sc { refuse: 0, ..sc.clone() }, Sc { stock: false, ..sc.clone() }] {
            if c != sc && test(&c) {
                sc = c;
            }
        }
        if sc == before {
            return sc;
        }
    }
}

/// A piece of guest program that uses one part of the computer.
fn focused(rng: &mut Rng, part: &str, frame: u32, ext: u32) -> Vec<u8> {
    let mut v = Vec::new();
    let at = |rng: &mut Rng| {
        let a = 0x3E00 + rng.below(0x100) as u16;
        [a as u8, (a >> 8) as u8]
    };
    match part {
        "C17" => match rng.below(8) {
            0..=1 => {
                let c = rng.below(4) as u8;
                ctc_setup(rng, &mut v, c, frame, ext, false)
            }
            2 => {
                let a = at(rng);
                v.extend([0xDB, 4 + rng.below(4) as u8, 0x32, a[0], a[1]])
            }
            3 => v.extend([0x0E, 4 + rng.below(4) as u8, 0xED, *rng.pick(&[0x40, 0x50, 0x58, 0x60, 0x68, 0x70, 0x78])]),
            4 => {
                let a = at(rng);
                v.extend([0x21, a[0], a[1], 0x01, 4 + rng.below(4) as u8, 1 + rng.below(12) as u8, 0xED, *rng.pick(&[0xA2, 0xAA, 0xB2, 0xBA])])
            }
            5 => v.extend([0x06, 1 + rng.below(60) as u8, 0x10, 0xFE]),
            6 => v.extend([0x01, 0xFF, 0x00 + rng.below(2) as u8, 0x21, 0, 0x1A, 0xED, *rng.pick(&[0xA1, 0xB1, 0xA9])]),
            _ => v.extend([0xFB, 0x76]),
        },
        "C18" => match rng.below(9) {
            0 => pio_setup(rng, &mut v),
            1 => v.extend([0xDB, 8, 0xD3, 10]),
            2 => {
                let a = at(rng);
                v.extend([0x3E, rng.u8(), 0xD3, 10, 0xDB, 8, 0x32, a[0], a[1]])
            }
            3 => {
                let a = at(rng);
                v.extend([0x21, a[0], a[1], 0x01, *rng.pick(&[8, 8, 10]), 1 + rng.below(6) as u8, 0xED, *rng.pick(&[0xA2, 0xAA, 0xB2, 0xBA])])
            }
            4 => v.extend([0x21, rng.u8(), 0x1A, 0x01, 10, 1 + rng.below(6) as u8, 0xED, *rng.pick(&[0xA3, 0xAB, 0xB3, 0xBB])]),
            5 => v.extend([0x0E, 10, 0xED, *rng.pick(&[0x41, 0x51, 0x59, 0x61, 0x69, 0x71, 0x79])]),
            6 => v.extend([0x0E, 8, 0xED, *rng.pick(&[0x40, 0x50, 0x58, 0x60, 0x68, 0x70, 0x78])]),
            7 => v.extend([0x06, 1 + rng.below(60) as u8, 0x10, 0xFE]),
            _ => v.extend([0xFB, 0x76]),
        },
        "C19" => match rng.below(10) {
            0 => {
                let c = rng.below(4) as u8;
                ctc_setup(rng, &mut v, c, frame, ext, false)
            }
            1 => pio_setup(rng, &mut v),
            2 => v.extend([0xF3, 0x06, 1 + rng.below(200) as u8, 0x10, 0xFE, 0xFB]),
            3 => v.extend([0xFB, 0x76]),
            // a return from a service nobody asked for
            4 => v.extend([0xCD, 0x20 * rng.below(8) as u8, 0x10, 0x18, 0x00, 0x00]),
            5 => v.extend([0x3E, rng.u8() & 0xF8, 0xD3, 4]),
            6 => v.extend([0xFB, *rng.pick(&[0xDD, 0xFD]), *rng.pick(&[0xDD, 0xFD]), 0xDD, 0x00]),
            7 => v.extend([0xED, *rng.pick(&[0x5E, 0x5E, 0x56, 0x46])]),
            8 => {
                let a = at(rng);
                v.extend([0x21, 0x00, 0x1A, 0x11, a[0], a[1], 0x01, 1 + rng.below(40) as u8, 0, 0xED, *rng.pick(&[0xB0, 0xB1])])
            }
            _ => v.extend([0xDB, 8, 0xD3, 10]),
        },
        _ => {
            let edge = |rng: &mut Rng| {
                let a = (*rng.pick(&[0x2000u16, 0x2000, 0x4000, 0x3FFE, 0x0000, 0x4400, 0x8000])).wrapping_add(rng.below(5) as u16).wrapping_sub(2);
                [a as u8, (a >> 8) as u8]
            };
            let (a, b) = (edge(rng), edge(rng));
            match rng.below(10) {
                0 => v.extend([0x3E, rng.below(4) as u8, 0xD3, 124]),
                1 => v.extend([0xDB, 124]),
                2 => v.extend([*rng.pick(&[0x32, 0x3A, 0x22, 0x2A]), a[0], a[1]]),
                3 => v.extend([0xED, *rng.pick(&[0x43, 0x4B, 0x53, 0x5B, 0x6B]), a[0], a[1]]),
                4 => v.extend([0x21, a[0], a[1], 0x11, b[0], b[1], 0x01, 1 + rng.below(6) as u8, 0, 0xED, *rng.pick(&[0xB0, 0xB8, 0xA0, 0xA8, 0xB1])]),
                5 => v.extend([0xCD, 0x00, 0x20]),
                6 => v.extend([0x21, a[0], a[1], *rng.pick(&[0x34, 0x35, 0x7E, 0x77, 0x86, 0xBE])]),
                7 => v.extend([0xDD, 0x21, a[0], a[1], 0xDD, *rng.pick(&[0x34, 0x7E, 0x77, 0xBE]), *rng.pick(&[0, 1, 0xFF, 0x7F, 0x80])]),
                // the stack over an edge
                8 => v.extend([0xF3, 0xED, 0x73, 0x20, 0x3F, 0x31, a[0], a[1], 0xC5, 0xE5, 0xD1, 0xE3, 0xF1, 0xED, 0x7B, 0x20, 0x3F, 0xFB]),
                _ => v.extend([0x21, a[0], a[1], 0xED, *rng.pick(&[0x67, 0x6F]), 0xCB, *rng.pick(&[0x06, 0xC6, 0x46, 0x36])]),
            }
        }
    }
    v
}

/// A computer whose guest uses mainly the part of one property, for less than a second.
pub fn gen_part(rng: &mut Rng, part: &str) -> Sc {
    let mut sc = gen(rng, false);
    sc.stock = false;
    sc.fresh = false;
    let (frame, ext) = (frame_ts(&sc), sc.hz / CFGS[sc.cfg as usize].0);
    sc.body.truncate(3);
    for _ in 0..rng.range(2, 12) {
        let at = rng.below(sc.body.len() as u64 + 1) as usize;
        sc.body.insert(at, focused(rng, part, frame, ext));
    }
    let sec = CFGS[sc.cfg as usize].1 as u64;
    let mut left = sec - 2;
    sc.ops.clear();
    for _ in 0..rng.range(2, 12) {
        sc.ops.push(match rng.below(10) {
            0 => Op::Nmi,
            1 if rng.chance(1, 2) => Op::Reset,
            _ => {
                let n = (1 + rng.below(16)).min(left);
                if n == 0 {
                    break;
                }
                left -= n;
                Op::Frames(n as u16)
            }
        });
    }
    sc
}

/// Some runs of a property on its own, the others on the whole computer.
pub struct With<P, const N: u64>(std::marker::PhantomData<P>);
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mix<S> {
    Part(S),
    Whole(Sc),
}
fn both(a: &'static [&'static str], b: &[&'static str]) -> &'static [&'static str] {
    Box::leak(a.iter().copied().chain(b.iter().copied()).collect::<Vec<_>>().into_boxed_slice())
}
impl<P: Prop, const N: u64> Prop for With<P, N> {
    const ID: &'static str = P::ID;
    type Sc = Mix<P::Sc>;
    fn gen(rng: &mut Rng, i: u64) -> Self::Sc {
        if i % N == N - 1 {
            Mix::Whole(gen_part(rng, P::ID))
        } else {
            Mix::Part(P::gen(rng, i))
        }
    }
    fn run(sc: &Self::Sc, st: &mut Stats) -> Res {
        match sc {
            Mix::Part(s) => P::run(s, st),
            Mix::Whole(s) => {
                st.probe("whole_computer_runs", 1);
                run(s, st, false)
            }
        }
    }
    fn shrink(sc: Self::Sc, test: &mut dyn FnMut(&Self::Sc) -> bool) -> Self::Sc {
        match sc {
            Mix::Part(s) => Mix::Part(P::shrink(s, &mut |s| test(&Mix::Part(s.clone())))),
            Mix::Whole(s) => Mix::Whole(shrink(s, &mut |s| test(&Mix::Whole(s.clone())))),
        }
    }
    fn runs(tier: Tier) -> u64 {
        P::runs(tier)
    }
    fn rule() -> &'static str {
        Box::leak(format!("{}; one run in {} is a guest using this part of the whole computer, compared after every frame with a computer driven by the reference processor", P::rule(), N).into_boxed_str())
    }
    fn state_measure() -> &'static str {
        P::state_measure()
    }
    fn real() -> &'static [&'static str] {
        both(P::real(), &["the whole ral1243 computer with z80emu::Z80<NMOS|CMOS|BM1> in the whole-computer runs"])
    }
    fn stub() -> &'static [&'static str] {
        both(P::stub(), &["guest programs and the reference processor of the second computer in the whole-computer runs"])
    }
    fn assumptions() -> &'static [&'static str] {
        P::assumptions()
    }
}
