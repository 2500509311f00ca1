//! C20: the computer's memory map.
use crate::cpusc::gen_instr;
use crate::engine::*;
use crate::ensure;
use crate::rng::{hash3, mix, Rng};
use ral1243::bus::{Bus, BusDevice, BusMemory, Terminator};
use ral1243::memory::{Memory as RalMemory, Rom};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::num::NonZeroU16;
use z80emu::*;

pub struct C20;

const PAGE: usize = 0x2000;
const CTRL: u8 = 124;

/// Contents of a cartridge: `code` chooses program text instead of noise.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Img {
    pub seed: u64,
    pub len: u16,
    pub code: bool,
}

impl Img {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.len as usize + 8);
        if self.code {
            let mut rng = Rng::new(self.seed);
            while v.len() < self.len as usize {
                gen_ral_code(&mut rng, &mut v);
            }
        } else {
            for i in 0..self.len as u64 {
                v.push(mix(self.seed ^ i) as u8);
            }
        }
        v.truncate(self.len as usize);
        v
    }
}

/// Program text that visits the pages and the control port.
fn gen_ral_code(rng: &mut Rng, v: &mut Vec<u8>) {
    let edge = |rng: &mut Rng| *rng.pick(&[0x0000u16, 0x1FFE, 0x1FFF, 0x2000, 0x3FFD, 0x3FFF, 0x4000, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]);
    match rng.below(10) {
        0 => v.extend([0x3E, rng.below(6) as u8, 0xD3, CTRL]),
        1 => v.extend([0xDB, CTRL]),
        2 => {
            let a = edge(rng).wrapping_add(rng.below(4) as u16).wrapping_sub(1).to_le_bytes();
            v.extend([*rng.pick(&[0x22, 0x2A, 0x32, 0x3A]), a[0], a[1]]);
        }
        3 => {
            let a = edge(rng).wrapping_add(rng.below(64) as u16).wrapping_sub(32).to_le_bytes();
            v.extend([*rng.pick(&[0xC3, 0xCD, 0xC2, 0xDA]), a[0], a[1]]);
        }
        4 => {
            let a = rng.corner16().to_le_bytes();
            v.extend([*rng.pick(&[0x21, 0x31, 0x11, 0x01, 0x31]), a[0], a[1]]);
        }
        5 => v.extend([0xED, *rng.pick(&[0xA0, 0xB0, 0xA8, 0xB8, 0x43, 0x4B, 0x73, 0x7B]), rng.u8(), rng.u8()]),
        6 => v.push(*rng.pick(&[0xC5, 0xD5, 0xE5, 0xF5, 0xE3, 0xC9, 0xE1, 0x36, 0x34, 0xC7, 0xFF, 0xEF])),
        _ => v.extend(gen_instr(rng)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Fetch(u16),
    Read(u16),
    Read16(u16),
    Write(u16, u8),
    /// write a port; the low byte decides
    Out(u16, u8),
    In(u16),
    Attach(Img),
    /// insert this many cartridges at once
    AttachMany(u16),
    Eject,
    View(u16, u16),
    Reset,
    FrameEnd,
    NextSecond,
    /// the real processor executes this many instructions from here
    Run(u16, u16, u16),
    Nmi,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sc {
    pub ramkb: u8,
    pub rom: Img,
    pub ops: Vec<Op>,
}

/// The documented memory map.
#[derive(Clone)]
struct Map {
    rom: Vec<u8>,
    ram0: Vec<u8>,
    ram: Vec<u8>,
    cards: Vec<Vec<u8>>,
    sel: u8,
    /// the program counter is in the ROM
    kernel: bool,
}
impl Map {
    fn get(&self, a: u16) -> u8 {
        let a = a as usize;
        match a / PAGE {
            0 => self.rom[a],
            1 if self.kernel => self.ram0[a - PAGE],
            1 => self.cards.get(self.sel as usize).map_or(0xFF, |c| c[a - PAGE]),
            _ => self.ram.get(a - 2 * PAGE).copied().unwrap_or(0xFF),
        }
    }
    fn get16(&self, a: u16) -> u16 {
        u16::from_le_bytes([self.get(a), self.get(a.wrapping_add(1))])
    }
    fn put(&mut self, a: u16, d: u8) {
        let a = a as usize;
        match a / PAGE {
            0 => {}
            1 if self.kernel => self.ram0[a - PAGE] = d,
            1 => {}
            _ => {
                if let Some(p) = self.ram.get_mut(a - 2 * PAGE) {
                    *p = d
                }
            }
        }
    }
}
fn pad(mut v: Vec<u8>) -> Vec<u8> {
    v.resize(PAGE, 0xFF);
    v
}

type RalBus = Bus<Terminator<u32>, RalMemory>;

/// The real memory with every access judged against the map.
struct Judged {
    real: RalBus,
    map: Map,
    err: RefCell<Option<(&'static str, String)>>,
    n: u64,
    cov: Vec<u64>,
}
impl Judged {
    fn bad(&self, kind: &'static str, m: String) {
        let mut e = self.err.borrow_mut();
        if e.is_none() {
            *e = Some((kind, m));
        }
    }
    fn take(&self) -> Res {
        match self.err.borrow_mut().take() {
            Some((k, m)) => fail(k, m),
            None => Ok(()),
        }
    }
    fn at(&mut self, kind: u64, a: u16) {
        self.n += 1;
        let m = &self.map;
        let region = (a as u64 >> 13) << 8 | m.kernel as u64 | (((m.sel as usize) < m.cards.len()) as u64) << 1 | ((a as usize) < 0x4000 + m.ram.len()) as u64 * 4;
        let edge = match a & 0x1FFF {
            0 => 1,
            0x1FFF => 2,
            0x1FFE => 3,
            _ => 0,
        };
        self.cov.push(hash3(kind, region, edge));
    }
}
impl Memory for Judged {
    type Timestamp = u32;
    fn read_debug(&self, a: u16) -> u8 {
        let (x, y) = (self.real.read_debug(a), self.map.get(a));
        if x != y {
            self.bad("debug", format!("debug view of {:04x} is {:02x}, the map says {:02x}", a, x, y));
        }
        x
    }
    fn read_mem(&self, a: u16, ts: u32) -> u8 {
        let (x, y) = (self.real.read_mem(a, ts), self.map.get(a));
        if x != y {
            self.bad("read", format!("read of {:04x} gives {:02x}, the map says {:02x}", a, x, y));
        }
        x
    }
    fn read_mem16(&self, a: u16, ts: u32) -> u16 {
        let (x, y) = (self.real.read_mem16(a, ts), self.map.get16(a));
        if x != y {
            self.bad("read16", format!("word read of {:04x} gives {:04x}, the map says {:04x}", a, x, y));
        }
        x
    }
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: u32) -> u8 {
        self.map.kernel = (pc as usize) < PAGE;
        self.at(1, pc);
        let (x, y) = (self.real.read_opcode(pc, ir, ts), self.map.get(pc));
        if x != y {
            self.bad("fetch", format!("fetch from {:04x} gives {:02x}, the map says {:02x}", pc, x, y));
        }
        x
    }
    fn write_mem(&mut self, a: u16, d: u8, ts: u32) {
        self.at(2, a);
        self.real.write_mem(a, d, ts);
        self.map.put(a, d);
        let (x, y) = (self.real.read_debug(a), self.map.get(a));
        if x != y {
            self.bad("write", format!("after writing {:02x} to {:04x} it holds {:02x}, the map says {:02x}", d, a, x, y));
        }
    }
}
impl Io for Judged {
    type Timestamp = u32;
    type WrIoBreak = ();
    type RetiBreak = ();
    fn write_io(&mut self, port: u16, d: u8, ts: u32) -> (Option<()>, Option<NonZeroU16>) {
        if port as u8 == CTRL {
            self.map.sel = d;
            self.at(3, d as u16);
        }
        self.real.write_io(port, d, ts)
    }
    fn read_io(&mut self, port: u16, ts: u32) -> (u8, Option<NonZeroU16>) {
        let r = self.real.read_io(port, ts);
        let want = if port as u8 == CTRL { self.map.sel } else { 0xFF };
        if r.0 != want {
            self.bad("control", format!("port {:04x} reads {:02x}, should read {:02x}", port, r.0, want));
        }
        r
    }
}

impl Prop for C20 {
    const ID: &'static str = "C20";
    type Sc = Sc;
    fn gen(rng: &mut Rng, i: u64) -> Sc {
        let img = |rng: &mut Rng| Img { seed: rng.u64(), len: *rng.pick(&[0, 1, 300, 0x1FFE, 0x1FFF, 0x2000, 0x2000]), code: rng.chance(1, 2) };
        let ramkb = match rng.below(4) {
            0 => *rng.pick(&[0, 1, 47, 48]),
            _ => rng.below(49) as u8,
        };
        let top = 0x4000u32 + ramkb as u32 * 1024;
        let addr = |rng: &mut Rng| -> u16 {
            match rng.below(4) {
                0 => rng.u16(),
                1 => (*rng.pick(&[0u32, 0x2000, 0x4000, top, 0x1_0000]) as u16).wrapping_add(rng.below(6) as u16).wrapping_sub(3),
                2 => 0x2000 + rng.below(0x2000) as u16,
                _ => rng.corner16(),
            }
        };
        let mut ops = Vec::new();
        for _ in 0..rng.below(5) {
            ops.push(Op::Attach(img(rng)));
        }
        let n = rng.range(5, 120);
        while ops.len() < n as usize {
            ops.push(match rng.below(24) {
                0..=3 => Op::Fetch(addr(rng)),
                4..=5 => Op::Read(addr(rng)),
                6..=8 => Op::Read16(addr(rng)),
                9..=12 => Op::Write(addr(rng), rng.u8()),
                13..=15 => Op::Out((rng.u16() & 0xFF00) | CTRL as u16, *rng.pick(&[0, 0, 1, 2, 3, 255, 254, 4])),
                16 => match rng.below(3) {
                    0 => Op::Out(rng.u16(), rng.u8()),
                    1 => Op::In((rng.u16() & 0xFF00) | CTRL as u16),
                    _ => Op::In(rng.u16()),
                },
                17 => Op::Attach(img(rng)),
                18 => match rng.below(4) {
                    0 => Op::Eject,
                    1 if i % 16 == 0 => Op::AttachMany(rng.below(300) as u16),
                    2 => Op::View(addr(rng), rng.below(40) as u16),
                    _ => Op::Reset,
                },
                19 => match rng.below(4) {
                    0 => Op::FrameEnd,
                    1 => Op::NextSecond,
                    _ => Op::Nmi,
                },
                _ => Op::Run(addr(rng), rng.corner16(), rng.below(60) as u16),
            });
        }
        Sc { ramkb, rom: img(rng), ops }
    }
    fn run(sc: &Sc, st: &mut Stats) -> Res {
        let rom = sc.rom.bytes();
        let mem = RalMemory::new(&rom, sc.ramkb as usize);
        let map = Map { rom: pad(rom), ram0: vec![0; PAGE], ram: vec![0; sc.ramkb as usize * 1024], cards: vec![], sel: 0, kernel: false };
        let mut j = Judged { real: Bus::new(Terminator::new(), mem).with_port_bits(0xFF, CTRL as u16), map, err: RefCell::new(None), n: 0, cov: vec![] };
        let mut cpu = Z80NMOS::default();
        let mut clk = host::TsCounter::<u32>::default();
        let mut ts = 0u32;
        let mut card = 0u64;
        for (k, op) in sc.ops.iter().enumerate() {
            ts += 4;
            match *op {
                Op::Fetch(a) => {
                    j.read_opcode(a, 0, ts);
                }
                Op::Read(a) => {
                    j.read_mem(a, ts);
                }
                Op::Read16(a) => {
                    j.read_mem16(a, ts);
                }
                Op::Write(a, d) => j.write_mem(a, d, ts),
                Op::Out(p, d) => {
                    j.write_io(p, d, ts);
                }
                Op::In(p) => {
                    j.read_io(p, ts);
                }
                Op::Attach(img) => {
                    let b = img.bytes();
                    let free = j.real.memory_ref().free_exrom_slots();
                    ensure!(free == 256 - j.map.cards.len(), "slots", "op {}: {} free slots with {} cartridges", k, free, j.map.cards.len());
                    if free > 0 {
                        let rom: Rom = ral1243::exrom_from_slice(&b);
                        let n = j.real.memory_mut().attach_exrom(rom);
                        j.map.cards.push(pad(b));
                        ensure!(n == j.map.cards.len(), "slots", "op {}: {} cartridges reported, {} inserted", k, n, j.map.cards.len());
                        st.fault("cartridges_inserted", 1);
                    }
                }
                Op::AttachMany(n) => {
                    let imgs: Vec<Vec<u8>> = (0..n as u64).map(|i| (0..4).map(|x| mix(i * 4 + x + card) as u8).collect()).collect();
                    card += 10_000;
                    let v: Vec<Rom> = imgs.iter().map(|b| RalMemory::make_rom(b)).collect();
                    let got = j.real.memory_mut().attach_exroms(v);
                    let want = (n as usize).min(256 - j.map.cards.len());
                    ensure!(got == want, "slots", "op {}: {} of {} cartridges inserted, expected {}", k, got, n, want);
                    j.map.cards.extend(imgs.into_iter().take(want).map(pad));
                    st.fault("cartridge_floods", 1);
                }
                Op::Eject => {
                    let v = j.real.memory_mut().eject_exroms();
                    ensure!(v.len() == j.map.cards.len() && v.iter().zip(&j.map.cards).all(|(a, b)| a[..] == b[..]), "modified", "op {}: an ejected cartridge differs from the one inserted", k);
                    st.fault("cartridges_pulled", v.len() as u64);
                    j.map.cards.clear();
                }
                Op::View(a, n) => {
                    let e = a.saturating_add(n);
                    let v = j.real.memory_debug(a..e);
                    let w: Vec<u8> = (a..e).map(|x| j.map.get(x)).collect();
                    ensure!(v == w, "view", "op {}: view of {:04x}..{:04x} differs from the map", k, a, e);
                }
                Op::Reset => {
                    j.real.reset(ts);
                    st.fault("resets", 1);
                }
                Op::FrameEnd => j.real.frame_end(ts),
                Op::NextSecond => j.real.next_second(1),
                Op::Run(pc, sp, n) => {
                    cpu.set_pc(pc);
                    cpu.set_sp(sp);
                    for _ in 0..n {
                        let _ = cpu.execute_next(&mut j, &mut clk, Some(|_: CpuDebug| {}));
                        j.take()?;
                    }
                    st.probe("instructions", n as u64);
                    st.eat(cpu.get_pc() as u64);
                }
                Op::Nmi => {
                    cpu.nmi(&mut j, &mut clk);
                    st.fault("nmis", 1);
                }
            }
            if let Err(mut e) = j.take() {
                e.msg = format!("op {} {:?}: {}", k, op, e.msg);
                return Err(e);
            }
        }
        // everything, in both states of the trap, through every selector in use
        let sels = j.map.cards.len().min(4) as u16;
        for s in 0..=sels {
            for kernel in [0u16, 0x4000] {
                if s > 0 {
                    j.write_io(CTRL as u16, (s - 1) as u8, ts);
                }
                j.read_opcode(kernel, 0, ts);
                let range = if s == 0 { 0..=0xFFFF } else { 0x1FFFu16..=0x4000 };
                for a in range {
                    let (x, y) = (j.real.read_debug(a), j.map.get(a));
                    ensure!(x == y, "final", "finally, address {:04x} holds {:02x}, the map says {:02x} (selector {}, kernel {})", a, x, y, j.map.sel, j.map.kernel);
                    if s == 0 {
                        let (x, y) = (j.real.read_mem16(a, ts), j.map.get16(a));
                        ensure!(x == y, "final16", "finally, word {:04x} holds {:04x}, the map says {:04x}", a, x, y);
                    }
                }
                j.take()?;
            }
        }
        for h in std::mem::take(&mut j.cov) {
            st.cover(h);
            st.eat(h);
        }
        st.steps += j.n;
        st.sim_ts += clk.as_timestamp() as u64 + ts as u64;
        st.nontrivial = j.n > 4;
        Ok(())
    }
    fn shrink(mut sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
        for _ in 0..2 {
            let ops = ddmin(sc.ops.clone(), &mut |o| test(&Sc { ops: o.to_vec(), ..sc.clone() }));
            if test(&Sc { ops: ops.clone(), ..sc.clone() }) {
                sc.ops = ops;
            }
            for i in 0..sc.ops.len() {
                if let Op::Run(a, b, n) = sc.ops[i] {
                    for m in [0, 1, n / 4, n / 2, n.saturating_sub(1)] {
                        let mut c = sc.clone();
                        c.ops[i] = Op::Run(a, b, m);
                        if m < n && test(&c) {
                            sc = c;
                            break;
                        }
                    }
                }
            }
            for c in [Sc { ramkb: 0, ..sc.clone() }, Sc { ramkb: 48, ..sc.clone() }, Sc { rom: Img { seed: 0, len: 0, code: false }, ..sc.clone() }] {
                if c != sc && test(&c) {
                    sc = c;
                }
            }
        }
        sc
    }
    fn real() -> &'static [&'static str] {
        &["ral1243::memory::Memory", "ral1243::bus::Bus", "ral1243::bus::Terminator", "z80emu::Z80<NMOS>"]
    }
    fn stub() -> &'static [&'static str] {
        &["host that inserts and pulls cartridges", "clock (z80emu::host::TsCounter)"]
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 30_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run is one seeded history of fetches, data accesses, control writes, cartridge changes, resets and real program execution on one memory; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (access kind, region, trap state, cartridge present, RAM present, page edge), hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["the page at 2000-3FFF follows the last instruction fetch, as the README's Traps section says"]
    }
}
