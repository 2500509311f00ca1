//! Object-safe driver of the real processor (all variants, static and dynamic).
use crate::model::{Brk, Fl, State};
use crate::sim::{SimBus, SimClock};
use std::any::Any;
use z80emu::z80::{any::Z80Any, Flavour};
use z80emu::{
    host::Result as HostResult, z80, BreakCause, Clock, Cpu, CpuDebug, CpuDebugFn, CpuFlags, InterruptMode, Io, Memory, Prefix, Reg8,
    StkReg16, Z80,
};

pub fn brk(r: HostResult<u32, u32>) -> Brk {
    match r {
        Ok(()) => Brk::None,
        Err(BreakCause::Halt) => Brk::Halt,
        Err(BreakCause::WriteIo(t)) => Brk::WrIo(t),
        Err(BreakCause::Reti(t)) => Brk::Reti(t),
    }
}

pub fn im_num(im: InterruptMode) -> u8 {
    match im {
        InterruptMode::Mode0 => 0,
        InterruptMode::Mode1 => 1,
        InterruptMode::Mode2 => 2,
    }
}

pub fn im_of(n: u8) -> InterruptMode {
    match n {
        0 => InterruptMode::Mode0,
        1 => InterruptMode::Mode1,
        _ => InterruptMode::Mode2,
    }
}

/// How to persist a processor.
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Snap {
    Json,
    /// JSON with snake_case aliases
    JsonSnake,
    /// JSON with the accepted alternative forms of values, reordered, from a stream
    JsonAlt,
    Bincode,
    /// bincode from a stream
    BincodeStream,
    /// a self-describing format unlike JSON
    Tree,
    Clone,
}

/// Generic host used by the driver: SimBus/SimClock or anything with the same time type.
pub trait RCpu: Any {
    fn step(&mut self, bus: &mut SimBus, clk: &mut SimClock) -> Brk;
    fn step_dbg(&mut self, bus: &mut SimBus, clk: &mut SimClock, out: &mut Vec<CpuDebug>) -> Brk;
    fn limit(&mut self, bus: &mut SimBus, clk: &mut SimClock, lim: u64) -> Brk;
    fn nmi(&mut self, bus: &mut SimBus, clk: &mut SimClock) -> bool;
    fn irq(&mut self, bus: &mut SimBus, clk: &mut SimClock) -> Option<Brk>;
    fn irq_dbg(&mut self, bus: &mut SimBus, clk: &mut SimClock, out: &mut Vec<CpuDebug>) -> Option<Brk>;
    fn exec(&mut self, bus: &mut SimBus, clk: &mut SimClock, code: u8) -> Brk;
    fn exec_dbg(&mut self, bus: &mut SimBus, clk: &mut SimClock, code: u8, out: &mut Vec<CpuDebug>) -> Brk;
    fn state(&self) -> State;
    /// Set everything the public interface can set (not prefix, not EI shadow).
    fn load(&mut self, s: &State);
    fn reset(&mut self);
    fn dup(&self) -> Box<dyn RCpu>;
    fn same(&self, o: &dyn RCpu) -> bool;
    /// What `==` and `!=` say, as the processors are.
    fn equals(&self, o: &dyn RCpu) -> (bool, bool);
    /// The `Debug` form, plain and pretty.
    fn printed(&self) -> (String, String);
    /// `clone_from`
    fn overwrite(&mut self, o: &dyn RCpu);
    fn save(&self, how: Snap) -> Vec<u8>;
    fn restore(&mut self, how: Snap, data: &[u8]) -> Result<(), String>;
    fn irq_allowed(&self) -> bool;
    fn nmi_allowed(&self) -> bool;
    fn norm_r(&mut self);
    fn api(&mut self, op: &ApiOp) -> u64;
    /// Do all accessors and the saved form agree with the architectural state?
    fn views(&self) -> Result<(), String>;
    fn any(&self) -> &dyn Any;
}

/// Register-file operations of the public interface.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum ApiOp {
    SetPc(u16),
    SetSp(u16),
    SetAcc(u8),
    SetFlags(u8),
    IncR,
    AddR(i32),
    SetR(u8),
    SetI(u8),
    SetIffs(bool, bool),
    Halt,
    SetIm(u8),
    ExAfAf,
    Exx,
    SetReg(u8, u8, u8),
    GetReg(u8, u8),
    SetReg16(u8, u16),
    SetReg2(u8, u8, u8),
    GetReg2(u8),
    GetAlt2(u8),
    SetIndex16(u8, u16),
    SetIndex2(u8, u8, u8),
    GetIndex2(u8),
    RestoreIff1,
    DisableInt,
    EnableInt,
    SetMemptr(u16),
    Queries,
}

pub fn pfx(n: u8) -> Option<Prefix> {
    match n {
        0xDD | 1 => Some(Prefix::Xdd),
        0xFD | 2 => Some(Prefix::Yfd),
        _ => None,
    }
}
fn pfx1(n: u8) -> Prefix {
    if n & 1 == 0 {
        Prefix::Xdd
    } else {
        Prefix::Yfd
    }
}
fn reg8(n: u8) -> Reg8 {
    match n % 7 {
        0 => Reg8::B,
        1 => Reg8::C,
        2 => Reg8::D,
        3 => Reg8::E,
        4 => Reg8::H,
        5 => Reg8::L,
        _ => Reg8::A,
    }
}
fn stk(n: u8) -> StkReg16 {
    match n & 3 {
        0 => StkReg16::BC,
        1 => StkReg16::DE,
        2 => StkReg16::HL,
        _ => StkReg16::AF,
    }
}
fn two(v: (u8, u8)) -> u64 {
    (v.0 as u64) << 8 | v.1 as u64
}

/// What the same operation does to the plain architectural state.
pub fn api_model(s: &mut State, op: &ApiOp) -> u64 {
    use ApiOp::*;
    fn w(hi: u8, lo: u8) -> u16 {
        u16::from_be_bytes([hi, lo])
    }
    let swap = |a: &mut u16, b: &mut u16| std::mem::swap(a, b);
    match *op {
        SetPc(v) => s.pc = v,
        SetSp(v) => s.sp = v,
        SetAcc(v) => s.af = w(v, s.af as u8),
        SetFlags(v) => s.af = (s.af & 0xFF00) | v as u16,
        IncR => s.r = (s.r & 0x80) | (s.r.wrapping_add(1) & 0x7F),
        AddR(d) => s.r = (s.r & 0x80) | (((s.r as i64 + d as i64).rem_euclid(128)) as u8),
        SetR(v) => s.r = v,
        SetI(v) => s.i = v,
        SetIffs(a, b) => {
            s.iff1 = a;
            s.iff2 = b
        }
        Halt => s.halt = true,
        SetIm(n) => s.im = n % 3,
        ExAfAf => swap(&mut s.af, &mut s.af_),
        Exx => {
            swap(&mut s.bc, &mut s.bc_);
            swap(&mut s.de, &mut s.de_);
            swap(&mut s.hl, &mut s.hl_);
        }
        SetReg(n, p, v) => {
            let h = match pfx(p) {
                Some(Prefix::Xdd) => &mut s.ix,
                Some(Prefix::Yfd) => &mut s.iy,
                None => &mut s.hl,
            };
            match n % 7 {
                0 => s.bc = w(v, s.bc as u8),
                1 => s.bc = (s.bc & 0xFF00) | v as u16,
                2 => s.de = w(v, s.de as u8),
                3 => s.de = (s.de & 0xFF00) | v as u16,
                4 => *h = w(v, *h as u8),
                5 => *h = (*h & 0xFF00) | v as u16,
                _ => s.af = w(v, s.af as u8),
            }
        }
        GetReg(n, p) => {
            let h = match pfx(p) {
                Some(Prefix::Xdd) => s.ix,
                Some(Prefix::Yfd) => s.iy,
                None => s.hl,
            };
            return match n % 7 {
                0 => s.bc >> 8,
                1 => s.bc & 0xFF,
                2 => s.de >> 8,
                3 => s.de & 0xFF,
                4 => h >> 8,
                5 => h & 0xFF,
                _ => s.af >> 8,
            } as u64;
        }
        SetReg16(n, v) => *[&mut s.bc, &mut s.de, &mut s.hl, &mut s.af][n as usize & 3] = v,
        SetReg2(n, a, b) => *[&mut s.bc, &mut s.de, &mut s.hl, &mut s.af][n as usize & 3] = w(a, b),
        GetReg2(n) => return [s.bc, s.de, s.hl, s.af][n as usize & 3] as u64,
        GetAlt2(n) => return [s.bc_, s.de_, s.hl_, s.af_][n as usize & 3] as u64,
        SetIndex16(n, v) => *[&mut s.ix, &mut s.iy][n as usize & 1] = v,
        SetIndex2(n, a, b) => *[&mut s.ix, &mut s.iy][n as usize & 1] = w(a, b),
        GetIndex2(n) => return [s.ix, s.iy][n as usize & 1] as u64,
        RestoreIff1 => s.iff1 = s.iff2,
        DisableInt => {
            s.iff1 = false;
            s.iff2 = false
        }
        EnableInt => {
            s.iff1 = true;
            s.iff2 = true;
            s.ei = true
        }
        SetMemptr(v) => s.wz = v,
        Queries => {
            let allowed = s.prefix == 0 && !s.ei;
            return (s.pc as u64) << 48
                | (s.sp as u64) << 32
                | (s.i as u64) << 24
                | (s.r as u64) << 16
                | (s.iff1 as u64) << 15
                | (s.iff2 as u64) << 14
                | (s.halt as u64) << 13
                | (s.im as u64) << 11
                | (s.ei as u64) << 10
                | ((s.prefix != 0) as u64) << 9
                | ((allowed && s.iff1) as u64) << 8
                | (allowed as u64) << 7
                | match s.prefix {
                    0xDD => 1,
                    0xFD => 2,
                    _ => 0,
                };
        }
    }
    0
}

pub fn api_real<C: Cpu + Wz>(c: &mut C, op: &ApiOp) -> u64 {
    use ApiOp::*;
    match *op {
        SetPc(v) => c.set_pc(v),
        SetSp(v) => c.set_sp(v),
        SetAcc(v) => c.set_acc(v),
        SetFlags(v) => c.set_flags(CpuFlags::from_bits_retain(v)),
        IncR => c.inc_r(),
        AddR(d) => c.add_r(d),
        SetR(v) => c.set_r(v),
        SetI(v) => c.set_i(v),
        SetIffs(a, b) => c.set_iffs(a, b),
        Halt => c.halt(),
        SetIm(n) => c.set_im(im_of(n % 3)),
        ExAfAf => c.ex_af_af(),
        Exx => c.exx(),
        SetReg(n, p, v) => c.set_reg(reg8(n), pfx(p), v),
        GetReg(n, p) => return c.get_reg(reg8(n), pfx(p)) as u64,
        SetReg16(n, v) => c.set_reg16(stk(n), v),
        SetReg2(n, a, b) => c.set_reg2(stk(n), a, b),
        GetReg2(n) => return two(c.get_reg2(stk(n))),
        GetAlt2(n) => return two(c.get_alt_reg2(stk(n))),
        SetIndex16(n, v) => c.set_index16(pfx1(n), v),
        SetIndex2(n, a, b) => c.set_index2(pfx1(n), a, b),
        GetIndex2(n) => return two(c.get_index2(pfx1(n))),
        RestoreIff1 => c.restore_iff1(),
        DisableInt => c.disable_interrupts(),
        EnableInt => c.enable_interrupts(),
        SetMemptr(v) => c.set_wz(v),
        Queries => {
            let (i1, i2) = c.get_iffs();
            return (c.get_pc() as u64) << 48
                | (c.get_sp() as u64) << 32
                | (c.get_i() as u64) << 24
                | (c.get_r() as u64) << 16
                | (i1 as u64) << 15
                | (i2 as u64) << 14
                | (c.is_halt() as u64) << 13
                | (im_num(c.get_im()) as u64) << 11
                | (c.is_after_ei() as u64) << 10
                | (c.is_after_prefix() as u64) << 9
                | (c.is_irq_allowed() as u64) << 8
                | (c.is_nmi_allowed() as u64) << 7
                | match c.get_prefix() {
                    Some(Prefix::Xdd) => 1,
                    Some(Prefix::Yfd) => 2,
                    None => 0,
                };
        }
    }
    0
}

/// MEMPTR and R normalisation are inherent methods of both forms.
pub trait Wz {
    fn wz(&self) -> u16;
    fn set_wz(&mut self, v: u16);
    fn norm(&mut self);
}
impl<F: Flavour> Wz for Z80<F> {
    fn wz(&self) -> u16 {
        self.get_memptr()
    }
    fn set_wz(&mut self, v: u16) {
        self.set_memptr(v)
    }
    fn norm(&mut self) {
        self.normalize_r()
    }
}
impl Wz for Z80Any {
    fn wz(&self) -> u16 {
        self.get_memptr()
    }
    fn set_wz(&mut self, v: u16) {
        self.set_memptr(v)
    }
    fn norm(&mut self) {
        self.normalize_r()
    }
}

pub fn get_state<C: Cpu + Wz>(c: &C) -> State {
    let (iff1, iff2) = c.get_iffs();
    State {
        af: c.get_reg16(StkReg16::AF),
        bc: c.get_reg16(StkReg16::BC),
        de: c.get_reg16(StkReg16::DE),
        hl: c.get_reg16(StkReg16::HL),
        af_: c.get_alt_reg16(StkReg16::AF),
        bc_: c.get_alt_reg16(StkReg16::BC),
        de_: c.get_alt_reg16(StkReg16::DE),
        hl_: c.get_alt_reg16(StkReg16::HL),
        ix: c.get_index16(Prefix::Xdd),
        iy: c.get_index16(Prefix::Yfd),
        sp: c.get_sp(),
        pc: c.get_pc(),
        wz: c.wz(),
        i: c.get_i(),
        r: c.get_r(),
        iff1,
        iff2,
        im: im_num(c.get_im()),
        halt: c.is_halt(),
        prefix: match c.get_prefix() {
            None => 0,
            Some(Prefix::Xdd) => 0xDD,
            Some(Prefix::Yfd) => 0xFD,
        },
        ei: c.is_after_ei(),
    }
}

pub fn put_state<C: Cpu + Wz>(c: &mut C, s: &State) {
    c.set_reg16(StkReg16::AF, s.af_);
    c.ex_af_af();
    c.set_reg16(StkReg16::BC, s.bc_);
    c.set_reg16(StkReg16::DE, s.de_);
    c.set_reg16(StkReg16::HL, s.hl_);
    c.exx();
    c.set_reg16(StkReg16::AF, s.af);
    c.set_reg16(StkReg16::BC, s.bc);
    c.set_reg16(StkReg16::DE, s.de);
    c.set_reg16(StkReg16::HL, s.hl);
    c.set_index16(Prefix::Xdd, s.ix);
    c.set_index16(Prefix::Yfd, s.iy);
    c.set_sp(s.sp);
    c.set_pc(s.pc);
    c.set_i(s.i);
    c.set_r(s.r);
    c.set_iffs(s.iff1, s.iff2);
    c.set_im(im_of(s.im));
    c.set_wz(s.wz);
}

/// Compare every accessor, and the saved form of the fields, with the plain state.
fn views<C: Cpu + Wz>(c: &C, j: &serde_json::Value) -> Result<(), String> {
    let s = get_state(c);
    let mut bad = Vec::new();
    let mut is = |what: &str, got: u64, want: u64| {
        if got != want {
            bad.push(format!("{} is {:04x} but the register holds {:04x}", what, got, want));
        }
    };
    let n = |v: &serde_json::Value| v.as_u64().unwrap_or(u64::MAX);
    let b = |v: &serde_json::Value| v.as_bool().map_or(9, |x| x as u64);
    let ir = n(&j["ir"]);
    for (what, got, want) in [
        ("saved af", n(&j["af"]), s.af),
        ("saved af'", n(&j["afAlt"]), s.af_),
        ("saved bc", n(&j["regs"]["bc"]), s.bc),
        ("saved de", n(&j["regs"]["de"]), s.de),
        ("saved hl", n(&j["regs"]["hl"]), s.hl),
        ("saved bc'", n(&j["regsAlt"]["bc"]), s.bc_),
        ("saved de'", n(&j["regsAlt"]["de"]), s.de_),
        ("saved hl'", n(&j["regsAlt"]["hl"]), s.hl_),
        ("saved ix", n(&j["index"]["ix"]), s.ix),
        ("saved iy", n(&j["index"]["iy"]), s.iy),
        ("saved pc", n(&j["pc"]), s.pc),
        ("saved sp", n(&j["sp"]), s.sp),
        ("saved memptr", n(&j["memptr"]), s.wz),
        ("saved i", ir >> 8, s.i as u16),
        ("saved r", ir & 0x80 | n(&j["r"]) & 0x7F, s.r as u16),
        ("saved iff1", b(&j["iff1"]), s.iff1 as u16),
        ("saved iff2", b(&j["iff2"]), s.iff2 as u16),
        ("saved halt", b(&j["halt"]), s.halt as u16),
        ("saved lastEi", b(&j["lastEi"]), s.ei as u16),
        ("saved im", ["Mode0", "Mode1", "Mode2"].iter().position(|x| j["im"] == *x).unwrap_or(9) as u64, s.im as u16),
        ("saved prefix", if j["prefix"].is_null() { 0 } else if j["prefix"] == "Xdd" { 0xDD } else if j["prefix"] == "Yfd" { 0xFD } else { 9 }, s.prefix as u16),
        ("get_acc", c.get_acc() as u64, s.af >> 8),
        ("get_flags", c.get_flags().bits() as u64, s.af & 0xFF),
        ("get_ir", c.get_ir() as u64, (s.i as u16) << 8 | s.r as u16),
    ] {
        is(what, got, want as u64);
    }
    for k in 0..4u8 {
        is("get_reg2", two(c.get_reg2(stk(k))), [s.bc, s.de, s.hl, s.af][k as usize] as u64);
        is("get_alt_reg2", two(c.get_alt_reg2(stk(k))), [s.bc_, s.de_, s.hl_, s.af_][k as usize] as u64);
    }
    for k in 0..2u8 {
        is("get_index2", two(c.get_index2(pfx1(k))), [s.ix, s.iy][k as usize] as u64);
    }
    let mut m = s;
    for p in 0..3u8 {
        for k in 0..7u8 {
            is("get_reg", c.get_reg(reg8(k), pfx(p)) as u64, api_model(&mut m, &ApiOp::GetReg(k, p)));
        }
    }
    let allowed = s.prefix == 0 && !s.ei;
    is("is_after_prefix", c.is_after_prefix() as u64, (s.prefix != 0) as u64);
    is("is_irq_allowed", c.is_irq_allowed() as u64, (allowed && s.iff1) as u64);
    is("is_nmi_allowed", c.is_nmi_allowed() as u64, allowed as u64);
    if bad.is_empty() {
        Ok(())
    } else {
        Err(bad.join(", "))
    }
}

fn snake(json: &str) -> String {
    json.replace("\"afAlt\"", "\"af_alt\"")
        .replace("\"regsAlt\"", "\"regs_alt\"")
        .replace("\"lastEi\"", "\"last_ei\"")
        .replace("\"flagsModified\"", "\"flags_modified\"")
        .replace("\"lastFlagsModified\"", "\"last_flags_modified\"")
}

/// Rewrite a JSON snapshot using the alternative forms that are documented to load.
pub fn alt_forms(json: &str) -> Vec<u8> {
    use serde_json::Value;
    let mut v: Value = serde_json::from_str(json).expect("own json");
    let mut h = crate::rng::hash_bytes(json.as_bytes());
    fn pair(x: &mut Value, h: &mut u64) {
        *h = crate::rng::hash2(*h, 1);
        let n = x.as_u64().expect("register") as u16;
        *x = match *h >> 20 & 7 {
            0 => serde_json::json!([n as u8, n >> 8]),
            1 => Value::from(format!("0x{:04x}", n)),
            2 => Value::from(format!("${:x}", n)),
            3 => Value::from(format!("{:04X}", n)),
            4 => Value::from(n as i16),
            _ => return,
        };
    }
    let o = v.as_object_mut().expect("object");
    for k in ["af", "afAlt", "pc", "sp", "memptr", "ir"] {
        pair(&mut o[k], &mut h);
    }
    for k in ["regs", "regsAlt", "index"] {
        for (_, x) in o[k].as_object_mut().expect("registers").iter_mut() {
            pair(x, &mut h);
        }
    }
    // field order is free
    let mut items: Vec<(String, Value)> = o.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for i in (1..items.len()).rev() {
        h = crate::rng::hash2(h, 2);
        items.swap(i, (h % (i as u64 + 1)) as usize);
    }
    let mut s = String::from("{");
    for (i, (k, v)) in items.iter().enumerate() {
        s += &format!("{}{}:{}", if i > 0 { ", " } else { "" }, Value::from(k.as_str()), v);
    }
    (s + "}").into_bytes()
}

#[cfg(not(feature = "saved"))]
pub trait Storable: Clone + PartialEq + std::fmt::Debug + Cpu + Wz + 'static {}
#[cfg(not(feature = "saved"))]
impl<T: Clone + PartialEq + std::fmt::Debug + Cpu + Wz + 'static> Storable for T {}

#[cfg(feature = "saved")]
pub trait Storable: serde::Serialize + serde::de::DeserializeOwned + Clone + PartialEq + std::fmt::Debug + Cpu + Wz + 'static {}
#[cfg(feature = "saved")]
impl<T: serde::Serialize + serde::de::DeserializeOwned + Clone + PartialEq + std::fmt::Debug + Cpu + Wz + 'static> Storable for T {}

pub struct Drv<C: Storable>(pub C);

impl<C: Storable> RCpu for Drv<C> {
    fn step(&mut self, bus: &mut SimBus, clk: &mut SimClock) -> Brk {
        const D: Option<CpuDebugFn> = None;
        brk(self.0.execute_next(bus, clk, D))
    }
    fn step_dbg(&mut self, bus: &mut SimBus, clk: &mut SimClock, out: &mut Vec<CpuDebug>) -> Brk {
        brk(self.0.execute_next(bus, clk, Some(|d| out.push(d))))
    }
    fn limit(&mut self, bus: &mut SimBus, clk: &mut SimClock, lim: u64) -> Brk {
        brk(self.0.execute_with_limit(bus, clk, lim))
    }
    fn nmi(&mut self, bus: &mut SimBus, clk: &mut SimClock) -> bool {
        self.0.nmi(bus, clk)
    }
    fn irq(&mut self, bus: &mut SimBus, clk: &mut SimClock) -> Option<Brk> {
        const D: Option<CpuDebugFn> = None;
        self.0.irq(bus, clk, D).map(brk)
    }
    fn irq_dbg(&mut self, bus: &mut SimBus, clk: &mut SimClock, out: &mut Vec<CpuDebug>) -> Option<Brk> {
        self.0.irq(bus, clk, Some(|d| out.push(d))).map(brk)
    }
    fn exec(&mut self, bus: &mut SimBus, clk: &mut SimClock, code: u8) -> Brk {
        const D: Option<CpuDebugFn> = None;
        brk(self.0.execute_instruction(bus, clk, D, code))
    }
    fn exec_dbg(&mut self, bus: &mut SimBus, clk: &mut SimClock, code: u8, out: &mut Vec<CpuDebug>) -> Brk {
        brk(self.0.execute_instruction(bus, clk, Some(|d| out.push(d)), code))
    }
    fn state(&self) -> State {
        get_state(&self.0)
    }
    fn load(&mut self, s: &State) {
        put_state(&mut self.0, s)
    }
    fn reset(&mut self) {
        self.0.reset()
    }
    fn dup(&self) -> Box<dyn RCpu> {
        Box::new(Drv(self.0.clone()))
    }
    fn same(&self, o: &dyn RCpu) -> bool {
        match o.any().downcast_ref::<Drv<C>>() {
            Some(o) => {
                let mut a = self.0.clone();
                let mut b = o.0.clone();
                a.norm();
                b.norm();
                a == b
            }
            None => false,
        }
    }
    fn equals(&self, o: &dyn RCpu) -> (bool, bool) {
        let o = o.any().downcast_ref::<Drv<C>>().expect("same type");
        (self.0 == o.0, self.0 != o.0)
    }
    fn printed(&self) -> (String, String) {
        (format!("{:?}", self.0), format!("{:#?}", self.0))
    }
    fn overwrite(&mut self, o: &dyn RCpu) {
        self.0.clone_from(&o.any().downcast_ref::<Drv<C>>().expect("same type").0)
    }
    #[cfg(not(feature = "saved"))]
    fn save(&self, _: Snap) -> Vec<u8> {
        unreachable!()
    }
    #[cfg(not(feature = "saved"))]
    fn restore(&mut self, _: Snap, _: &[u8]) -> Result<(), String> {
        unreachable!()
    }
    #[cfg(not(feature = "saved"))]
    fn views(&self) -> Result<(), String> {
        unreachable!()
    }
    #[cfg(feature = "saved")]
    fn save(&self, how: Snap) -> Vec<u8> {
        match how {
            Snap::Json | Snap::Tree => serde_json::to_vec(&self.0).expect("serialize json"),
            Snap::JsonSnake => snake(&serde_json::to_string(&self.0).expect("serialize json")).into_bytes(),
            Snap::JsonAlt => alt_forms(&serde_json::to_string(&self.0).expect("serialize json")),
            Snap::Bincode | Snap::BincodeStream => bincode::serialize(&self.0).expect("serialize bincode"),
            Snap::Clone => Vec::new(),
        }
    }
    #[cfg(feature = "saved")]
    fn restore(&mut self, how: Snap, data: &[u8]) -> Result<(), String> {
        self.0 = match how {
            Snap::Json | Snap::JsonSnake => serde_json::from_slice(data).map_err(|e| e.to_string())?,
            Snap::JsonAlt => serde_json::from_reader(data).map_err(|e| e.to_string())?,
            Snap::Tree => crate::tree::load(data, crate::rng::hash_bytes(data))?,
            Snap::Bincode => bincode::deserialize(data).map_err(|e| e.to_string())?,
            Snap::BincodeStream => bincode::deserialize_from(data).map_err(|e| e.to_string())?,
            Snap::Clone => self.0.clone(),
        };
        Ok(())
    }
    fn irq_allowed(&self) -> bool {
        self.0.is_irq_allowed()
    }
    fn nmi_allowed(&self) -> bool {
        self.0.is_nmi_allowed()
    }
    fn norm_r(&mut self) {
        self.0.norm()
    }
    fn api(&mut self, op: &ApiOp) -> u64 {
        api_real(&mut self.0, op)
    }
    #[cfg(feature = "saved")]
    fn views(&self) -> Result<(), String> {
        views(&self.0, &serde_json::to_value(&self.0).expect("serialize json"))
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

pub fn real(fl: Fl) -> Box<dyn RCpu> {
    match fl {
        Fl::Nmos => Box::new(Drv(Z80::<z80::NMOS>::new())),
        Fl::Cmos => Box::new(Drv(Z80::<z80::CMOS>::new())),
        Fl::Bm1 => Box::new(Drv(Z80::<z80::BM1>::new())),
        Fl::Custom => Box::new(Drv(Z80::<crate::custom::Custom>::new())),
    }
}

pub fn real_any(fl: Fl) -> Box<dyn RCpu> {
    Box::new(Drv(match fl {
        Fl::Nmos => Z80Any::new_nmos(),
        Fl::Cmos => Z80Any::new_cmos(),
        Fl::Bm1 => Z80Any::new_bm1(),
        Fl::Custom => unreachable!(),
    }))
}

/// Convert a static processor into another variant.
pub fn convert(c: &dyn RCpu, from: Fl, to: Fl) -> Box<dyn RCpu> {
    macro_rules! get {
        ($f:ty) => {
            c.any().downcast_ref::<Drv<Z80<$f>>>().expect("variant").0.clone()
        };
    }
    macro_rules! to {
        ($cpu:expr) => {
            match to {
                Fl::Nmos => Box::new(Drv($cpu.into_flavour::<z80::NMOS>())) as Box<dyn RCpu>,
                Fl::Cmos => Box::new(Drv($cpu.into_flavour::<z80::CMOS>())),
                Fl::Bm1 => Box::new(Drv($cpu.into_flavour::<z80::BM1>())),
                Fl::Custom => unreachable!(),
            }
        };
    }
    match from {
        Fl::Nmos => to!(get!(z80::NMOS)),
        Fl::Cmos => to!(get!(z80::CMOS)),
        Fl::Bm1 => to!(get!(z80::BM1)),
        Fl::Custom => unreachable!(),
    }
}

#[allow(dead_code)]
fn _assert_seams<T: Clock, M: Memory + Io>(_: &T, _: &M) {}

/// Convert a run-time selected processor into another variant.
pub fn convert_any(c: &dyn RCpu, to: Fl) -> Box<dyn RCpu> {
    let a = c.any().downcast_ref::<Drv<Z80Any>>().expect("any").0.clone();
    Box::new(Drv(match to {
        Fl::Nmos => a.into_nmos(),
        Fl::Cmos => a.into_cmos(),
        Fl::Bm1 => a.into_bm1(),
        Fl::Custom => unreachable!(),
    }))
}

/// The same processor with its variant chosen at run time.
pub fn static_to_any(c: &dyn RCpu, fl: Fl) -> Box<dyn RCpu> {
    macro_rules! get {
        ($f:ty) => {
            Z80Any::from(c.any().downcast_ref::<Drv<Z80<$f>>>().expect("variant").0.clone())
        };
    }
    Box::new(Drv(match fl {
        Fl::Nmos => get!(z80::NMOS),
        Fl::Cmos => get!(z80::CMOS),
        Fl::Bm1 => get!(z80::BM1),
        Fl::Custom => unreachable!(),
    }))
}

/// The same processor with a static variant; `unwrap` uses the panicking accessor.
pub fn any_to_static(c: &dyn RCpu, to: Fl, unwrap: bool) -> Box<dyn RCpu> {
    let a = c.any().downcast_ref::<Drv<Z80Any>>().expect("any").0.clone();
    match (to, unwrap) {
        (Fl::Nmos, true) => Box::new(Drv(a.unwrap_nmos())),
        (Fl::Cmos, true) => Box::new(Drv(a.unwrap_cmos())),
        (Fl::Bm1, true) => Box::new(Drv(a.unwrap_bm1())),
        (Fl::Nmos, false) => Box::new(Drv(Z80::<z80::NMOS>::from(a))),
        (Fl::Cmos, false) => Box::new(Drv(Z80::<z80::CMOS>::from(a))),
        (Fl::Bm1, false) => Box::new(Drv(Z80::<z80::BM1>::from(a))),
        (Fl::Custom, _) => unreachable!(),
    }
}

/// Is this run-time selected processor what it should be?
pub fn any_is(c: &dyn RCpu, fl: Fl) -> bool {
    let a = &c.any().downcast_ref::<Drv<Z80Any>>().expect("any").0;
    let t = match fl {
        Fl::Nmos => "NMOS",
        Fl::Cmos => "CMOS",
        Fl::Bm1 => "BM1",
        Fl::Custom => unreachable!(),
    };
    a.tag() == t && a.is_nmos() == (fl == Fl::Nmos) && a.is_cmos() == (fl == Fl::Cmos) && a.is_bm1() == (fl == Fl::Bm1)
}

/// Construct by name.
pub fn any_with_tag(tag: &str) -> Option<Box<dyn RCpu>> {
    Z80Any::with_tag(tag).map(|a| Box::new(Drv(a)) as Box<dyn RCpu>)
}
