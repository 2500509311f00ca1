//! Independent reference interpreter of the Z80 (NMOS, CMOS, BM1), written from
//! the x/y/z/p/q decoding of the opcode matrix.  It talks to the same simulated
//! host as the real code, so it also specifies machine cycles and timestamps.
use crate::sim::NA;
use serde::{Deserialize, Serialize};

pub const CF: u8 = 1;
pub const NF: u8 = 2;
pub const PF: u8 = 4;
pub const XF: u8 = 8;
pub const HF: u8 = 0x10;
pub const YF: u8 = 0x20;
pub const ZF: u8 = 0x40;
pub const SF: u8 = 0x80;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fl {
    Nmos,
    Cmos,
    Bm1,
    /// a user-defined variant (C29)
    Custom,
}
pub const FLS: [Fl; 3] = [Fl::Nmos, Fl::Cmos, Fl::Bm1];

/// The observable architectural state.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, Default)]
pub struct State {
    pub af: u16,
    pub bc: u16,
    pub de: u16,
    pub hl: u16,
    pub af_: u16,
    pub bc_: u16,
    pub de_: u16,
    pub hl_: u16,
    pub ix: u16,
    pub iy: u16,
    pub sp: u16,
    pub pc: u16,
    pub wz: u16,
    pub i: u8,
    pub r: u8,
    pub iff1: bool,
    pub iff2: bool,
    pub im: u8,
    pub halt: bool,
    /// 0, 0xDD or 0xFD: prefix executed just before
    pub prefix: u8,
    /// EI executed just before
    pub ei: bool,
}

impl State {
    pub fn reset() -> State {
        State { af: 0xFFFF, af_: 0xFFFF, sp: 0xFFFF, ..Default::default() }
    }
    /// Names of the differing fields.
    pub fn diff(&self, o: &State) -> String {
        let a = serde_json::to_value(self).unwrap();
        let b = serde_json::to_value(o).unwrap();
        let mut s = String::new();
        for (k, v) in a.as_object().unwrap() {
            let w = &b[k];
            if v != w {
                let f = |v: &serde_json::Value| v.as_u64().map(|n| format!("{:#x}", n)).unwrap_or(v.to_string());
                s += &format!("{}: {} vs {}; ", k, f(v), f(w));
            }
        }
        s
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Brk {
    None,
    Halt,
    WrIo(u32),
    Reti(u32),
}

/// The clock as the model drives it; the returned times are those of the accesses.
pub trait MClk {
    fn now(&self) -> u64;
    fn m1(&mut self, a: u16) -> u64;
    fn mreq(&mut self, a: u16) -> u64;
    fn no_mreq(&mut self, a: u16, n: u8);
    fn io(&mut self, p: u16) -> u64;
    fn irq(&mut self, pc: u16) -> u64;
    fn wait(&mut self, bus: u16, n: u16);
}
/// Memory and devices as the model sees them.
pub trait MBus {
    fn op(&mut self, pc: u16, ir: u16, ts: u64) -> u8;
    fn rd(&mut self, a: u16, ts: u64) -> u8;
    fn wr(&mut self, a: u16, v: u8, ts: u64);
    fn peek(&self, a: u16) -> u8;
    fn inp(&mut self, p: u16, ts: u64) -> (u8, u16);
    fn out(&mut self, p: u16, v: u8, ts: u64) -> (Option<u32>, u16);
    fn line(&mut self, ts: u64) -> bool;
    fn ack(&mut self, pc: u16, ts: u64) -> (u8, u16);
    fn do_reti(&mut self, a: u16, ts: u64) -> Option<u32>;
}

#[derive(Clone, Debug)]
pub struct Model {
    pub s: State,
    pub fl: Fl,
    /// did the instruction being executed modify flags through the ALU
    pub q: bool,
    /// did the previous one
    pub q_last: bool,
    /// the same for the last eight (oldest first), as a user-defined variant records it
    pub hist: u8,
    /// bytes of the instruction being executed (for debugger checks)
    pub code: Vec<u8>,
    /// what the last step did
    pub kind: StepKind,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum StepKind {
    Instr,
    Prefix,
    Halted,
    Irq,
    Nmi,
}

// ---- the user-defined variant of C29: what it answers ----
pub const CUSTOM_OUT: u8 = 0xA7;
pub const CUSTOM_RESET: u8 = 0x35;
pub fn custom_q(hist: u8, a: u8, f: u8) -> u8 {
    a.rotate_left(3) ^ f.rotate_right(2) ^ hist.wrapping_mul(0x9D)
}
pub fn custom_mix(hi: u8, lo: u8) -> (u8, u8) {
    (lo.rotate_left(3) ^ 0x5A, hi.wrapping_add(lo.rotate_left(1)))
}

fn par(v: u8) -> u8 {
    if v.count_ones() & 1 == 0 {
        PF
    } else {
        0
    }
}
fn szxy(v: u8) -> u8 {
    (v & (SF | YF | XF)) | if v == 0 { ZF } else { 0 }
}

impl Model {
    pub fn new(fl: Fl) -> Model {
        Model { s: State::reset(), fl, q: false, q_last: false, hist: CUSTOM_RESET, code: Vec::new(), kind: StepKind::Instr }
    }
    fn a(&self) -> u8 {
        (self.s.af >> 8) as u8
    }
    fn f(&self) -> u8 {
        self.s.af as u8
    }
    fn set_a(&mut self, v: u8) {
        self.s.af = (self.s.af & 0xFF) | (v as u16) << 8
    }
    /// Flags written without the ALU latch.
    fn raw_f(&mut self, v: u8) {
        self.s.af = (self.s.af & 0xFF00) | v as u16
    }
    fn set_f(&mut self, v: u8) {
        self.raw_f(v);
        self.q = true;
    }
    fn ir(&self) -> u16 {
        (self.s.i as u16) << 8 | self.s.r as u16
    }
    fn inc_r(&mut self) {
        self.s.r = (self.s.r & 0x80) | (self.s.r.wrapping_add(1) & 0x7F)
    }
    fn m1<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B) -> u8 {
        self.inc_r();
        let pc = self.s.pc;
        let ts = c.m1(pc);
        let v = b.op(pc, self.ir(), ts);
        self.s.pc = pc.wrapping_add(1);
        self.code.push(v);
        v
    }
    fn rd<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, a: u16) -> u8 {
        let ts = c.mreq(a);
        b.rd(a, ts)
    }
    fn wr<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, a: u16, v: u8) {
        let ts = c.mreq(a);
        b.wr(a, v, ts)
    }
    /// 16-bit read: the seam defines the timestamp of the first byte only.
    fn rd16<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, a: u16) -> u16 {
        let lo = self.rd(c, b, a);
        let a1 = a.wrapping_add(1);
        c.mreq(a1);
        let hi = b.rd(a1, NA);
        u16::from_le_bytes([lo, hi])
    }
    fn imm8<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B) -> u8 {
        let v = self.rd(c, b, self.s.pc);
        self.s.pc = self.s.pc.wrapping_add(1);
        self.code.push(v);
        v
    }
    fn imm16<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B) -> u16 {
        let v = self.rd16(c, b, self.s.pc);
        self.s.pc = self.s.pc.wrapping_add(2);
        self.code.push(v as u8);
        self.code.push((v >> 8) as u8);
        v
    }
    fn push<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, v: u16) {
        self.s.sp = self.s.sp.wrapping_sub(1);
        self.wr(c, b, self.s.sp, (v >> 8) as u8);
        self.s.sp = self.s.sp.wrapping_sub(1);
        self.wr(c, b, self.s.sp, v as u8);
    }
    fn pop<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B) -> u16 {
        let v = self.rd16(c, b, self.s.sp);
        self.s.sp = self.s.sp.wrapping_add(2);
        v
    }
    fn idx(&self, p: u8) -> u16 {
        match p {
            0xDD => self.s.ix,
            0xFD => self.s.iy,
            _ => self.s.hl,
        }
    }
    fn set_idx(&mut self, p: u8, v: u16) {
        match p {
            0xDD => self.s.ix = v,
            0xFD => self.s.iy = v,
            _ => self.s.hl = v,
        }
    }
    /// 8-bit register by code (6 excluded), H/L replaced by index halves under a prefix.
    fn r8(&self, n: u8, p: u8) -> u8 {
        match n {
            0 => (self.s.bc >> 8) as u8,
            1 => self.s.bc as u8,
            2 => (self.s.de >> 8) as u8,
            3 => self.s.de as u8,
            4 => (self.idx(p) >> 8) as u8,
            5 => self.idx(p) as u8,
            7 => self.a(),
            _ => unreachable!(),
        }
    }
    fn set_r8(&mut self, n: u8, p: u8, v: u8) {
        let hi = |w: u16| (w & 0xFF) | (v as u16) << 8;
        let lo = |w: u16| (w & 0xFF00) | v as u16;
        match n {
            0 => self.s.bc = hi(self.s.bc),
            1 => self.s.bc = lo(self.s.bc),
            2 => self.s.de = hi(self.s.de),
            3 => self.s.de = lo(self.s.de),
            4 => self.set_idx(p, hi(self.idx(p))),
            5 => self.set_idx(p, lo(self.idx(p))),
            7 => self.set_a(v),
            _ => unreachable!(),
        }
    }
    /// BC, DE, HL/IX/IY, SP
    fn r16(&self, n: u8, p: u8) -> u16 {
        match n {
            0 => self.s.bc,
            1 => self.s.de,
            2 => self.idx(p),
            _ => self.s.sp,
        }
    }
    fn set_r16(&mut self, n: u8, p: u8, v: u16) {
        match n {
            0 => self.s.bc = v,
            1 => self.s.de = v,
            2 => self.set_idx(p, v),
            _ => self.s.sp = v,
        }
    }
    fn cond(&self, n: u8) -> bool {
        let f = self.f();
        match n {
            0 => f & ZF == 0,
            1 => f & ZF != 0,
            2 => f & CF == 0,
            3 => f & CF != 0,
            4 => f & PF == 0,
            5 => f & PF != 0,
            6 => f & SF == 0,
            _ => f & SF != 0,
        }
    }

    // ---- ALU ----
    fn add8(&mut self, v: u8, carry: u8) {
        let a = self.a();
        let r = a as u16 + v as u16 + carry as u16;
        let r8 = r as u8;
        let f = szxy(r8) | ((a ^ v ^ r8) & HF) | if (!(a ^ v) & (a ^ r8)) & 0x80 != 0 { PF } else { 0 } | if r > 0xFF { CF } else { 0 };
        self.set_a(r8);
        self.set_f(f);
    }
    fn sub8(&mut self, v: u8, carry: u8, store: bool, cpxy: bool) {
        let a = self.a();
        let r = (a as i16) - (v as i16) - (carry as i16);
        let r8 = r as u8;
        let mut f = szxy(r8) | NF | ((a ^ v ^ r8) & HF) | if ((a ^ v) & (a ^ r8)) & 0x80 != 0 { PF } else { 0 } | if r < 0 { CF } else { 0 };
        if cpxy {
            f = (f & !(XF | YF)) | (v & (XF | YF));
        }
        if store {
            self.set_a(r8);
        }
        self.set_f(f);
    }
    fn alu(&mut self, op: u8, v: u8) {
        let cy = self.f() & CF;
        match op {
            0 => self.add8(v, 0),
            1 => self.add8(v, cy),
            2 => self.sub8(v, 0, true, false),
            3 => self.sub8(v, cy, true, false),
            4 => {
                let r = self.a() & v;
                self.set_a(r);
                self.set_f(szxy(r) | par(r) | HF);
            }
            5 => {
                let r = self.a() ^ v;
                self.set_a(r);
                self.set_f(szxy(r) | par(r));
            }
            6 => {
                let r = self.a() | v;
                self.set_a(r);
                self.set_f(szxy(r) | par(r));
            }
            _ => self.sub8(v, 0, false, true),
        }
    }
    fn inc8(&mut self, v: u8) -> u8 {
        let r = v.wrapping_add(1);
        let f = (self.f() & CF) | szxy(r) | if v & 0xF == 0xF { HF } else { 0 } | if v == 0x7F { PF } else { 0 };
        self.set_f(f);
        r
    }
    fn dec8(&mut self, v: u8) -> u8 {
        let r = v.wrapping_sub(1);
        let f = (self.f() & CF) | NF | szxy(r) | if v & 0xF == 0 { HF } else { 0 } | if v == 0x80 { PF } else { 0 };
        self.set_f(f);
        r
    }
    fn add16(&mut self, p: u8, v: u16) {
        let d = self.idx(p);
        let r = d as u32 + v as u32;
        let f = (self.f() & (SF | ZF | PF))
            | ((r >> 8) as u8 & (XF | YF))
            | if (d & 0xFFF) + (v & 0xFFF) > 0xFFF { HF } else { 0 }
            | if r > 0xFFFF { CF } else { 0 };
        self.s.wz = d.wrapping_add(1);
        self.set_idx(p, r as u16);
        self.set_f(f);
    }
    fn adc16(&mut self, v: u16) {
        let d = self.s.hl;
        let cy = (self.f() & CF) as u32;
        let r = d as u32 + v as u32 + cy;
        let r16 = r as u16;
        let f = ((r16 >> 8) as u8 & (SF | XF | YF))
            | if r16 == 0 { ZF } else { 0 }
            | if ((d ^ v ^ r16) & 0x1000) != 0 { HF } else { 0 }
            | if (!(d ^ v) & (d ^ r16)) & 0x8000 != 0 { PF } else { 0 }
            | if r > 0xFFFF { CF } else { 0 };
        self.s.wz = d.wrapping_add(1);
        self.s.hl = r16;
        self.set_f(f);
    }
    fn sbc16(&mut self, v: u16) {
        let d = self.s.hl;
        let cy = (self.f() & CF) as i32;
        let r = d as i32 - v as i32 - cy;
        let r16 = r as u16;
        let f = ((r16 >> 8) as u8 & (SF | XF | YF))
            | NF
            | if r16 == 0 { ZF } else { 0 }
            | if ((d ^ v ^ r16) & 0x1000) != 0 { HF } else { 0 }
            | if ((d ^ v) & (d ^ r16)) & 0x8000 != 0 { PF } else { 0 }
            | if r < 0 { CF } else { 0 };
        self.s.wz = d.wrapping_add(1);
        self.s.hl = r16;
        self.set_f(f);
    }
    /// CB-style rotates and shifts.
    fn rot(&mut self, op: u8, v: u8) -> u8 {
        let cin = self.f() & CF;
        let (r, co) = match op {
            0 => (v << 1 | v >> 7, v >> 7),
            1 => (v >> 1 | v << 7, v & 1),
            2 => (v << 1 | cin, v >> 7),
            3 => (v >> 1 | cin << 7, v & 1),
            4 => (v << 1, v >> 7),
            5 => (v >> 1 | (v & 0x80), v & 1),
            6 => (v << 1 | 1, v >> 7),
            _ => (v >> 1, v & 1),
        };
        self.set_f(szxy(r) | par(r) | co);
        r
    }
    fn bit(&mut self, n: u8, v: u8, xy: u8) {
        let t = v & (1 << n);
        let f = (self.f() & CF) | HF | (t & SF) | if t == 0 { ZF | PF } else { 0 } | (xy & (XF | YF));
        self.set_f(f);
    }
    fn daa(&mut self) {
        let a = self.a();
        let f = self.f();
        let mut d = 0u8;
        let mut cy = f & CF;
        if f & HF != 0 || a & 0xF > 9 {
            d |= 6;
        }
        if cy != 0 || a > 0x99 {
            d |= 0x60;
            cy = CF;
        }
        let (r, h) = if f & NF != 0 {
            (a.wrapping_sub(d), if f & HF != 0 && a & 0xF < 6 { HF } else { 0 })
        } else {
            (a.wrapping_add(d), if a & 0xF > 9 { HF } else { 0 })
        };
        self.set_a(r);
        self.set_f(szxy(r) | par(r) | h | (f & NF) | cy);
    }
    fn scf_ccf(&mut self, ccf: bool) {
        let f = self.f();
        let a = self.a();
        let xy = match self.fl {
            Fl::Cmos => a,
            Fl::Custom => custom_q(self.hist, a, f),
            _ => {
                if self.q_last {
                    a
                } else {
                    a | f
                }
            }
        } & (XF | YF);
        let keep = f & (SF | ZF | PF);
        let r = if ccf {
            keep | xy | if f & CF != 0 { HF } else { CF }
        } else {
            keep | xy | CF
        };
        self.set_f(r);
    }
    fn mix(&self, hi: u8, lo: u8) -> u16 {
        if self.fl == Fl::Custom {
            let (h, l) = custom_mix(hi, lo);
            return u16::from_be_bytes([h, l]);
        }
        let h = if self.fl == Fl::Bm1 { 0 } else { hi };
        u16::from_be_bytes([h, lo.wrapping_add(1)])
    }

    fn begin(&mut self) {
        self.q_last = self.q;
        self.hist = self.hist << 1 | self.q as u8;
        self.q = false;
    }

    // ---- stepping ----
    pub fn irq_allowed(&self) -> bool {
        self.s.iff1 && self.s.prefix == 0 && !self.s.ei
    }
    pub fn nmi_allowed(&self) -> bool {
        self.s.prefix == 0 && !self.s.ei
    }

    pub fn step<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B) -> Brk {
        if self.irq_allowed() && b.line(c.now()) {
            return self.accept(c, b);
        }
        self.code.clear();
        if self.s.halt {
            self.kind = StepKind::Halted;
            c.m1(self.s.pc);
            self.inc_r();
            // a halted processor executes nothing, so the shadow of an EI that
            // the host forced meanwhile, or of a prefix, lasts one refresh cycle
            self.s.ei = false;
            self.s.prefix = 0;
            return Brk::None;
        }
        let op = self.m1(c, b);
        self.exec(c, b, op)
    }
    pub fn irq<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B) -> Option<Brk> {
        if self.irq_allowed() {
            Some(self.accept(c, b))
        } else {
            None
        }
    }
    fn accept<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B) -> Brk {
        self.code.clear();
        self.s.iff1 = false;
        self.s.iff2 = false;
        self.inc_r();
        if self.s.halt {
            self.s.halt = false;
            self.s.pc = self.s.pc.wrapping_add(1);
        }
        let pc = self.s.pc;
        let ts = c.irq(pc);
        let (v, w) = b.ack(pc, ts);
        if w != 0 {
            c.wait(pc, w);
        }
        let r = match self.s.im {
            0 => {
                self.code.push(v);
                self.exec(c, b, v)
            }
            1 => {
                self.code.push(0xFF);
                self.exec(c, b, 0xFF)
            }
            _ => {
                c.no_mreq(self.ir(), 1);
                let ret = self.s.pc;
                self.push(c, b, ret);
                self.s.pc = (self.s.i as u16) << 8 | v as u16;
                self.code.push(0xC3);
                self.exec(c, b, 0xC3)
            }
        };
        self.kind = StepKind::Irq;
        r
    }
    pub fn nmi<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B) -> bool {
        if !self.nmi_allowed() {
            return false;
        }
        self.s.iff1 = false;
        self.inc_r();
        if self.s.halt {
            self.s.halt = false;
            self.s.pc = self.s.pc.wrapping_add(1);
        }
        let pc = self.s.pc;
        c.m1(pc);
        c.no_mreq(self.ir(), 1);
        self.push(c, b, pc);
        self.begin();
        self.s.pc = 0x66;
        self.kind = StepKind::Nmi;
        true
    }

    /// Execute an instruction whose first byte is `op` (already fetched).
    pub fn exec<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, op: u8) -> Brk {
        self.s.ei = false;
        self.s.halt = false;
        self.begin();
        self.kind = StepKind::Instr;
        let p = self.s.prefix;
        self.s.prefix = 0;
        match op {
            0xDD | 0xFD => {
                self.s.prefix = op;
                self.kind = StepKind::Prefix;
                Brk::None
            }
            0xED => {
                let op2 = self.m1(c, b);
                self.ed(c, b, op2)
            }
            0xCB if p == 0 => {
                let op2 = self.m1(c, b);
                self.cb(c, b, op2);
                Brk::None
            }
            0xCB => {
                self.ddcb(c, b, p);
                Brk::None
            }
            _ => self.main(c, b, op, p),
        }
    }

    /// Effective address of (HL) or (ii+d); fetches d when prefixed.
    fn ea<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, p: u8) -> u16 {
        if p == 0 {
            self.s.hl
        } else {
            let at = self.s.pc;
            let d = self.imm8(c, b) as i8;
            c.no_mreq(at, 5);
            let a = self.idx(p).wrapping_add(d as u16);
            self.s.wz = a;
            a
        }
    }

    fn main<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, op: u8, p: u8) -> Brk {
        let (x, y, z) = (op >> 6, op >> 3 & 7, op & 7);
        let (pp, q) = (y >> 1, y & 1);
        match (x, z) {
            (0, 0) => match y {
                0 => {}
                1 => std::mem::swap(&mut self.s.af, &mut self.s.af_),
                2 => {
                    c.no_mreq(self.ir(), 1);
                    let bb = ((self.s.bc >> 8) as u8).wrapping_sub(1);
                    self.s.bc = (self.s.bc & 0xFF) | (bb as u16) << 8;
                    self.jr(c, b, bb != 0);
                }
                3 => self.jr(c, b, true),
                _ => {
                    let t = self.cond(y - 4);
                    self.jr(c, b, t);
                }
            },
            (0, 1) => {
                if q == 0 {
                    let v = self.imm16(c, b);
                    self.set_r16(pp, p, v);
                } else {
                    c.no_mreq(self.ir(), 7);
                    let v = self.r16(pp, p);
                    self.add16(p, v);
                }
            }
            (0, 2) => match y {
                0 | 2 => {
                    let a = if y == 0 { self.s.bc } else { self.s.de };
                    let v = self.a();
                    self.wr(c, b, a, v);
                    self.s.wz = self.mix(v, a as u8);
                }
                1 | 3 => {
                    let a = if y == 1 { self.s.bc } else { self.s.de };
                    let v = self.rd(c, b, a);
                    self.set_a(v);
                    self.s.wz = a.wrapping_add(1);
                }
                4 => {
                    let a = self.imm16(c, b);
                    let v = self.idx(p);
                    self.st16(c, b, a, v);
                }
                5 => {
                    let a = self.imm16(c, b);
                    let v = self.rd16(c, b, a);
                    self.s.wz = a.wrapping_add(1);
                    self.set_idx(p, v);
                }
                6 => {
                    let a = self.imm16(c, b);
                    let v = self.a();
                    self.wr(c, b, a, v);
                    self.s.wz = self.mix(v, a as u8);
                }
                _ => {
                    let a = self.imm16(c, b);
                    let v = self.rd(c, b, a);
                    self.set_a(v);
                    self.s.wz = a.wrapping_add(1);
                }
            },
            (0, 3) => {
                c.no_mreq(self.ir(), 2);
                let v = self.r16(pp, p);
                self.set_r16(pp, p, if q == 0 { v.wrapping_add(1) } else { v.wrapping_sub(1) });
            }
            (0, 4) | (0, 5) => {
                if y == 6 {
                    let a = self.ea(c, b, p);
                    let v = self.rd(c, b, a);
                    c.no_mreq(a, 1);
                    let r = if z == 4 { self.inc8(v) } else { self.dec8(v) };
                    self.wr(c, b, a, r);
                } else {
                    let v = self.r8(y, p);
                    let r = if z == 4 { self.inc8(v) } else { self.dec8(v) };
                    self.set_r8(y, p, r);
                }
            }
            (0, 6) => {
                if y == 6 {
                    if p == 0 {
                        let n = self.imm8(c, b);
                        self.wr(c, b, self.s.hl, n);
                    } else {
                        let d = self.imm8(c, b) as i8;
                        let at = self.s.pc;
                        let n = self.imm8(c, b);
                        c.no_mreq(at, 2);
                        let a = self.idx(p).wrapping_add(d as u16);
                        self.s.wz = a;
                        self.wr(c, b, a, n);
                    }
                } else {
                    let n = self.imm8(c, b);
                    self.set_r8(y, p, n);
                }
            }
            (0, _) => {
                let a = self.a();
                let f = self.f();
                let keep = f & (SF | ZF | PF);
                match y {
                    0..=3 => {
                        let (r, co) = match y {
                            0 => (a << 1 | a >> 7, a >> 7),
                            1 => (a >> 1 | a << 7, a & 1),
                            2 => (a << 1 | (f & CF), a >> 7),
                            _ => (a >> 1 | (f & CF) << 7, a & 1),
                        };
                        self.set_a(r);
                        self.set_f(keep | (r & (XF | YF)) | co);
                    }
                    4 => self.daa(),
                    5 => {
                        let r = !a;
                        self.set_a(r);
                        self.set_f(keep | (f & CF) | HF | NF | (r & (XF | YF)));
                    }
                    6 => self.scf_ccf(false),
                    _ => self.scf_ccf(true),
                }
            }
            (1, _) => {
                if op == 0x76 {
                    self.s.halt = true;
                    self.s.pc = self.s.pc.wrapping_sub(1);
                    return Brk::Halt;
                }
                if z == 6 {
                    let a = self.ea(c, b, p);
                    let v = self.rd(c, b, a);
                    self.set_r8(y, 0, v);
                } else if y == 6 {
                    let a = self.ea(c, b, p);
                    let v = self.r8(z, 0);
                    self.wr(c, b, a, v);
                } else {
                    let v = self.r8(z, p);
                    self.set_r8(y, p, v);
                }
            }
            (2, _) => {
                let v = if z == 6 {
                    let a = self.ea(c, b, p);
                    self.rd(c, b, a)
                } else {
                    self.r8(z, p)
                };
                self.alu(y, v);
            }
            (3, 0) => {
                c.no_mreq(self.ir(), 1);
                if self.cond(y) {
                    let v = self.pop(c, b);
                    self.s.pc = v;
                    self.s.wz = v;
                }
            }
            (3, 1) => {
                if q == 0 {
                    let v = self.pop(c, b);
                    match pp {
                        3 => self.s.af = v,
                        n => self.set_r16(n, p, v),
                    }
                } else {
                    match pp {
                        0 => {
                            let v = self.pop(c, b);
                            self.s.pc = v;
                            self.s.wz = v;
                        }
                        1 => {
                            std::mem::swap(&mut self.s.bc, &mut self.s.bc_);
                            std::mem::swap(&mut self.s.de, &mut self.s.de_);
                            std::mem::swap(&mut self.s.hl, &mut self.s.hl_);
                        }
                        2 => self.s.pc = self.idx(p),
                        _ => {
                            c.no_mreq(self.ir(), 2);
                            self.s.sp = self.idx(p);
                        }
                    }
                }
            }
            (3, 2) => {
                let a = self.imm16(c, b);
                self.s.wz = a;
                if self.cond(y) {
                    self.s.pc = a;
                }
            }
            (3, 3) => match y {
                0 => {
                    let a = self.imm16(c, b);
                    self.s.wz = a;
                    self.s.pc = a;
                }
                2 => {
                    let n = self.imm8(c, b);
                    let a = self.a();
                    let port = u16::from_be_bytes([a, n]);
                    self.s.wz = self.mix(a, n);
                    return self.out(c, b, port, a);
                }
                3 => {
                    let n = self.imm8(c, b);
                    let port = u16::from_be_bytes([self.a(), n]);
                    self.s.wz = port.wrapping_add(1);
                    let v = self.inp(c, b, port);
                    self.set_a(v);
                }
                4 => {
                    // EX (SP),HL
                    let sp = self.s.sp;
                    let sp1 = sp.wrapping_add(1);
                    let v = self.rd16(c, b, sp);
                    c.no_mreq(sp1, 1);
                    let w = self.idx(p);
                    self.wr(c, b, sp1, (w >> 8) as u8);
                    self.wr(c, b, sp, w as u8);
                    c.no_mreq(sp, 2);
                    self.set_idx(p, v);
                    self.s.wz = v;
                }
                5 => std::mem::swap(&mut self.s.de, &mut self.s.hl),
                6 => {
                    self.s.iff1 = false;
                    self.s.iff2 = false;
                }
                7 => {
                    self.s.iff1 = true;
                    self.s.iff2 = true;
                    self.s.ei = true;
                }
                _ => unreachable!(),
            },
            (3, 4) => {
                let t = self.cond(y);
                self.call(c, b, t);
            }
            (3, 5) => {
                if q == 0 {
                    c.no_mreq(self.ir(), 1);
                    let v = match pp {
                        3 => self.s.af,
                        n => self.r16(n, p),
                    };
                    self.push(c, b, v);
                } else {
                    // CALL nn (CB, ED, DD, FD handled by the caller)
                    self.call(c, b, true);
                }
            }
            (3, 6) => {
                let n = self.imm8(c, b);
                self.alu(y, n);
            }
            _ => {
                c.no_mreq(self.ir(), 1);
                let ret = self.s.pc;
                self.push(c, b, ret);
                self.s.pc = (y << 3) as u16;
                self.s.wz = self.s.pc;
            }
        }
        Brk::None
    }
    fn jr<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, take: bool) {
        let at = self.s.pc;
        if take {
            let d = self.imm8(c, b) as i8;
            c.no_mreq(at, 5);
            self.s.pc = self.s.pc.wrapping_add(d as u16);
            self.s.wz = self.s.pc;
        } else {
            // the operand cycle happens, its data is not used
            c.mreq(at);
            self.code.push(b.peek(at));
            self.s.pc = at.wrapping_add(1);
        }
    }
    fn call<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, take: bool) {
        let at1 = self.s.pc.wrapping_add(1);
        let a = self.imm16(c, b);
        self.s.wz = a;
        if take {
            c.no_mreq(at1, 1);
            let ret = self.s.pc;
            self.push(c, b, ret);
            self.s.pc = a;
        }
    }
    fn st16<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, a: u16, v: u16) {
        self.wr(c, b, a, v as u8);
        self.wr(c, b, a.wrapping_add(1), (v >> 8) as u8);
        self.s.wz = a.wrapping_add(1);
    }
    fn inp<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, port: u16) -> u8 {
        let ts = c.io(port);
        let (v, w) = b.inp(port, ts);
        if w != 0 {
            c.wait(port, w);
        }
        v
    }
    fn out<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, port: u16, v: u8) -> Brk {
        let ts = c.io(port);
        let (brk, w) = b.out(port, v, ts);
        if w != 0 {
            c.wait(port, w);
        }
        match brk {
            Some(t) => Brk::WrIo(t),
            None => Brk::None,
        }
    }

    fn cb<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, op: u8) {
        let (x, y, z) = (op >> 6, op >> 3 & 7, op & 7);
        if z == 6 {
            let a = self.s.hl;
            let v = self.rd(c, b, a);
            c.no_mreq(a, 1);
            if x == 1 {
                let xy = (self.s.wz >> 8) as u8;
                self.bit(y, v, xy);
                return;
            }
            let r = self.cbop(x, y, v);
            self.wr(c, b, a, r);
        } else {
            let v = self.r8(z, 0);
            if x == 1 {
                self.bit(y, v, v);
                return;
            }
            let r = self.cbop(x, y, v);
            self.set_r8(z, 0, r);
        }
    }
    fn cbop(&mut self, x: u8, y: u8, v: u8) -> u8 {
        match x {
            0 => self.rot(y, v),
            2 => v & !(1 << y),
            _ => v | 1 << y,
        }
    }
    fn ddcb<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, p: u8) {
        let d = self.imm8(c, b) as i8;
        let at = self.s.pc;
        let op = self.imm8(c, b);
        c.no_mreq(at, 2);
        let a = self.idx(p).wrapping_add(d as u16);
        self.s.wz = a;
        let (x, y, z) = (op >> 6, op >> 3 & 7, op & 7);
        let v = self.rd(c, b, a);
        c.no_mreq(a, 1);
        if x == 1 {
            self.bit(y, v, (a >> 8) as u8);
            return;
        }
        let r = self.cbop(x, y, v);
        self.wr(c, b, a, r);
        if z != 6 {
            self.set_r8(z, 0, r);
        }
    }
    fn ed<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, op: u8) -> Brk {
        let (x, y, z) = (op >> 6, op >> 3 & 7, op & 7);
        let (pp, q) = (y >> 1, y & 1);
        match (x, z) {
            (1, 0) => {
                let port = self.s.bc;
                let v = self.inp(c, b, port);
                self.s.wz = port.wrapping_add(1);
                if y != 6 {
                    self.set_r8(y, 0, v);
                }
                let cy = self.f() & CF;
                self.set_f(cy | szxy(v) | par(v));
            }
            (1, 1) => {
                let port = self.s.bc;
                self.s.wz = port.wrapping_add(1);
                let v = if y == 6 {
                    if self.fl == Fl::Cmos {
                        0xFF
                    } else if self.fl == Fl::Custom {
                        CUSTOM_OUT
                    } else {
                        0
                    }
                } else {
                    self.r8(y, 0)
                };
                return self.out(c, b, port, v);
            }
            (1, 2) => {
                c.no_mreq(self.ir(), 7);
                let v = self.r16(pp, 0);
                if q == 0 {
                    self.sbc16(v)
                } else {
                    self.adc16(v)
                }
            }
            (1, 3) => {
                let a = self.imm16(c, b);
                if q == 0 {
                    let v = self.r16(pp, 0);
                    self.st16(c, b, a, v);
                } else {
                    let v = self.rd16(c, b, a);
                    self.s.wz = a.wrapping_add(1);
                    self.set_r16(pp, 0, v);
                }
            }
            (1, 4) => {
                let v = self.a();
                self.set_a(0);
                self.sub8(v, 0, true, false);
            }
            (1, 5) => {
                let mut brk = Brk::None;
                if y == 1 {
                    if let Some(t) = b.do_reti(self.s.pc, c.now()) {
                        brk = Brk::Reti(t);
                    }
                }
                self.s.iff1 = self.s.iff2;
                let v = self.pop(c, b);
                self.s.pc = v;
                self.s.wz = v;
                return brk;
            }
            (1, 6) => {
                self.s.im = [0, 0, 1, 2, 0, 0, 1, 2][y as usize];
            }
            (1, 7) => match y {
                0 => {
                    c.no_mreq(self.ir(), 1);
                    self.s.i = self.a();
                }
                1 => {
                    c.no_mreq(self.ir(), 1);
                    self.s.r = self.a();
                }
                2 | 3 => {
                    c.no_mreq(self.ir(), 1);
                    let v = if y == 2 { self.s.i } else { self.s.r };
                    self.set_a(v);
                    let mut pv = self.s.iff2;
                    // an interrupt accepted right after resets IFF2 before it is copied (NMOS)
                    if matches!(self.fl, Fl::Nmos | Fl::Custom) && self.s.iff1 && b.line(c.now()) {
                        pv = false;
                    }
                    let cy = self.f() & CF;
                    self.set_f(cy | szxy(v) | if pv { PF } else { 0 });
                }
                4 | 5 => {
                    let a = self.s.hl;
                    let v = self.rd(c, b, a);
                    c.no_mreq(a, 4);
                    let acc = self.a();
                    let (na, m) = if y == 4 {
                        // RRD
                        ((acc & 0xF0) | (v & 0xF), (acc << 4) | (v >> 4))
                    } else {
                        ((acc & 0xF0) | (v >> 4), (v << 4) | (acc & 0xF))
                    };
                    self.wr(c, b, a, m);
                    self.set_a(na);
                    self.s.wz = a.wrapping_add(1);
                    let cy = self.f() & CF;
                    self.set_f(cy | szxy(na) | par(na));
                }
                _ => {}
            },
            (2, 0..=3) if y >= 4 => return self.block(c, b, y, z),
            _ => {}
        }
        Brk::None
    }
    fn block<K: MClk, B: MBus>(&mut self, c: &mut K, b: &mut B, y: u8, z: u8) -> Brk {
        let delta: u16 = if y & 1 == 0 { 1 } else { 0xFFFF };
        let rep = y >= 6;
        let instr = self.s.pc.wrapping_sub(2);
        let mut brk = Brk::None;
        let again;
        let hl = self.s.hl;
        match z {
            0 => {
                let de = self.s.de;
                let v = self.rd(c, b, hl);
                self.wr(c, b, de, v);
                c.no_mreq(de, 2);
                self.s.hl = hl.wrapping_add(delta);
                self.s.de = de.wrapping_add(delta);
                self.s.bc = self.s.bc.wrapping_sub(1);
                let n = v.wrapping_add(self.a());
                let f = (self.f() & (SF | ZF | CF)) | (n & XF) | if n & 2 != 0 { YF } else { 0 } | if self.s.bc != 0 { PF } else { 0 };
                self.set_f(f);
                again = rep && self.s.bc != 0;
                if again {
                    c.no_mreq(de, 5);
                    self.s.wz = instr.wrapping_add(1);
                }
            }
            1 => {
                let v = self.rd(c, b, hl);
                c.no_mreq(hl, 5);
                self.s.hl = hl.wrapping_add(delta);
                self.s.bc = self.s.bc.wrapping_sub(1);
                let a = self.a();
                let r = a.wrapping_sub(v);
                let h = (a ^ v ^ r) & HF;
                let n = r.wrapping_sub(if h != 0 { 1 } else { 0 });
                let f = (self.f() & CF)
                    | NF
                    | (r & SF)
                    | if r == 0 { ZF } else { 0 }
                    | h
                    | (n & XF)
                    | if n & 2 != 0 { YF } else { 0 }
                    | if self.s.bc != 0 { PF } else { 0 };
                self.set_f(f);
                again = rep && self.s.bc != 0 && r != 0;
                if again {
                    c.no_mreq(hl, 5);
                    self.s.wz = instr.wrapping_add(1);
                } else {
                    self.s.wz = self.s.wz.wrapping_add(delta);
                }
            }
            2 => {
                c.no_mreq(self.ir(), 1);
                let bc = self.s.bc;
                let v = self.inp(c, b, bc);
                self.wr(c, b, hl, v);
                self.s.wz = bc.wrapping_add(delta);
                let nb = ((bc >> 8) as u8).wrapping_sub(1);
                self.s.bc = (bc & 0xFF) | (nb as u16) << 8;
                self.s.hl = hl.wrapping_add(delta);
                self.io_flags(v, nb, (bc as u8).wrapping_add(delta as u8));
                again = rep && nb != 0;
                if again {
                    c.no_mreq(hl, 5);
                }
            }
            _ => {
                c.no_mreq(self.ir(), 1);
                let v = self.rd(c, b, hl);
                let nb = ((self.s.bc >> 8) as u8).wrapping_sub(1);
                self.s.bc = (self.s.bc & 0xFF) | (nb as u16) << 8;
                let bc = self.s.bc;
                self.s.hl = hl.wrapping_add(delta);
                self.io_flags(v, nb, self.s.hl as u8);
                self.s.wz = bc.wrapping_add(delta);
                brk = self.out(c, b, bc, v);
                again = rep && nb != 0;
                if again {
                    c.no_mreq(bc, 5);
                }
            }
        }
        if again {
            self.s.pc = instr;
        }
        brk
    }
    fn io_flags(&mut self, v: u8, b: u8, m: u8) {
        let k = v as u16 + m as u16;
        let f = szxy(b) | if v & 0x80 != 0 { NF } else { 0 } | if k > 0xFF { HF | CF } else { 0 } | par((k as u8 & 7) ^ b);
        self.set_f(f);
    }
}
