//! Lockstep of the real processor with the reference model: one processor call at
//! a time, judged, then the model is resynchronised so that every call is judged
//! on its own.
use crate::cpu::api_model;
use crate::cpusc::{rand_state, CpuSc, Op, Side};
use crate::engine::{Res, Stats};
use crate::model::{Brk, Model, State, StepKind};
use crate::rng::{hash2, hash3, Rng};
use crate::sim::{BEv, CEv, SimBus, SimClock};

pub struct Lock {
    pub real: Side,
    pub model: Model,
    pub mbus: SimBus,
    pub mclk: SimClock,
    /// executing with a debug callback: what it received during the current call
    pub deb: Option<Vec<z80emu::CpuDebug>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Next,
    Limit,
    Irq,
    Nmi,
    Exec(u8),
}

/// Everything about one judged call.
pub struct Micro<'a> {
    pub call: Call,
    pub kind: StepKind,
    pub before: State,
    pub real: State,
    pub model: State,
    pub rbrk: Brk,
    pub mbrk: Brk,
    /// Some(accepted) for Irq and Nmi calls
    pub racc: bool,
    pub macc: bool,
    pub rc: &'a [CEv],
    pub mc: &'a [CEv],
    pub rb: &'a [BEv],
    pub mb: &'a [BEv],
    pub code: &'a [u8],
    pub rmem: &'a [u8; 65536],
    pub mmem: &'a [u8; 65536],
    pub dirty: &'a [u16],
    pub rts: u64,
    pub mts: u64,
    pub line: bool,
    pub rdirect: &'a Side,
    pub deb: &'a [z80emu::CpuDebug],
    /// what a user-defined variant must know: (history, flags modified by this instruction)
    pub mf: (u8, bool),
}

impl Micro<'_> {
    pub fn real_acked(&self) -> bool {
        self.rb.iter().any(|e| matches!(e, BEv::Ack { .. }))
    }
    pub fn model_acked(&self) -> bool {
        self.mb.iter().any(|e| matches!(e, BEv::Ack { .. }))
    }
    pub fn describe(&self) -> String {
        format!("{:?} {:?} code {:02x?} at {:04x}", self.call, self.kind, self.code, self.before.pc)
    }
}

impl Lock {
    pub fn new(sc: &CpuSc) -> Lock {
        let real = Side::new(sc);
        let mut mbus = SimBus::new(&sc.env);
        *mbus.mem = *real.bus.mem;
        let mut model = Model::new(sc.fl);
        model.s = real.cpu.state();
        Lock { real, model, mbus, mclk: SimClock::new(&sc.env, sc.start_ts), deb: None }
    }

    fn call(&mut self, call: Call, st: &mut Stats, judge: &mut dyn FnMut(&Micro) -> Res) -> Res {
        st.steps += 1;
        let before = self.model.s;
        let r = &mut self.real;
        let line = r.bus.line(r.clk.ts);
        let (rbrk, racc) = match (call, &mut self.deb) {
            (call, Some(out)) => {
                out.clear();
                match call {
                    Call::Irq => match r.cpu.irq_dbg(&mut r.bus, &mut r.clk, out) {
                        Some(b) => (b, true),
                        None => (Brk::None, false),
                    },
                    Call::Nmi => (Brk::None, r.cpu.nmi(&mut r.bus, &mut r.clk)),
                    Call::Exec(c) => (r.cpu.exec_dbg(&mut r.bus, &mut r.clk, c, out), false),
                    _ => (r.cpu.step_dbg(&mut r.bus, &mut r.clk, out), false),
                }
            }
            (call, None) => match call {
            Call::Next => (r.cpu.step(&mut r.bus, &mut r.clk), false),
            Call::Limit => {
                let l = r.clk.ts + 1;
                (r.cpu.limit(&mut r.bus, &mut r.clk, l), false)
            }
            Call::Irq => match r.cpu.irq(&mut r.bus, &mut r.clk) {
                Some(b) => (b, true),
                None => (Brk::None, false),
            },
            Call::Nmi => (Brk::None, r.cpu.nmi(&mut r.bus, &mut r.clk)),
            Call::Exec(c) => (r.cpu.exec(&mut r.bus, &mut r.clk, c), false),
            },
        };
        let (m, c, b) = (&mut self.model, &mut self.mclk, &mut self.mbus);
        let (mbrk, macc) = match call {
            Call::Next | Call::Limit => (m.step(c, b), false),
            Call::Irq => match m.irq(c, b) {
                Some(b) => (b, true),
                None => (Brk::None, false),
            },
            Call::Nmi => (Brk::None, m.nmi(c, b)),
            Call::Exec(op) => {
                m.code.clear();
                m.code.push(op);
                (m.exec(c, b, op), false)
            }
        };
        self.real.bus.dirty.extend_from_slice(&self.mbus.dirty);
        let res = {
            let rb = self.real.bus.log.borrow();
            let mb = self.mbus.log.borrow();
            let mi = Micro {
                call,
                kind: self.model.kind,
                before,
                real: self.real.cpu.state(),
                model: self.model.s,
                rbrk,
                mbrk,
                racc,
                macc,
                rc: &self.real.clk.log,
                mc: &self.mclk.log,
                rb: &rb,
                mb: &mb,
                code: &self.model.code,
                rmem: &self.real.bus.mem,
                mmem: &self.mbus.mem,
                dirty: &self.real.bus.dirty,
                rts: self.real.clk.ts,
                mts: self.mclk.ts,
                line,
                rdirect: &self.real,
                deb: self.deb.as_deref().unwrap_or(&[]),
                mf: (self.model.hist, self.model.q),
            };
            let code = mi.code;
            let two = matches!(code.first(), Some(0xED)) || (matches!(code.first(), Some(0xCB)) && before.prefix == 0);
            let k = match (code.first(), before.prefix) {
                (Some(0xCB), p) if p != 0 => hash3(p as u64, code.get(2).copied().unwrap_or(0) as u64, 7),
                (Some(c), p) => hash3(p as u64, *c as u64, if two { code.get(1).copied().unwrap_or(0) as u64 } else { 999 }),
                _ => 1,
            };
            st.cover(hash3(k, self.model.fl as u64, hash2(mi.kind as u64, (before.halt as u64) << 8 | (before.im as u64) << 4 | matches!(call, Call::Limit) as u64)));
            let mut d = hash3(mi.rts, mi.real.af as u64 | (mi.real.pc as u64) << 16 | (mi.real.hl as u64) << 32, rbrk_num(rbrk));
            for e in rb.iter() {
                d = hash2(d, ev_num(*e));
            }
            st.eat(d);
            match mi.kind {
                StepKind::Instr => st.probe("instructions", 1),
                StepKind::Prefix => st.probe("prefixes", 1),
                StepKind::Halted => st.probe("halted_cycles", 1),
                StepKind::Irq => st.probe("irq_services", 1),
                StepKind::Nmi => st.probe("nmi_services", 1),
            }
            judge(&mi)
        };
        self.resync();
        res
    }

    fn resync(&mut self) {
        let r = &mut self.real;
        for a in r.bus.dirty.drain(..) {
            self.mbus.mem[a as usize] = r.bus.mem[a as usize];
        }
        self.mbus.dirty.clear();
        self.mbus.sync_from(&r.bus);
        self.model.s = r.cpu.state();
        self.mclk.ts = r.clk.ts;
        r.clk.log.clear();
        r.bus.log.borrow_mut().clear();
        self.mclk.log.clear();
        self.mbus.log.borrow_mut().clear();
    }

    pub fn run(&mut self, ops: &[Op], st: &mut Stats, judge: &mut dyn FnMut(&Micro) -> Res) -> Res {
        for op in ops {
            self.op(op, st, judge)?;
        }
        self.finish(st);
        Ok(())
    }

    /// An unjudged limited run of both, then resynchronisation.
    pub fn slice(&mut self, n: u64, st: &mut Stats) -> Brk {
        st.steps += 1;
        let r = &mut self.real;
        let lim = r.clk.ts + n;
        let b = r.cpu.limit(&mut r.bus, &mut r.clk, lim);
        while self.mclk.ts < lim {
            if self.model.step(&mut self.mclk, &mut self.mbus) != Brk::None {
                break;
            }
        }
        r.bus.dirty.extend_from_slice(&self.mbus.dirty);
        st.eat(r.clk.ts);
        self.resync();
        b
    }

    pub fn op(&mut self, op: &Op, st: &mut Stats, judge: &mut dyn FnMut(&Micro) -> Res) -> Res {
            match op {
                Op::Slice(n) => {
                    self.slice(*n as u64, st);
                }
                Op::Step(n) | Op::Tick(n) => {
                    let call = if matches!(op, Op::Step(_)) { Call::Next } else { Call::Limit };
                    let mut halted = 0;
                    for _ in 0..*n {
                        self.call(call, st, judge)?;
                        halted = if self.model.s.halt { halted + 1 } else { 0 };
                        if halted > 3 {
                            break;
                        }
                    }
                }
                Op::Nmi => {
                    st.fault("nmi_requests", 1);
                    self.call(Call::Nmi, st, judge)?
                }
                Op::Irq => self.call(Call::Irq, st, judge)?,
                Op::Exec(c) => self.call(Call::Exec(*c), st, judge)?,
                op => {
                    self.real.host_op(op);
                    match op {
                        Op::Reset => {
                            let fl = self.model.fl;
                            self.model = Model::new(fl);
                            st.fault("resets", 1);
                        }
                        Op::Load(seed) => {
                            let s = rand_state(&mut Rng::new(*seed));
                            self.load(&s);
                            st.fault("register_jolts", 1);
                        }
                        Op::Set(s) => self.load(s),
                        Op::Api(a) => {
                            api_model(&mut self.model.s, a);
                            st.fault("register_jolts", 1);
                        }
                        Op::Poke(a, v) => {
                            self.poke(*a, v);
                            st.fault("dma_writes", 1);
                        }
                        Op::Code(v) => {
                            let pc = self.model.s.pc;
                            self.poke(pc, v);
                            st.fault("dma_writes", 1);
                        }
                        _ => {}
                    }
                    self.model.s = self.real.cpu.state();
                }
            }
        Ok(())
    }
    pub fn finish(&mut self, st: &mut Stats) {
        self.real.end(st);
        st.nontrivial = true;
    }
    fn load(&mut self, s: &State) {
        let m = &mut self.model.s;
        let (halt, prefix, ei) = (m.halt, m.prefix, m.ei);
        *m = State { halt, prefix, ei, ..*s };
    }
    fn poke(&mut self, a: u16, v: &[u8]) {
        for (k, b) in v.iter().enumerate() {
            self.mbus.mem[a.wrapping_add(k as u16) as usize] = *b;
        }
    }
}

pub fn rbrk_num(b: Brk) -> u64 {
    match b {
        Brk::None => 0,
        Brk::Halt => 1,
        Brk::WrIo(t) => 2 | (t as u64) << 8,
        Brk::Reti(t) => 3 | (t as u64) << 8,
    }
}
pub fn ev_num(e: BEv) -> u64 {
    match e {
        BEv::Op { pc, v, .. } => 1 << 32 | (pc as u64) << 8 | v as u64,
        BEv::Rd { a, v, .. } => 2 << 32 | (a as u64) << 8 | v as u64,
        BEv::Wr { a, v, .. } => 3 << 32 | (a as u64) << 8 | v as u64,
        BEv::In { p, v, .. } => 4 << 32 | (p as u64) << 8 | v as u64,
        BEv::Out { p, v, .. } => 5 << 32 | (p as u64) << 8 | v as u64,
        BEv::Ack { pc, v, .. } => 6 << 32 | (pc as u64) << 8 | v as u64,
        BEv::Reti { a, .. } => 7 << 32 | (a as u64) << 8,
    }
}

pub fn io_only(v: &[BEv]) -> Vec<BEv> {
    v.iter().filter(|e| matches!(e, BEv::In { .. } | BEv::Out { .. })).map(|e| e.untimed()).collect()
}
