//! C17: the counter-timer circuit against a reference model in absolute time.
use crate::ctcref;
use crate::engine::*;
use crate::ensure;
use crate::rng::{hash3, Rng};
use crate::pinned::{self, Call, Pair};
use ral1243::bus::Terminator;
use ral1243::ctc::Ctc;
use ral1243::ctc_trigger::{CtcActive, CtcPassive};
use serde::{Deserialize, Serialize};

pub struct C17;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// time passes without anybody looking
    Gap(u32),
    /// opcode fetches: number, interval
    M1(u16, u16),
    /// interrupt polls: number, interval
    Poll(u16, u16),
    Frame,
    Second,
    Ctl(u8, u8),
    /// control word with the time constant after some T-states
    Prog(u8, u8, u8, u16),
    Read(u8),
    /// acknowledge if requested; the vector is read this much later
    Ack(u8),
    Reti,
    Reset,
    /// an access to a port of nobody
    Stray(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sc {
    pub half: u32,
    pub ext_hz: u32,
    /// bits of the port address: mask, base, channel select bits
    pub port: (u16, u16, u8, u8),
    pub ops: Vec<Op>,
    /// the processor keeps fetching: the circuit is looked at regularly and before every access,
    /// from the first T-state on
    #[serde(default)]
    pub attended: bool,
}

type RealCtc = Ctc<u32, CtcActive<4>, CtcPassive<4>, CtcActive<4>, CtcPassive<4>, Terminator<u32>>;

type PinCtc = pinned::ctc::Ctc<u32, pinned::ctc_trigger::CtcActive<4>, pinned::ctc_trigger::CtcPassive<4>, pinned::ctc_trigger::CtcActive<4>, pinned::ctc_trigger::CtcPassive<4>, Terminator<u32>>;

struct Rig {
    ctc: Pair<RealCtc, PinCtc>,
    m: ctcref::Ctc,
    /// absolute time and how much of it has been rebased away
    abs: u64,
    off: u64,
    port: (u16, u16, u8, u8),
    attended: bool,
}
impl Rig {
    fn ts(&self) -> u32 {
        (self.abs - self.off) as u32
    }
    fn addr(&self, c: u8) -> u16 {
        let (_, base, b1, b0) = self.port;
        base | ((c as u16 >> 1) << b1) | ((c as u16 & 1) << b0)
    }
    fn call(&mut self, c: Call) -> Result<u32, Violation> {
        self.ctc.call(c, self.ts())
    }
    fn write(&mut self, c: u8, d: u8) -> Res {
        self.attend()?;
        self.m.write(c as usize, d, self.abs);
        self.call(Call::Write(self.addr(c), d)).map(|_| ())
    }
    fn attend(&mut self) -> Res {
        if self.attended {
            self.call(Call::M1)?;
        }
        Ok(())
    }
    fn judge_poll(&mut self, k: usize, x: bool) -> Res {
        let y = self.m.irq(self.abs);
        if let Some(y) = y {
            ensure!(
                x == y,
                if y { "late" } else { "spurious" },
                "op {}: at {} interrupt requested: {}, should be {} (channels waiting: {:?})",
                k,
                self.abs,
                x,
                y,
                self.m.ch.iter().map(|c| c.pend).collect::<Vec<_>>()
            );
        }
        Ok(())
    }
    fn poll(&mut self, k: usize) -> Result<bool, Violation> {
        let x = self.call(Call::Irq)? != 0;
        let j = self.judge_poll(k, x);
        self.ctc.judge(j)?;
        Ok(x)
    }
    fn judge_count(&mut self, k: usize, c: u8, x: u8) -> Res {
        if let Some(y) = self.m.read(c as usize, self.abs) {
            ensure!(x == y, "count", "op {}: at {} channel {} reads {:02x}, should read {:02x}", k, self.abs, c, x, y);
        }
        Ok(())
    }
    fn judge_ack(&mut self, k: usize, v: u8, was: bool, top: Option<usize>) -> Res {
        ensure!(!was, "spurious", "op {}: request during service", k);
        let c = (v >> 1 & 3) as usize;
        ensure!(v & 0xF9 == self.m.vector, "vector", "op {}: vector {:02x}, base {:02x} was programmed", k, v, self.m.vector);
        if let Some(t) = top {
            ensure!(c == t, "priority", "op {}: channel {} acknowledged, channel {} should be", k, c, t);
        } else {
            ensure!(self.m.ch[c].pend || self.m.ch[c].unj, "priority", "op {}: channel {} acknowledged without a request", k, c);
        }
        self.m.ch[c].pend = false;
        self.m.ieo = true;
        Ok(())
    }
}

impl Prop for C17 {
    const ID: &'static str = "C17";
    type Sc = Sc;
    fn gen(rng: &mut Rng, i: u64) -> Sc {
        let half = match rng.below(4) {
            0 => 5,
            1 => rng.range(5, 20) as u32,
            2 => 200,
            _ => rng.range(5, 1000) as u32,
        };
        let ext_hz = *rng.pick(&[1000u32, 10_000, 10_000]);
        let hz = 2 * half * ext_hz;
        let long = i % 8 == 0;
        let frame = (hz / *rng.pick(&[50u32, 500])).max(200);
        let n = rng.range(6, 70);
        let mut ops = Vec::new();
        let gap = |rng: &mut Rng| match rng.below(16) {
            0 => rng.below(frame as u64 + 1) as u32,
            1 => rng.below(2 * half as u64 + 2) as u32,
            2 => rng.below(200) as u32,
            3 if long => frame,
            _ => rng.range(1, 24) as u32,
        };
        let ctl = |rng: &mut Rng| -> u8 {
            let mut d = 1u8;
            for (bit, num, den) in [(1u8, 1, 2), (2, 1, 2), (3, 1, 4), (4, 1, 2), (5, 1, 3), (6, 1, 2), (7, 2, 3)] {
                if rng.chance(num, den) {
                    d |= 1 << bit;
                }
            }
            d
        };
        let tc = |rng: &mut Rng| match rng.below(4) {
            0 => *rng.pick(&[0, 255, 128]),
            1 => rng.u8(),
            _ => rng.range(1, 4) as u8,
        };
        for c in 0..4u8 {
            if rng.chance(1, 2) {
                let d = ctl(rng) | 6;
                ops.push(Op::Prog(c, d, tc(rng), rng.below(30) as u16));
                ops.push(Op::Gap(rng.range(1, 24) as u32));
            }
        }
        for _ in 0..n {
            ops.push(match rng.below(32) {
                0..=3 => Op::Gap(gap(rng)),
                4..=10 => Op::M1(rng.range(1, 60) as u16, *rng.pick(&[4, 4, 7, 11, 19, 23])),
                11..=14 => Op::Poll(rng.range(1, 60) as u16, *rng.pick(&[4, 4, 8, 11, 21])),
                15 => Op::Frame,
                16 => Op::Second,
                17..=18 => Op::Ctl(rng.below(4) as u8, if rng.chance(1, 8) { rng.u8() } else { ctl(rng) }),
                19..=21 => {
                    let d = ctl(rng) | 4;
                    Op::Prog(rng.below(4) as u8, d, tc(rng), *rng.pick(&[1, 4, 11, 23, 100]))
                }
                22..=25 => Op::Read(rng.below(4) as u8),
                26..=28 => Op::Ack(*rng.pick(&[0, 1, 7, 7, 30])),
                29..=30 => Op::Reti,
                _ => match rng.below(6) {
                    0 => Op::Reset,
                    1 => Op::Stray(rng.u16(), rng.u8()),
                    _ => Op::Ctl(0, rng.u8() & 0xFE),
                },
            });
        }
        if long {
            // whole seconds in frames
            let at = rng.below(ops.len() as u64) as usize;
            let k = rng.range(1, 3) * (hz / frame) as u64;
            let mut v = Vec::new();
            for _ in 0..k.min(1200) {
                v.push(Op::Gap(frame));
                v.push(Op::Frame);
                v.push(Op::Second);
                if rng.chance(1, 8) {
                    v.push(Op::Read(rng.below(4) as u8));
                    v.push(Op::M1(rng.range(1, 10) as u16, 4));
                }
            }
            ops.splice(at..at, v);
        }
        let port = if rng.chance(1, 2) {
            (0xFC, 0x04, 1, 0)
        } else {
            let b1 = rng.below(16) as u8;
            let b0 = (b1 + 1 + rng.below(15) as u8) % 16;
            let mask = rng.u16() & !(1 << b1) & !(1 << b0);
            (mask, mask & rng.u16(), b1, b0)
        };
        Sc { half, ext_hz, port, ops, attended: i % 4 != 1 }
    }
    fn run(sc: &Sc, st: &mut Stats) -> Res {
        let hz = 2 * sc.half as u64 * sc.ext_hz as u64;
        let a0 = CtcActive::new(sc.half * 2);
        let p1 = a0.new_passive();
        let a2 = CtcActive::new(sc.half * 2);
        let p3 = a2.new_passive();
        let (mask, base, b1, b0) = sc.port;
        let ctc: RealCtc = Ctc::new(a0, p1, a2, p3, Terminator::new()).with_port_bits(mask, base, b1 as u32, b0 as u32);
        let a0 = pinned::ctc_trigger::CtcActive::new(sc.half * 2);
        let p1 = a0.new_passive();
        let a2 = pinned::ctc_trigger::CtcActive::new(sc.half * 2);
        let p3 = a2.new_passive();
        let pin: PinCtc = pinned::ctc::Ctc::new(a0, p1, a2, p3, Terminator::new()).with_port_bits(mask, base, b1 as u32, b0 as u32);
        let mut r = Rig { ctc: Pair::new(ctc, pin), m: ctcref::Ctc::new(sc.half as u64), abs: if sc.attended { 1 } else { hz }, off: 0, port: sc.port, attended: sc.attended };
        r.call(Call::Reset)?;
        r.m.reset(r.abs);
        for (k, op) in sc.ops.iter().enumerate() {
            match *op {
                Op::Gap(n) if sc.attended => {
                    let end = r.abs + n as u64;
                    while r.abs < end {
                        r.abs = (r.abs + 19).min(end);
                        r.call(Call::M1)?;
                        st.steps += 1;
                    }
                }
                Op::Gap(n) => {
                    r.abs += n as u64;
                    if n > 23 {
                        st.fault("unattended_periods", 1);
                    }
                }
                Op::M1(n, dt) => {
                    for _ in 0..n {
                        r.abs += dt as u64;
                        r.call(Call::M1)?;
                    }
                    st.steps += n as u64;
                }
                Op::Poll(n, dt) => {
                    for _ in 0..n {
                        r.abs += dt as u64;
                        r.poll(k)?;
                    }
                    st.steps += n as u64;
                }
                Op::Frame => {
                    r.call(Call::Frame)?;
                }
                Op::Second => {
                    if r.abs - r.off > 2 * hz {
                        r.call(Call::Second(hz as u32))?;
                        r.off += hz;
                        st.fault("time_rebased", 1);
                    }
                }
                Op::Ctl(c, d) => {
                    r.abs += 1;
                    r.write(c, d)?;
                }
                Op::Prog(c, d, tc, dt) => {
                    r.abs += 1;
                    r.write(c, d)?;
                    r.abs += dt as u64;
                    r.write(c, tc)?;
                }
                Op::Read(c) => {
                    r.abs += 1;
                    r.attend()?;
                    let x = r.call(Call::Read(r.addr(c)))? as u8;
                    let j = r.judge_count(k, c, x);
                    r.ctc.judge(j)?;
                    st.probe("counts_read", 1);
                    st.eat(x as u64);
                }
                Op::Ack(dt) => {
                    r.abs += 1;
                    let was = r.m.ieo;
                    if r.poll(k)? {
                        let top = r.m.top();
                        r.abs += dt as u64;
                        let v = r.call(Call::IrqData)? as u8;
                        let j = r.judge_ack(k, v, was, top);
                        r.ctc.judge(j)?;
                        st.probe("acknowledged", 1);
                        st.eat(v as u64);
                    }
                }
                Op::Reti => {
                    r.abs += 1;
                    r.call(Call::Reti)?;
                    r.m.ieo = false;
                }
                Op::Reset => {
                    r.abs += 1;
                    r.attend()?;
                    r.call(Call::Reset)?;
                    r.m.reset(r.abs);
                    st.fault("resets", 1);
                }
                Op::Stray(p, d) => {
                    if p & mask != base {
                        r.abs += 1;
                        r.call(Call::Write(p, d))?;
                        let x = r.call(Call::Read(p))? as u8;
                        ensure!(x == 0xFF, "stray", "op {}: a foreign port {:04x} reads {:02x}", k, p, x);
                    }
                }
            }
            st.steps += 1;
            for (c, ch) in r.m.ch.iter().enumerate() {
                st.cover(hash3(
                    c as u64 | (ch.timer as u64) << 4 | (ch.tc.is_some() as u64) << 5 | (ch.ints as u64) << 6 | (ch.pend as u64) << 7 | (ch.await_tc as u64) << 8 | (ch.unj as u64) << 9,
                    ch.zeros.min(5) | (r.m.ieo as u64) << 8,
                    (ch.count() as u64).min(9) | (matches!(op, Op::Gap(_)) as u64) << 20,
                ));
            }
        }
        // whatever happened, all four can be read and are right
        r.abs += 1;
        for c in 0..4u8 {
            r.attend()?;
                    let x = r.call(Call::Read(r.addr(c)))? as u8;
            let j = r.judge_count(sc.ops.len(), c, x);
            r.ctc.judge(j)?;
            st.eat(x as u64);
        }
        r.poll(sc.ops.len())?;
        let z: u64 = r.m.ch.iter().map(|c| c.zeros).sum();
        st.probe("zero_counts", z);
        st.probe("undetermined_channels", r.m.ch.iter().filter(|c| c.unj).count() as u64);
        st.eat(z);
        st.sim_ts += r.abs - if sc.attended { 1 } else { hz };
        st.nontrivial = z > 0;
        r.ctc.end()
    }
    fn shrink(mut sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
        for _ in 0..2 {
            let ops = ddmin(sc.ops.clone(), &mut |o| test(&Sc { ops: o.to_vec(), ..sc.clone() }));
            if test(&Sc { ops: ops.clone(), ..sc.clone() }) {
                sc.ops = ops;
            }
            for i in 0..sc.ops.len() {
                let c: Vec<Op> = match sc.ops[i] {
                    Op::Gap(n) => vec![Op::Gap(n / 2), Op::Gap(n / 10), Op::Gap(n.saturating_sub(1))],
                    Op::M1(n, d) => vec![Op::M1(1, d), Op::M1(n / 2, d), Op::M1(n - n.min(1), d), Op::Gap(n as u32 * d as u32)],
                    Op::Poll(n, d) => vec![Op::Poll(1, d), Op::M1(n, d), Op::Poll(n / 2, d), Op::Poll(n - n.min(1), d), Op::Gap(n as u32 * d as u32)],
                    Op::Prog(c, a, t, d) => vec![Op::Prog(c, a & 0x7F, t, d), Op::Prog(c, a & !0x40, t, d), Op::Prog(c, a & !0x10, t, d), Op::Prog(c, a & !0x08, t, d), Op::Prog(c, a, 1, d), Op::Prog(c, a, t, 1)],
                    _ => vec![],
                };
                for o in c {
                    let mut s = sc.clone();
                    s.ops[i] = o;
                    if s != sc && test(&s) {
                        sc = s;
                    }
                }
            }
            for c in [Sc { port: (0xFC, 4, 1, 0), ..sc.clone() }, Sc { half: 5, ..sc.clone() }, Sc { half: 200, ..sc.clone() }, Sc { ext_hz: 10_000, ..sc.clone() }] {
                if c != sc && test(&c) {
                    sc = c;
                }
            }
        }
        sc
    }
    fn real() -> &'static [&'static str] {
        &["ral1243::ctc::Ctc", "ral1243::ctc_trigger::{CtcActive, CtcPassive}", "ral1243::bus::Terminator"]
    }
    fn stub() -> &'static [&'static str] {
        &["processor (fetches, polls, acknowledges and port accesses are scheduled by the simulator)", "frame runner (frame ends and rebasing of time)"]
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 150_000,
            Tier::Thorough => 8_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run is one seeded history of programming, polls, unattended periods, acknowledges, resets and rebased time on one circuit; non-trivial = some channel reached zero; distinct = different digests of what was read"
    }
    fn state_measure() -> &'static str {
        "distinct (channel, mode, running, interrupt state, zero counts so far, count), hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &[
            "a change of the prescaler from 256 to 16 in the middle of a count, and writes to a chained channel within the two T-states of a pulse, leave the channel unjudged until its next reset",
            "the interrupt circuit is one link of the daisy chain: while any of its channels is served none requests",
        ]
    }
}
