//! C24: no guest program can crash or stall the emulator.
use crate::engine::*;
use crate::ensure;
use crate::machine::{self, frame_ts, Ev, Op, Sc, CFGS};
use crate::rng::{hash2, hash3, Rng};

pub struct C24;

/// One instruction, acknowledge included, or the two after a prefix.
const SLACK: u64 = 60;

fn gen_hz(rng: &mut Rng, cfg: u8) -> u32 {
    let (ext, ..) = CFGS[cfg as usize];
    let unit = 2 * ext as u64;
    let hz = match rng.below(40) {
        0..=7 => 0,
        8..=9 => unit * (5 + rng.below(10)),
        10..=30 => rng.range(70_000, 400_000),
        31..=34 => rng.range(400_000, 4_000_000),
        35..=37 => rng.range(4_000_000, 30_000_000),
        38 => rng.range(30_000_000, 300_000_000),
        // as much as the type holds
        _ if rng.chance(1, 20) => rng.range(1 << 30, u32::MAX as u64),
        _ => 7_000_000,
    };
    ((hz / unit).max(5) * unit).min((u32::MAX as u64) / unit * unit) as u32
}

fn ops(rng: &mut Rng, sc: &Sc) -> Vec<Op> {
    let frame = frame_ts(sc) as u64;
    // about this much time per run
    let mut left = rng.range(50_000, 1_500_000).max(frame * 2);
    let mut v = Vec::new();
    while left > 0 && v.len() < 40 {
        let most = (left / frame.max(1)).clamp(1, 2000);
        let op = match rng.below(16) {
            0 => Op::Nmi,
            1 => Op::Reset,
            2 if rng.chance(1, 3) => Op::Start,
            3 => Op::DStep(1 + rng.below(60) as u16),
            4 => Op::DInt(1 + rng.below(3) as u8),
            5 => Op::DRet(1 + rng.below(3) as u8),
            6 => {
                let mut b: Vec<u16> = Vec::new();
                for _ in 0..rng.below(4) {
                    let x = rng.u16();
                    b.push(*rng.pick(&[0, 0x38, 0x66, 0x1F00, 0xFFFF, x]));
                }
                b.sort();
                b.dedup();
                Op::DBrk(b, 1 + rng.below(3) as u8)
            }
            7 => Op::Preview,
            _ => Op::Frames(1 + rng.below(most) as u16),
        };
        left = left.saturating_sub(match &op {
            Op::Frames(n) => *n as u64 * frame,
            _ => frame,
        });
        v.push(op);
    }
    v
}

struct Run<'a> {
    c: Box<dyn machine::Comp>,
    t: u64,
    limit: u64,
    frame: u64,
    st: &'a mut Stats,
}
impl Run<'_> {
    /// What must hold after every command.
    fn took(&mut self, what: &str, dt: u64, frames: (usize, usize)) -> Res {
        let before = self.t;
        self.t += dt;
        let t = self.t;
        let mut n = 0;
        let (st, frame, limit) = (&mut *self.st, self.frame, &mut self.limit);
        let b = self.c.bus();
        {
            let log = b.host.log();
            for e in log.iter() {
                match e {
                    Ev::Frame(at) => {
                        n += 1;
                        st.eat(*at);
                    }
                    Ev::HostIn(v, t) => st.eat(hash2(*v as u64, *t)),
                    Ev::Out(p, v, t) => {
                        st.eat(hash3(*p as u64, *v as u64, *t));
                        if (4..12).contains(&(*p as u8)) {
                            st.fault("port_writes", 1);
                        }
                    }
                    Ev::Ack(..) => st.fault("interrupts_accepted", 1),
                    _ => {}
                }
                st.steps += 1;
            }
        }
        b.host.clear();
        b.refill();
        ensure!((frames.0..=frames.1).contains(&n), "frame", "{}: {} frames ended", what, n);
        *limit += n as u64 * frame;
        // it may not lag behind nor run ahead
        ensure!(n == 0 || t >= *limit, "behind", "{}: at {}, the frame ends at {}", what, t, limit);
        ensure!(t <= before.max(*limit + if n == 0 { frame } else { 0 }) + SLACK, "ahead", "{}: from {} to {}, the frame ends at {}", what, before, t, limit);
        Ok(())
    }
    fn op(&mut self, i: usize, op: &Op, hz: u64) -> Res {
        let what = format!("op {} {:?}", i, op);
        match op {
            Op::Frames(n) => {
                for _ in 0..*n {
                    let dt = self.c.step() as u64;
                    self.st.probe("frames", 1);
                    self.took(&what, dt, (1, 1))?;
                }
            }
            Op::Nmi => {
                let dt = self.c.nmi().unwrap_or(0) as u64;
                self.st.fault("nmi", 1);
                self.took(&what, dt, (0, 0))?;
            }
            Op::Reset => {
                self.c.reset();
                self.st.fault("resets", 1);
                self.took(&what, 0, (0, 0))?;
            }
            Op::Start => {
                self.c.bus().restart();
                self.c.start();
                self.st.fault("restarts", 1);
                self.t = hz;
                self.limit = hz;
                self.took(&what, 0, (0, 0))?;
            }
            Op::Preview => {
                let d = self.c.preview();
                ensure!(!d.code.is_empty(), "preview", "{}: nothing shown", what);
            }
            Op::DStep(n) => {
                for _ in 0..*n {
                    let (_, dt) = self.c.dstep();
                    self.st.probe("debug_steps", 1);
                    ensure!(dt > 0, "no-progress", "{}: no time passed", what);
                    self.took(&what, dt as u64, (0, 2))?;
                }
            }
            Op::DInt(n) | Op::DRet(n) => {
                for _ in 0..*n {
                    let dt = if let Op::DInt(_) = op { self.c.dint().1 } else { self.c.dret().1 };
                    self.st.probe("debug_runs", 1);
                    ensure!(dt > 0, "no-progress", "{}: no time passed", what);
                    self.took(&what, dt as u64, (0, 1))?;
                }
            }
            Op::DBrk(b, n) => {
                for _ in 0..*n {
                    let (_, dt) = self.c.dbrk(b);
                    self.st.probe("debug_runs", 1);
                    // at ffff the frame is ended again (see the findings of C22)
                    self.c.bus().host.one_frame_end();
                    self.took(&what, dt as u64, (0, 1))?;
                }
            }
        }
        let s = self.c.state();
        self.st.cover(hash3(s.pc as u64 >> 3, s.halt as u64 | (s.iff1 as u64) << 1 | (s.im as u64) << 2 | (s.prefix as u64) << 4, 0));
        Ok(())
    }
}

impl Prop for C24 {
    const ID: &'static str = "C24";
    type Sc = Sc;
    fn gen(rng: &mut Rng, _i: u64) -> Sc {
        let mut sc = machine::gen(rng, false);
        sc.fresh = false;
        sc.cfg = *rng.pick(&[0u8, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3]);
        sc.hz = gen_hz(rng, sc.cfg);
        sc.stock = rng.chance(1, 10);
        sc.wild = if sc.stock { 0 } else { *rng.pick(&[0, 1, 1, 2, 2, 3, 3, 3]) };
        // some runs as they are; most without the recorded panics
        sc.raw = rng.chance(1, 8);
        sc.tame = !rng.chance(1, 20);
        sc.ramkb = *rng.pick(&[1, 2, 3, 16, 48, 48, 5]);
        let span = sc.hz.min(2_000_000);
        for k in sc.keys.iter_mut() {
            k.0 %= span;
        }
        sc.ops = ops(rng, &sc);
        sc
    }
    fn run(sc: &Sc, st: &mut Stats) -> Res {
        let hz = sc.hz as u64;
        let mut c = machine::real(sc);
        c.start();
        c.bus().host.clear();
        let mut r = Run { c, t: hz, limit: hz, frame: frame_ts(sc) as u64, st };
        for (i, op) in sc.ops.iter().enumerate() {
            r.op(i, op, hz)?;
        }
        let (h, base) = {
            let b = r.c.bus();
            (b.host.clone(), b.base())
        };
        r.st.fault("output_refusals", h.refused.get());
        r.st.fault("input_bytes", h.taken.get());
        r.st.fault("seconds_rebased", base / hz);
        r.st.sim_ts += r.t - hz;
        r.st.nontrivial = true;
        Ok(())
    }
    fn shrink(sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
        machine::shrink(sc, test)
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 80_000,
            Tier::Thorough => 2_500_000,
        }
    }
    fn rule() -> &'static str {
        "a run is a clock frequency, memory contents (guest, random bytes, endless random port writes, the computer's own ROM), keystrokes, host stalls and a sequence of commands; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (program counter, halted, IFF1, mode, pending prefix) after a command, hashed into a bitmap"
    }
    fn real() -> &'static [&'static str] {
        &["ral1243 FrameRunner, TClock, debug commands, Bus, Memory, Ctc, CtcActive/Passive, Pio, PioInput/PioOutput, ROM and cartridges", "z80emu::Z80<NMOS|CMOS|BM1>"]
    }
    fn stub() -> &'static [&'static str] {
        &["host input stream and output sink", "guest programs"]
    }
    fn assumptions() -> &'static [&'static str] {
        &["overflow checks and debug assertions are on", "7 of 8 runs ask the peripherals at every fetch and 19 of 20 hide unsupported control words from the parallel port, to go on past the recorded panics"]
    }
}
