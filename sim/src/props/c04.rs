//! C04: maskable interrupt acceptance and service.
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::lock::*;
use crate::model::{Brk, StepKind};
use crate::props::c03::steps_to;
use crate::rng::Rng;
use crate::sim::{BEv, Line};

pub struct C04;

fn acks(s: &Side) -> Vec<BEv> {
    s.bus.log.borrow().iter().filter(|e| matches!(e, BEv::Ack { .. })).copied().collect()
}

impl Prop for C04 {
    const ID: &'static str = "C04";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.ops = (30, 100);
        p.irq = 12;
        p.slice = 20;
        p.load = 6;
        p.api = 10;
        let mut sc = gen_sc(rng, &p);
        while sc.env.line == Line::Off && rng.chance(9, 10) {
            sc.env.line = gen_line(rng, 20_000);
        }
        // enough EI, DI, prefixes and HALT around
        for op in sc.ops.iter_mut() {
            if let Op::Code(v) = op {
                if rng.chance(1, 2) {
                    let pre: &[u8] = rng.pick(&[&[0xFBu8][..], &[0xFB, 0xFB], &[0xFB, 0xF3], &[0xDD], &[0xFB, 0xDD, 0xFD], &[0xF3], &[0xFB, 0x76], &[0xDD, 0xFB], &[0xFB, 0xED, 0x4D], &[0xED, 0x45]]);
                    let mut w = pre.to_vec();
                    w.extend_from_slice(v);
                    *v = w;
                }
            }
        }
        sc
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        let mut l = Lock::new(sc);
        let mut judge = |m: &Micro| -> Res {
            let b = m.before;
            let allowed = b.iff1 && b.prefix == 0 && !b.ei;
            match m.call {
                Call::Next | Call::Limit => {
                    let want = allowed && m.line;
                    let got = m.real_acked();
                    ensure!(got == want, "acceptance", "{} with line {} and IFF1 {} EI-shadow {} prefix {:02x} halted {}: accepted {} but {} expected", m.describe(), m.line, b.iff1, b.ei, b.prefix, b.halt, got, want);
                }
                Call::Irq => {
                    ensure!(m.racc == allowed, "acceptance", "irq() returned {} with IFF1 {} EI-shadow {} prefix {:02x}", m.racc, b.iff1, b.ei, b.prefix);
                    ensure!(m.racc == m.real_acked(), "ack", "irq() accepted {} but acknowledge cycle {}", m.racc, m.real_acked());
                }
                _ => ensure!(!m.real_acked(), "acceptance", "{}: an interrupt was acknowledged during {:?}", m.describe(), m.call),
            }
            let n = m.rb.iter().filter(|e| matches!(e, BEv::Ack { .. })).count();
            ensure!(n <= 1, "twice", "{}: {} acknowledge cycles in one step", m.describe(), n);
            if n == 1 {
                if m.real != m.model {
                    return fail("service", format!("service in mode {} differs: {}", b.im, m.real.diff(&m.model)));
                }
                for &a in m.dirty {
                    let (x, y) = (m.rmem[a as usize], m.mmem[a as usize]);
                    ensure!(x == y, "pushed", "service in mode {}: memory {:04x} = {:02x}, expected {:02x}", b.im, a, x, y);
                }
                let x: Vec<BEv> = m.rb.iter().map(|e| e.untimed()).collect();
                let y: Vec<BEv> = m.mb.iter().map(|e| e.untimed()).collect();
                ensure!(x == y, "service", "service in mode {}: accesses {} expected {}", b.im, show_b(&x), show_b(&y));
                ensure!(m.rbrk == m.mbrk, "service", "service in mode {} returned {:?}, expected {:?}", b.im, m.rbrk, m.mbrk);
            } else if matches!(m.call, Call::Irq) {
                ensure!(m.rc.is_empty() && m.rb.is_empty() && m.real == m.before, "refused", "a refused irq() changed something");
            } else if m.kind != StepKind::Irq {
                let (x, y) = (m.real, m.model);
                ensure!(
                    (x.iff1, x.iff2, x.im, x.prefix != 0, x.ei) == (y.iff1, y.iff2, y.im, y.prefix != 0, y.ei),
                    "latches",
                    "{}: interrupt latches after it: {}",
                    m.describe(),
                    x.diff(&y)
                );
                ensure!(m.rdirect.cpu.irq_allowed() == (y.iff1 && y.prefix == 0 && !y.ei), "query", "{}: is_irq_allowed() is wrong", m.describe());
            }
            Ok(())
        };
        for op in &sc.ops {
            if let Op::Slice(n) = op {
                // in a limited run: the same acceptances as in single steps
                let mut b = l.real.fork();
                let lim = b.clk.ts + *n as u64;
                let mut a = l.real.fork();
                let x = a.cpu.limit(&mut a.bus, &mut a.clk, lim);
                let y = steps_to(&mut b, lim);
                let (p, q) = (acks(&a), acks(&b));
                ensure!(p == q, "slice", "limited run of {} from {}: acceptances {} single steps {}", n, l.real.clk.ts, show_b(&p), show_b(&q));
                if x == y && x == Brk::None {
                    ensure!(a.cpu.irq_allowed() == b.cpu.irq_allowed(), "shadow", "limited run of {}: afterwards is_irq_allowed() is {}, after single steps {}", n, a.cpu.irq_allowed(), b.cpu.irq_allowed());
                }
            }
            l.op(op, st, &mut judge)?;
        }
        l.finish(st);
        Ok(())
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 300_000,
            Tier::Thorough => 15_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run executes processor calls with a level, latched, noisy or stuck interrupt line, random acknowledge data, EI/DI/prefix/HALT sequences, NMI, resets and DMA; acceptance is decided from the observed latches before each call; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (variant, prefix, opcode, second opcode, step kind, halted, mode, call) combinations executed, hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["in mode 0 the instruction's remaining bytes come from memory at PC, as the library documents"]
    }
}
