//! C06: the halted processor.
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::lock::*;
use crate::model::{Brk, StepKind};
use crate::rng::{hash3, Rng};
use crate::sim::{Cy, SimClock};

pub struct C06;
impl Prop for C06 {
    const ID: &'static str = "C06";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.ops = (20, 80);
        p.slice = 40;
        p.step = 15;
        p.tick = 15;
        p.steps = 6;
        p.nmi = 6;
        p.load = 4;
        p.slice_max = *rng.pick(&[40, 400, 3000]);
        let mut sc = gen_sc(rng, &p);
        // HALT at the end of the address space, too
        let at = sc.ops.iter().position(|o| matches!(o, Op::Code(_)));
        if let (Some(at), true) = (at, rng.chance(1, 3)) {
            sc.ops.insert(at, Op::Api(crate::cpu::ApiOp::SetPc(0u16.wrapping_sub(rng.range(1, 4) as u16))));
        }
        for op in sc.ops.iter_mut() {
            if let Op::Code(v) = op {
                *v = match rng.below(6) {
                    0 => vec![0xFB, 0x76],
                    1 => vec![0x76],
                    2 => vec![0xDD, 0x76],
                    3 => vec![0xFB, 0x00, 0x76, 0xFB, 0x76],
                    4 => vec![0xF3, 0x76],
                    _ => v.clone(),
                };
            }
            if rng.chance(1, 12) {
                *op = Op::Api(crate::cpu::ApiOp::Halt);
            } else if rng.chance(1, 16) {
                *op = Op::Api(crate::cpu::ApiOp::EnableInt);
            }
        }
        sc
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        let mut l = Lock::new(sc);
        let mut judge = |m: &Micro| -> Res {
            let b = m.before;
            if !matches!(m.call, Call::Next | Call::Limit) {
                // leaving HALT by NMI or IRQ
                if b.halt && m.racc && m.real != m.model {
                    return fail("wake", format!("{:?} from HALT: {}", m.call, m.real.diff(&m.model)));
                }
                if b.halt && m.racc {
                    for &a in m.dirty {
                        let (x, y) = (m.rmem[a as usize], m.mmem[a as usize]);
                        ensure!(x == y, "wake", "{:?} from HALT: memory {:04x} = {:02x}, expected {:02x}", m.call, a, x, y);
                    }
                }
                return Ok(());
            }
            if b.halt {
                let wake = b.iff1 && !b.ei && b.prefix == 0 && m.line;
                ensure!(m.real_acked() == wake, "wake", "halted with IFF1 {} EI-shadow {} prefix {:02x} and line {}: acknowledged {}", b.iff1, b.ei, b.prefix, m.line, m.real_acked());
                if wake {
                    ensure!(m.real == m.model, "wake", "wake-up service: {}", m.real.diff(&m.model));
                    for &a in m.dirty {
                        let (x, y) = (m.rmem[a as usize], m.mmem[a as usize]);
                        ensure!(x == y, "wake", "wake-up service: memory {:04x} = {:02x}, expected {:02x}", a, x, y);
                    }
                    ensure!(m.rc.iter().all(|e| e.kind != Cy::Irq || e.addr == b.pc.wrapping_add(1)), "wake", "acknowledge on wake-up not at the address after the HALT");
                    return Ok(());
                }
                ensure!(m.rb.is_empty(), "early", "a halted processor accessed the bus: {}", show_b(m.rb));
                ensure!(m.rc.len() == 1 && m.rc[0].kind == Cy::M1 && m.rc[0].addr == b.pc, "refresh", "a halted step is not one refresh cycle at {:04x}: {:x?}", b.pc, m.rc);
                let mut want = b;
                want.r = (b.r & 0x80) | (b.r.wrapping_add(1) & 0x7F);
                want.ei = false;
                want.prefix = 0;
                ensure!(m.real == want, "refresh", "a halted step changed: {}", m.real.diff(&want));
                ensure!(m.rbrk == Brk::None, "refresh", "a halted step returned {:?}", m.rbrk);
            } else if m.kind == StepKind::Instr && m.code.last() == Some(&0x76) && m.code.len() == 1 {
                let want = b.pc;
                ensure!(m.real.halt && m.real.pc == want, "halt", "HALT at {:04x}: halted {} at {:04x}", b.pc, m.real.halt, m.real.pc);
                ensure!(m.rbrk == Brk::Halt, "halt", "HALT returned {:?}", m.rbrk);
            }
            Ok(())
        };
        for (i, op) in sc.ops.iter().enumerate() {
            let s = l.real.cpu.state();
            if let (Op::Slice(n), true) = (op, s.halt) {
                // closed form of a limited run of a halted processor
                let lim = l.real.clk.ts + *n as u64;
                let mut c = SimClock::new(&sc.env, l.real.clk.ts);
                let (mut ei, mut p, mut r) = (s.ei, s.prefix, s.r);
                let mut wake = false;
                while c.ts < lim {
                    if s.iff1 && !ei && p == 0 && l.real.bus.line(c.ts) {
                        wake = true;
                        break;
                    }
                    c.m1(s.pc);
                    r = (r & 0x80) | (r.wrapping_add(1) & 0x7F);
                    ei = false;
                    p = 0;
                }
                let mut f = l.real.fork();
                let x = f.cpu.limit(&mut f.bus, &mut f.clk, lim);
                st.probe(if wake { "slices_woken" } else { "slices_halted" }, 1);
                st.cover(hash3(9, c.log.len().min(200) as u64, wake as u64 | (s.im as u64) << 1));
                if !wake {
                    ensure!(x == Brk::None, "limit", "op {}: limited run of a halted processor returned {:?}", i, x);
                    ensure!(f.clk.log == c.log && f.clk.ts == c.ts, "limit", "op {}: limited run of a halted processor took {} cycles to {} instead of {} cycles to {} (limit {})", i, f.clk.log.len(), f.clk.ts, c.log.len(), c.ts, lim);
                    ensure!(f.bus.log.borrow().is_empty(), "early", "op {}: a halted processor accessed the bus in a limited run: {}", i, show_b(&f.bus.log.borrow()));
                    let mut want = s;
                    want.r = r;
                    want.ei = ei;
                    want.prefix = p;
                    let got = f.cpu.state();
                    ensure!(got == want, "refresh", "op {}: limited run of a halted processor changed: {}", i, got.diff(&want));
                } else {
                    let k = c.log.len();
                    ensure!(f.clk.log.len() > k && f.clk.log[..k] == c.log[..], "wake", "op {}: a halted processor did not do {} refresh cycles before waking: {:x?}", i, k, &f.clk.log[..f.clk.log.len().min(6)]);
                    let e = f.clk.log[k];
                    ensure!(e.kind == Cy::Irq && e.ts == c.ts && e.addr == s.pc.wrapping_add(1), "wake", "op {}: after {} refresh cycles at {} expected an acknowledge at {:04x}, got {:x?}", i, k, c.ts, s.pc.wrapping_add(1), e);
                    ensure!(x != Brk::None || f.clk.ts >= lim, "limit", "op {}: limited run stopped at {} before its limit {}", i, f.clk.ts, lim);
                }
            }
            if *op == Op::Reset {
                l.op(op, st, &mut judge)?;
                ensure!(!l.real.cpu.state().halt, "reset", "reset left the processor halted");
                continue;
            }
            l.op(op, st, &mut judge)?;
        }
        l.finish(st);
        Ok(())
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 200_000,
            Tier::Thorough => 10_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run drives a processor through HALT with limited runs of random length, single steps, IRQ lines, NMI, resets, contention and stalls; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (refresh cycles in a limited run, woken or not, mode) and executed step kinds, hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["a halted processor that the host left after EI or a prefix accepts interrupts after one refresh cycle"]
    }
}
