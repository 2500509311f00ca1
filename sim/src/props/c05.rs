//! C05: non-maskable interrupts.
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::lock::*;
use crate::model::Fl;
use crate::rng::{hash3, Rng};

pub struct C05;
impl Prop for C05 {
    const ID: &'static str = "C05";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.ops = (30, 120);
        p.nmi = 60;
        p.irq = 6;
        p.slice = 15;
        p.steps = 4;
        p.exec = 8;
        p.slice_max = 80;
        gen_sc(rng, &p)
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        let mut l = Lock::new(sc);
        for (i, op) in sc.ops.iter().enumerate() {
            if *op != Op::Nmi {
                l.op(op, st, &mut |_| Ok(()))?;
                continue;
            }
            let pre = l.real.cpu.dup();
            let before = l.real.cpu.state();
            let shadow = before.ei || before.prefix != 0;
            let injected = l.real.clk.injected;
            let start = l.real.clk.ts;
            let mut accepted = false;
            l.op(op, st, &mut |m| {
                accepted = m.racc;
                ensure!(m.racc != shadow, "acceptance", "NMI at {:04x} with EI-shadow {} prefix {:02x}: accepted {}", before.pc, before.ei, before.prefix, m.racc);
                if !m.racc {
                    ensure!(m.rc.is_empty() && m.rb.is_empty(), "refused", "a refused NMI caused bus activity: {:x?} {}", m.rc, show_b(m.rb));
                    ensure!(m.real == m.before, "refused", "a refused NMI changed the processor: {}", m.real.diff(&m.before));
                    ensure!(m.rdirect.cpu.same(&*pre), "refused", "a refused NMI changed the processor's hidden state");
                    return Ok(());
                }
                ensure!(m.real == m.model, "service", "NMI service: {}", m.real.diff(&m.model));
                if let Some((_, d)) = first_diff(m.rc, m.mc, |a, b| a == b) {
                    return fail("cycles", format!("NMI service clock stream: {}", d));
                }
                if let Some((_, d)) = first_diff(m.rb, m.mb, |a, b| a.matches(b)) {
                    return fail("accesses", format!("NMI service accesses: {}", d));
                }
                let d = m.rdirect.clk.injected - injected;
                ensure!(m.rts - start == 11 + d, "duration", "NMI service took {} T-states plus {} injected", m.rts - start - d, d);
                for &a in m.dirty {
                    let (x, y) = (m.rmem[a as usize], m.mmem[a as usize]);
                    ensure!(x == y, "pushed", "NMI service: memory {:04x} = {:02x}, expected {:02x}", a, x, y);
                }
                Ok(())
            })?;
            st.probe(if accepted { "nmi_accepted" } else { "nmi_refused" }, 1);
            if accepted {
                // return with RETN on a copy of the machine
                let stack = [before.sp.wrapping_sub(1), before.sp.wrapping_sub(2)];
                let clash = stack.iter().any(|a| (0x66..=0x67).contains(a));
                if clash || sc.env.rom.is_some() || sc.env.m1_bank.is_some() {
                    continue;
                }
                let mut f = l.real.fork();
                let retn = [0x45u8, 0x55, 0x5D, 0x65, 0x6D, 0x75, 0x7D][(hash3(sc.extra, i as u64, 5) % 7) as usize];
                f.poke(0x66, &[0xED, retn]);
                f.cpu.step(&mut f.bus, &mut f.clk);
                let s = f.cpu.state();
                let ret = if before.halt { before.pc.wrapping_add(1) } else { before.pc };
                ensure!(s.pc == ret, "return", "RETN returned to {:04x} instead of {:04x}", s.pc, ret);
                ensure!(s.iff1 == before.iff2, "return", "RETN restored IFF1 {} but interrupts were {} (IFF1 {})", s.iff1, before.iff2, before.iff1);
                ensure!(!s.halt && s.sp == before.sp, "return", "after RETN: halted {} SP {:04x} instead of {:04x}", s.halt, s.sp, before.sp);
                let mut want = before;
                want.pc = ret;
                want.halt = false;
                want.iff1 = before.iff2;
                want.r = (before.r & 0x80) | (before.r.wrapping_add(3) & 0x7F);
                want.wz = s.wz;
                ensure!(s == want, "return", "NMI and RETN changed the interrupted state: {}", s.diff(&want));
                st.probe("retn_round_trips", 1);
                // the handler's first instruction shows the flag history: no instruction precedes it
                let mut f = l.real.fork();
                f.poke(0x66, &[0x37]);
                let s = f.cpu.state();
                f.cpu.step(&mut f.bus, &mut f.clk);
                let (a, fl) = ((s.af >> 8) as u8, s.af as u8);
                let xy = if sc.fl == Fl::Cmos { a } else { a | fl } & 0x28;
                let want = fl & 0xC4 | xy | 1;
                let got = f.cpu.state().af as u8;
                ensure!(got == want, "handler", "SCF as the first instruction of the NMI handler gave flags {:02x} instead of {:02x}", got, want);
            }
        }
        l.finish(st);
        Ok(())
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 250_000,
            Tier::Thorough => 12_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run executes processor calls with NMI requests injected at many boundaries (EI shadow, prefixes, HALT, nested, after limited runs), with contention, stalls and interrupts; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (variant, prefix, opcode, second opcode, step kind, halted, mode, call) combinations executed, hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["an NMI leaves IFF2 alone, as on the real chip; RETN copies it to IFF1"]
    }
}
