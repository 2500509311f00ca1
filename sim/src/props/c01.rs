//! C01: architectural effect of every instruction, against the reference model.
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::lock::*;
use crate::model::StepKind;
use crate::rng::Rng;

pub struct C01;
impl Prop for C01 {
    const ID: &'static str = "C01";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.ops = (40, 160);
        gen_sc(rng, &p)
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        let mut l = Lock::new(sc);
        l.run(&sc.ops, st, &mut |m| {
            if !matches!(m.kind, StepKind::Instr | StepKind::Prefix) || m.real_acked() {
                return Ok(());
            }
            if m.real != m.model {
                let d = m.real.diff(&m.model);
                return fail("state", format!("{}: processor vs reference: {}", m.describe(), d));
            }
            for &a in m.dirty {
                let (x, y) = (m.rmem[a as usize], m.mmem[a as usize]);
                ensure!(x == y, "memory", "{}: memory {:04x} = {:02x}, reference {:02x}", m.describe(), a, x, y);
            }
            let (x, y) = (io_only(m.rb), io_only(m.mb));
            ensure!(x == y, "io", "{}: I/O {:x?}, reference {:x?}", m.describe(), x, y);
            Ok(())
        })
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 800_000,
            Tier::Thorough => 30_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run executes a seeded list of processor calls and host faults (register jolts, DMA, NMI, IRQ, resets, contention, wait states) on a seeded 64K image; every executed instruction is judged against the reference model; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (variant, prefix, opcode, second opcode, step kind, halted, mode, call) combinations executed, hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &[
            "the reference model states the Z80 as this library documents it: repeating block instructions set undocumented flags of the last iteration only, ED 71 outputs 0 (NMOS, BM1) or FF (CMOS), LD A,I/R resets P/V on NMOS when an interrupt is pending",
            "search is seeded, not exhaustive: corner-biased registers and bytes, about 10^8 instructions per quick batch",
        ]
    }
}
