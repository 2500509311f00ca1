//! C02: machine cycles, addresses and timestamps, against the reference model.
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::lock::*;
use crate::rng::Rng;

pub struct C02;
impl Prop for C02 {
    const ID: &'static str = "C02";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.ops = (40, 160);
        p.nmi = 6;
        p.irq = 6;
        gen_sc(rng, &p)
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        let mut l = Lock::new(sc);
        l.run(&sc.ops, st, &mut |m| {
            if m.real_acked() != m.model_acked() || m.racc != m.macc {
                // whether it is accepted is judged by C04 and C05
                return Ok(());
            }
            if let Some((i, d)) = first_diff(m.rc, m.mc, |a, b| a == b) {
                return fail("cycles", format!("{}: clock stream differs from the Z80's at {}", m.describe(), i.to_string() + ": " + &d));
            }
            if let Some((_, d)) = first_diff(m.rb, m.mb, |a, b| a.matches_but_data(b)) {
                return fail("accesses", format!("{}: access stream differs from the Z80's: {}", m.describe(), d));
            }
            ensure!(m.rts == m.mts, "duration", "{}: {} T-states, reference {}", m.describe(), m.rts, m.mts);
            Ok(())
        })
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 600_000,
            Tier::Thorough => 25_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run executes a seeded list of processor calls and host faults on a seeded 64K image with contention, stalls and wait states; the clock and access streams of every call are compared with the reference model; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (variant, prefix, opcode, second opcode, step kind, halted, mode, call) combinations executed, hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &[
            "adjacent internal (no-MREQ) cycles on one address count as one, as they cannot be told apart on the bus",
            "the timestamp of the second byte of a 16-bit read is not defined by the Memory seam; its machine cycle and address are checked on the clock",
            "the data byte of an untaken relative jump is not read through the Memory seam; its machine cycle is checked on the clock",
        ]
    }
}
