//! C15: reset.
use crate::cpu::Snap;
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::model::{Brk, State};
use crate::rng::{hash2, Rng};
use crate::twin::*;

pub struct C15;
impl Prop for C15 {
    const ID: &'static str = "C15";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.reset = 16;
        p.slice = 8;
        p.conv = 2;
        p.snap = 2;
        p.ops = (10, 60);
        let mut sc = gen_sc(rng, &p);
        // what follows a reset must be able to see leaked flag history
        let mut after = false;
        for op in sc.ops.iter_mut() {
            if after && rng.chance(1, 2) {
                *op = Op::Code(rng.pick(&[&[0x37u8, 0x3F][..], &[0x3F, 0x37], &[0x21, 1, 2, 0xCB, 0x46], &[0xFB, 0x76], &[0x00, 0x37]]).to_vec());
            }
            after = *op == Op::Reset;
        }
        sc
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        let mut a = Side::new(sc);
        let mut b: Option<Side> = None;
        for (i, op) in sc.ops.iter().enumerate() {
            if *op == Op::Reset {
                let z = a.cpu.state();
                st.cover(hash2(z.halt as u64 | (z.ei as u64) << 1 | (z.prefix as u64) << 2 | (z.im as u64) << 11 | (z.iff1 as u64) << 13 | (z.iff2 as u64) << 14, a.fl as u64 | (a.any as u64) << 3));
                a.cpu.reset();
                st.fault("resets", 1);
                let mut n = a.fork();
                n.cpu = make(a.fl, a.any);
                same_inner(&a, &n, &format!("op {}: reset and new processor", i))?;
                ensure!(a.cpu.state() == State::reset(), "state", "op {}: reset state {}", i, a.cpu.state().diff(&State::reset()));
                let (x, y) = (a.cpu.save(Snap::Json), n.cpu.save(Snap::Json));
                ensure!(x == y, "state", "op {}: reset processor saves as {}, a new one as {}", i, String::from_utf8_lossy(&x), String::from_utf8_lossy(&y));
                b = Some(n);
                continue;
            }
            let mut ra = Vec::new();
            exec_op(&mut a, op, &mut |_, x| ra.push(x));
            st.steps += ra.len() as u64;
            if let Some(b) = b.as_mut() {
                let mut rb: Vec<Brk> = Vec::new();
                exec_op(b, op, &mut |_, x| rb.push(x));
                ensure!(ra == rb, "result", "op {}: results differ after a reset", i);
                same_history(&a, b, &format!("op {} {:?} after reset and after power-up", i, op))?;
                b.clear_logs();
                st.probe("operations_compared", 1);
                st.nontrivial = true;
            }
            digest_side(&a, st);
            a.clear_logs();
        }
        if let Some(b) = &b {
            same_inner(&a, b, "end of run")?;
            same_mem(&a, b, "end of run")?;
        }
        a.end(st);
        Ok(())
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 150_000,
            Tier::Thorough => 10_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run drives a machine, resets it at random boundaries and lets a newly created processor take over a copy of the rest of the machine; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (variant, halted, EI shadow, prefix, mode, IFFs) at a reset, hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["power-up: AF=AF'=SP=0xFFFF, everything else zero, mode 0"]
    }
}
