//! C12: contention and wait states.
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::model::Brk;
use crate::rng::{hash3, Rng};
use crate::sim::{BEv, CEv, Cy, Line, NA};
use crate::twin::*;

pub struct C12;

fn bare(v: &[CEv]) -> Vec<(Cy, u16, u16)> {
    v.iter().filter(|e| e.kind != Cy::Wait).map(|e| (e.kind, e.addr, e.n)).collect()
}

impl Prop for C12 {
    const ID: &'static str = "C12";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.tick = 0;
        p.irq = 6;
        p.snap = 1;
        let mut sc = gen_sc(rng, &p);
        // the line depends on progress, not on time
        let mut t = rng.below(40);
        let mut v = Vec::new();
        while v.len() < 60 {
            v.push(t);
            t += 1 + rng.below(30);
        }
        sc.env.line = if rng.chance(1, 6) { Line::Stuck } else { Line::Fetches(v) };
        if sc.env.cont == 0 && sc.env.wait == 0 {
            sc.env.cont = rng.range(1, 4) as u32;
            sc.env.cont_max = rng.range(1, 8) as u32;
        }
        if rng.chance(1, 2) {
            sc.env.wait = rng.range(1, 3) as u32;
            sc.env.wait_max = *rng.pick(&[1, 3, 300, 65535]);
        }
        sc
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        let mut sc0 = sc.clone();
        sc0.env.cont = 0;
        sc0.env.stall = 0;
        sc0.env.wait = 0;
        let mut a = Side::new(&sc0);
        let mut b = Side::new(sc);
        for (i, op) in sc.ops.iter().enumerate() {
            let (mut ra, mut rb): (Vec<Brk>, Vec<Brk>) = (vec![], vec![]);
            exec_op(&mut a, op, &mut |_, x| ra.push(x));
            let t0 = b.clk.ts;
            exec_op(&mut b, op, &mut |_, x| rb.push(x));
            st.steps += ra.len() as u64;
            ensure!(ra == rb, "results", "op {}: results {:?} without delays, {:?} with", i, ra, rb);
            {
                let (la, lb) = (a.bus.log.borrow(), b.bus.log.borrow());
                if let Some((_, d)) = first_diff(&la, &lb, |x: BEv, y: BEv| x.untimed() == y.untimed()) {
                    return fail("accesses", format!("op {} {:?}: accesses without and with delays: {}", i, op, d));
                }
                let mut last = t0;
                for e in lb.iter() {
                    let t = e.ts();
                    if t == NA {
                        continue;
                    }
                    ensure!(t >= last && t <= b.clk.ts, "backwards", "op {}: access {:x?} after time {}", i, e, last);
                    last = t;
                    st.cover(hash3(crate::lock::ev_num(*e) >> 32, (t - t0).min(500), 3));
                }
            }
            if let Some((_, d)) = first_diff(&bare(&a.clk.log), &bare(&b.clk.log), |x, y| x == y) {
                return fail("cycles", format!("op {} {:?}: cycles without and with delays: {}", i, op, d));
            }
            let plain = a.clk.ts - sc.start_ts;
            let slow = b.clk.ts - sc.start_ts;
            ensure!(slow == plain + b.clk.injected, "total", "op {}: {} T-states with {} of delays, {} without", i, slow, b.clk.injected, plain);
            ensure!(a.clk.injected == 0 && a.clk.n_wait == 0, "total", "op {}: wait states charged that no device asked for", i);
            // every wait state a device asked for, once, right after its cycle
            ensure!(b.clk.waited == b.bus.waits, "waits", "op {}: devices asked for {} wait states, {} charged", i, b.bus.waits, b.clk.waited);
            same_state(&a, &b, &format!("op {} {:?} without and with delays", i, op))?;
            digest_side(&b, st);
            a.clear_logs();
            b.clear_logs();
        }
        same_inner(&a, &b, "end of run")?;
        same_mem(&a, &b, "end of run")?;
        b.end(st);
        st.nontrivial = b.clk.injected > 0;
        Ok(())
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 150_000,
            Tier::Thorough => 10_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run drives two machines through the same calls, one with contention, stalls and wait states injected; non-trivial = some delay was injected; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (access kind, T-states since the call began up to 500), hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["the interrupt line depends on the number of opcode fetches, not on time", "calls are single steps: limited runs are related to steps by C03"]
    }
}
