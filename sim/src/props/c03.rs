//! C03: limited runs against single steps and against differently cut runs.
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::model::Brk;
use crate::rng::{hash3, Rng};
use crate::twin::*;

pub struct C03;

/// Run single steps until the limit or a break.
pub fn steps_to(s: &mut Side, lim: u64) -> Brk {
    while s.clk.ts < lim {
        let b = s.cpu.step(&mut s.bus, &mut s.clk);
        if b != Brk::None {
            return b;
        }
    }
    Brk::None
}

impl Prop for C03 {
    const ID: &'static str = "C03";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.ops = (15, 60);
        p.slice = 60;
        p.tick = 0;
        p.step = 10;
        p.slice_max = *rng.pick(&[60, 300, 2000]);
        gen_sc(rng, &p)
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        let mut a = Side::new(sc);
        let mut b = Side::new(sc);
        for (i, op) in sc.ops.iter().enumerate() {
            st.steps += 1;
            let what = format!("op {} {:?}", i, op);
            if let Op::Slice(n) = op {
                let lim = a.clk.ts + *n as u64;
                let h = hash3(sc.extra, i as u64, 3);
                st.probe("slices", 1);
                match h % 4 {
                    0 | 1 => {
                        // one limited run = the steps it stands for
                        let x = a.cpu.limit(&mut a.bus, &mut a.clk, lim);
                        let y = steps_to(&mut b, lim);
                        st.cover(hash3(1, b.bus.log.borrow().len().min(63) as u64, crate::lock::rbrk_num(x) & 3 | (a.cpu.state().halt as u64) << 3 | (a.cpu.state().prefix as u64) << 4 | (a.cpu.state().ei as u64) << 12));
                        ensure!(x == y, "result", "{}: limited run returned {:?}, single steps {:?}", what, x, y);
                        if x == Brk::None {
                            ensure!(a.clk.ts >= lim, "short", "{}: limited run returned at {} before its limit {} without a break", what, a.clk.ts, lim);
                        }
                    }
                    m => {
                        // one run, resumed after breaks, against random cuts mixed with steps
                        let mut xs = Vec::new();
                        let mut calls = 0;
                        while a.clk.ts < lim {
                            let x = a.cpu.limit(&mut a.bus, &mut a.clk, lim);
                            if x != Brk::None {
                                xs.push(x);
                            }
                            calls += 1;
                            ensure!(calls < 1_000_000, "stuck", "{}: limited run does not advance", what);
                        }
                        let mut ys = Vec::new();
                        let mut r = Rng::new(h);
                        while b.clk.ts < lim {
                            let y = if r.chance(1, 3) {
                                b.cpu.step(&mut b.bus, &mut b.clk)
                            } else {
                                let k = if m == 2 { r.below(8) } else { r.below(120) };
                                let l = (b.clk.ts + k).min(lim);
                                st.probe("cuts", 1);
                                let y = b.cpu.limit(&mut b.bus, &mut b.clk, l);
                                ensure!(y != Brk::None || b.clk.ts >= l, "short", "{}: limited run returned at {} before its limit {} without a break", what, b.clk.ts, l);
                                y
                            };
                            if y != Brk::None {
                                ys.push(y);
                            }
                        }
                        ensure!(xs == ys, "result", "{}: breaks of one run {:?}, of the cut run {:?}", what, xs, ys);
                    }
                }
                same_history(&a, &b, &what)?;
                same_inner(&a, &b, &what)?;
                // a limit already reached does nothing
                let lim0 = if h >> 40 & 1 == 0 { a.clk.ts } else { a.clk.ts.saturating_sub(h >> 41 & 15) };
                let before = a.cpu.dup();
                let marks = a.marks();
                let x = a.cpu.limit(&mut a.bus, &mut a.clk, lim0);
                ensure!(x == Brk::None && marks == a.marks() && a.cpu.same(&*before), "reached", "{}: a run whose limit {} is already reached at {} changed something", what, lim0, a.clk.ts);
            } else {
                let (mut x, mut y) = (Vec::new(), Vec::new());
                exec_op(&mut a, op, &mut |_, r| x.push(r));
                exec_op(&mut b, op, &mut |_, r| y.push(r));
                ensure!(x == y, "result", "{}: {:?} vs {:?}", what, x, y);
                same_history(&a, &b, &what)?;
            }
            digest_side(&a, st);
            st.probe("accesses_compared", a.bus.log.borrow().len() as u64);
            a.clear_logs();
            b.clear_logs();
        }
        same_mem(&a, &b, "end of run")?;
        a.end(st);
        st.nontrivial = a.clk.ts > sc.start_ts;
        Ok(())
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 300_000,
            Tier::Thorough => 15_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run executes host operations and time slices on two machines from one scenario, one cut as limited runs and the other as single steps or other cuts, with interrupts, breaks, contention and stalls; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (accesses in the slice, result, halted, prefix, EI shadow at its end) combinations, hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["polls of the interrupt line are not part of the history (the line is a pure function of time here)"]
    }
}
