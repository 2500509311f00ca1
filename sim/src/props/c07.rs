//! C07: break requests.
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::model::Brk;
use crate::rng::{hash3, Rng};
use crate::sim::BEv;
use crate::twin::*;

pub struct C07;

/// The cause a call must return, from what happened on the bus during it.
fn expected(s: &Side, op: &Op) -> Result<Brk, Violation> {
    let t = &s.bus.brk_tokens;
    if t.len() > 1 {
        return fail("twice", format!("one call went on after a break was requested: {} requests", t.len()));
    }
    if let Some(&(reti, tok)) = t.first() {
        return Ok(if reti { Brk::Reti(tok) } else { Brk::WrIo(tok) });
    }
    if let Op::Exec(c) = op {
        // the opcode does not come over the bus
        return Ok(if *c == 0x76 { Brk::Halt } else { Brk::None });
    }
    Ok(if s.cpu.state().halt && !s.bus.log.borrow().is_empty() { Brk::Halt } else { Brk::None })
}

fn judge(i: usize, op: &Op, s: &Side, got: Brk, st: &mut Stats) -> Res {
    let want = expected(s, op)?;
    st.cover(hash3(crate::lock::rbrk_num(got) & 3, s.bus.log.borrow().last().map_or(0, |e| crate::lock::ev_num(*e)) & 0xF_0000_FF00, s.fl as u64));
    match want {
        Brk::None => {}
        Brk::Halt => st.probe("halt_causes", 1),
        Brk::WrIo(_) => st.probe("output_breaks", 1),
        Brk::Reti(_) => st.probe("reti_breaks", 1),
    }
    ensure!(got == want, "cause", "op {}: the call returned {:?}, the device asked for {:?}", i, got, want);
    if matches!(want, Brk::WrIo(_) | Brk::Reti(_)) {
        let log = s.bus.log.borrow();
        let at = log.iter().rposition(|e| matches!(e, BEv::Out { .. } | BEv::Reti { .. })).unwrap_or(0);
        ensure!(
            !log[at..].iter().any(|e| matches!(e, BEv::Op { .. } | BEv::Ack { .. })),
            "late",
            "op {}: execution went on after the instruction that asked for a break: {}",
            i,
            show_b(&log[at..])
        );
    }
    Ok(())
}

fn quiet(s: &Side) -> Side {
    let mut f = s.fork();
    for e in [&mut f.bus.env, &mut f.clk.env] {
        e.brk_wr = 0;
        e.brk_reti = 0;
    }
    f
}

impl Prop for C07 {
    const ID: &'static str = "C07";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.ops = (20, 70);
        p.slice = 30;
        p.code = 35;
        p.slice_max = *rng.pick(&[40, 300, 2000]);
        let mut sc = gen_sc(rng, &p);
        sc.env.brk_wr = *rng.pick(&[0, 1, 1, 2, 3]);
        sc.env.brk_reti = *rng.pick(&[0, 1, 1, 2]);
        if rng.chance(1, 4) {
            sc.env.ack = vec![*rng.pick(&[0xD3, 0x76, 0xED, 0xFF, 0xDD])];
        }
        for op in sc.ops.iter_mut() {
            if let Op::Code(v) = op {
                let mut w = Vec::new();
                for _ in 0..rng.range(1, 4) {
                    match rng.below(9) {
                        0 | 1 => w.extend([0xD3, rng.u8()]),
                        2 | 3 => w.extend([0xED, 0x41 | rng.u8() & 0x38]),
                        4 => w.extend([0xED, *rng.pick(&[0xA3, 0xAB, 0xB3, 0xBB])]),
                        5 => w.extend([0xED, 0x4D]),
                        6 => w.extend([0xED, 0x45 | rng.u8() & 0x38]),
                        7 => w.extend_from_slice(*rng.pick(&[&[0x76u8][..], &[0xFB, 0x76], &[0xDD, 0x76], &[0xFB, 0xD3, 1], &[0xDD, 0xD3, 1], &[0xFD, 0xED, 0x79]])),
                        _ => w.extend(v.iter().take(3)),
                    }
                }
                *v = w;
            }
        }
        sc
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        let mut a = Side::new(sc);
        for (i, op) in sc.ops.iter().enumerate() {
            let (n, limited) = match op {
                Op::Step(n) => (*n, None),
                Op::Tick(n) => (*n, Some(1)),
                Op::Slice(n) => (1, Some(*n as u64)),
                Op::Irq | Op::Exec(_) => (1, None),
                Op::Nmi => {
                    a.cpu.nmi(&mut a.bus, &mut a.clk);
                    ensure!(a.bus.brk_tokens.is_empty(), "late", "a break request inside an NMI");
                    st.fault("nmi_requests", 1);
                    a.clear_logs();
                    continue;
                }
                op => {
                    a.host_op(op);
                    continue;
                }
            };
            let mut halted = 0;
            for _ in 0..n {
                st.steps += 1;
                let mut f = quiet(&a);
                match limited {
                    None => {
                        let (x, y) = match op {
                            Op::Step(_) => (a.cpu.step(&mut a.bus, &mut a.clk), f.cpu.step(&mut f.bus, &mut f.clk)),
                            Op::Irq => (a.cpu.irq(&mut a.bus, &mut a.clk).unwrap_or(Brk::None), f.cpu.irq(&mut f.bus, &mut f.clk).unwrap_or(Brk::None)),
                            Op::Exec(c) => (a.cpu.exec(&mut a.bus, &mut a.clk, *c), f.cpu.exec(&mut f.bus, &mut f.clk, *c)),
                            _ => unreachable!(),
                        };
                        judge(i, op, &a, x, st)?;
                        judge(i, op, &f, y, st)?;
                    }
                    Some(n) => {
                        let lim = a.clk.ts + n;
                        let y = f.cpu.limit(&mut f.bus, &mut f.clk, lim);
                        judge(i, op, &f, y, st)?;
                        // the same limit, resumed after every break
                        let mut logs = (Vec::new(), Vec::new());
                        let mut resumed = 0;
                        loop {
                            let x = a.cpu.limit(&mut a.bus, &mut a.clk, lim);
                            judge(i, op, &a, x, st)?;
                            logs.0.append(&mut a.clk.log);
                            logs.1.append(&mut a.bus.log.borrow_mut());
                            st.fault("break_requests", a.bus.brk_tokens.len() as u64);
                            a.bus.brk_tokens.clear();
                            match x {
                                Brk::WrIo(_) | Brk::Reti(_) => resumed += 1,
                                Brk::Halt => break,
                                Brk::None => {
                                    ensure!(a.clk.ts >= lim, "early", "op {}: a limited run returned nothing at {} before its limit {}", i, a.clk.ts, lim);
                                    break;
                                }
                            }
                        }
                        st.probe("resumptions", resumed);
                        a.clk.log = logs.0;
                        *a.bus.log.borrow_mut() = logs.1;
                    }
                }
                same_history(&a, &f, &format!("op {} with and without breaks", i))?;
                for &x in a.bus.dirty.iter().chain(&f.bus.dirty) {
                    ensure!(a.bus.mem[x as usize] == f.bus.mem[x as usize], "memory", "op {}: memory {:04x} differs after a break", i, x);
                }
                digest_side(&a, st);
                st.fault("break_requests", a.bus.brk_tokens.len() as u64);
                a.bus.brk_tokens.clear();
                a.clear_logs();
                halted = if a.cpu.state().halt { halted + 1 } else { 0 };
                if halted > 3 {
                    break;
                }
            }
        }
        a.end(st);
        st.nontrivial = true;
        Ok(())
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 120_000,
            Tier::Thorough => 8_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run drives one machine by single steps, limited runs resumed after every break, direct interrupts and injected opcodes, while devices request breaks; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (cause, last bus event kind and address, variant), hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["a break is requested with a distinct token; HALT is recognised by the processor being halted after bus activity"]
    }
}
