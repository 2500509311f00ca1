//! C11: the variant chosen at run time, and conversions.
use crate::cpu::*;
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::model::{Brk, Fl, State};
use crate::rng::{hash2, hash3, Rng};
use crate::twin::*;
use z80emu::CpuDebug;

pub struct C11;

fn tag(fl: Fl, h: u64) -> String {
    let t = match fl {
        Fl::Nmos => "NMOS",
        Fl::Cmos => "CMOS",
        Fl::Bm1 => "BM1",
        Fl::Custom => unreachable!(),
    };
    t.chars().enumerate().map(|(i, c)| if h >> i & 1 == 1 { c.to_ascii_lowercase() } else { c }).collect()
}

fn show(d: &CpuDebug) -> String {
    format!("{} | {:x} | {:X} | {:?}", d, d, d, d)
}

impl Prop for C11 {
    const ID: &'static str = "C11";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.slice = 10;
        p.snap = 8;
        p.conv = 8;
        p.api = 16;
        p.ops = (10, 60);
        let mut sc = gen_sc(rng, &p);
        sc.any = false;
        let mut conv = false;
        for op in sc.ops.iter_mut() {
            // variant differences right after a conversion
            if conv && rng.chance(2, 3) {
                *op = Op::Code(rng.pick(&[&[0x37u8, 0x3F][..], &[0x3F], &[0xED, 0x71], &[0x32, 1, 2, 0xCB, 0x46], &[0xED, 0x57], &[0xD3, 1, 0xCB, 0x46]]).to_vec());
            }
            conv = matches!(op, Op::Conv(_));
        }
        sc
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        if sc.any {
            return Ok(());
        }
        let mut a = Side::new(sc);
        let mut b = Side::new(&CpuSc { any: true, ..sc.clone() });
        match any_with_tag(&tag(sc.fl, sc.extra)) {
            None => return fail("construct", format!("with_tag({:?}) refused", tag(sc.fl, sc.extra))),
            Some(c) => {
                let n = make(sc.fl, true);
                ensure!(c.same(&*n) && any_is(&*c, sc.fl), "construct", "with_tag({:?}) is not a new processor of that variant", tag(sc.fl, sc.extra));
                let n = static_to_any(&*make(sc.fl, false), sc.fl);
                ensure!(c.same(&*n), "construct", "a new run-time selected processor differs from a new static one");
            }
        }
        let mut past = (a.cpu.dup(), b.cpu.dup());
        let mut past_fl = a.fl;
        for (i, op) in sc.ops.iter().enumerate() {
            let h = hash3(sc.extra, i as u64, 11);
            match op {
                Op::Api(o) => {
                    let (x, y) = (a.cpu.api(o), b.cpu.api(o));
                    ensure!(x == y, "api", "op {}: {:?} gives {:x} static, {:x} run-time selected", i, o, x, y);
                }
                Op::Step(n) if h & 1 == 0 => {
                    for _ in 0..*n {
                        let (mut da, mut db) = (vec![], vec![]);
                        let x = a.cpu.step_dbg(&mut a.bus, &mut a.clk, &mut da);
                        let y = b.cpu.step_dbg(&mut b.bus, &mut b.clk, &mut db);
                        ensure!(x == y, "results", "op {}: {:?} static, {:?} run-time selected", i, x, y);
                        let (da, db): (Vec<_>, Vec<_>) = (da.iter().map(show).collect(), db.iter().map(show).collect());
                        ensure!(da == db, "debug", "op {}: debugger sees {:?} static, {:?} run-time selected", i, da, db);
                        st.steps += 1;
                    }
                }
                Op::Irq | Op::Exec(_) if h & 1 == 0 => {
                    let (mut da, mut db) = (vec![], vec![]);
                    let (x, y) = match op {
                        Op::Exec(c) => (Some(a.cpu.exec_dbg(&mut a.bus, &mut a.clk, *c, &mut da)), Some(b.cpu.exec_dbg(&mut b.bus, &mut b.clk, *c, &mut db))),
                        _ => (a.cpu.irq_dbg(&mut a.bus, &mut a.clk, &mut da), b.cpu.irq_dbg(&mut b.bus, &mut b.clk, &mut db)),
                    };
                    ensure!(x == y, "results", "op {}: {:?} static, {:?} run-time selected", i, x, y);
                    let (da, db): (Vec<_>, Vec<_>) = (da.iter().map(show).collect(), db.iter().map(show).collect());
                    ensure!(da == db, "debug", "op {}: debugger sees {:?} static, {:?} run-time selected", i, da, db);
                }
                Op::Snap(how) => {
                    let (x, y) = (a.cpu.save(*how), b.cpu.save(*how));
                    ensure!(x == y, "snapshot", "op {}: {:?} snapshots differ: {} and {}", i, how, String::from_utf8_lossy(&x), String::from_utf8_lossy(&y));
                    if *how != Snap::Clone {
                        // crossed over
                        let (mut na, mut nb) = (make(a.fl, false), make(Fl::Nmos, true));
                        if let Err(e) = na.restore(*how, &y).and(nb.restore(*how, &x)) {
                            return fail("snapshot", format!("op {}: {:?} snapshot of one form refused by the other: {}", i, how, e));
                        }
                        a.cpu = na;
                        b.cpu = nb;
                        ensure!(any_is(&*b.cpu, b.fl), "snapshot", "op {}: restored with another variant", i);
                        st.fault("crash_and_restore", 2);
                    }
                }
                Op::Conv(to) => {
                    let s = a.cpu.state();
                    // by loading the snapshot as the other variant
                    let mut via = make(*to, false);
                    if let Err(e) = via.restore(Snap::Json, &a.cpu.save(Snap::Json)) {
                        return fail("convert", format!("op {}: snapshot refused by {:?}: {}", i, to, e));
                    }
                    let na = convert(&*a.cpu, a.fl, *to);
                    let mut nb = match h & 3 {
                        // through the static form and back
                        0 => static_to_any(&*any_to_static(&*b.cpu, *to, false), *to),
                        1 => static_to_any(&*convert(&*any_to_static(&*b.cpu, b.fl, true), b.fl, *to), *to),
                        _ => convert_any(&*b.cpu, *to),
                    };
                    if h & 4 == 0 && b.fl == *to {
                        nb = static_to_any(&*any_to_static(&*b.cpu, *to, true), *to);
                    }
                    let same = |x: State| x == s;
                    ensure!(same(na.state()), "convert", "op {}: {:?} to {:?} changed {}", i, a.fl, to, na.state().diff(&s));
                    ensure!(same(nb.state()), "convert", "op {}: run-time {:?} to {:?} changed {}", i, a.fl, to, nb.state().diff(&s));
                    ensure!(via.same(&*na), "convert", "op {}: {:?} to {:?}: conversion gives {} but loading the snapshot gives {}", i, a.fl, to, String::from_utf8_lossy(&na.save(Snap::Json)), String::from_utf8_lossy(&via.save(Snap::Json)));
                    a.cpu = na;
                    b.cpu = nb;
                    a.fl = *to;
                    b.fl = *to;
                    ensure!(any_is(&*b.cpu, *to), "convert", "op {}: run-time selected processor did not become {:?}", i, to);
                    st.fault("conversions", 1);
                }
                op => {
                    let (mut ra, mut rb): (Vec<(Brk, State)>, Vec<(Brk, State)>) = (vec![], vec![]);
                    exec_op(&mut a, op, &mut |s, x| ra.push((x, s.cpu.state())));
                    exec_op(&mut b, op, &mut |s, x| rb.push((x, s.cpu.state())));
                    st.steps += ra.len() as u64;
                    if let Some((k, (x, y))) = ra.iter().zip(&rb).enumerate().find(|(_, (x, y))| x != y) {
                        return fail("results", format!("op {} call {}: {:?} static, {:?} run-time selected: {}", i, k, x.0, y.0, x.1.diff(&y.1)));
                    }
                    ensure!(ra.len() == rb.len(), "results", "op {}: {} calls static, {} run-time selected", i, ra.len(), rb.len());
                }
            }
            ensure!((a.cpu.irq_allowed(), a.cpu.nmi_allowed()) == (b.cpu.irq_allowed(), b.cpu.nmi_allowed()), "queries", "op {}: interrupt queries differ", i);
            same_history(&a, &b, &format!("op {} {:?} static and run-time selected {:?}", i, op, a.fl))?;
            ensure!(static_to_any(&*a.cpu, a.fl).same(&*b.cpu), "inner", "op {} {:?}: static and run-time selected {:?} differ inside", i, op, a.fl);
            if a.fl == past_fl {
                let (x, y) = (a.cpu.same(&*past.0), b.cpu.same(&*past.1));
                ensure!(x == y, "compare", "op {}: equal to an earlier state: {} static, {} run-time selected", i, x, y);
            } else {
                ensure!(!b.cpu.same(&*past.1), "compare", "op {}: processors of different variants compare equal", i);
            }
            if h >> 20 & 7 == 0 {
                past = (a.cpu.dup(), b.cpu.dup());
                past_fl = a.fl;
            }
            st.cover(hash2(a.fl as u64, match op {
                Op::Step(_) => 1,
                Op::Slice(_) => 2,
                Op::Tick(_) => 3,
                Op::Nmi => 4,
                Op::Irq => 5,
                Op::Exec(c) => 100 + *c as u64,
                Op::Snap(s) => 20 + *s as u64,
                Op::Conv(f) => 30 + *f as u64,
                Op::Api(a) => crate::rng::hash_bytes(format!("{:?}", a).split('(').next().unwrap_or("").as_bytes()),
                _ => 6,
            }));
            digest_side(&b, st);
            a.clear_logs();
            b.clear_logs();
        }
        same_mem(&a, &b, "end of run")?;
        b.end(st);
        st.nontrivial = true;
        Ok(())
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 120_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run applies the same operations (execution, debugging, interrupts, register access, snapshots crossed over, conversions by several routes) to a static and a run-time selected processor; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (variant, kind of operation), hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["flag history is kept by conversions between NMOS and BM1 and starts afresh from CMOS, as loading a snapshot of the other variant does"]
    }
}
