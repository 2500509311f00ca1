//! C09: snapshots.
use crate::cpu::{ApiOp, Snap};
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::model::{Brk, Fl};
use crate::rng::{hash2, hash3, Rng};
use crate::twin::*;
use serde_json::Value;

pub struct C09;

const KINDS: [Snap; 7] = [Snap::Json, Snap::JsonSnake, Snap::JsonAlt, Snap::Bincode, Snap::BincodeStream, Snap::Tree, Snap::Clone];

/// Crash and restart: the processor is thrown away and rebuilt from its snapshot.
fn crash(s: &mut Side, how: Snap, i: usize) -> Res {
    let d = s.cpu.save(how);
    let mut n = if how == Snap::Clone { s.cpu.dup() } else { make(s.fl, s.any) };
    if let Err(e) = n.restore(how, &d) {
        return fail("refused", format!("op {}: own {:?} snapshot refused: {}: {}", i, how, e, String::from_utf8_lossy(&d)));
    }
    s.cpu = n;
    Ok(())
}

/// A snapshot as an older release would have written it.
fn legacy(s: &Side, which: u64, i: usize) -> Res {
    let mut want = s.fork();
    want.cpu.norm_r();
    let mut v: Value = serde_json::from_slice(&want.cpu.save(Snap::Json)).expect("own json");
    let o = v.as_object_mut().expect("object");
    let mut gone = Vec::new();
    if which & 1 != 0 {
        o.remove("memptr");
        want.cpu.api(&ApiOp::SetMemptr(0));
        gone.push("memptr");
    }
    if which & 2 != 0 {
        o.remove("r");
        gone.push("r");
    }
    let mut latch = false;
    if which & 4 != 0 {
        o.remove("flavour");
        latch = true;
        gone.push("flavour");
    } else if which & 8 != 0 {
        let f = o["flavour"].as_object_mut().expect("flavour");
        let (a, b) = (f["flagsModified"].clone(), f["lastFlagsModified"].clone());
        f.clear();
        f.insert("flags_modified".into(), a);
        f.insert("last_flags_modified".into(), b);
        gone.push("camelCase flavour");
    }
    if which & 16 != 0 && (!s.any || s.fl == Fl::Nmos) {
        o.remove("type");
        gone.push("type");
    }
    let text = serde_json::to_string(&v).expect("json");
    let mut got = s.fork();
    let how = if which & 32 != 0 { Snap::Tree } else { Snap::Json };
    if let Err(e) = got.cpu.restore(how, text.as_bytes()) {
        return fail("legacy", format!("op {}: a snapshot without {:?} refused: {}: {}", i, gone, e, text));
    }
    same_state(&got, &want, &format!("op {}: snapshot without {:?}", i, gone)).map_err(|v| Violation { kind: "legacy".into(), ..v })?;
    let g: Value = serde_json::from_slice(&got.cpu.save(Snap::Json)).expect("own json");
    if latch {
        ensure!(g["flavour"]["flagsModified"] == false && g["flavour"]["lastFlagsModified"] == false, "legacy", "op {}: flavour default {}", i, g["flavour"]);
    } else {
        ensure!(got.cpu.same(&*want.cpu), "legacy", "op {}: snapshot without {:?} gives {}", i, gone, g);
    }
    Ok(())
}

impl Prop for C09 {
    const ID: &'static str = "C09";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.slice = 8;
        p.code = 35;
        p.ops = (10, 60);
        p.conv = 2;
        let mut sc = gen_sc(rng, &p);
        if rng.chance(1, 3) {
            // flag-history and shadow rich code
            for op in sc.ops.iter_mut() {
                if let Op::Code(v) = op {
                    if rng.chance(1, 2) {
                        v.clear();
                        for _ in 0..4 {
                            v.extend_from_slice(*rng.pick(&[
                                &[0x37u8][..], &[0x3F], &[0xFB], &[0xDD], &[0xFD], &[0x76], &[0xAF], &[0xF1], &[0x08], &[0xED, 0x57], &[0xED, 0x5F], &[0xCB, 0x46], &[0x3E, 0x28], &[0xED, 0x4F], &[0xDD, 0xCB, 1, 0x46],
                            ]));
                        }
                    }
                }
            }
        }
        sc
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        let mut a = Side::new(sc);
        let mut b = Side::new(sc);
        let every = 1 + sc.extra % 4;
        let mut n_call = 0u64;
        for (i, op) in sc.ops.iter().enumerate() {
            let (n, one) = match op {
                Op::Step(n) => (*n, Op::Step(1)),
                Op::Tick(n) => (*n, Op::Tick(1)),
                o => (1, o.clone()),
            };
            let mut halted = 0;
            for _ in 0..n {
                n_call += 1;
                st.steps += 1;
                let h = hash3(sc.extra, n_call, 9);
                if h % every == 0 {
                    let how = KINDS[(h >> 8) as usize % KINDS.len()];
                    crash(&mut b, how, i)?;
                    st.fault("crash_and_restore", 1);
                    let z = b.cpu.state();
                    st.cover(hash2(how as u64, z.halt as u64 | (z.ei as u64) << 1 | (z.prefix as u64) << 2 | (z.im as u64) << 11 | (z.iff1 as u64) << 13 | (z.iff2 as u64) << 14 | (b.fl as u64) << 15 | (b.any as u64) << 18));
                    if z.prefix != 0 {
                        st.probe("inside_prefix", 1);
                    }
                    if z.ei {
                        st.probe("ei_shadow", 1);
                    }
                    if z.halt {
                        st.probe("halted", 1);
                    }
                }
                if h >> 40 & 31 == 0 {
                    legacy(&b, h >> 48, i)?;
                    st.fault("legacy_snapshots", 1);
                }
                let (mut ra, mut rb) = (Brk::None, Brk::None);
                exec_op(&mut a, &one, &mut |_, x| ra = x);
                exec_op(&mut b, &one, &mut |_, x| rb = x);
                ensure!(ra == rb, "result", "op {}: {:?} vs {:?} after restoring", i, ra, rb);
                same_history(&a, &b, &format!("op {} {:?} original and restored", i, op))?;
                digest_side(&a, st);
                a.clear_logs();
                b.clear_logs();
                halted = if a.cpu.state().halt { halted + 1 } else { 0 };
                if halted > 3 {
                    break;
                }
            }
        }
        same_inner(&a, &b, "end of run, original and restored")?;
        same_mem(&a, &b, "end of run, original and restored")?;
        a.end(st);
        st.nontrivial = true;
        Ok(())
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 100_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run drives two machines through the same history; one is repeatedly thrown away and rebuilt from a snapshot (JSON, aliased JSON, alternative value forms from a stream, a self-describing format with integers of any width, sized and unsized sequences and numbered fields, bincode from memory and from a stream, clone) at any boundary; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (format, variant, halted, EI shadow, prefix, mode, IFFs) at which a snapshot was taken, hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["only the processor is snapshotted: memory, devices and clock are the host's"]
    }
}
