//! C26: host access to the registers at any boundary.
use crate::cpu::{api_model, ApiOp, Snap};
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::lock::*;
use crate::model::{State, StepKind};
use crate::rng::{hash2, Rng};

pub struct C26;

/// Accesses come in pairs that could disturb each other.
fn burst(rng: &mut Rng) -> Vec<Op> {
    use ApiOp::*;
    let p = |x: ApiOp| Op::Api(x);
    match rng.below(8) {
        0 => vec![p(SetR(rng.corner8())), p(AddR(gen_delta(rng))), p(IncR), p(SetI(rng.u8()))],
        1 => vec![p(Exx), p(SetReg16(rng.u8() % 3, rng.corner16())), p(Exx), p(GetAlt2(rng.u8()))],
        2 => vec![p(ExAfAf), p(SetFlags(rng.u8())), p(ExAfAf), p(SetAcc(rng.u8()))],
        3 => vec![p(SetIffs(rng.chance(1, 2), rng.chance(1, 2))), p(RestoreIff1), p(Queries)],
        4 => vec![p(EnableInt), p(Queries), p(DisableInt), p(Queries)],
        5 => vec![p(SetIndex2(rng.u8(), rng.u8(), rng.u8())), p(SetReg(4 + rng.u8() % 2, rng.u8() % 3, rng.u8())), p(GetIndex2(rng.u8()))],
        6 => vec![p(Halt), p(SetPc(rng.corner16()))],
        _ => vec![p(SetReg2(rng.u8(), rng.u8(), rng.u8())), p(SetReg(rng.u8(), rng.u8() % 3, rng.u8())), p(SetMemptr(rng.u16()))],
    }
}

impl Prop for C26 {
    const ID: &'static str = "C26";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.api = 60;
        p.load = 8;
        p.reset = 2;
        p.snap = 3;
        p.steps = 4;
        p.ops = (20, 70);
        let mut sc = gen_sc(rng, &p);
        for _ in 0..rng.below(5) {
            let at = rng.below(sc.ops.len() as u64 + 1) as usize;
            for (k, op) in burst(rng).into_iter().enumerate() {
                sc.ops.insert(at + k, op);
            }
        }
        sc
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        let mut l = Lock::new(sc);
        let mut prior = 0u64;
        for (i, op) in sc.ops.iter().enumerate() {
            let at = |z: &State| (z.halt as u64) | (z.ei as u64) << 1 | (z.prefix as u64) << 2 | (z.im as u64) << 11;
            let mut judge = |m: &Micro| -> Res {
                // execution continues from what was set
                if matches!(m.kind, StepKind::Instr | StepKind::Prefix) && !m.real_acked() && prior != 0 {
                    ensure!(m.real == m.model, "continues", "op {}: {} after register access: processor vs reference: {}", i, m.describe(), m.real.diff(&m.model));
                }
                Ok(())
            };
            match op {
                Op::Api(a) => {
                    let before = l.real.cpu.state();
                    let twin = l.real.cpu.dup();
                    let mut want = before;
                    let ret = api_model(&mut want, a);
                    let got = l.real.cpu.api(a);
                    let now = l.real.cpu.state();
                    st.fault("register_jolts", 1);
                    ensure!(got == ret, "value", "op {}: {:?} returned {:x}, the state implies {:x}", i, a, got, ret);
                    ensure!(now == want, "effect", "op {}: {:?} at pc {:04x}: {}", i, a, before.pc, now.diff(&want));
                    if let Err(e) = l.real.cpu.views() {
                        return fail("views", format!("op {}: after {:?}: {}", i, a, e));
                    }
                    let same = l.real.cpu.same(&*twin);
                    ensure!(same == (now == before), "equality", "op {}: {:?}: compares {} although the state {}", i, a, if same { "equal" } else { "unequal" }, if now == before { "is the same" } else { "changed" });
                    l.model.s = want;
                    prior += 1;
                    st.probe("register_accesses", 1);
                    st.cover(hash2(at(&before), op_num(a)));
                    st.eat(hash2(got, now.r as u64 | (now.pc as u64) << 8));
                }
                Op::Load(seed) => {
                    let before = l.real.cpu.state();
                    l.op(op, st, &mut judge)?;
                    let z = rand_state(&mut Rng::new(*seed));
                    let want = State { halt: before.halt, prefix: before.prefix, ei: before.ei, ..z };
                    let now = l.real.cpu.state();
                    ensure!(now == want, "effect", "op {}: after setting every register: {}", i, now.diff(&want));
                    if let Err(e) = l.real.cpu.views() {
                        return fail("views", format!("op {}: after setting every register: {}", i, e));
                    }
                    prior += 1;
                }
                Op::Snap(_) => {
                    let before = l.real.cpu.state();
                    let twin = l.real.cpu.dup();
                    l.op(op, st, &mut judge)?;
                    ensure!(l.real.cpu.state() == before && l.real.cpu.same(&*twin), "snapshot", "op {}: {:?} changed the processor", i, op);
                }
                op => {
                    l.op(op, st, &mut judge)?;
                    if let Err(e) = l.real.cpu.views() {
                        return fail("views", format!("op {}: after {:?}: {}", i, op, e));
                    }
                }
            }
        }
        let saved = l.real.cpu.save(Snap::Json);
        st.eat(crate::rng::hash_bytes(&saved));
        l.finish(st);
        st.nontrivial = prior > 0;
        Ok(())
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 100_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run executes seeded processor calls interleaved with seeded register accesses by the host; every access is judged against the plain architectural state, through every accessor, equality and the saved form, and execution continues in lockstep with the reference model; non-trivial = some access happened; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (halted, EI shadow, prefix, mode, kind of access) combinations, hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["accessing a register does not count as flag-changing instruction for the undocumented flags of SCF and CCF"]
    }
}

fn op_num(a: &ApiOp) -> u64 {
    let s = format!("{:?}", a);
    let k = s.find('(').unwrap_or(s.len());
    crate::rng::hash_bytes(s[..k].as_bytes())
}
