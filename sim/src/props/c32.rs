//! C32: comparing, copying and printing processors.
use crate::cpu::*;
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::model::{Brk, Fl, State};
use crate::rng::{hash2, hash3, Rng};
use crate::twin::*;

/// Something made from the processor and held against it.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Exp {
    /// a copy with one bit of one register changed
    Flip(u8, u8),
    /// a copy that executed one instruction and got the registers back
    Detour(u8),
    /// a new processor given the same registers
    Rebuilt,
    /// another processor overwritten with a copy
    Over(u64),
    /// a copy with the refresh counter normalised
    Norm,
    /// a copy that went on and is then brought back
    Ahead(u8),
    /// the same registers in another variant
    Variant(Fl),
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Sc {
    pub base: CpuSc,
    pub exps: Vec<(usize, Exp)>,
    /// what both are put through when they compare equal
    pub tail: Vec<Op>,
}

pub const FIELDS: u8 = 23;

/// One bit of one register or flip-flop.
pub fn flip(s: &State, field: u8, bit: u8) -> State {
    let mut n = *s;
    let m = 1u16 << (bit & 15);
    match field % FIELDS {
        0 => n.af ^= m,
        1 => n.bc ^= m,
        2 => n.de ^= m,
        3 => n.hl ^= m,
        4 => n.af_ ^= m,
        5 => n.bc_ ^= m,
        6 => n.de_ ^= m,
        7 => n.hl_ ^= m,
        8 => n.ix ^= m,
        9 => n.iy ^= m,
        10 => n.sp ^= m,
        11 => n.pc ^= m,
        12 => n.wz ^= m,
        13 => n.i ^= 1 << (bit & 7),
        14 => n.r ^= 1 << (bit & 7),
        15 => n.iff1 ^= true,
        16 => n.iff2 ^= true,
        17 => n.im = (n.im + 1 + bit % 2) % 3,
        18 => std::mem::swap(&mut n.af, &mut n.af_),
        19 => {
            std::mem::swap(&mut n.bc, &mut n.bc_);
            std::mem::swap(&mut n.de, &mut n.de_);
            std::mem::swap(&mut n.hl, &mut n.hl_);
        }
        20 => std::mem::swap(&mut n.ix, &mut n.iy),
        21 => n.af = n.af.swap_bytes(),
        _ => std::mem::swap(&mut n.iff1, &mut n.iff2),
    }
    n
}

/// What the printed form says, by name.
fn printed(text: &str) -> Option<Vec<(String, String)>> {
    let (a, b) = (text.find('{')?, text.rfind('}')?);
    Some(text.get(a + 1..b)?.split(',').filter_map(|f| f.split_once(": ")).map(|(k, v)| (k.trim().to_string(), v.trim().to_string())).collect())
}

fn print_ok(c: &dyn RCpu, fl: Fl, any: bool) -> Res {
    let s = c.state();
    let (text, pretty) = c.printed();
    let bare = |t: &str| t.chars().filter(|c| !c.is_whitespace() && *c != ',').collect::<String>();
    ensure!(bare(&text) == bare(&pretty), "printed", "the pretty form prints other values: {} and {}", text, pretty);
    if any {
        let t = match fl {
            Fl::Nmos => "NMOS",
            Fl::Cmos => "CMOS",
            _ => "BM1",
        };
        ensure!(text.starts_with(t), "printed", "a processor of variant {} prints as {}", t, text);
    }
    let Some(p) = printed(&text) else {
        return fail("printed", format!("prints as {}", text));
    };
    let get = |k: &str| p.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect::<Vec<_>>().join("/");
    let n = |v: u16| v.to_string();
    for (k, v) in [
        ("pc", n(s.pc)),
        ("sp", n(s.sp)),
        ("af", n(s.af)),
        ("bc", n(s.bc)),
        ("de", n(s.de)),
        ("hl", n(s.hl)),
        ("af'", n(s.af_)),
        ("bc'", n(s.bc_)),
        ("de'", n(s.de_)),
        ("hl'", n(s.hl_)),
        ("ix", n(s.ix)),
        ("iy", n(s.iy)),
        ("mp", n(s.wz)),
        ("im", format!("Mode{}", s.im)),
        ("iff1", s.iff1.to_string()),
        ("iff2", s.iff2.to_string()),
        ("halt", s.halt.to_string()),
        ("ei", s.ei.to_string()),
        ("prefix", match s.prefix {
            0xDD => "Some(Xdd)".into(),
            0xFD => "Some(Yfd)".into(),
            _ => "None".to_string(),
        }),
    ] {
        ensure!(get(k) == v, "printed", "{} is {} but prints as {:?}: {}", k, v, get(k), text);
    }
    // the refresh register is kept in two parts
    let ir = get("ir").parse::<u16>().unwrap_or(0) as u32;
    let r = get("r").parse::<u8>().unwrap_or(0);
    ensure!(ir >> 8 == s.i as u32 && ir as u8 & 0x80 | r & 0x7F == s.r, "printed", "i={:02x} r={:02x} print as {}", s.i, s.r, text);
    Ok(())
}

/// Equality both ways, and its negation.
fn equal(a: &dyn RCpu, b: &dyn RCpu, what: &str) -> Result<bool, Violation> {
    let v = [a.equals(b), b.equals(a)];
    for ((eq, ne), dir) in v.iter().zip(["==", "== the other way round"]) {
        if eq == ne {
            return fail("operators", format!("{}: {} gives {}, != gives {}", what, dir, eq, ne));
        }
    }
    if v[0] != v[1] {
        return fail("operators", format!("{}: a == b is {}, b == a is {}", what, v[0].0, v[1].0));
    }
    Ok(v[0].0)
}

/// What comparing `b` with the processor of `a` has to give.
fn judge(a: &Side, b: Box<dyn RCpu>, tail: &[Op], must: bool, what: &str, st: &mut Stats) -> Res {
    let (x, y) = (a.cpu.state(), b.state());
    let raw = equal(&*a.cpu, &*b, what)?;
    let (mut an, mut bn) = (a.cpu.dup(), b.dup());
    an.norm_r();
    bn.norm_r();
    ensure!(an.state() == x && bn.state() == y, "norm", "{}: normalising R changed {}{}", what, an.state().diff(&x), bn.state().diff(&y));
    let norm = equal(&*an, &*bn, what)?;
    ensure!(!raw || norm, "equal", "{}: equal before normalising R, not after", what);
    if x != y {
        st.probe("unequal_states_compared", 1);
        ensure!(!norm, "equal", "{}: processors compare equal that differ in {}", what, x.diff(&y));
        return Ok(());
    }
    if !norm {
        st.probe("equal_registers_compared_unequal", 1);
        let (p, q) = (an.save(Snap::Json), bn.save(Snap::Json));
        ensure!(p != q, "unequal", "{}: processors compare unequal that both save as {}", what, String::from_utf8_lossy(&p));
        ensure!(!must, "unequal", "{}: a copy compares unequal: {} and {}", what, String::from_utf8_lossy(&p), String::from_utf8_lossy(&q));
        return Ok(());
    }
    st.probe("equal_processors_compared", 1);
    let mut l = a.fork();
    let mut r = a.fork();
    r.cpu = b;
    for (k, op) in tail.iter().enumerate() {
        let (mut ra, mut rb): (Vec<Brk>, Vec<Brk>) = (Vec::new(), Vec::new());
        exec_op(&mut l, op, &mut |_, z| ra.push(z));
        exec_op(&mut r, op, &mut |_, z| rb.push(z));
        ensure!(ra == rb, "result", "{}: equal processors return different results, op {} {:?} afterwards", what, k, op);
        same_history(&l, &r, &format!("{}: equal processors, op {} {:?} afterwards", what, k, op))?;
        st.steps += ra.len() as u64;
    }
    same_inner(&l, &r, &format!("{}: equal processors afterwards", what))
}

fn experiment(a: &Side, e: &Exp, tail: &[Op], what: &str, st: &mut Stats) -> Res {
    let s = a.cpu.state();
    match e {
        Exp::Flip(f, bit) => {
            let n = flip(&s, *f, *bit);
            let mut b = a.cpu.dup();
            b.load(&n);
            ensure!(b.state() == n, "load", "{}: setting the registers left {}", what, b.state().diff(&n));
            st.fault("single_bit_differences", (n != s) as u64);
            judge(a, b.dup(), tail, false, what, st)?;
            // and back
            b.load(&s);
            judge(a, b, tail, false, what, st)
        }
        Exp::Detour(code) => {
            let mut b = a.fork();
            let _ = b.cpu.exec(&mut b.bus, &mut b.clk, *code);
            b.cpu.load(&s);
            st.fault("detours", 1);
            judge(a, b.cpu, tail, false, what, st)
        }
        Exp::Rebuilt => {
            let mut b = make(a.fl, a.any);
            b.load(&s);
            if s.halt {
                b.api(&ApiOp::Halt);
            }
            st.fault("rebuilt", 1);
            judge(a, b, tail, false, what, st)
        }
        Exp::Over(seed) => {
            let mut b = make(a.fl, a.any);
            b.load(&rand_state(&mut Rng::new(*seed)));
            if seed & 1 == 1 {
                let mut w = a.fork();
                w.cpu = b;
                let _ = w.cpu.exec(&mut w.bus, &mut w.clk, [0xDD, 0xFD, 0xFB, 0x76, 0x3C][(*seed >> 1) as usize % 5]);
                b = w.cpu;
            }
            if a.any && seed & 0x100 != 0 {
                b = make([Fl::Nmos, Fl::Cmos, Fl::Bm1][(*seed >> 9) as usize % 3], true);
            }
            b.overwrite(&*a.cpu);
            st.fault("overwritten", 1);
            ensure!(b.state() == s, "copy", "{}: overwriting with a copy left {}", what, b.state().diff(&s));
            judge(a, b, tail, true, what, st)
        }
        Exp::Norm => {
            let mut b = a.cpu.dup();
            b.norm_r();
            st.fault("normalised", 1);
            judge(a, b, tail, true, what, st)
        }
        Exp::Ahead(n) => {
            let mut b = a.fork();
            let keep = b.cpu.dup();
            for _ in 0..*n % 16 + 1 {
                let _ = b.cpu.step(&mut b.bus, &mut b.clk);
            }
            st.fault("copies_run_ahead", 1);
            ensure!(a.cpu.state() == s && keep.state() == s, "copy", "{}: running a copy changed the original", what);
            judge(a, b.cpu, tail, false, what, st)?;
            judge(a, keep, tail, true, what, st)
        }
        Exp::Variant(fl) => {
            if !a.any || a.fl == *fl {
                return Ok(());
            }
            let b = convert_any(&*a.cpu, *fl);
            st.fault("other_variant", 1);
            ensure!(!equal(&*a.cpu, &*b, what)?, "equal", "{}: a {:?} and a {:?} processor compare equal", what, a.fl, fl);
            // there and back: everything but the history of the flags
            let b = convert_any(&*b, a.fl);
            judge(a, b, tail, false, what, st)
        }
    }
}

pub struct C32;
impl Prop for C32 {
    const ID: &'static str = "C32";
    type Sc = Sc;
    fn gen(rng: &mut Rng, _i: u64) -> Sc {
        let mut p = Profile::BASE;
        p.reset = 1;
        p.slice = 8;
        p.conv = 2;
        p.snap = 2;
        p.api = 6;
        p.ops = (6, 30);
        let base = gen_sc(rng, &p);
        let mut q = p.clone();
        q.ops = (2, 6);
        let mut tail = gen_sc(rng, &q).ops;
        if rng.chance(1, 2) {
            // shows the flag history and MEMPTR
            tail.insert(0, Op::Code(rng.pick(&[&[0x37u8, 0xF5][..], &[0x3F, 0xF5], &[0xCB, 0x46, 0xF5], &[0x00, 0x37, 0xF5], &[0xED, 0xA1, 0xF5]]).to_vec()));
            tail.insert(1, Op::Step(3));
        }
        let exps = (0..rng.range(2, 8))
            .map(|_| {
                let e = match rng.below(16) {
                    0..=4 => Exp::Flip(rng.u8() % FIELDS, rng.u8() & 15),
                    5..=7 => {
                        let any = rng.u8();
                        Exp::Detour(*rng.pick(&[0xDD, 0xFD, 0xFB, 0x00, 0x76, 0xB7, 0x3C, 0x37, 0x3F, 0xF3, 0xD9, 0x08, 0xEB, any, any]))
                    },
                    8 | 9 => Exp::Rebuilt,
                    10 => Exp::Over(rng.u64()),
                    11 => Exp::Norm,
                    12 | 13 => Exp::Ahead(rng.u8()),
                    _ => Exp::Variant(*rng.pick(&[Fl::Nmos, Fl::Cmos, Fl::Bm1])),
                };
                (rng.below(base.ops.len() as u64 + 1) as usize, e)
            })
            .collect();
        Sc { base, exps, tail }
    }
    fn run(sc: &Sc, st: &mut Stats) -> Res {
        let mut a = Side::new(&sc.base);
        // goes through the same, but is never compared, copied or printed
        let mut t = Side::new(&sc.base);
        for i in 0..=sc.base.ops.len() {
            let s = a.cpu.state();
            for (k, (_, e)) in sc.exps.iter().enumerate().filter(|(_, x)| x.0 == i) {
                let what = format!("before op {}, {:?}", i, e);
                print_ok(&*a.cpu, a.fl, a.any)?;
                experiment(&a, e, &sc.tail, &what, st)?;
                ensure!(a.cpu.state() == s, "disturbed", "{}: the processor changed in {}", what, a.cpu.state().diff(&s));
                let d = match e {
                    Exp::Flip(f, _) => *f as u64,
                    Exp::Detour(c) => 100 + *c as u64,
                    Exp::Rebuilt => 30,
                    Exp::Over(_) => 31,
                    Exp::Norm => 32,
                    Exp::Ahead(n) => 40 + (n & 15) as u64,
                    Exp::Variant(f) => 60 + *f as u64,
                };
                st.cover(hash3(d, a.fl as u64 | (a.any as u64) << 3, hash2(k as u64 & 0, s.halt as u64 | (s.ei as u64) << 1 | (s.prefix as u64) << 2)));
                st.nontrivial = true;
            }
            let Some(op) = sc.base.ops.get(i) else { break };
            let (mut ra, mut rb): (Vec<Brk>, Vec<Brk>) = (Vec::new(), Vec::new());
            exec_op(&mut a, op, &mut |_, x| ra.push(x));
            exec_op(&mut t, op, &mut |_, x| rb.push(x));
            st.steps += ra.len() as u64;
            ensure!(ra == rb, "disturbed", "op {} {:?}: results differ from a processor never compared or copied", i, op);
            same_history(&a, &t, &format!("op {} {:?}, compared and copied before or not", i, op))?;
            digest_side(&a, st);
            a.clear_logs();
            t.clear_logs();
        }
        same_inner(&a, &t, "end of run, compared and copied or not")?;
        same_mem(&a, &t, "end of run, compared and copied or not")?;
        a.end(st);
        Ok(())
    }
    fn shrink(mut sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
        let b = sc.clone();
        sc.exps = ddmin(sc.exps, &mut |e| test(&Sc { exps: e.to_vec(), ..b.clone() }));
        let b = sc.clone();
        sc.tail = ddmin(sc.tail, &mut |t| test(&Sc { tail: t.to_vec(), ..b.clone() }));
        // operations from the end, so that the experiments keep their place
        while let Some(n) = sc.base.ops.len().checked_sub(1) {
            if sc.exps.iter().any(|e| e.0 > n) {
                break;
            }
            let mut c = sc.clone();
            c.base.ops.truncate(n);
            if !test(&c) {
                break;
            }
            sc = c;
        }
        // and from the start
        let mut k = 0;
        while k < sc.base.ops.len() {
            let mut c = sc.clone();
            c.base.ops.remove(k);
            for e in c.exps.iter_mut() {
                if e.0 > k {
                    e.0 -= 1;
                }
            }
            if test(&c) {
                sc = c;
            } else {
                k += 1;
            }
        }
        sc
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 300_000,
            Tier::Thorough => 8_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run drives a machine and, at random boundaries, holds its processor against others: copies with one bit changed, copies that took a detour, processors rebuilt from the registers, overwritten ones, normalised ones, copies run ahead, other variants; those that compare equal are put through a common future; a twin is never compared or copied; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (kind of comparison, variant, halted, EI shadow, prefix), hashed into a bitmap"
    }
    fn real() -> &'static [&'static str] {
        &["z80emu::Z80<NMOS|CMOS|BM1>", "z80emu::Z80Any"]
    }
    fn stub() -> &'static [&'static str] {
        &["clock (Clock)", "memory and devices (Memory, Io)", "host that copies, compares, prints and overwrites processors"]
    }
    fn assumptions() -> &'static [&'static str] {
        &["processors with equal registers may compare unequal when their flag histories, part of the saved form, differ"]
    }
}
