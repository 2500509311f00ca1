//! C31: an execution is the same however the library was built.
use crate::cpusc::CpuSc;
use crate::engine::*;
use crate::ensure;
use crate::miri;
use crate::props::{c14::C14, c27};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    /// any operations against a careless host
    Any(c27::Sc),
    /// the supplied counter and wrappers
    Stock(CpuSc),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    /// index of the build
    pub build: usize,
    pub what: What,
}

pub struct C31;
impl Prop for C31 {
    const ID: &'static str = "C31";
    type Sc = Sc;
    fn gen(rng: &mut Rng, i: u64) -> Sc {
        let build = miri::BUILDS.start + i as usize % miri::BUILDS.len();
        let what = if rng.chance(1, 8) {
            What::Stock(C14::gen(rng, i))
        } else {
            let mut run = c27::gen_sc(rng);
            if miri::lean(build) {
                // it cannot save
                run.ops.retain(|x| !matches!(x, c27::X::Store(..) | c27::X::Parse(..)));
            }
            for x in &mut run.ops {
                if let c27::X::Run(n) = x {
                    *n *= 6;
                }
            }
            What::Any(run)
        };
        Sc { build, what }
    }
    fn prepare() -> Result<(), String> {
        for k in miri::BUILDS {
            miri::prepare(k)?;
        }
        Ok(())
    }
    fn run(sc: &Sc, st: &mut Stats) -> Res {
        if !miri::BUILDS.contains(&sc.build) {
            return Ok(());
        }
        let before = st.sim_ts;
        let (id, text, r) = match &sc.what {
            What::Any(s) => ("C27", serde_json::to_string(s).unwrap(), run_one::<c27::C27>(s, st)),
            What::Stock(s) => ("C14", serde_json::to_string(s).unwrap(), run_one::<C14>(s, st)),
        };
        let (digest, ts) = (st.digest, st.sim_ts - before);
        let h = &miri::HOSTS[sc.build];
        match (r, miri::ask(sc.build, id, "scenario", &text)) {
            (Ok(()), miri::Answer::Done(d, t, None)) => {
                st.probe(h.name, 1);
                ensure!(d == digest && t == ts, "differs", "built {} the same run goes differently: digest {:016x} instead of {:016x}, time {} instead of {}", h.name, d, digest, t, ts);
                Ok(())
            }
            // the same failure everywhere is another property's business
            (Err(a), miri::Answer::Done(_, _, Some(b))) if a.kind == b.0 => Ok(()),
            (a, miri::Answer::Done(_, _, b)) => fail("differs", format!("built {} the run ends with {:?}, here with {:?}", h.name, b.map(|b| b.1), a.err().map(|a| a.msg))),
            (_, miri::Answer::Undefined(m) | miri::Answer::Lost(m)) => fail("crash", format!("built {} the program dies: {}", h.name, m)),
        }
    }
    fn shrink(sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
        let build = sc.build;
        let what = match sc.what {
            What::Any(s) => What::Any(c27::shrink_host(s, &mut |r| test(&Sc { build, what: What::Any(r.clone()) }))),
            What::Stock(s) => What::Stock(C14::shrink(s, &mut |r| test(&Sc { build, what: What::Stock(r.clone()) }))),
        };
        Sc { build, what }
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 200_000,
            Tier::Thorough => 10_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run is a seeded sequence of any operations against a careless host (noise, glitching interrupts, breaks, panics, jumping time, damaged snapshots) or of the supplied counter and wrappers, executed by this build (optimised, with checks) and by one of: optimised without checks, for size without any feature of the library, not optimised; everything the host sees goes into a digest that has to be equal; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (operation, unwound or not, halted, EI shadow, prefix, mode, host calls so far up to 500), hashed into a bitmap"
    }
    fn real() -> &'static [&'static str] {
        &["z80emu::Z80<NMOS|CMOS|BM1>", "z80emu::Z80Any", "z80emu::host::TsCounter", "z80emu forwarding macros", "z80emu::disasm", "z80emu::cpu debug", "z80emu serde where built"]
    }
    fn stub() -> &'static [&'static str] {
        &["clock, memory, devices and callbacks of the host"]
    }
    fn assumptions() -> &'static [&'static str] {
        &["one compiler version, three builds besides this one"]
    }
}
