//! C28: an execution is the same on every kind of host computer.
use crate::engine::*;
use crate::ensure;
use crate::miri;
use crate::props::c27;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    /// index of the foreign host
    pub host: usize,
    pub run: c27::Sc,
}

pub struct C28;
impl Prop for C28 {
    const ID: &'static str = "C28";
    const SHRINK_SECS: u64 = 60;
    type Sc = Sc;
    fn gen(rng: &mut Rng, i: u64) -> Sc {
        let mut run = c27::gen_sc(rng);
        for x in &mut run.ops {
            if let c27::X::Run(n) = x {
                *n *= 8;
            }
        }
        Sc { host: miri::FOREIGN.start + i as usize % miri::FOREIGN.len(), run }
    }
    fn prepare() -> Result<(), String> {
        for k in miri::FOREIGN {
            miri::prepare(k)?;
        }
        Ok(())
    }
    fn run(sc: &Sc, st: &mut Stats) -> Res {
        let here = c27::run_host(&sc.run, st);
        let h = &miri::HOSTS[sc.host];
        let text = serde_json::to_string(&sc.run).unwrap();
        match (here, miri::ask(sc.host, "C27", "scenario", &text)) {
            (Ok(()), miri::Answer::Done(d, _, None)) => {
                st.probe(h.name, 1);
                ensure!(d == st.digest, "differs", "on {} the same run goes differently: digest {:016x} instead of {:016x}", h.name, d, st.digest);
                Ok(())
            }
            // the same failure everywhere is another property's business
            (Err(a), miri::Answer::Done(_, _, Some(b))) if a.kind == b.0 => Ok(()),
            (a, miri::Answer::Done(_, _, b)) => fail("differs", format!("on {} the run ends with {:?}, here with {:?}", h.name, b.map(|b| b.1), a.err().map(|a| a.msg))),
            (_, miri::Answer::Undefined(m)) => fail("undefined-behaviour", format!("on {}: {}", h.name, m)),
            (_, miri::Answer::Lost(_)) => {
                st.probe("runs_lost", 1);
                Ok(())
            }
        }
    }
    fn shrink(sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
        let host = sc.host;
        let run = c27::shrink_host(sc.run, &mut |r| test(&Sc { host, run: r.clone() }));
        Sc { host, run }
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 1_000,
            Tier::Thorough => 8_000,
        }
    }
    fn rule() -> &'static str {
        "a run is a seeded sequence of any operations of the interface against a careless host (noise, glitching interrupts, breaks, panics, damaged snapshots), executed natively and by an interpreter standing in for a 32-bit or a big-endian computer; everything the host sees (calls, addresses, data, times, texts, saved forms, every register after every operation) goes into a digest that has to be equal; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (operation, unwound or not, halted, EI shadow, prefix, mode, host calls so far up to 500), hashed into a bitmap"
    }
    fn real() -> &'static [&'static str] {
        &["z80emu::Z80<NMOS|CMOS|BM1>", "z80emu::Z80Any", "z80emu::disasm", "z80emu::cpu parse and debug", "z80emu serde"]
    }
    fn stub() -> &'static [&'static str] {
        &["clock, memory, devices and callbacks of the host", "the foreign computers: Miri interpreting the program compiled for i686 and s390x"]
    }
    fn assumptions() -> &'static [&'static str] {
        &["Miri is faithful to the other byte order and word size"]
    }
}
