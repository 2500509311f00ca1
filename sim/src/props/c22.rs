//! C22: debug commands.
use crate::engine::*;
use crate::machine::{self, Sc};
use crate::rng::Rng;

pub struct C22;
impl Prop for C22 {
    const ID: &'static str = "C22";
    type Sc = Sc;
    fn gen(rng: &mut Rng, _i: u64) -> Sc {
        machine::gen(rng, true)
    }
    fn run(sc: &Sc, st: &mut Stats) -> Res {
        machine::run(sc, st, true)
    }
    fn shrink(sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
        machine::shrink(sc, test)
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 150_000,
            Tier::Thorough => 5_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run is a guest program, input and host stalls, and a sequence of frames, debug steps, resets, restarts and non-maskable interrupts over emulated seconds, compared after every command with a computer whose time is never rebased; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (program counter, halted, IFF1, mode, small durations) after a command, hashed into a bitmap"
    }
    fn real() -> &'static [&'static str] {
        &["ral1243 FrameRunner, TClock, debug commands, Bus, Memory, Ctc, CtcActive/Passive, Pio, PioInput/PioOutput", "z80emu::Z80<NMOS|CMOS|BM1>"]
    }
    fn stub() -> &'static [&'static str] {
        &["host input stream and output sink", "guest programs", "reference processor of the second computer (its peripherals and memory are real)"]
    }
    fn assumptions() -> &'static [&'static str] {
        &["clock frequencies from 70 kHz to 1.5 MHz in the searches (a second is short enough to pass several times)", "the executed T-states of an instruction are those of the reference processor (C02)"]
    }
}
