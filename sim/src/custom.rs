//! A processor variant as a user of the library would define it: every answer it
//! gives differs from those of the built-in variants, and it remembers what it
//! was told.
use crate::model::{custom_mix, custom_q, CUSTOM_OUT, CUSTOM_RESET};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use z80emu::z80::{self, Flavour};
use z80emu::{Z80Any, CpuFlags, Z80};

thread_local! {
    /// (begin_instruction, reset) calls and the memory of the variant last called
    pub static TOLD: Cell<(u32, u32, Custom)> = Cell::new((0, 0, Custom { hist: 0, now: false }));
}

/// `hist`: which of the last eight instructions modified flags; `now`: the current one has.
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Custom {
    pub hist: u8,
    pub now: bool,
}

impl Flavour for Custom {
    const CONSTANT_OUT_DATA: u8 = CUSTOM_OUT;
    const ACCEPTING_INT_RESETS_IFF2_EARLY: bool = true;
    fn tag() -> &'static str {
        "Custom"
    }
    fn memptr_mix(msb: u8, lsb: u8) -> (u8, u8) {
        custom_mix(msb, lsb)
    }
    fn begin_instruction(&mut self) {
        self.hist = self.hist << 1 | self.now as u8;
        self.now = false;
        TOLD.with(|t| t.set((t.get().0.wrapping_add(1), t.get().1, *self)));
    }
    fn flags_modified(&mut self) {
        self.now = true;
        TOLD.with(|t| t.set((t.get().0, t.get().1, *self)));
    }
    fn get_q(&self, acc: u8, flags: CpuFlags) -> u8 {
        custom_q(self.hist, acc, flags.bits())
    }
    fn cpu_into_any(cpu: Z80<Self>) -> Z80Any {
        Z80Any::BM1(cpu.into_flavour())
    }
    fn unwrap_cpu_any(cpu_any: Z80Any) -> Z80<Self> {
        match cpu_any {
            Z80Any::BM1(cpu) => cpu.into_flavour(),
            _ => panic!("not a custom one"),
        }
    }
    fn reset(&mut self) {
        *self = Custom { hist: CUSTOM_RESET, now: false };
        TOLD.with(|t| t.set((t.get().0, t.get().1.wrapping_add(1), *self)));
    }
}

impl From<z80::BM1> for Custom {
    fn from(_: z80::BM1) -> Custom {
        Custom { hist: 0xC3, now: true }
    }
}
impl From<z80::NMOS> for Custom {
    fn from(_: z80::NMOS) -> Custom {
        Custom { hist: 0x3C, now: true }
    }
}
impl From<z80::CMOS> for Custom {
    fn from(_: z80::CMOS) -> Custom {
        Custom { hist: 0x99, now: false }
    }
}
impl From<Custom> for z80::BM1 {
    fn from(_: Custom) -> z80::BM1 {
        Default::default()
    }
}
impl From<Custom> for z80::CMOS {
    fn from(_: Custom) -> z80::CMOS {
        z80::CMOS
    }
}

/// To another variant and back; what the variant then is told to be.
pub fn round_trip(c: &dyn crate::cpu::RCpu, how: u8) -> (Box<dyn crate::cpu::RCpu>, Custom) {
    use crate::cpu::Drv;
    let z = c.any().downcast_ref::<Drv<Z80<Custom>>>().expect("custom").0.clone();
    let (z, f): (Z80<Custom>, Custom) = match how % 5 {
        0 => (z.into_flavour::<z80::BM1>().into_flavour(), z80::BM1::default().into()),
        1 => (Z80::from_flavour(z.into_flavour::<z80::CMOS>()), z80::CMOS.into()),
        2 => (Custom::unwrap_cpu_any(Z80Any::from(z)), z80::BM1::default().into()),
        3 => (Z80Any::from(z).into_nmos().into(), z80::NMOS::default().into()),
        _ => (Z80Any::from(z).into(), z80::BM1::default().into()),
    };
    TOLD.with(|t| t.set((t.get().0, t.get().1, f)));
    (Box::new(Drv(z)), f)
}
