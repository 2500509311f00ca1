#[cfg(feature = "full")]
pub mod c01;
#[cfg(feature = "full")]
pub mod c02;
#[cfg(feature = "full")]
pub mod c03;
#[cfg(feature = "full")]
pub mod c04;
#[cfg(feature = "full")]
pub mod c05;
#[cfg(feature = "full")]
pub mod c06;
#[cfg(feature = "full")]
pub mod c07;
#[cfg(feature = "full")]
pub mod c08;
#[cfg(feature = "full")]
pub mod c09;
#[cfg(feature = "full")]
pub mod c12;
#[cfg(feature = "full")]
pub mod c15;
#[cfg(feature = "full")]
pub mod c13;
#[cfg(feature = "full")]
pub mod c11;
#[cfg(feature = "full")]
pub mod c10;
pub mod c14;
#[cfg(feature = "full")]
pub mod c16;
#[cfg(feature = "full")]
pub mod c20;
#[cfg(feature = "full")]
pub mod c17;
#[cfg(feature = "full")]
pub mod c18;
#[cfg(feature = "full")]
pub mod c19;
#[cfg(feature = "full")]
pub mod c21;
#[cfg(feature = "full")]
pub mod c22;
#[cfg(feature = "full")]
pub mod c24;
#[cfg(feature = "full")]
pub mod c23;
#[cfg(feature = "full")]
pub mod c26;
pub mod c27;
#[cfg(feature = "full")]
pub mod c29;
#[cfg(feature = "full")]
pub mod c30;
pub mod c32;

#[macro_export]
macro_rules! cpu_prop_common {
    () => {
        type Sc = $crate::cpusc::CpuSc;
        fn shrink(sc: Self::Sc, test: &mut dyn FnMut(&Self::Sc) -> bool) -> Self::Sc {
            $crate::cpusc::shrink_sc(sc, test)
        }
        fn real() -> &'static [&'static str] {
            &["z80emu::Z80<NMOS|CMOS|BM1>", "z80emu::Z80Any"]
        }
        fn stub() -> &'static [&'static str] {
            &["clock (Clock)", "memory and devices (Memory, Io)", "interrupt line", "host that issues NMI, IRQ, reset, DMA and register writes"]
        }
    };
}
#[cfg(feature = "full")]
pub mod c28;
#[cfg(feature = "full")]
pub mod c31;
