//! The library's disassembler behind one non-generic door.
use z80emu::z80::any::Z80Any;
use z80emu::{z80, CpuDebug, Z80, disasm};

pub type Sink<'a> = &'a mut dyn FnMut(CpuDebug) -> Result<(), u32>;

pub fn disasm(which: u8, pc: u16, mem: &[u8], f: Sink) -> Result<(), u32> {
    match which & 3 {
        0 => disasm::disasm_memory::<Z80<z80::NMOS>, Sink, u32>(pc, mem, f),
        1 => disasm::disasm_memory::<Z80<z80::CMOS>, Sink, u32>(pc, mem, f),
        2 => disasm::disasm_memory::<Z80<z80::BM1>, Sink, u32>(pc, mem, f),
        _ => disasm::disasm_memory::<Z80Any, Sink, u32>(pc, mem, f),
    }
}

pub fn once(pc: u16, mem: &[u8]) -> Option<CpuDebug> {
    disasm::disasm_memory_once::<Z80<z80::NMOS>>(pc, mem)
}

pub fn text(any: bool, pc: u16, mem: &[u8], out: &mut dyn std::fmt::Write) -> std::fmt::Result {
    if any {
        disasm::disasm_memory_write_text::<Z80Any, _>(pc, mem, out)
    } else {
        disasm::disasm_memory_write_text::<Z80<z80::NMOS>, _>(pc, mem, out)
    }
}
