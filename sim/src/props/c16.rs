//! C16: streamed disassembly with failing receivers.
use super::c08::{render, render_args};
use crate::cpusc::*;
use crate::disref::{decode, Fmt, Ins, FMTS};
use crate::engine::*;
use crate::ensure;
use crate::model::{Fl, FLS};
use crate::rng::{hash3, Rng};
use serde::{Deserialize, Serialize};
use z80emu::CpuDebug;

pub struct C16;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sc {
    /// variant used for decoding: 0 NMOS, 1 CMOS, 2 BM1, 3 run-time
    pub which: u8,
    pub pc: u16,
    pub mem: Vec<u8>,
    /// the receiver fails at this item
    pub fail_at: Option<usize>,
    /// the text sink accepts this many bytes
    pub sink: Option<usize>,
    /// items executed on the real processor
    pub exec: u64,
}

struct Item {
    at: usize,
    pc: u16,
    code: Vec<u8>,
    pre: u8,
    ins: Ins,
}

/// What a block of memory contains.
fn walk(pc: u16, mem: &[u8]) -> Vec<Item> {
    let mut v = Vec::new();
    let mut pos = 0;
    let mut pre = 0u8;
    while pos < mem.len() {
        if matches!(mem[pos], 0xDD | 0xFD) {
            pre = mem[pos];
            pos += 1;
            continue;
        }
        let mut b = [0u8; 4];
        let n = (mem.len() - pos).min(4);
        b[..n].copy_from_slice(&mem[pos..pos + n]);
        let at = pc.wrapping_add(pos as u16);
        let ins = decode(pre, &b, at);
        if pos + ins.len > mem.len() {
            break;
        }
        let mut code = mem[pos..pos + ins.len].to_vec();
        let mut ipc = at;
        let next = pos + ins.len;
        if ins.uses {
            code.insert(0, pre);
            ipc = ipc.wrapping_sub(1);
            pos -= 1;
        }
        v.push(Item { at: pos, pc: ipc, code, pre: if ins.uses { pre } else { 0 }, ins });
        pos = next;
        pre = 0;
    }
    v
}

fn same(d: &CpuDebug, it: &Item, f: Fmt) -> Res {
    ensure!(d.pc == it.pc, "address", "item at offset {}: address {:04x}, should be {:04x}", it.at, d.pc, it.pc);
    ensure!(d.code[..] == it.code[..], "bytes", "item at offset {}: bytes {:02x?}, block has {:02x?}", it.at, &d.code[..], it.code);
    let p = d.prefix.map(|p| p.to_code()).unwrap_or(0);
    ensure!(p == it.pre, "prefix", "item at offset {}: prefix {:02x}, should be {:02x}", it.at, p, it.pre);
    let (x, y) = (render_args(d, f), it.ins.args_text(f));
    ensure!(d.mnemonic == it.ins.mnem && x == y, "text", "item at offset {}: {} {}, should be {} {}", it.at, d.mnemonic, x, it.ins.mnem, y);
    let (x, y) = (render(d, f), it.ins.line(it.pc, &it.code, f));
    ensure!(x == y, "line", "item at offset {}: line {:?}, should be {:?}", it.at, x, y);
    Ok(())
}

struct Sink {
    left: Option<usize>,
    text: String,
    failed: bool,
    after: bool,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.after = true;
        }
        if let Some(l) = &mut self.left {
            if *l < s.len() {
                self.failed = true;
                return Err(std::fmt::Error);
            }
            *l -= s.len();
        }
        self.text.push_str(s);
        Ok(())
    }
}

impl Prop for C16 {
    const ID: &'static str = "C16";
    type Sc = Sc;
    fn gen(rng: &mut Rng, i: u64) -> Sc {
        let mut mem = Vec::new();
        let n = *rng.pick(&[1, 3, 8, 40, 120]);
        if i % 4001 == 17 {
            // longer than the address space
            mem.resize(65_530 + rng.below(30) as usize, 0);
        }
        while mem.len() < n || mem.len() > 60_000 && rng.chance(9, 10) {
            match rng.below(6) {
                0 => mem.push(rng.u8()),
                1 => mem.push(*rng.pick(&[0xDD, 0xFD, 0xED, 0xCB, 0x76, 0xDD])),
                _ => {
                    let mut v = gen_instr(rng);
                    if rng.chance(1, 8) {
                        v.pop();
                    }
                    mem.extend(v)
                }
            }
        }
        if rng.chance(1, 3) && n < 60_000 {
            let k = rng.below(4) as usize;
            mem.truncate(mem.len() - k.min(mem.len() - 1));
        }
        let len = mem.len() as u16;
        Sc {
            which: rng.below(4) as u8,
            pc: if rng.chance(1, 3) { 0u16.wrapping_sub(rng.below(len as u64 + 6) as u16) } else { rng.corner16() },
            fail_at: if rng.chance(1, 2) { Some(rng.below(mem.len() as u64 + 1) as usize) } else { None },
            sink: if rng.chance(1, 2) { Some(rng.below(mem.len() as u64 * 30 + 1) as usize) } else { None },
            mem,
            exec: rng.u64(),
        }
    }
    fn run(sc: &Sc, st: &mut Stats) -> Res {
        let items = walk(sc.pc, &sc.mem);
        st.steps += items.len() as u64;
        // delivered items, the failing one included
        let mut got: Vec<CpuDebug> = Vec::new();
        let mut calls = 0usize;
        let r = guard(|| {
            crate::dis::disasm(sc.which, sc.pc, &sc.mem, &mut |d| {
                calls += 1;
                if calls > sc.mem.len() + 1 {
                    return Err(u32::MAX);
                }
                got.push(d);
                if Some(calls - 1) == sc.fail_at {
                    return Err(0xE44 + calls as u32);
                }
                Ok(())
            })
        });
        let r = match r {
            Ok(r) => r,
            Err(e) => return fail("panic", e),
        };
        let want = match sc.fail_at {
            Some(n) if n < items.len() => {
                st.fault("receiver_failures", 1);
                ensure!(r == Err(0xE44 + n as u32 + 1), "error", "the receiver failed at item {}, the call returned {:?}", n, r);
                n + 1
            }
            _ => {
                ensure!(r == Ok(()), "error", "the receiver never failed, the call returned {:?}", r);
                items.len()
            }
        };
        for (k, (d, it)) in got.iter().zip(&items).enumerate() {
            same(d, it, FMTS[(sc.exec as usize + k) % 5])?;
            st.cover(hash3(it.code.iter().take(2).fold(0, |s, b| s << 8 | *b as u64), it.code.get(3).copied().unwrap_or(0) as u64, (it.pc as u64 + it.code.len() as u64) >> 16));
            st.eat(hash3(d.pc as u64, d.code.iter().fold(0, |s, b| s << 8 | *b as u64), calls as u64));
        }
        ensure!(
            got.len() == want && calls == want,
            "items",
            "{} items delivered in {} calls, the block has {}: {:x?}",
            got.len(),
            calls,
            want,
            got.get(want.saturating_sub(1)..).unwrap_or(&[])
        );
        // the single form
        let one = guard(|| crate::dis::once(sc.pc, &sc.mem)).map_err(|e| Violation { kind: "panic".into(), msg: e })?;
        match (&one, items.first()) {
            (Some(d), Some(it)) => same(d, it, FMTS[sc.exec as usize % 5])?,
            (None, None) => {}
            (o, _) => return fail("once", format!("single disassembly gives {:x?}, the block has {} items", o, items.len())),
        }
        // the text form, into a sink that may fill up
        if sc.mem.len() < 1000 {
            let mut sink = Sink { left: sc.sink, text: String::new(), failed: false, after: false };
            let r = guard(|| crate::dis::text(sc.which == 3, sc.pc, &sc.mem, &mut sink)).map_err(|e| Violation { kind: "panic".into(), msg: e })?;
            let mut full = String::new();
            for it in &items {
                full += &it.ins.line(it.pc, &it.code, Fmt::X);
                full.push('\n');
            }
            ensure!(r.is_err() == sink.failed, "sink", "the sink {}, the call returned {:?}", if sink.failed { "failed" } else { "never failed" }, r);
            ensure!(!sink.after, "sink", "the sink was written to after it had failed");
            ensure!(full.starts_with(&sink.text) && (sink.failed || sink.text == full), "listing", "text {:?}, should be {:?}", sink.text, full);
            if sink.failed {
                st.fault("full_sinks", 1);
            }
        }
        // the processor takes the same bytes
        if !items.is_empty() && sc.exec % 4 == 0 {
            let it = &items[(sc.exec >> 8) as usize % items.len()];
            let csc = CpuSc { fl: FLS[(sc.exec >> 40) as usize % 3], any: sc.exec >> 50 & 1 == 1, ..quiet_sc() };
            let mut s = Side::new(&csc);
            s.poke(it.pc, &it.code);
            s.cpu.api(&crate::cpu::ApiOp::SetPc(it.pc));
            let mut out = Vec::new();
            for _ in 0..2 {
                s.cpu.step_dbg(&mut s.bus, &mut s.clk, &mut out);
                if !out.is_empty() {
                    break;
                }
            }
            ensure!(out.len() == 1 && out[0].code[..] == it.code[..], "executed", "item {:02x?} at {:04x}: the processor executed {:x?}", it.code, it.pc, out);
            st.probe("executed_items", 1);
            st.sim_ts += s.clk.ts;
        }
        st.probe("items", items.len() as u64);
        st.nontrivial = items.len() > 1;
        Ok(())
    }
    fn shrink(mut sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
        for _ in 0..2 {
            let m = ddmin(sc.mem.clone(), &mut |m: &[u8]| !m.is_empty() && test(&Sc { mem: m.to_vec(), ..sc.clone() }));
            if test(&Sc { mem: m.clone(), ..sc.clone() }) {
                sc.mem = m;
            }
            for c in [
                Sc { fail_at: None, ..sc.clone() },
                Sc { fail_at: Some(0), ..sc.clone() },
                Sc { fail_at: Some(1), ..sc.clone() },
                Sc { sink: None, ..sc.clone() },
                Sc { sink: Some(0), ..sc.clone() },
                Sc { pc: 0, ..sc.clone() },
                Sc { which: 0, ..sc.clone() },
                Sc { exec: 0, ..sc.clone() },
                Sc { exec: 1, ..sc.clone() },
            ] {
                if c != sc && test(&c) {
                    sc = c;
                }
            }
        }
        sc
    }
    fn real() -> &'static [&'static str] {
        &["z80emu::disasm", "z80emu::CpuDebug and its formatting", "z80emu::Z80<NMOS|CMOS|BM1>", "z80emu::Z80Any"]
    }
    fn stub() -> &'static [&'static str] {
        &["receiver of the items", "text sink (core::fmt::Write)"]
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 400_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run disassembles one seeded block with a receiver and a text sink that fail at seeded points; non-trivial = the block has more than one instruction; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (first two bytes, fourth byte, wrapping) of the items, hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["a DD or FD prefix that has no influence on the following instruction is not reported, as the library documents by its tests"]
    }
}

fn quiet_sc() -> CpuSc {
    CpuSc {
        fl: Fl::Nmos,
        any: false,
        start_ts: 0,
        init: crate::model::State::reset(),
        mem: MemSpec { seed: 0, mode: 0, cells: vec![] },
        env: Default::default(),
        ops: vec![],
        extra: 0,
    }
}
