//! C08: the debug callback.
use crate::cpusc::*;
use crate::disref::{decode, Fmt, FMTS};
use crate::engine::*;
use crate::ensure;
use crate::lock::*;
use crate::model::StepKind;
use crate::rng::{hash3, Rng};
use crate::twin::*;
use z80emu::CpuDebug;

pub struct C08;

pub fn render(d: &CpuDebug, f: Fmt) -> String {
    match f {
        Fmt::Dec => format!("{}", d),
        Fmt::X => format!("{:x}", d),
        Fmt::AltX => format!("{:#x}", d),
        Fmt::UpX => format!("{:X}", d),
        Fmt::AltUpX => format!("{:#X}", d),
    }
}
pub fn render_args(d: &CpuDebug, f: Fmt) -> String {
    match f {
        Fmt::Dec => format!("{}", d.args),
        Fmt::X => format!("{:x}", d.args),
        Fmt::AltX => format!("{:#x}", d.args),
        Fmt::UpX => format!("{:X}", d.args),
        Fmt::AltUpX => format!("{:#X}", d.args),
    }
}

/// Judge one callback against the bytes really executed.
fn judge(m: &Micro, f: Fmt) -> Res {
    let quiet = match m.kind {
        StepKind::Prefix | StepKind::Halted | StepKind::Nmi => true,
        StepKind::Irq => m.code.is_empty() || (m.model.prefix != 0),
        StepKind::Instr => m.model.prefix != 0,
    };
    let refused = matches!(m.call, Call::Irq | Call::Nmi) && !m.macc;
    if quiet || refused {
        ensure!(m.deb.is_empty(), "extra", "{}: nothing completed, but the debugger saw {:x?}", m.describe(), m.deb);
        return Ok(());
    }
    ensure!(m.deb.len() == 1, "count", "{}: one instruction completed, the debugger saw {:x?}", m.describe(), m.deb);
    let d = &m.deb[0];
    let mut b = [0u8; 4];
    b[..m.code.len().min(4)].copy_from_slice(&m.code[..m.code.len().min(4)]);
    let at = match (m.kind, m.call) {
        (StepKind::Irq, _) => d.pc,
        (_, Call::Exec(_)) => m.before.pc.wrapping_sub(1),
        _ => m.before.pc,
    };
    let pre = if m.kind == StepKind::Irq { 0 } else { m.before.prefix };
    let ins = decode(pre, &b, at);
    ensure!(ins.len == m.code.len(), "oracle", "{}: reference disassembler takes {} bytes", m.describe(), ins.len);
    let mut code = m.code.to_vec();
    let mut pc = at;
    if ins.uses {
        code.insert(0, pre);
        pc = pc.wrapping_sub(1);
    }
    ensure!(d.code[..] == code[..], "bytes", "{}: the debugger was told {:02x?}, executed {:02x?}", m.describe(), &d.code[..], code);
    ensure!(d.pc == pc, "address", "{}: the debugger was told {:04x}, executed at {:04x}", m.describe(), d.pc, pc);
    let p = d.prefix.map(|p| p.to_code()).unwrap_or(0);
    ensure!(p == if ins.uses { pre } else { 0 }, "prefix", "{}: the debugger was told prefix {:02x}", m.describe(), p);
    let (x, y) = (render_args(d, f), ins.args_text(f));
    ensure!(d.mnemonic == ins.mnem && x == y, "text", "{}: the debugger was told {} {}, executed {} {}", m.describe(), d.mnemonic, x, ins.mnem, y);
    let (x, y) = (render(d, f), ins.line(pc, &code, f));
    ensure!(x == y, "line", "{}: line {:?}, expected {:?}", m.describe(), x, y);
    let mut got = None;
    let _ = crate::dis::disasm(f as u8, pc, &code, &mut |d| {
        got = Some(d);
        Err(0)
    });
    ensure!(got.as_ref() == Some(d), "disasm", "{}: the debugger was told {:x?}, the disassembler says {:x?}", m.describe(), d, got);
    Ok(())
}

impl Prop for C08 {
    const ID: &'static str = "C08";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.tick = 0;
        p.slice = 3;
        p.irq = 8;
        p.exec = 8;
        p.ops = (20, 90);
        let mut sc = gen_sc(rng, &p);
        sc.env.m1_bank = None;
        sc
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        let mut a = Side::new(sc);
        let mut l = Lock::new(sc);
        l.deb = Some(Vec::new());
        let mut n = sc.extra;
        let mut seen = 0u64;
        for (i, op) in sc.ops.iter().enumerate() {
            let mut ra = Vec::new();
            exec_op(&mut a, op, &mut |_, x| ra.push(x));
            let (mut rb, mut late) = (Vec::new(), Ok(()));
            let (mut ca, mut cb) = (Vec::new(), Vec::new());
            let mut cov = Vec::new();
            l.op(op, st, &mut |m| {
                n = n.wrapping_add(1);
                rb.push(m.rbrk);
                ca.extend_from_slice(m.rb);
                cb.extend_from_slice(m.rc);
                if let Some(d) = m.deb.first() {
                    seen += 1;
                    cov.push(hash3(d.code.iter().take(2).fold(0, |s, b| s << 8 | *b as u64), d.code.get(3).copied().unwrap_or(0) as u64, m.kind as u64));
                }
                if late.is_ok() {
                    late = judge(m, FMTS[(n % 5) as usize]);
                }
                Ok(())
            })?;
            cov.into_iter().for_each(|c| st.cover(c));
            late.map_err(|v| Violation { msg: format!("op {}: {}", i, v.msg), ..v })?;
            if !matches!(op, Op::Slice(_) | Op::Nmi | Op::Irq) {
                ensure!(ra == rb, "results", "op {} {:?}: results {:?} without a debugger, {:?} with", i, op, ra, rb);
            }
            if !matches!(op, Op::Slice(_)) {
                let la = a.bus.log.borrow();
                if let Some((_, d)) = first_diff(&la, &ca, |x, y| x.matches(y)) {
                    return fail("accesses", format!("op {} {:?}: accesses without and with a debugger: {}", i, op, d));
                }
                if let Some((_, d)) = first_diff(&a.clk.log, &cb, |x, y| x == y) {
                    return fail("cycles", format!("op {} {:?}: cycles without and with a debugger: {}", i, op, d));
                }
            }
            ensure!(a.clk.ts == l.real.clk.ts, "time", "op {} {:?}: time {} without a debugger, {} with", i, op, a.clk.ts, l.real.clk.ts);
            same_state(&a, &l.real, &format!("op {} {:?} without and with a debugger", i, op))?;
            a.clear_logs();
        }
        same_inner(&a, &l.real, "end of run")?;
        same_mem(&a, &l.real, "end of run")?;
        l.finish(st);
        st.probe("debug_callbacks", seen);
        st.nontrivial = seen > 0;
        Ok(())
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 120_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run executes the same seeded calls and host faults on two machines, one with a debug callback; every callback is judged; non-trivial = some callback happened; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (first two bytes, fourth byte, step kind) of instructions reported to the callback, hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &[
            "the address reported for an instruction supplied by an interrupting device is not judged (it is nowhere in memory)",
            "opcode fetches and data reads see the same memory",
        ]
    }
}
