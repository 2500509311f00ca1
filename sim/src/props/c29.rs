//! C29: a user-defined processor variant is consulted as the trait promises.
use crate::cpusc::*;
use crate::custom::{round_trip, TOLD};
use crate::engine::*;
use crate::ensure;
use crate::lock::*;
use crate::model::{Fl, StepKind};
use crate::rng::Rng;

pub struct C29;
impl Prop for C29 {
    const ID: &'static str = "C29";
    type Sc = CpuSc;
    fn shrink(sc: CpuSc, test: &mut dyn FnMut(&CpuSc) -> bool) -> CpuSc {
        shrink_sc(sc, test)
    }
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.ops = (30, 120);
        p.nmi = 6;
        p.irq = 6;
        p.reset = 2;
        p.snap = 2;
        p.conv = 2;
        let mut sc = gen_sc(rng, &p);
        sc.fl = Fl::Custom;
        sc.any = false;
        // flags are looked at by SCF and CCF, so have plenty of them
        for op in sc.ops.iter_mut() {
            if let Op::Code(v) = op {
                if rng.chance(1, 2) {
                    v.push(*rng.pick(&[0x37, 0x3F]));
                }
                if rng.chance(1, 6) {
                    let w: &[&[u8]] = &[&[0x32], &[0x02], &[0x12], &[0xD3], &[0xED, 0x71], &[0xED, 0x57], &[0xED, 0x5F], &[0x08], &[0xF1]];
                    let mut n = rng.pick(w).to_vec();
                    n.append(v);
                    *v = n;
                }
            }
        }
        sc
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        TOLD.with(|t| t.set((0, 0, Default::default())));
        let mut l = Lock::new(sc);
        let (b, r, f) = TOLD.with(|t| t.get());
        ensure!(b == 0 && r == 1, "reset", "a new processor: begin_instruction called {} times, reset {} times", b, r);
        ensure!(f.hist == l.model.hist && !f.now, "reset", "a new processor has {:?}", f);
        for (i, op) in sc.ops.iter().enumerate() {
            TOLD.with(|t| t.set((0, 0, t.get().2)));
            if let Op::Conv(_) = op {
                let before = l.real.cpu.state();
                let (c, f) = round_trip(&*l.real.cpu, (sc.extra >> (i % 57)) as u8);
                let after = c.state();
                ensure!(before == after, "conversion", "another variant and back: {}", after.diff(&before));
                l.real.cpu = c;
                l.model.hist = f.hist;
                l.model.q = f.now;
                st.fault("variant_changes", 1);
                continue;
            }
            let mut got = Vec::new();
            l.op(op, st, &mut |m| {
                got.push(TOLD.with(|t| t.replace((0, 0, t.get().2))));
                let none = matches!(m.call, Call::Irq | Call::Nmi) && !m.racc;
                if m.racc != m.macc || m.real_acked() != m.model_acked() {
                    // whether an interrupt is accepted is judged by C04 and C05
                    return Ok(());
                }
                let (b, r, f) = *got.last().unwrap();
                let halted = !none && m.kind == StepKind::Halted;
                ensure!(r == 0, "told", "{}: reset called", m.describe());
                if !halted {
                    let want = if none { 0 } else { 1 };
                    ensure!(b == want, "told", "{}: begin_instruction called {} times", m.describe(), b);
                }
                if none || halted {
                    ensure!(m.mf.0 == f.hist || halted, "told", "{}: {:?}, expected {:?}", m.describe(), f, m.mf);
                } else {
                    ensure!((f.hist, f.now) == m.mf, "told", "{}: flags_modified: variant knows ({:08b}, {}), expected ({:08b}, {})", m.describe(), f.hist, f.now, m.mf.0, m.mf.1);
                }
                if !matches!(m.kind, StepKind::Instr | StepKind::Prefix) || m.real_acked() || none {
                    return Ok(());
                }
                if m.real != m.model {
                    return fail("state", format!("{}: processor vs reference: {}", m.describe(), m.real.diff(&m.model)));
                }
                for &a in m.dirty {
                    let (x, y) = (m.rmem[a as usize], m.mmem[a as usize]);
                    ensure!(x == y, "memory", "{}: memory {:04x} = {:02x}, reference {:02x}", m.describe(), a, x, y);
                }
                let (x, y) = (io_only(m.rb), io_only(m.mb));
                ensure!(x == y, "io", "{}: I/O {:x?}, reference {:x?}", m.describe(), x, y);
                Ok(())
            })?;
            st.probe("calls_of_the_variant_judged", got.len() as u64);
            if let Op::Reset = op {
                let (b, r, f) = TOLD.with(|t| t.get());
                ensure!(b == 0 && r == 1, "reset", "reset: begin_instruction called {} times, reset {} times", b, r);
                ensure!(f.hist == l.model.hist && !f.now, "reset", "after reset {:?}", f);
            }
        }
        l.finish(st);
        Ok(())
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 1_000_000,
            Tier::Thorough => 30_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run executes a seeded list of processor calls and host faults (register jolts, DMA, NMI, IRQ, resets, snapshots, conversions, contention) on a processor of a user-defined variant that answers unlike any built-in one and records every call made to it; each call of the processor is judged against the reference model of that variant; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (variant, prefix, opcode, second opcode, step kind, halted, mode, call) combinations executed, hashed into a bitmap"
    }
    fn real() -> &'static [&'static str] {
        &["z80emu::Z80<user-defined Flavour>", "conversions between it, the built-in variants and Z80Any"]
    }
    fn stub() -> &'static [&'static str] {
        &["the variant itself (Flavour)", "clock (Clock)", "memory and devices (Memory, Io)", "interrupt line", "host that issues NMI, IRQ, reset, DMA and register writes"]
    }
    fn assumptions() -> &'static [&'static str] {
        &[
            "a prefix byte counts as an instruction of its own; a refresh cycle of the halted processor may or may not be announced",
            "POP AF and EX AF,AF' load the flags register without computing flags and are not announced by flags_modified",
        ]
    }
}
