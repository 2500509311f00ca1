//! C13: repeating block instructions under interruption.
use crate::cpu::Snap;
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::model::{Brk, State, FLS};
use crate::rng::{hash2, hash3, Rng};
use crate::sim::{BEv, Env, Line};

pub struct C13;

/// Where the block instruction lives.
fn prog(s: &CpuSc) -> u16 {
    s.init.pc
}

/// The data accesses made by the block instruction itself, in order, without time,
/// grouped per iteration: accesses follow the opcode fetches of the program.
fn transfers(at: u16, len: u16, log: &[BEv], inside: &mut bool, out: &mut Vec<BEv>) {
    for e in log {
        match *e {
            BEv::Op { pc, .. } => *inside = pc.wrapping_sub(at) < len,
            BEv::Ack { .. } => *inside = false,
            // the stack and the handlers' data
            BEv::Rd { a, .. } | BEv::Wr { a, .. } if (0x1800..0x2000).contains(&a) => {}
            e if *inside => out.push(e.untimed()),
            _ => {}
        }
    }
}

const HANDLERS: &[&[u8]] = &[
    // EI; RETI
    &[0xFB, 0xED, 0x4D],
    // EI; RET
    &[0xFB, 0xC9],
    // PUSH AF; LD A,5; ADD A,A; OUT (9),A; POP AF; EI; RETI
    &[0xF5, 0x3E, 5, 0x87, 0xD3, 9, 0xF1, 0xFB, 0xED, 0x4D],
    // EX AF,AF'; EXX; LD HL,1234; SCF; INC B; EXX; EX AF,AF'; EI; RETI
    &[0x08, 0xD9, 0x21, 0x34, 0x12, 0x37, 0x04, 0xD9, 0x08, 0xFB, 0xED, 0x4D],
    // PUSH AF,BC,DE,HL; a block transfer of its own; POP ...; EI; RETI
    &[0xF5, 0xC5, 0xD5, 0xE5, 0x21, 0, 0x01, 0x11, 0, 0x18, 0x01, 3, 0, 0xED, 0xB0, 0xE1, 0xD1, 0xC1, 0xF1, 0xFB, 0xED, 0x4D],
    // nested: EI early; PUSH HL; LD HL,(1900); INC HL; LD (1900),HL; POP HL; RETI
    &[0xE5, 0xFB, 0x2A, 0, 0x19, 0x23, 0x22, 0, 0x19, 0xE1, 0xED, 0x4D],
];
const NMI_HANDLERS: &[&[u8]] = &[
    &[0xED, 0x45],
    &[0xF5, 0x3E, 7, 0x3D, 0xF1, 0xED, 0x45],
    &[0xC5, 0x01, 2, 0, 0x0B, 0xC1, 0xED, 0x45],
];

impl Prop for C13 {
    const ID: &'static str = "C13";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut init = rand_state(rng);
        init.halt = false;
        init.pc = 0x0200 + rng.below(0x800) as u16;
        init.sp = 0x1FF0 - rng.below(0x200) as u16;
        init.i = 0x14;
        let op = *rng.pick(&[0xB0u8, 0xB0, 0xB8, 0xB8, 0xB1, 0xB9, 0xB2, 0xBA, 0xB3, 0xBB]);
        let count = match rng.below(8) {
            0 => 1,
            1 => 2,
            2 => rng.range(250, 600),
            _ => rng.range(3, 60),
        } as u16;
        init.bc = if op & 3 >= 2 { (count << 8) | rng.u8() as u16 } else { count };
        // zero stands for the greatest count
        if rng.chance(1, 12) {
            init.bc = if op & 3 >= 2 { rng.corner8() as u16 } else { 0 };
        }
        // destinations stay clear of the program, its stack and its handlers
        init.de = 0x4000 + rng.below(0x8000) as u16;
        init.hl = if op & 3 == 2 {
            0x4000 + rng.below(0x8000) as u16
        } else if op & 3 == 0 && rng.chance(1, 3) {
            init.de.wrapping_add(rng.below(5) as u16).wrapping_sub(2)
        } else {
            let mut h = rng.corner16();
            while (0x1100..0x2600).contains(&h) {
                h = rng.corner16();
            }
            h
        };
        let mut p = Vec::new();
        if rng.chance(1, 6) {
            p.push(*rng.pick(&[0xDD, 0xFD]));
        }
        // a transfer that overwrites its own code
        if op & 1 == 0 && rng.chance(1, 4) {
            init.pc = 0x0400 + rng.below(0x600) as u16;
            let k = rng.below(count.min(100) as u64 + 2) as u16;
            let d = if op & 8 == 0 { init.pc.wrapping_add(4).wrapping_sub(k) } else { init.pc.wrapping_add(k) };
            if op & 3 == 0 {
                init.de = d;
            } else {
                init.hl = d;
            }
        }
        p.extend([0xED, op, 0x18, 0xFE]);
        // an instruction that crosses the end of the address space, or ends or starts there
        let edge = init.pc < 0x0400 && rng.chance(1, 3);
        if edge {
            init.pc = 0xFFFC + rng.below(4) as u16;
        }
        let h = *rng.pick(HANDLERS);
        let n = *rng.pick(NMI_HANDLERS);
        let mut cells: Vec<(u16, Vec<u8>)> = vec![(init.pc, p), (0x0038, h.to_vec()), (0x0066, n.to_vec())];
        // RST 0..7 in mode 0 land on a jump to the handler; the vector table points to it
        for k in 0..7u16 {
            if k * 8 != 0x38 && !(edge && k == 0) {
                cells.push((k * 8, vec![0xC3, 0x38, 0x00]));
            }
        }
        cells.push((0x1400, [0x38, 0x00].repeat(129)));
        let mut env = gen_env(rng, 8_000);
        env.ack = vec![*rng.pick(&[0xFFu8, 0xC7, 0xD7, 0xEF, 0xFE, 0x00])];
        if init.im == 0 && env.ack[0] & 0xC7 != 0xC7 {
            env.ack[0] |= 0xC7;
        }
        if edge && env.ack[0] == 0xC7 {
            env.ack[0] = 0xCF;
        }
        if init.im == 2 {
            env.ack[0] &= 0xFE;
        }
        env.rom = None;
        env.m1_bank = None;
        let mut mem = MemSpec::gen(rng);
        if op & 7 == 1 && rng.chance(1, 2) {
            // searches that hit
            cells.insert(0, (init.hl.wrapping_add((count as u64 / 2) as u16), vec![(init.af >> 8) as u8]));
        }
        mem.cells = cells;
        let ops = (0..rng.range(20, 120))
            .map(|_| match rng.below(12) {
                0..=4 => Op::Slice(rng.below(*rng.clone().pick(&[6u64, 30, 200])) as u32),
                5 | 6 => Op::Step(rng.range(1, 5) as u16),
                7 => Op::Tick(rng.range(1, 3) as u16),
                8 | 9 => Op::Nmi,
                10 => Op::Irq,
                _ => Op::Snap(gen_snap(rng)),
            })
            .collect();
        CpuSc { fl: *rng.pick(&FLS), any: rng.chance(1, 3), start_ts: rng.below(1000), init, mem, env, ops, extra: rng.u64() }
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        // undisturbed
        let mut sc0 = sc.clone();
        sc0.env = Env { seed: sc.env.seed, io_const: sc.env.io_const, ..Env::default() };
        let mut a = Side::new(&sc0);
        let at = prog(sc);
        let (i, n) = (&sc.init, if a.bus.mem[at as usize] == 0xED { a.bus.mem[at.wrapping_add(1) as usize] } else { a.bus.mem[at.wrapping_add(2) as usize] });
        let op = n;
        let n = if n & 3 >= 2 { i.bc >> 8 } else { i.bc };
        let n = if n == 0 && op & 3 >= 2 { 256 } else { n };
        // 65536 units are followed for a while only
        let cut = if n == 0 { Some(0u16.wrapping_sub(1 + (sc.extra % 200) as u16)) } else { None };
        // does the instruction overwrite itself?
        let dst = match op & 3 {
            0 => i.de,
            2 => i.hl,
            _ => 0x4000,
        };
        let own = (0x0400..0x0A00).contains(&at) && dst.abs_diff(at) < 0x100;
        let de_ok = (0x4000..0xC000).contains(&i.de) || own && op & 3 == 0;
        let hl_ok = op & 3 != 2 || (0x4000..0xC000).contains(&i.hl) || own;
        if op & 0xF4 != 0xB0 || n > 600 || !(0x1C00..0x2000).contains(&i.sp) || (0x1100..0x2600).contains(&i.hl) || !de_ok || !hl_ok || i.im == 2 && i.i != 0x14 || at >= 0xFFFC && i.im == 0 && sc.env.ack.contains(&0xC7) {
            return Ok(()); // minimisation left the assumptions
        }
        let pfx = matches!(a.bus.mem[at as usize], 0xDD | 0xFD) as u16;
        if a.bus.mem[at.wrapping_add(pfx) as usize] != 0xED || a.bus.mem[at.wrapping_add(2 + pfx) as usize] != 0x18 {
            return Ok(()); // minimisation destroyed the program
        }
        let end = at.wrapping_add(2 + pfx);
        let again = at.wrapping_add(pfx);
        let changed = |b: &Side| own && (b.bus.mem[again as usize] != 0xED || b.bus.mem[again.wrapping_add(1) as usize] != op);
        let mut n_iter = 0u64;
        let cut_off = |b: &Side| cut.is_some_and(|c| b.cpu.state().bc == c && b.cpu.state().pc == again);
        while a.cpu.state().pc != end && !cut_off(&a) && !(changed(&a) && a.cpu.state().pc == again) {
            a.cpu.step(&mut a.bus, &mut a.clk);
            n_iter += 1;
            ensure!(n_iter < 200_000, "endless", "undisturbed block instruction does not end");
        }
        let fin = a.cpu.state();
        // what the registers describe
        let delta = if op & 8 == 0 { 1u16 } else { 0u16.wrapping_sub(1) };
        let left = if op & 3 >= 2 { fin.bc >> 8 } else { fin.bc };
        let moved = n.wrapping_sub(left);
        let want_hl = i.hl.wrapping_add(delta.wrapping_mul(moved));
        let want_de = if op & 3 == 0 { i.de.wrapping_add(delta.wrapping_mul(moved)) } else { i.de };
        ensure!(
            fin.hl == want_hl && fin.de == want_de && fin.sp == i.sp && (left == cut.unwrap_or(0) || op & 7 == 1 && fin.af & 0x40 != 0 || changed(&a)) && (op & 3 < 2 || fin.bc as u8 == i.bc as u8) && n_iter >= moved as u64,
            "undisturbed",
            "{} iterations of block instruction ed {:02x} over {} units from HL {:04x} DE {:04x}: HL {:04x} DE {:04x} BC {:04x} (was {:04x})",
            n_iter, op, n, i.hl, i.de, fin.hl, fin.de, fin.bc, i.bc
        );
        let (mut ta, mut tb) = (Vec::new(), Vec::new());
        let mut inside = false;
        transfers(at, 2 + pfx, &a.bus.log.borrow(), &mut inside, &mut ta);

        let mut b = Side::new(sc);
        let mut inside = false;
        let (mut breaks, mut taken) = (0u64, 0u64);
        let done = |b: &Side| {
            let s = b.cpu.state();
            (s.pc == end || cut_off(b) || s.pc == again && changed(b)) && s.sp == sc.init.sp && s.prefix == 0
        };
        let flush = |b: &mut Side, tb: &mut Vec<BEv>, inside: &mut bool, st: &mut Stats| {
            transfers(at, 2 + pfx, &b.bus.log.borrow(), inside, tb);
            digest_side(b, st);
            b.clear_logs();
        };
        let mut go = true;
        for op in &sc.ops {
            if done(&b) {
                go = false;
                break;
            }
            let z = b.cpu.state();
            st.steps += 1;
            match op {
                Op::Nmi => {
                    if b.cpu.nmi(&mut b.bus, &mut b.clk) {
                        taken += 1;
                        st.fault("nmi_requests", 1);
                    }
                }
                // the host asserts the line itself
                Op::Irq => {
                    if z.iff1 && b.cpu.irq(&mut b.bus, &mut b.clk).is_some() {
                        taken += 1;
                    }
                }
                Op::Snap(_) => {
                    b.host_op(op);
                    st.fault("crash_and_restore", 1);
                }
                Op::Slice(_) | Op::Step(_) | Op::Tick(_) if own || cut.is_some() => {
                    // stop at the moment the code has changed: what it became is not a transfer any more
                    let n = match op {
                        Op::Slice(n) => n / 16 + 1,
                        Op::Step(n) | Op::Tick(n) => *n as u32,
                        _ => 1,
                    };
                    for _ in 0..n {
                        if !done(&b) {
                            exec_op(&mut b, &Op::Tick(1), &mut |_, x| {
                                if x != Brk::None {
                                    breaks += 1
                                }
                            });
                        }
                    }
                }
                Op::Slice(_) | Op::Step(_) | Op::Tick(_) => exec_op(&mut b, op, &mut |_, x| {
                    if x != Brk::None {
                        breaks += 1
                    }
                }),
                _ => {}
            }
            st.cover(hash3(tb.len() as u64, n_iter.min(64), (z.pc == at) as u64));
            flush(&mut b, &mut tb, &mut inside, st);
        }
        // faults stop; the transfer must finish within a bounded number of calls
        b.bus.env.line = Line::Off;
        let bound = b.bus.n_ack * 60 + taken * 60 + n_iter * 2 + 400;
        let mut n = 0;
        while go && !done(&b) {
            b.cpu.step(&mut b.bus, &mut b.clk);
            n += 1;
            if n % 64 == 0 {
                flush(&mut b, &mut tb, &mut inside, st);
            }
            ensure!(n <= bound, "progress", "not finished {} calls after the last interruption: at {:04x}, SP {:04x}, undisturbed it takes {} iterations", n, b.cpu.state().pc, b.cpu.state().sp, n_iter);
        }
        flush(&mut b, &mut tb, &mut inside, st);
        st.probe("iterations", n_iter);
        if changed(&b) {
            st.probe("overwrote_itself", 1);
        }
        st.probe("interruptions", b.bus.n_ack + taken);
        st.eat(hash2(breaks, tb.len() as u64));
        if let Some((k, d)) = first_diff(&ta, &tb, |x, y| x == y) {
            return fail("transfer", format!("transfer {} of the interrupted block instruction differs: {}", k, d));
        }
        let got = b.cpu.state();
        // the refresh register counts fetches, MEMPTR is clobbered by the handlers
        let keep = |s: State| State { r: 0, wz: 0, iff1: false, iff2: false, ei: false, halt: false, af_: 0, bc_: 0, de_: 0, hl_: 0, ..s };
        if cut.is_some() {
            st.probe("greatest_counts", 1);
        }
        ensure!(keep(got) == keep(fin), "registers", "after the interrupted block instruction: {}", keep(got).diff(&keep(fin)));
        let _ = Snap::Json;
        b.end(st);
        st.nontrivial = b.bus.n_ack + taken > 0;
        Ok(())
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 300_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run executes one repeating block instruction undisturbed and once more under slicing, snapshots, IRQ (modes 0-2), NMI and nested handlers, contention and stalls; non-trivial = at least one interruption; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (transfers done, total iterations, at the instruction or in a handler) at an interruption or cut, hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["transfers stay clear of the handlers and the stack; a transfer over its own code is judged up to the moment the code changes", "R and MEMPTR are not compared: handlers change them on the real processor too"]
    }
}
