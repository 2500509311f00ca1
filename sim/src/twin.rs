//! Comparing two real machines.
use crate::cpusc::*;
use crate::engine::{fail, Res};
use crate::sim::{BEv, CEv};

/// Compare histories and states; `what` names the pair.
pub fn same_history(a: &Side, b: &Side, what: &str) -> Res {
    if let Some((_, d)) = first_diff(&a.bus.log.borrow(), &b.bus.log.borrow(), |x: BEv, y: BEv| x.matches(y)) {
        return fail("accesses", format!("{}: accesses differ: {}", what, d));
    }
    if let Some((_, d)) = first_diff(&a.clk.log, &b.clk.log, |x: CEv, y: CEv| x == y) {
        return fail("cycles", format!("{}: clock streams differ: {}", what, d));
    }
    if a.clk.ts != b.clk.ts {
        return fail("time", format!("{}: time {} vs {}", what, a.clk.ts, b.clk.ts));
    }
    same_state(a, b, what)
}

pub fn same_state(a: &Side, b: &Side, what: &str) -> Res {
    let (x, y) = (a.cpu.state(), b.cpu.state());
    if x != y {
        return fail("state", format!("{}: states differ: {}", what, x.diff(&y)));
    }
    Ok(())
}

/// Also compares what is not visible through getters.
pub fn same_inner(a: &Side, b: &Side, what: &str) -> Res {
    same_state(a, b, what)?;
    if a.any == b.any && (a.any || a.fl == b.fl) && !a.cpu.same(&*b.cpu) {
        return fail(
            "inner",
            format!(
                "{}: processors with equal registers compare unequal: {} vs {}",
                what,
                String::from_utf8_lossy(&a.cpu.save(crate::cpu::Snap::Json)),
                String::from_utf8_lossy(&b.cpu.save(crate::cpu::Snap::Json))
            ),
        );
    }
    Ok(())
}

pub fn same_mem(a: &Side, b: &Side, what: &str) -> Res {
    match mem_diff(&a.bus.mem, &b.bus.mem) {
        Some(d) => fail("memory", format!("{}: {}", what, d)),
        None => Ok(()),
    }
}
