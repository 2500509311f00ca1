//! C30: several processors in one program.
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::model::{Brk, State};
use crate::rng::{hash2, hash3, Rng};
use crate::sim::Hook;
use crate::twin::*;
use std::sync::{Arc, Condvar, Mutex};

/// How the machines share the host program.
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Mode {
    /// operations alternate
    Turns,
    /// an operation of one machine runs inside a host callback of another
    Nested,
    /// operations alternate, some on other threads
    Moved,
    /// one thread each, switched at host callbacks
    Threads,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Sc {
    pub mode: Mode,
    pub machines: Vec<CpuSc>,
    /// decides the order of everything
    pub sched: u64,
    /// how often to switch: one in `often` opportunities
    pub often: u64,
}

/// One machine on its way through its operations.
struct Run {
    side: Side,
    ops: Vec<Op>,
    at: usize,
    /// result and state after each call, the operation it belonged to
    out: Vec<(usize, Brk, State)>,
    panicked: Option<String>,
}

// A run is owned by one thread at a time.
unsafe impl Send for Run {}

impl Run {
    fn new(sc: &CpuSc) -> Run {
        Run { side: Side::new(sc), ops: sc.ops.clone(), at: 0, out: Vec::new(), panicked: None }
    }
    fn done(&self) -> bool {
        self.at >= self.ops.len()
    }
    fn turn(&mut self) {
        let at = self.at;
        self.at += 1;
        let Run { side, ops, out, panicked, .. } = self;
        let r = guard(|| {
            exec_op(side, &ops[at], &mut |s, b| out.push((at, b, s.cpu.state())));
        });
        if let Err(m) = r {
            panicked.get_or_insert(m);
        }
    }
}

struct Table {
    runs: Vec<Option<Run>>,
    sched: u64,
    often: u64,
    n: u64,
    depth: usize,
    nested: u64,
    deepest: usize,
}

impl Table {
    fn draw(&mut self) -> u64 {
        self.n += 1;
        hash3(self.sched, 30, self.n)
    }
    /// A machine that is here (not in the middle of an operation) and has work left.
    fn pick(&mut self) -> Option<usize> {
        let c: Vec<usize> = (0..self.runs.len()).filter(|&i| self.runs[i].as_ref().map_or(false, |r| !r.done())).collect();
        if c.is_empty() {
            return None;
        }
        let h = self.draw();
        Some(c[(h % c.len() as u64) as usize])
    }
}

fn play(t: &Arc<Mutex<Table>>, who: usize, mode: Mode) {
    let mut r = {
        let mut g = t.lock().unwrap();
        g.depth += 1;
        let d = g.depth;
        g.deepest = g.deepest.max(d);
        g.runs[who].take().expect("a machine that is free")
    };
    if mode == Mode::Nested {
        let t2 = t.clone();
        r.side.clk.hook = Some(Hook(Box::new(move || {
            let next = {
                let mut g = t2.lock().unwrap();
                if g.depth < 4 && g.draw() % g.often == 0 {
                    g.pick()
                } else {
                    None
                }
            };
            if let Some(n) = next {
                t2.lock().unwrap().nested += 1;
                play(&t2, n, mode);
            }
        })));
    }
    r.turn();
    r.side.clk.hook = None;
    let mut g = t.lock().unwrap();
    g.depth -= 1;
    g.runs[who] = Some(r);
}

/// Passes the right to run from thread to thread.
struct Baton {
    m: Mutex<(usize, Vec<bool>, u64)>,
    cv: Condvar,
    sched: u64,
    often: u64,
}

impl Baton {
    fn wait(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.0 != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn pass(&self, me: usize, finished: bool) {
        let mut g = self.m.lock().unwrap();
        g.2 += 1;
        let h = hash3(self.sched, 31, g.2);
        if finished {
            g.1[me] = false;
        } else if h % self.often != 0 {
            return;
        }
        let live: Vec<usize> = (0..g.1.len()).filter(|&i| g.1[i]).collect();
        if live.is_empty() {
            return;
        }
        let next = live[((h >> 20) % live.len() as u64) as usize];
        if next == me {
            return;
        }
        g.0 = next;
        self.cv.notify_all();
        if !finished {
            while g.0 != me {
                g = self.cv.wait(g).unwrap();
            }
        }
    }
}

pub struct C30;
impl Prop for C30 {
    const ID: &'static str = "C30";
    type Sc = Sc;
    fn gen(rng: &mut Rng, i: u64) -> Sc {
        let mode = match i % 40 {
            0 | 1 => Mode::Threads,
            2 | 3 => Mode::Moved,
            4..=14 => Mode::Turns,
            _ => Mode::Nested,
        };
        let n = if rng.chance(2, 3) { 2 } else { rng.range(3, 4) };
        let mut p = Profile::BASE;
        p.slice = 12;
        p.snap = 2;
        p.conv = 2;
        p.ops = (6, 30);
        let mut machines: Vec<CpuSc> = (0..n).map(|_| gen_sc(rng, &p)).collect();
        // alike enough to be mistaken for each other
        if rng.chance(1, 2) {
            let first = machines[0].clone();
            for m in machines.iter_mut().skip(1) {
                match rng.below(4) {
                    0 => m.mem = first.mem.clone(),
                    1 => m.ops = first.ops.clone(),
                    2 => m.init = first.init,
                    _ => {
                        m.mem = first.mem.clone();
                        m.ops = first.ops.clone();
                        m.init = State { pc: first.init.pc, sp: first.init.sp, ..m.init };
                    }
                }
                if rng.chance(1, 2) {
                    m.fl = first.fl;
                    m.any = first.any;
                }
            }
        }
        Sc { mode, machines, sched: rng.u64(), often: *rng.pick(&[2, 5, 20, 60]) }
    }
    fn run(sc: &Sc, st: &mut Stats) -> Res {
        if sc.machines.is_empty() || sc.often == 0 {
            return Ok(());
        }
        let mut alone: Vec<Run> = sc.machines.iter().map(Run::new).collect();
        for (i, r) in alone.iter_mut().enumerate() {
            while !r.done() {
                r.turn();
            }
            if let Some(m) = &r.panicked {
                return fail("panic", format!("machine {} alone: {}", i, m));
            }
        }
        let runs: Vec<Run> = sc.machines.iter().map(Run::new).collect();
        let together: Vec<Run> = match sc.mode {
            Mode::Threads => {
                let b = Arc::new(Baton {
                    m: Mutex::new(((sc.sched % runs.len() as u64) as usize, vec![true; runs.len()], 0)),
                    cv: Condvar::new(),
                    sched: sc.sched,
                    often: sc.often,
                });
                let h: Vec<_> = runs
                    .into_iter()
                    .enumerate()
                    .map(|(i, mut r)| {
                        let b = b.clone();
                        std::thread::spawn(move || {
                            b.wait(i);
                            let b2 = b.clone();
                            r.side.clk.hook = Some(Hook(Box::new(move || b2.pass(i, false))));
                            while !r.done() {
                                r.turn();
                            }
                            r.side.clk.hook = None;
                            b.pass(i, true);
                            r
                        })
                    })
                    .collect();
                let v: Vec<Run> = h.into_iter().map(|h| h.join().expect("simulator thread")).collect();
                st.fault("switches_between_threads", b.m.lock().unwrap().2 / sc.often);
                v
            }
            mode => {
                let n = runs.len();
                let t = Arc::new(Mutex::new(Table { runs: runs.into_iter().map(Some).collect(), sched: sc.sched, often: sc.often * 4, n: 0, depth: 0, nested: 0, deepest: 0 }));
                loop {
                    let (who, h) = {
                        let mut g = t.lock().unwrap();
                        match g.pick() {
                            Some(w) => (w, g.draw()),
                            None => break,
                        }
                    };
                    st.fault("turns", 1);
                    if mode == Mode::Moved && h % 3 == 0 {
                        let t2 = t.clone();
                        std::thread::spawn(move || play(&t2, who, mode)).join().expect("simulator thread");
                        st.fault("operations_on_other_threads", 1);
                    } else {
                        play(&t, who, mode);
                    }
                }
                let mut g = t.lock().unwrap();
                st.fault("operations_inside_host_callbacks", g.nested);
                st.cover(hash2(1000 + g.deepest as u64, g.nested.min(200)));
                (0..n).map(|i| g.runs[i].take().expect("machine")).collect()
            }
        };
        for (i, (a, b)) in alone.iter().zip(&together).enumerate() {
            let who = format!("machine {} of {} ({:?})", i, sc.machines.len(), sc.mode);
            if let Some(m) = &b.panicked {
                return fail("panic", format!("{} together: {}", who, m));
            }
            for (x, y) in a.out.iter().zip(&b.out) {
                ensure!(x.1 == y.1, "result", "{}: op {} {:?} returned {:?} alone and {:?} together", who, x.0, a.ops[x.0], x.1, y.1);
                ensure!(x.2 == y.2, "state", "{}: op {} {:?}: alone and together differ in {}", who, x.0, a.ops[x.0], x.2.diff(&y.2));
            }
            ensure!(a.out.len() == b.out.len(), "result", "{}: {} calls alone, {} together", who, a.out.len(), b.out.len());
            same_history(&a.side, &b.side, &format!("{}: alone and together", who))?;
            same_inner(&a.side, &b.side, &format!("{}: alone and together", who))?;
            same_mem(&a.side, &b.side, &format!("{}: alone and together", who))?;
            for x in &a.out {
                st.cover(hash3(sc.mode as u64, a.side.fl as u64, match &a.ops[x.0] {
                    Op::Step(_) => 1,
                    Op::Slice(_) => 2,
                    Op::Tick(_) => 3,
                    Op::Nmi => 4,
                    Op::Irq => 5,
                    Op::Exec(c) => 100 + *c as u64,
                    _ => 6,
                }));
            }
            st.steps += b.out.len() as u64;
            digest_side(&b.side, st);
            b.side.end(st);
        }
        st.probe(match sc.mode {
            Mode::Turns => "runs_by_turns",
            Mode::Nested => "runs_nested",
            Mode::Moved => "runs_moved",
            Mode::Threads => "runs_on_threads",
        }, 1);
        st.nontrivial = true;
        Ok(())
    }
    fn shrink(mut sc: Sc, test: &mut dyn FnMut(&Sc) -> bool) -> Sc {
        for m in [Mode::Turns, Mode::Nested] {
            let c = Sc { mode: m, ..sc.clone() };
            if sc.mode != m && test(&c) {
                sc = c;
                break;
            }
        }
        while sc.machines.len() > 1 {
            let n = sc.machines.len();
            let Some(c) = (0..n)
                .map(|i| {
                    let mut c = sc.clone();
                    c.machines.remove(i);
                    c
                })
                .find(|c| test(c))
            else {
                break;
            };
            sc = c;
        }
        for i in 0..sc.machines.len() {
            let base = sc.clone();
            let m = shrink_sc(sc.machines[i].clone(), &mut |m| {
                let mut c = base.clone();
                c.machines[i] = m.clone();
                test(&c)
            });
            let mut c = base;
            c.machines[i] = m;
            if test(&c) {
                sc = c;
            }
        }
        sc
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 100_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run executes two to four machines alone and then together in one program: by turns, nested in each other's host callbacks up to four deep, moved between threads, or on a thread each with a seeded switch at host callbacks; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (way of sharing, variant, kind of operation) and (depth, number of nestings), hashed into a bitmap"
    }
    fn real() -> &'static [&'static str] {
        &["z80emu::Z80<NMOS|CMOS|BM1>", "z80emu::Z80Any", "threads (switched only where the schedule says)"]
    }
    fn stub() -> &'static [&'static str] {
        &["clock (Clock)", "memory and devices (Memory, Io)", "scheduler of the host program"]
    }
    fn assumptions() -> &'static [&'static str] {
        &["the machines share no memory or device"]
    }
    const SHRINK_SECS: u64 = 40;
}
