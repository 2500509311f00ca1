//! A reference model of the counter-timer circuit in absolute time: it is told what is
//! written and when, and knows nothing about polls, hints or rebased time.
use std::collections::VecDeque;

#[derive(Clone, Debug, Default)]
pub struct Ch {
    pub timer: bool,
    x16: bool,
    pub ints: bool,
    rising: bool,
    ext: bool,
    /// time constant; None = stopped
    pub tc: Option<u8>,
    pub await_tc: bool,
    /// remaining count, 1..=256
    cur: u32,
    /// what remains of the current count in 1/256 units, 1..=256
    phase: u32,
    /// the timer counts from here
    run: Option<u64>,
    /// the timer waits for an edge not before
    armed: Option<u64>,
    pub pend: bool,
    /// the state is not determined by what the property says
    pub unj: bool,
    /// the count is unspecified (before the first constant after a hardware reset)
    pub blank: bool,
    pulses: Vec<u64>,
    pub zeros: u64,
}

fn full(tc: u8) -> u32 {
    if tc == 0 {
        256
    } else {
        tc as u32
    }
}

impl Ch {
    fn new() -> Ch {
        Ch { timer: true, cur: 256, phase: 256, blank: true, ..Ch::default() }
    }
    fn reset(&mut self) {
        *self = Ch { x16: self.x16, rising: self.rising, ext: self.ext, ..Ch::new() };
    }
    pub fn count(&self) -> u8 {
        self.cur as u8
    }
    fn zero(&mut self, t: u64) {
        self.pulses.push(t);
        self.zeros += 1;
        if self.ints {
            self.pend = true;
        }
    }
    fn dec(&mut self, t: u64) {
        self.cur -= 1;
        if self.cur == 0 {
            self.cur = full(self.tc.unwrap());
            self.zero(t);
        }
    }
    fn start(&mut self, t: u64) {
        self.run = Some(t + 1);
        self.armed = None;
    }
    /// Whether edges of the trigger input matter.
    fn listening(&self) -> bool {
        self.tc.is_some() && (!self.timer || self.run.is_none() && self.armed.is_some())
    }
    fn edge(&mut self, t: u64, rising: bool) {
        if rising != self.rising || !self.listening() {
            return;
        }
        if !self.timer {
            self.dec(t);
        } else if t >= self.armed.unwrap() {
            self.start(t);
        }
    }
    fn tick(&mut self, ts: u64) {
        let Some(mut last) = self.run else { return };
        if !self.timer || ts <= last {
            return;
        }
        let Some(tc) = self.tc else { return };
        let f = if self.x16 { 16 } else { 1 };
        let mut rem = (self.cur as u64 - 1) * 256 + self.phase as u64;
        loop {
            let need = (rem + f - 1) / f;
            if last + need > ts {
                rem -= (ts - last) * f;
                break;
            }
            last += need;
            self.zero(last);
            rem = full(tc) as u64 * 256 + rem - need * f;
        }
        self.run = Some(ts);
        self.cur = ((rem + 255) / 256) as u32;
        self.phase = (rem - (self.cur as u64 - 1) * 256) as u32;
    }
    /// Returns false for a vector word.
    fn write(&mut self, d: u8, ts: u64) -> bool {
        if self.await_tc {
            self.await_tc = false;
            if self.tc.is_none() {
                self.cur = full(d);
                self.blank = false;
            }
            self.tc = Some(d);
            if self.timer && self.run.is_none() {
                if self.ext {
                    self.armed = Some(ts);
                } else {
                    self.start(ts);
                }
            }
            return true;
        }
        if d & 1 == 0 {
            return false;
        }
        if d & 2 != 0 {
            self.tc = None;
            self.run = None;
            self.armed = None;
            self.phase = 256;
            self.blank |= self.unj;
            self.unj = false;
        }
        self.await_tc = d & 4 != 0;
        let x16 = d & 0x20 == 0;
        if x16 != self.x16 {
            self.x16 = x16;
            if x16 && self.phase % 16 != 0 {
                self.unj = true; // mid-count change of the prescaler
            }
        }
        self.ints = d & 0x80 != 0;
        if !self.ints {
            self.pend = false;
        }
        let ext = d & 8 != 0;
        if d & 0x40 != 0 {
            // counter
            if self.timer {
                self.timer = false;
                self.run = None;
                self.armed = None;
            }
        } else {
            let go = self.tc.is_some() && !self.await_tc;
            if !self.timer {
                self.timer = true;
                self.ext = ext;
                if go {
                    if ext {
                        self.armed = Some(ts);
                    } else {
                        self.start(ts);
                    }
                }
            } else {
                let was = self.ext;
                self.ext = ext;
                if was && !ext {
                    self.armed = None;
                    if self.run.is_none() && go {
                        self.start(ts);
                    }
                }
            }
        }
        let rising = d & 0x10 != 0;
        if rising != self.rising {
            self.rising = rising;
            // a change of the slope is an active edge by itself
            self.edge(ts, rising);
        }
        true
    }
}

pub struct Ctc {
    half: u64,
    pub ch: [Ch; 4],
    pub vector: u8,
    pub ieo: bool,
    now: u64,
    /// edges under way to channels 1 and 3
    line: [VecDeque<(u64, bool)>; 2],
    last_pulse: [Option<u64>; 2],
}

impl Ctc {
    pub fn new(half: u64) -> Ctc {
        Ctc { half, ch: [Ch::new(), Ch::new(), Ch::new(), Ch::new()], vector: 0, ieo: false, now: 0, line: Default::default(), last_pulse: [None, None] }
    }
    pub fn reset(&mut self, ts: u64) {
        self.advance(ts);
        for c in self.ch.iter_mut() {
            c.reset();
        }
        self.ieo = false;
    }
    pub fn advance(&mut self, ts: u64) {
        for p in 0..2 {
            let (a, b) = self.ch.split_at_mut(p * 2 + 1);
            let (a, b) = (&mut a[p * 2], &mut b[0]);
            let mut k = self.now / self.half + 1;
            while a.listening() && k * self.half <= ts {
                a.edge(k * self.half, k & 1 == 1);
                k += 1;
            }
            a.tick(ts);
            let line = &mut self.line[p];
            for t in a.pulses.drain(..) {
                if self.last_pulse[p].map_or(false, |l| t <= l + 2) && b.listening() {
                    b.unj = true; // overlapping pulses
                }
                self.last_pulse[p] = Some(t);
                line.push_back((t, true));
                line.push_back((t + 2, false));
            }
            if a.unj && b.listening() {
                b.unj = true;
            }
            while let Some(&(t, r)) = line.front() {
                if t > ts {
                    break;
                }
                line.pop_front();
                b.edge(t, r);
            }
            b.tick(ts);
            b.pulses.clear();
        }
        self.now = ts;
    }
    pub fn write(&mut self, c: usize, d: u8, ts: u64) {
        self.advance(ts);
        if c & 1 == 1 {
            let b = &mut self.ch[c];
            let near = self.last_pulse[c / 2].map_or(false, |t| ts <= t + 2);
            if near && (b.tc.is_some() || b.await_tc) {
                b.unj = true; // within the pulse itself
            }
        }
        let near_unj = c & 1 == 1 && self.ch[c].unj;
        let first_tc = self.ch[c].await_tc && self.ch[c].tc.is_none();
        if !self.ch[c].write(d, ts) {
            self.vector = d & 0xF8;
        }
        if first_tc && near_unj {
            self.ch[c].unj = true;
        }
        // a pulse caused by the write itself
        let (p, x) = (c / 2, c & 1);
        if x == 0 {
            self.advance(ts);
        } else {
            self.ch[c].pulses.clear();
        }
        let _ = p;
    }
    pub fn read(&mut self, c: usize, ts: u64) -> Option<u8> {
        self.advance(ts);
        let c = &self.ch[c];
        if c.unj || c.blank {
            None
        } else {
            Some(c.count())
        }
    }
    /// Some(requested) if the property determines it.
    pub fn irq(&mut self, ts: u64) -> Option<bool> {
        self.advance(ts);
        if self.ieo {
            return Some(false);
        }
        if self.ch.iter().any(|c| c.pend && !c.unj) {
            return Some(true);
        }
        if self.ch.iter().any(|c| c.unj && c.ints) {
            return None;
        }
        Some(false)
    }
    /// The highest-priority request, or None if undetermined. Not advanced.
    pub fn top(&self) -> Option<usize> {
        for (i, c) in self.ch.iter().enumerate() {
            if c.unj && c.ints {
                return None;
            }
            if c.pend {
                return Some(i);
            }
        }
        None
    }
}
