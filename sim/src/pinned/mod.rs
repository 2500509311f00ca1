//! The counter-timer and the parallel port of the example computer as they are at commit
//! 09d62b9, with the defects listed in known_findings.json.  Used only to recognise those
//! defects: a deviation from the property counts as a known finding only while everything
//! the real circuit did in that history is exactly what this recorded one does.
#![allow(dead_code)]
pub mod bus {
    pub use ral1243::bus::*;
    pub const fn bit8(n: u32) -> u8 {
        1 << n
    }
}
mod rc {
    pub use std::rc::Rc;
}
mod clock {
    pub type Ts = u32;
}
pub mod ctc;
pub mod ctc_trigger;
pub mod pio;
pub mod pio_device;

use z80emu::Io;
use bus::BusDevice;
#[derive(Clone, Copy, Debug)]
pub enum Call {
    M1,
    Irq,
    IrqData,
    Read(u16),
    Write(u16, u8),
    Reti,
    Reset,
    Frame,
    Second(u32),
}
/// Perform the call and return what it answers, or the panic message.
pub fn call<D>(d: &mut D, c: Call, ts: u32) -> Result<u32, String>
where
    D: BusDevice<Timestamp = u32> + Io<Timestamp = u32, WrIoBreak = (), RetiBreak = ()>,
{
    crate::engine::guard(|| match c {
        Call::M1 => {
            d.m1(ts);
            0
        }
        Call::Irq => d.is_irq(ts) as u32,
        Call::IrqData => {
            let (v, w) = d.irq_data(0, ts);
            v as u32 | w.map_or(0, |w| (w.get() as u32) << 8)
        }
        Call::Read(p) => {
            let (v, w) = d.read_io(p, ts);
            v as u32 | w.map_or(0, |w| (w.get() as u32) << 8)
        }
        Call::Write(p, v) => {
            let (b, w) = d.write_io(p, v, ts);
            b.is_some() as u32 | w.map_or(0, |w| (w.get() as u32) << 8)
        }
        Call::Reti => d.reti(0, ts).is_some() as u32,
        Call::Reset => {
            d.reset(ts);
            0
        }
        Call::Frame => {
            d.frame_end(ts);
            0
        }
        Call::Second(n) => {
            d.next_second(n);
            0
        }
    })
}

/// The real device and the recorded one side by side.
pub struct Pair<R, P> {
    pub real: R,
    pub pin: P,
    /// everything was the same so far
    pub same: bool,
    /// the first deviation from the property that the recorded device shows as well
    pub lost: Option<crate::engine::Violation>,
    dead: bool,
}
impl<R, P> Pair<R, P>
where
    R: BusDevice<Timestamp = u32> + Io<Timestamp = u32, WrIoBreak = (), RetiBreak = ()>,
    P: BusDevice<Timestamp = u32> + Io<Timestamp = u32, WrIoBreak = (), RetiBreak = ()>,
{
    pub fn new(real: R, pin: P) -> Self {
        Pair { real, pin, same: true, lost: None, dead: false }
    }
    pub fn call(&mut self, c: Call, ts: u32) -> Result<u32, crate::engine::Violation> {
        let strip = |r: &Result<u32, String>| r.as_ref().map(|x| *x).map_err(|e| e.rsplit_once(" at ").map_or(e.as_str(), |x| x.0).to_string());
        let r = call(&mut self.real, c, ts);
        if !self.dead {
            let p = call(&mut self.pin, c, ts);
            self.same &= strip(&r) == strip(&p);
            self.dead |= p.is_err();
        }
        match r {
            Ok(v) => {
                if self.lost.is_some() && !self.same {
                    return crate::engine::fail("diverged", format!("after {} the device behaves neither as the property says nor as the recorded one", self.lost.as_ref().unwrap().msg));
                }
                Ok(v)
            }
            Err(m) => {
                let v = crate::engine::Violation { kind: "panic".into(), msg: format!("panicked: {}", m) };
                Err(self.known(v))
            }
        }
    }
    /// A deviation: known as long as the recorded device deviates equally.
    fn known(&self, v: crate::engine::Violation) -> crate::engine::Violation {
        match &self.lost {
            Some(l) if self.same => l.clone(),
            None if self.same => crate::engine::Violation { kind: "recorded".into(), msg: format!("[{}] {}", v.kind, v.msg) },
            _ => v,
        }
    }
    /// Judge a deviation from the property: Ok if the run goes on without the model.
    pub fn judge(&mut self, r: crate::engine::Res) -> crate::engine::Res {
        if let Err(v) = r {
            if self.lost.is_some() {
                return Ok(());
            }
            if !self.same {
                return Err(v);
            }
            self.lost = Some(self.known(v));
        }
        Ok(())
    }
    pub fn end(&self) -> crate::engine::Res {
        match &self.lost {
            Some(v) => Err(v.clone()),
            None => Ok(()),
        }
    }
}
