//! The standard library with time, threads, channels and standard output replaced by a
//! simulated world.  A spawned thread runs at once, to its end, in the thread of the
//! simulator: nothing happens but what the world decides when it is asked.
pub use std::*;

pub mod world {
    use std::cell::RefCell;
    use std::rc::Rc;
    pub trait World {
        /// Nanoseconds.
        fn now(&self) -> u64;
        fn sleep(&self, ns: u64);
        fn write(&self, b: &[u8]) -> std::io::Result<usize>;
        fn flush(&self) -> std::io::Result<()>;
    }
    thread_local! { static W: RefCell<Option<Rc<dyn World>>> = RefCell::new(None); }
    pub fn set(w: Option<Rc<dyn World>>) {
        W.with(|x| *x.borrow_mut() = w)
    }
    pub fn get() -> Rc<dyn World> {
        W.with(|x| x.borrow().clone()).expect("a simulated world")
    }
}

pub mod time {
    pub use std::time::Duration;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(Duration);
    impl Instant {
        pub fn now() -> Self {
            Instant(Duration::from_nanos(crate::world::get().now()))
        }
        pub fn elapsed(&self) -> Duration {
            Self::now().duration_since(*self)
        }
        pub fn duration_since(&self, t: Instant) -> Duration {
            self.0.saturating_sub(t.0)
        }
        pub fn saturating_duration_since(&self, t: Instant) -> Duration {
            self.0.saturating_sub(t.0)
        }
        pub fn checked_duration_since(&self, t: Instant) -> Option<Duration> {
            self.0.checked_sub(t.0)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(d).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            self.0.checked_sub(d).map(Instant)
        }
    }
    impl std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    impl std::ops::AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            self.0 += d
        }
    }
    impl std::ops::Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            Instant(self.0 - d)
        }
    }
    impl std::ops::SubAssign<Duration> for Instant {
        fn sub_assign(&mut self, d: Duration) {
            self.0 -= d
        }
    }
    impl std::ops::Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, t: Instant) -> Duration {
            self.duration_since(t)
        }
    }
}

pub mod thread {
    pub struct JoinHandle<T>(std::thread::Result<T>);
    impl<T> JoinHandle<T> {
        pub fn join(self) -> std::thread::Result<T> {
            self.0
        }
        pub fn is_finished(&self) -> bool {
            true
        }
    }
    pub fn spawn<F: FnOnce() -> T, T>(f: F) -> JoinHandle<T> {
        JoinHandle(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)))
    }
    pub fn sleep(d: std::time::Duration) {
        crate::world::get().sleep(d.as_nanos() as u64)
    }
    pub fn yield_now() {}
}

pub mod sync {
    pub use std::sync::*;
    pub mod mpsc {
        pub use std::sync::mpsc::{RecvError, SendError, TryRecvError, TrySendError};
        /// What stands at the other end.
        pub trait Source<T> {
            fn try_recv(&self) -> Result<T, TryRecvError>;
            fn recv(&self) -> Result<T, RecvError>;
        }
        pub trait Drain<T> {
            fn try_send(&self, v: T) -> Result<(), TrySendError<T>>;
            fn send(&self, v: T) -> Result<(), SendError<T>>;
        }
        pub struct Receiver<T>(pub std::rc::Rc<dyn Source<T>>);
        impl<T> Receiver<T> {
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                self.0.try_recv()
            }
            pub fn recv(&self) -> Result<T, RecvError> {
                self.0.recv()
            }
        }
        pub struct SyncSender<T>(pub std::rc::Rc<dyn Drain<T>>);
        impl<T> SyncSender<T> {
            pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
                self.0.try_send(v)
            }
            pub fn send(&self, v: T) -> Result<(), SendError<T>> {
                self.0.send(v)
            }
        }
    }
}

pub mod io {
    pub use std::io::*;
    pub struct Stdout(());
    pub struct StdoutLock<'a>(std::marker::PhantomData<&'a ()>);
    pub fn stdout() -> Stdout {
        Stdout(())
    }
    impl Stdout {
        pub fn lock(&self) -> StdoutLock<'static> {
            StdoutLock(std::marker::PhantomData)
        }
    }
    impl Write for Stdout {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            crate::world::get().write(b)
        }
        fn flush(&mut self) -> Result<()> {
            crate::world::get().flush()
        }
    }
    impl Write for StdoutLock<'_> {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            crate::world::get().write(b)
        }
        fn flush(&mut self) -> Result<()> {
            crate::world::get().flush()
        }
    }
}
