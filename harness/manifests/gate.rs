
/// Threads of the server that sleep wait here until the check lets them go on.
pub mod gate {
    use std::cell::RefCell;
    use std::sync::{Arc, Condvar, Mutex};
    use std::time::Duration;

    #[derive(Default)]
    pub struct State {
        /// threads that wait, how often one may go on, and how often one has
        pub waiting: usize,
        pub permits: usize,
        pub ended: Vec<bool>,
        pub started: usize,
        pub asked: Vec<Duration>,
        pub stop: bool,
        /// the wall clock's offset in milliseconds
        pub now: i64,
    }
    #[derive(Default)]
    pub struct Gate {
        pub s: Mutex<State>,
        pub c: Condvar,
    }
    pub struct Stop;
    thread_local! {
        static MINE: RefCell<Option<Arc<Gate>>> = const { RefCell::new(None) };
    }
    /// sets the clock of the calling thread
    pub static CLOCK: Mutex<Option<fn(i64)>> = Mutex::new(None);
    /// Threads spawned by the calling thread from now on wait at the gate.
    pub fn bind(g: Option<Arc<Gate>>) {
        MINE.with(|m| *m.borrow_mut() = g);
    }
    struct End(Arc<Gate>);
    impl Drop for End {
        fn drop(&mut self) {
            let mut s = self.0.s.lock().unwrap();
            let died = std::thread::panicking() && !s.stop;
            s.ended.push(died);
            self.0.c.notify_all();
        }
    }
    pub fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
        let g = MINE.with(|m| m.borrow().clone());
        if let Some(g) = &g {
            g.s.lock().unwrap().started += 1;
        }
        std::thread::spawn(move || {
            let _e = g.clone().map(End);
            bind(g);
            f()
        })
    }
    pub fn sleep(d: Duration) {
        let Some(g) = MINE.with(|m| m.borrow().clone()) else { return std::thread::sleep(d) };
        let mut s = g.s.lock().unwrap();
        s.asked.push(d);
        s.waiting += 1;
        g.c.notify_all();
        while s.permits == 0 && !s.stop {
            s = g.c.wait(s).unwrap();
        }
        s.waiting -= 1;
        if s.stop {
            drop(s);
            std::panic::resume_unwind(Box::new(Stop));
        }
        s.permits -= 1;
        let now = s.now;
        drop(s);
        let set = *CLOCK.lock().unwrap();
        if let Some(f) = set {
            f(now);
        }
    }
    impl Gate {
        /// Lets the one thread go round once; false if it has ended.
        pub fn step(&self, now: i64) -> bool {
            let mut s = self.s.lock().unwrap();
            while s.waiting == 0 && s.ended.len() < s.started {
                s = self.c.wait(s).unwrap();
            }
            if s.ended.len() >= s.started {
                return false;
            }
            s.now = now;
            s.permits = 1;
            self.c.notify_all();
            while (s.permits == 1 || s.waiting == 0) && s.ended.len() < s.started {
                s = self.c.wait(s).unwrap();
            }
            s.ended.len() < s.started
        }
        pub fn stop(&self) {
            let mut s = self.s.lock().unwrap();
            s.stop = true;
            self.c.notify_all();
            while s.ended.len() < s.started {
                s = self.c.wait(s).unwrap();
            }
        }
    }
}
