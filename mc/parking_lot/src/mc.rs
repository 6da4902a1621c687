//! Controlled scheduler: systematic, depth-first exploration of every interleaving of a small
//! set of threads at their lock operations.
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Blocked(usize),
    Done,
}

struct State {
    running: usize,
    status: Vec<Status>,
    /// forced choices of this execution, then 0
    prefix: Vec<usize>,
    /// (choice taken, number of alternatives) at every scheduling point
    trace: Vec<(usize, usize)>,
    schedule: Vec<usize>,
    abort: bool,
    /// releases are scheduling points too (not only acquisitions)
    on_release: bool,
}

struct Sched {
    m: Mutex<State>,
    cv: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

/// Is the current thread under exploration (and not unwinding out of it)?
pub fn managed() -> bool {
    ME.try_with(|m| m.try_borrow().map(|m| m.is_some()).unwrap_or(false)).unwrap_or(false)
}

fn with<T>(f: impl FnOnce(&Arc<Sched>, usize) -> T) -> T {
    let (s, i) = ME.with(|m| m.borrow().clone().unwrap());
    f(&s, i)
}

impl Sched {
    /// Pick who runs next; `cur` is tried first (so choice 0 is "no preemption").
    fn pick(&self, st: &mut State, cur: usize) {
        let mut enabled: Vec<usize> =
            (0..st.status.len()).filter(|&i| st.status[i] == Status::Ready).collect();
        if enabled.is_empty() {
            if st.status.iter().any(|s| *s != Status::Done) {
                st.abort = true; // deadlock
            }
            self.cv.notify_all();
            return;
        }
        if let Some(p) = enabled.iter().position(|&i| i == cur) {
            let c = enabled.remove(p);
            enabled.insert(0, c);
        }
        let c = if enabled.len() == 1 {
            0
        } else {
            let k = st.trace.len();
            let c = st.prefix.get(k).copied().unwrap_or(0).min(enabled.len() - 1);
            st.trace.push((c, enabled.len()));
            c
        };
        st.running = enabled[c];
        st.schedule.push(enabled[c]);
        self.cv.notify_all();
    }
    fn wait(&self, mut st: std::sync::MutexGuard<'_, State>, me: usize) {
        while st.running != me && !st.abort {
            st = self.cv.wait(st).unwrap();
        }
        if st.abort {
            drop(st);
            ME.with(|m| m.borrow_mut().take());
            std::panic::resume_unwind(Box::new("exploration aborted"));
        }
    }
}

/// A scheduling point of the current (managed) thread.
pub fn point() {
    if std::thread::panicking() {
        return;
    }
    with(|s, me| {
        let mut st = s.m.lock().unwrap();
        s.pick(&mut st, me);
        s.wait(st, me);
    })
}

pub(crate) fn block(addr: usize) {
    with(|s, me| {
        let mut st = s.m.lock().unwrap();
        st.status[me] = Status::Blocked(addr);
        s.pick(&mut st, me);
        s.wait(st, me);
    })
}

pub(crate) fn released(addr: usize) {
    with(|s, me| {
        let mut st = s.m.lock().unwrap();
        for x in st.status.iter_mut() {
            if *x == Status::Blocked(addr) {
                *x = Status::Ready;
            }
        }
        if std::thread::panicking() || !st.on_release {
            return;
        }
        s.pick(&mut st, me);
        s.wait(st, me);
    })
}

pub struct Execution<T> {
    /// per-thread results; `Err` if the thread panicked
    pub results: Vec<Result<T, ()>>,
    pub deadlock: bool,
    pub stuck: bool,
    pub schedule: Vec<usize>,
    trace: Vec<(usize, usize)>,
}

fn execute<T: Send + 'static>(
    bodies: Vec<Box<dyn FnOnce() -> T + Send>>,
    prefix: Vec<usize>,
    on_release: bool,
) -> Execution<T> {
    let n = bodies.len();
    let s = Arc::new(Sched {
        m: Mutex::new(State {
            running: usize::MAX,
            status: vec![Status::Ready; n],
            prefix,
            trace: vec![],
            schedule: vec![],
            abort: false,
            on_release,
        }),
        cv: Condvar::new(),
    });
    let handles: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            let s = s.clone();
            std::thread::spawn(move || {
                {
                    let mut st = s.m.lock().unwrap();
                    while st.running != i && !st.abort {
                        st = s.cv.wait(st).unwrap();
                    }
                    if st.abort {
                        return Err(());
                    }
                }
                ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b)).map_err(|_| ());
                ME.with(|m| m.borrow_mut().take());
                let mut st = s.m.lock().unwrap();
                st.status[i] = Status::Done;
                s.pick(&mut st, i);
                r
            })
        })
        .collect();
    // start
    let mut stuck = false;
    {
        let mut st = s.m.lock().unwrap();
        s.pick(&mut st, usize::MAX);
        while !st.abort && st.status.iter().any(|x| *x != Status::Done) {
            let (g, t) = s.cv.wait_timeout(st, Duration::from_secs(20)).unwrap();
            st = g;
            if t.timed_out() && !st.abort && st.status.iter().any(|x| *x != Status::Done) {
                stuck = true;
                break;
            }
        }
    }
    let mut results = vec![];
    if !stuck {
        for h in handles {
            results.push(h.join().unwrap_or(Err(())));
        }
    }
    let st = s.m.lock().unwrap();
    Execution {
        results,
        deadlock: st.abort,
        stuck,
        schedule: st.schedule.clone(),
        trace: st.trace.clone(),
    }
}

/// Run every interleaving of the threads produced by `make`; `each` gets every finished
/// execution and returns false to stop. Returns the number of interleavings.
pub fn explore<T: Send + 'static>(
    on_release: bool,
    mut make: impl FnMut() -> Vec<Box<dyn FnOnce() -> T + Send>>,
    mut each: impl FnMut(Execution<T>) -> bool,
) -> u64 {
    let mut prefix: Vec<usize> = vec![];
    let mut n = 0;
    loop {
        let e = execute(make(), prefix.clone(), on_release);
        n += 1;
        let mut next = e.trace.clone();
        if !each(e) {
            return n;
        }
        loop {
            match next.pop() {
                None => return n,
                Some((c, k)) if c + 1 < k => {
                    prefix = next.iter().map(|x| x.0).collect();
                    prefix.push(c + 1);
                    break;
                }
                Some(_) => {}
            }
        }
    }
}
