#![allow(dead_code)]
//! Framework shared by every check: parallel exhaustive enumeration, panic capture, violation
//! and known-finding bookkeeping, evidence files.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Everything one check run accumulates. Shared by the worker threads.
pub struct Run {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    start: Instant,
    /// distinct states (inputs, histories, abstract states) explored
    pub states: AtomicU64,
    /// executions of a step of the real code that were compared with the model
    pub transitions: AtomicU64,
    /// complete model traces replayed against the implementation
    pub traces: AtomicU64,
    outcomes: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    bounds: Mutex<Vec<String>>,
    violations: Mutex<BTreeMap<String, String>>,
    known_hit: Mutex<BTreeSet<String>>,
    known: BTreeMap<String, String>,
    nviol: AtomicUsize,
    exhaustive: AtomicBool,
}

/// At most this many distinct violations are written out; exploration stops early after that.
const MAX_VIOLATIONS: usize = 5;

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// The first panic that was not expected (see [stopped]).
static STOPPED: Mutex<Option<String>> = Mutex::new(None);

/// Why exploring stopped, if what the code under test gave could not be used by the checker at
/// all (it panicked outside [guard]). `None` if that was the system's fault.
pub fn stopped() -> Option<String> {
    let s = STOPPED.lock().unwrap_or_else(|e| e.into_inner()).clone()?;
    (!s.contains("Os { code:")).then_some(s)
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = payload(info.payload());
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file();
                    format!("{}:{}", f.strip_prefix("/repo/").unwrap_or(f), l.line())
                })
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
        } else {
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            STOPPED.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert(format!("{} @ {at}", payload(info.payload())));
            default(info)
        }
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "<non-string panic>".into())
}

/// Run `f`, turning a panic of the code under test into `Err(description)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

impl Run {
    pub fn new(property: &str, tier: Tier, root: PathBuf) -> Self {
        let mut known = BTreeMap::new();
        if let Ok(text) = std::fs::read_to_string(root.join("known-findings.txt")) {
            for line in text.lines() {
                let Some(rest) = line.strip_prefix("known: property=") else { continue };
                let Some((prop, rest)) = rest.split_once(" key=") else { continue };
                let Some((key, what)) = rest.split_once(" :: ") else { continue };
                if prop == property {
                    known.insert(key.to_string(), what.to_string());
                }
            }
        }
        Run {
            property: property.into(),
            tier,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            root,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            outcomes: Default::default(),
            samples: Default::default(),
            assumptions: Default::default(),
            bounds: Default::default(),
            violations: Default::default(),
            known_hit: Default::default(),
            known,
            nviol: AtomicUsize::new(0),
            exhaustive: AtomicBool::new(true),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// Enough violations have been found: workers may stop.
    pub fn done(&self) -> bool {
        self.nviol.load(Relaxed) >= MAX_VIOLATIONS
    }
    pub fn count(&self, states: u64, transitions: u64, traces: u64) {
        self.states.fetch_add(states, Relaxed);
        self.transitions.fetch_add(transitions, Relaxed);
        self.traces.fetch_add(traces, Relaxed);
    }
    pub fn outcomes(&self, o: &BTreeMap<&'static str, u64>) {
        let mut g = self.outcomes.lock().unwrap();
        for (k, v) in o {
            *g.entry(k.to_string()).or_default() += v;
        }
    }
    pub fn outcome(&self, k: &str) {
        *self.outcomes.lock().unwrap().entry(k.to_string()).or_default() += 1;
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut g = self.samples.lock().unwrap();
        if g.len() < 12 {
            g.push(s.into());
        }
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }
    pub fn not_exhaustive(&self) {
        self.exhaustive.store(false, Relaxed);
    }
    /// Report a disagreement. `key` names the specific failing case (it is what the
    /// known-findings file refers to); `detail` is the replayable artefact.
    pub fn violation(&self, key: impl Into<String>, detail: impl Into<String>) {
        let key = key.into();
        if self.known.contains_key(&key) {
            self.known_hit.lock().unwrap().insert(key);
            return;
        }
        let mut g = self.violations.lock().unwrap();
        if g.len() < 64 && !g.contains_key(&key) {
            g.insert(key, detail.into());
            self.nviol.fetch_add(1, Relaxed);
        }
    }

    pub fn finish(&self) -> i32 {
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(dir.join("replay"));
        for k in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {}", self.property, self.known[k]);
        }
        let viol = self.violations.lock().unwrap();
        for (i, (k, d)) in viol.iter().enumerate() {
            if i >= MAX_VIOLATIONS {
                break;
            }
            let path = dir.join("replay").join(format!("{}-{}.txt", self.property, i));
            let text = format!("property: {}\nkey: {}\n\n{}\n", self.property, k, d);
            std::fs::write(&path, &text).expect("write replay");
            println!("VIOLATION property={} replay={}", self.property, path.display());
            let mut t = text.replace('\n', "\n    ");
            if t.len() > 3000 {
                let mut n = 3000;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
            }
            println!("    {t}");
        }
        let (st, tr, tc) = (
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
        );
        let wall = self.elapsed();
        let mut j = String::new();
        let list = |v: &[String]| {
            let items: Vec<String> = v.iter().map(|s| js(s)).collect();
            format!("[{}]", items.join(", "))
        };
        let oc: Vec<String> = self
            .outcomes
            .lock()
            .unwrap()
            .iter()
            .map(|(k, v)| format!("{}: {}", js(k), v))
            .collect();
        let _ = write!(
            j,
            "{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {st},\n    \"transitions\": {tr},\n    \"traces_validated_against_impl\": {tc},\n    \"exhaustive\": {},\n    \"bounds\": {},\n    \"outcomes\": {{{}}},\n    \"samples\": {}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
            js(&self.property),
            if self.thorough() { "thorough" } else { "quick" },
            self.seed,
            self.exhaustive.load(Relaxed) && viol.is_empty(),
            list(&self.bounds.lock().unwrap()),
            oc.join(", "),
            list(&self.samples.lock().unwrap()),
            list(&self.assumptions.lock().unwrap()),
            wall,
            viol.len()
        );
        std::fs::write(dir.join(format!("{}.json", self.property)), j).expect("write evidence");
        println!(
            "{} {}: states={st} transitions={tr} traces={tc} outcomes={{{}}} violations={} known={} wall={wall:.1}s",
            self.property,
            if self.thorough() { "thorough" } else { "quick" },
            oc.join(", "),
            viol.len(),
            self.known_hit.lock().unwrap().len()
        );
        if viol.is_empty() { 0 } else { 1 }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8)
}

/// The case a worker thread is executing, for the watchdog.
struct Slot(Mutex<Option<(Instant, String, String)>>);
thread_local! {
    static SLOT: RefCell<Option<std::sync::Arc<Slot>>> = const { RefCell::new(None) };
}
/// A single execution of the code under test that takes longer than this is reported as not
/// terminating (they normally take well under a millisecond).
const HANG_S: u64 = 40;

/// Run one execution of the code under test; if it never returns, the watchdog reports it.
pub fn case<T>(what: &str, input: &str, f: impl FnOnce() -> T) -> T {
    SLOT.with(|s| {
        if let Some(s) = &*s.borrow() {
            *s.0.lock().unwrap() = Some((Instant::now(), what.into(), input.into()));
        }
    });
    let r = f();
    SLOT.with(|s| {
        if let Some(s) = &*s.borrow() {
            *s.0.lock().unwrap() = None;
        }
    });
    r
}

/// Apply `f` to every index in `0..n` on all cores (exhaustively, in chunks); stops early once
/// enough violations were found.
pub fn par_for(run: &Run, n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let chunk = (n / (threads() * 64)).clamp(1, 256);
    let slots: Vec<std::sync::Arc<Slot>> =
        (0..threads()).map(|_| std::sync::Arc::new(Slot(Mutex::new(None)))).collect();
    let live = AtomicUsize::new(threads());
    std::thread::scope(|s| {
        for slot in &slots {
            let (next, live, f) = (&next, &live, &f);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    struct Live<'a>(&'a AtomicUsize);
                    impl Drop for Live<'_> {
                        fn drop(&mut self) {
                            self.0.fetch_sub(1, Relaxed);
                        }
                    }
                    let _live = Live(live);
                    SLOT.with(|s| *s.borrow_mut() = Some(slot.clone()));
                    loop {
                        let i = next.fetch_add(chunk, Relaxed);
                        if i >= n || run.done() {
                            return;
                        }
                        for k in i..(i + chunk).min(n) {
                            f(k)
                        }
                    }
                })
                .unwrap();
        }
        let mut naps = 0u32;
        while live.load(Relaxed) > 0 {
            std::thread::sleep(std::time::Duration::from_millis(if naps < 100 { 1 } else { 20 }));
            naps += 1;
            for slot in &slots {
                let g = slot.0.lock().unwrap();
                if let Some((t, what, input)) = &*g
                    && t.elapsed().as_secs() >= HANG_S
                {
                    run.violation(
                        format!("hang: {} on {input:?}", what.replace('\n', "; ")),
                        format!("does not terminate (stopped after {HANG_S} s)\n{what}\ninput: {input:?}"),
                    );
                    let code = run.finish();
                    std::process::exit(code);
                }
            }
        }
    });
}

/// All strings of length `0..=max` over `alphabet` (shortest first).
pub fn strings(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut level = vec![String::new()];
    for _ in 0..max {
        let mut next = Vec::with_capacity(level.len() * alphabet.len());
        for s in &level {
            for a in alphabet {
                next.push(format!("{s}{a}"));
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}

/// All sequences of length `lo..=hi` over `items` (shortest first).
pub fn sequences<T: Clone>(items: &[T], lo: usize, hi: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    let mut level: Vec<Vec<T>> = vec![vec![]];
    for d in 0..=hi {
        if d >= lo {
            out.extend(level.iter().cloned());
        }
        if d == hi {
            break;
        }
        let mut next = Vec::with_capacity(level.len() * items.len());
        for s in &level {
            for a in items {
                let mut t = s.clone();
                t.push(a.clone());
                next.push(t);
            }
        }
        level = next;
    }
    out
}

/// A private scratch directory, removed on drop.
pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = PathBuf::from(format!(
            "/tmp/mc-{}-{}-{}",
            tag,
            std::process::id(),
            N.fetch_add(1, Relaxed)
        ));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p.canonicalize().unwrap())
    }
    pub fn path(&self) -> &std::path::Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
