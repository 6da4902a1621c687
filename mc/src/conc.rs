//! C05 (symbol interning) and the concurrent part of C04 (source manager), explored with the
//! controlled scheduler of the substituted lock implementation: every interleaving of the real
//! code at its lock operations.
use crate::fw::*;
use litcheck::diagnostics::*;
use litcheck::{Symbol, symbols};
use parking_lot::mc;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static FRESH: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, Debug, PartialEq)]
enum SOp {
    /// intern the k-th fresh string of this execution from an owned string
    Own(usize),
    /// ... from a `&'static str`
    Stat(usize),
    /// ... by deserialising it
    Ser(usize),
    /// intern a keyword
    Kw,
    /// read back every symbol this thread has so far
    Read,
}

fn keyword_table() -> Vec<(Symbol, &'static str, bool)> {
    use symbols::*;
    vec![
        (False, "false", false),
        (True, "true", false),
        (Empty, "", false),
        (Line, "LINE", true),
        (Add, "add", true),
        (Div, "div", true),
        (Max, "max", true),
        (Min, "min", true),
        (Mul, "mul", true),
        (Sub, "sub", true),
        (Check, "CHECK", false),
        (Com, "COM", false),
        (Run, "RUN", false),
    ]
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

pub fn c05(run: &Run) {
    let kws = keyword_table();
    let kw_ok = |when: &str| {
        for (i, (sym, s, kw)) in kws.iter().enumerate() {
            let distinct = kws.iter().filter(|k| k.0.as_u32() == sym.as_u32()).count() == 1;
            if sym.as_str() != *s || Symbol::intern(s) != *sym || Symbol::from(*s).as_u32() != sym.as_u32() || sym.is_keyword() != *kw || !distinct || sym.to_string() != *s || sym.as_usize() != sym.as_u32() as usize {
                run.violation(format!("keyword {s:?} {when}"), format!("predefined symbol {i} ({s:?}) {when}: reads back as {:?}, interning gives {}, keyword {}", sym.as_str(), Symbol::intern(s).as_u32(), sym.is_keyword()));
            }
            run.count(0, 5, 0);
        }
    };
    kw_ok("initially");
    // sequential: every history over an alphabet of confusable strings and entry points
    let words = ["", "a", "A", "aa", "a ", "é", "CHECK", "CHEC", "addd", "line", "LINE", "0"];
    let d = run.pick(3, 4);
    run.bound(format!("sequential: all interning histories of length <= {d} over {} confusable strings (plain and with a fresh prefix)", words.len()));
    let hs = sequences(&(0..words.len()).collect::<Vec<_>>(), 1, d);
    par_for(run, hs.len(), |i| {
        for fresh in [false, true] {
            let pre = if fresh { format!("q{}_", FRESH.fetch_add(1, Relaxed)) } else { String::new() };
            let mut model: BTreeMap<String, Symbol> = kws.iter().map(|k| (k.1.to_string(), k.0)).collect();
            let mut strs = vec![];
            for (k, &w) in hs[i].iter().enumerate() {
                let s = format!("{pre}{}", words[w]);
                let r = guard(|| match k % 5 {
                    0 => Symbol::intern(&s),
                    1 => Symbol::from(s.clone()),
                    2 => Symbol::from(s.clone().into_boxed_str()),
                    3 => Symbol::from(std::borrow::Cow::<'static, str>::Owned(s.clone())),
                    _ => Symbol::intern(s.as_str()),
                });
                let bad = |w: String| run.violation(format!("{w} {s:?}"), format!("{w}: history {:?} (prefix {pre:?}) step {k}", hs[i]));
                let Ok(sym) = r else {
                    bad(format!("interning panicked: {r:?}"));
                    return;
                };
                if sym.as_str() != s || sym.to_string() != s || sym.as_ref() as &str != s {
                    bad(format!("reads back as {:?}", sym.as_str()));
                }
                match model.get(&s) {
                    Some(o) if *o != sym || o.as_u32() != sym.as_u32() => bad(format!("second symbol {} for one string, first {}", sym.as_u32(), o.as_u32())),
                    None if model.values().any(|o| o.as_u32() == sym.as_u32() || *o == sym) => bad("one symbol for two strings".into()),
                    _ => {}
                }
                model.insert(s.clone(), sym);
                strs.push((s.clone(), sym));
                for (a, x) in &strs {
                    for (b, y) in &strs {
                        if (x == y) != (a == b) || x.cmp(y) != a.cmp(b) || x.as_str() != a {
                            bad(format!("equality/order of {a:?} and {b:?}"));
                        }
                    }
                }
                run.count(0, (strs.len() * strs.len()) as u64, 0);
            }
            run.count(1, 0, 1);
        }
    });
    // long strings which differ only in their last character
    let lens: Vec<usize> = (0..=run.pick(17, 20)).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    run.bound(format!("strings of every length next to a power of two up to {}, differing in the last character only", lens.last().unwrap()));
    for &n in &lens {
        let strs: Vec<String> = ["a", "b", "é"].iter().map(|e| format!("{}{e}", "q".repeat(n))).collect();
        let syms: Vec<Symbol> = strs.iter().map(|s| Symbol::intern(s)).collect();
        for (i, s) in strs.iter().enumerate() {
            let ok = guard(|| syms[i].as_str() == s && Symbol::intern(s) == syms[i] && Symbol::from(s.clone()) == syms[i] && syms.iter().filter(|x| **x == syms[i]).count() == 1);
            if ok != Ok(true) {
                run.violation(format!("long {n} {i}"), format!("a string of {n} letters and one more: not one symbol, or read back with {} bytes ({ok:?})", syms[i].as_str().len()));
            }
            run.count(0, 4, 0);
        }
    }
    // concurrent
    let ops = [SOp::Own(0), SOp::Own(1), SOp::Stat(0), SOp::Ser(1), SOp::Kw, SOp::Read];
    let len2 = run.pick(2, 3);
    let progs2 = sequences(&ops, 1, len2);
    let progs1 = sequences(&ops, 1, 1);
    let mut cfgs: Vec<Vec<Vec<SOp>>> = vec![];
    for (i, a) in progs2.iter().enumerate() {
        for b in &progs2[i..] {
            if a.len() + b.len() <= run.pick(3, 5) {
                cfgs.push(vec![a.clone(), b.clone()]);
            }
        }
    }
    for i in 0..progs1.len() { for j in i..progs1.len() { for k in j..progs1.len() {
        cfgs.push(vec![progs1[i].clone(), progs1[j].clone(), progs1[k].clone()]);
    }}}
    run.bound(format!("concurrent: {} programs of 2 threads (<= {} operations) and 3 threads (1 operation each), every interleaving at lock acquisitions (and releases, for programs of 2 operations)", cfgs.len(), run.pick(3, 5)));
    // (serially: the symbol table is shared by the whole process)
    for i in 0..cfgs.len() {
        if run.done() {
            break;
        }
        let cfg = &cfgs[i];
        let mut names: Vec<String> = vec![];
        let cell = std::cell::RefCell::new(vec![]);
        let n = mc::explore(
            cfg.iter().map(|p| p.len()).sum::<usize>() <= 2,
            || {
                let f = FRESH.fetch_add(1, Relaxed);
                let fresh = [format!("s{f}a"), format!("s{f}b")];
                *cell.borrow_mut() = fresh.to_vec();
                cfg.iter()
                    .map(|prog| {
                        let (prog, fresh) = (prog.clone(), fresh.clone());
                        Box::new(move || guard(|| run_prog(&prog, &fresh))) as Box<dyn FnOnce() -> Result<Vec<(String, u32, String)>, String> + Send>
                    })
                    .collect()
            },
            |e| {
                names.clone_from(&cell.borrow());
                let bad = |w: String| {
                    run.violation(format!("{w} {cfg:?}"), format!("{w}\nprograms = {cfg:?}\nschedule (thread ids at scheduling points) = {:?}\nresults = {:?}", e.schedule, e.results))
                };
                if e.deadlock || e.stuck {
                    bad(if e.deadlock { "deadlock".into() } else { "no progress".into() });
                    return false;
                }
                let mut by_str: BTreeMap<&str, u32> = kws.iter().map(|k| (k.1, k.0.as_u32())).collect();
                let mut by_sym: BTreeMap<u32, &str> = kws.iter().map(|k| (k.0.as_u32(), k.1)).collect();
                for r in &e.results {
                    match r {
                        Ok(Ok(v)) => {
                            for (s, n, back) in v {
                                if s != back {
                                    bad("a symbol reads back as a different string".into());
                                }
                                if *by_str.entry(s).or_insert(*n) != *n {
                                    bad("equal strings got different symbols".into());
                                }
                                if *by_sym.entry(*n).or_insert(s) != s {
                                    bad("different strings got one symbol".into());
                                }
                            }
                        }
                        _ => bad("a thread panicked".into()),
                    }
                }
                // afterwards
                for (s, n) in &by_str {
                    if Symbol::new(*n).as_str() != *s || Symbol::intern(s).as_u32() != *n {
                        bad("afterwards a symbol reads back differently".into());
                    }
                }
                run.count(0, e.schedule.len() as u64, 0);
                !run.done()
            },
        );
        run.count(n, 0, n);
    }
    kw_ok("after everything");
    run.sample(format!("{:?}", cfgs[cfgs.len() / 2]));
    run.assume("threads interact only through the lock operations (memory protected by the locks), so interleavings at those operations cover all behaviours");
}

fn run_prog(prog: &[SOp], fresh: &[String]) -> Vec<(String, u32, String)> {
    let mut out: Vec<(String, u32, String)> = vec![];
    for op in prog {
        let (s, sym) = match op {
            SOp::Own(k) => (fresh[*k].clone(), Symbol::intern(&fresh[*k])),
            SOp::Stat(k) => (fresh[*k].clone(), Symbol::from(leak(fresh[*k].clone()))),
            SOp::Ser(k) => {
                use serde::de::{Deserialize, IntoDeserializer, value::StrDeserializer};
                let d: StrDeserializer<'_, serde::de::value::Error> = fresh[*k].as_str().into_deserializer();
                (fresh[*k].clone(), Symbol::deserialize(d).unwrap())
            }
            SOp::Kw => ("CHECK".to_string(), Symbol::intern("CHECK")),
            SOp::Read => {
                for (_, n, back) in out.iter_mut() {
                    *back = Symbol::new(*n).as_str().to_string();
                }
                continue;
            }
        };
        out.push((s, sym.as_u32(), sym.as_str().to_string()));
    }
    out
}

// ------------------------------------------------------------------------------- C04 concurrent

#[derive(Clone, Copy, Debug, PartialEq)]
enum MOp {
    Load(usize, usize),
    LoadArg(usize),
    Find(usize),
    Clone,
    /// replace the content of the thread's latest file
    Update(usize),
    /// read back the thread's latest file through the manager
    Read,
}

const NAMES: [&str; 2] = ["n0", "n1"];
const CONTENTS: [&str; 2] = ["x", "y\nz"];

/// Observation of one operation: an identity (renumbered) and/or a text.
type Obs = (Option<u32>, Option<String>);

fn mrun(prog: &[MOp], mgr: &DefaultSourceManager) -> Vec<Obs> {
    let mut out = vec![];
    let mut mine: Option<SourceId> = None;
    let fname = |n: usize| FileName::from(NAMES[n].to_string());
    for op in prog {
        out.push(match op {
            MOp::Load(n, c) => {
                let f = mgr.load(SourceLanguage::Unknown, fname(*n), CONTENTS[*c].to_string());
                mine = Some(f.id());
                (Some(f.id().to_u32()), Some(format!("{} {}", f.uri(), f.as_str())))
            }
            MOp::LoadArg(c) => {
                let f = mgr.load_argument("arg", CONTENTS[*c].to_string());
                mine = Some(f.id());
                (Some(f.id().to_u32()), Some(format!("{} {}", f.uri(), f.as_str())))
            }
            MOp::Find(n) => {
                let f = mgr.get_by_uri(&fname(*n));
                (f.as_ref().map(|f| f.id().to_u32()), f.map(|f| f.as_str().to_string()))
            }
            MOp::Clone => {
                let c = mgr.clone();
                let f = c.get_by_uri(&fname(0));
                (f.as_ref().map(|f| f.id().to_u32()), f.map(|f| f.as_str().to_string()))
            }
            MOp::Update(c) => match mine {
                Some(id) => (None, Some(format!("{}", mgr.update(id, format!("u{c}"), None, 1).is_ok()))),
                None => (None, None),
            },
            MOp::Read => match mine {
                Some(id) => {
                    let f = mgr.get(id);
                    (Some(id.to_u32()), f.ok().map(|f| format!("{} {}", f.uri(), f.as_str())))
                }
                None => (None, None),
            },
        });
    }
    out
}

/// Sequential specification, identities as fresh tokens.
#[derive(Clone, Default)]
struct Spec {
    files: Vec<(String, String)>,
    latest: BTreeMap<String, usize>,
}
impl Spec {
    fn step(&mut self, op: MOp, mine: &mut Option<usize>) -> (Option<usize>, Option<String>) {
        let mut load = |name: &str, c: usize, s: &mut Spec| {
            let content = CONTENTS[c].to_string();
            let id = match s.latest.get(name) {
                Some(&i) if s.files[i].1 == content => i,
                _ => {
                    s.files.push((name.to_string(), content.clone()));
                    s.files.len() - 1
                }
            };
            s.latest.insert(name.into(), id);
            *mine = Some(id);
            (Some(id), Some(format!("{name} {content}")))
        };
        match op {
            MOp::Load(n, c) => load(NAMES[n], c, self),
            MOp::LoadArg(c) => load("arg", c, self),
            MOp::Find(n) => {
                let i = self.latest.get(NAMES[n]).copied();
                (i, i.map(|i| self.files[i].1.clone()))
            }
            MOp::Clone => {
                let i = self.latest.get(NAMES[0]).copied();
                (i, i.map(|i| self.files[i].1.clone()))
            }
            MOp::Update(c) => match *mine {
                Some(i) => {
                    self.files[i].1 = format!("u{c}");
                    (None, Some("true".into()))
                }
                None => (None, None),
            },
            MOp::Read => match *mine {
                Some(i) => (Some(i), Some(format!("{} {}", self.files[i].0, self.files[i].1))),
                None => (None, None),
            },
        }
    }
}

/// Is there an interleaving of whole operations, per-thread order kept, explaining `obs`?
fn linear(cfg: &[Vec<MOp>], obs: &[Vec<Obs>], pos: &mut Vec<usize>, spec: &Spec, mine: &[Option<usize>], map: &BTreeMap<u32, usize>) -> bool {
    if (0..cfg.len()).all(|t| pos[t] == cfg[t].len()) {
        return true;
    }
    for t in 0..cfg.len() {
        if pos[t] == cfg[t].len() {
            continue;
        }
        let (mut sp, mut mi, mut mp) = (spec.clone(), mine.to_vec(), map.clone());
        let want = sp.step(cfg[t][pos[t]], &mut mi[t]);
        let got = &obs[t][pos[t]];
        if want.1 != got.1 || want.0.is_some() != got.0.is_some() {
            continue;
        }
        if let (Some(w), Some(g)) = (want.0, got.0) {
            // renaming must be a bijection
            match mp.get(&g) {
                Some(x) if *x != w => continue,
                None if mp.values().any(|x| *x == w) => continue,
                _ => {}
            }
            mp.insert(g, w);
        }
        pos[t] += 1;
        let ok = linear(cfg, obs, pos, &sp, &mi, &mp);
        pos[t] -= 1;
        if ok {
            return true;
        }
    }
    false
}

pub fn c04(run: &Run) {
    crate::core_src::c04_seq(run);
    let ops = [MOp::Load(0, 0), MOp::Load(0, 1), MOp::Load(1, 0), MOp::LoadArg(0), MOp::Find(0), MOp::Clone, MOp::Update(0), MOp::Read];
    let progs = |l: usize| -> Vec<Vec<MOp>> { sequences(&ops, 1, l).into_iter().filter(|p| !matches!(p[0], MOp::Update(_) | MOp::Read)).collect() };
    let mut cfgs: Vec<Vec<Vec<MOp>>> = vec![];
    let max = run.pick(4, 5);
    let p2 = progs(run.pick(2, 3));
    for i in 0..p2.len() {
        for j in i..p2.len() {
            if p2[i].len() + p2[j].len() <= max {
                cfgs.push(vec![p2[i].clone(), p2[j].clone()]);
            }
        }
    }
    let p1 = progs(1);
    for i in 0..p1.len() { for j in i..p1.len() { for k in j..p1.len() {
        cfgs.push(vec![p1[i].clone(), p1[j].clone(), p1[k].clone()]);
    }}}
    run.bound(format!("concurrent: {} programs of 2 threads (<= {max} operations) and 3 threads (1 operation each), every interleaving at lock acquisitions (and releases, for programs of 2 operations); results must be explained by some order of whole operations (up to renaming identities)", cfgs.len()));
    par_for(run, cfgs.len(), |i| {
        let cfg = &cfgs[i];
        let cur: std::cell::RefCell<Option<Arc<DefaultSourceManager>>> = Default::default();
        let n = mc::explore(
            cfg.iter().map(|p| p.len()).sum::<usize>() <= 2,
            || {
                let mgr = Arc::new(DefaultSourceManager::default());
                *cur.borrow_mut() = Some(mgr.clone());
                cfg.iter()
                    .map(|p| {
                        let (p, mgr) = (p.clone(), mgr.clone());
                        Box::new(move || guard(|| mrun(&p, &mgr))) as Box<dyn FnOnce() -> Result<Vec<Obs>, String> + Send>
                    })
                    .collect()
            },
            |e| {
                let bad = |w: String| run.violation(format!("{w} {cfg:?}"), format!("{w}\nprograms = {cfg:?}\nschedule (thread ids at scheduling points) = {:?}\nresults = {:?}", e.schedule, e.results));
                if e.deadlock || e.stuck {
                    bad(if e.deadlock { "deadlock".into() } else { "no progress".into() });
                    return false;
                }
                let mut obs = vec![];
                for r in &e.results {
                    match r {
                        Ok(Ok(v)) => obs.push(v.clone()),
                        _ => {
                            bad("a thread panicked".into());
                            return false;
                        }
                    }
                }
                let mine = vec![None; cfg.len()];
                if !linear(cfg, &obs, &mut vec![0; cfg.len()], &Spec::default(), &mine, &BTreeMap::new()) {
                    bad("no sequential order of the operations explains the results".into());
                }
                // at the end every identity resolves to its own name and id
                let mgr = cur.borrow().clone().unwrap();
                for o in obs.iter().flatten() {
                    if let (Some(id), Some(_)) = o {
                        let id = SourceId::from_raw(*id);
                        match guard(|| mgr.get(id).map(|f| f.id())) {
                            Ok(Ok(i)) if i == id => {}
                            r => bad(format!("identity {id:?} resolves to {r:?}")),
                        }
                    }
                }
                run.count(0, e.schedule.len() as u64, 0);
                !run.done()
            },
        );
        run.count(n, 0, n);
    });
}

trait FromRaw {
    fn from_raw(n: u32) -> Self;
}
impl FromRaw for SourceId {
    fn from_raw(n: u32) -> Self {
        let idx = n & 0x00ff_ffff;
        if n >> 24 == 0 { SourceId::file(idx) } else { SourceId::argument(idx) }
    }
}
