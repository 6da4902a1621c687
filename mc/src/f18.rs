//! F18: the library. Verifications which share a configuration (and a process) must not affect
//! each other: every sequence of jobs, through every public way of running one and with the files
//! rewritten between them, must give each job the result it has alone.
use crate::fc;
use crate::fcm::{self, *};
use crate::fcs::{b, d, l, lit, num, parts, r, re, u, v};
use crate::fw::*;
use filecheck::{Config, Test, check::Checker, parse::CheckFileParser};
use litcheck::diagnostics::{FileName, Report, SourceLanguage, SourceManager};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;

type Place = (usize, usize, usize, usize, usize);

#[derive(Clone, Debug, PartialEq)]
enum Res {
    /// spans in the input and in the check file, pattern, captured text
    Accept(Vec<Place>, Vec<String>),
    Reject(String),
    Panic(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Way {
    /// `Test::from_file` and `verify_file`
    Files,
    /// `Test::new` and `verify`
    Loaded,
    /// the macro
    Macro,
    /// `Checker::check`
    Path,
    /// `Checker::check_str`
    Str,
}
use Way::*;
const WAYS: [Way; 5] = [Files, Loaded, Macro, Path, Str];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Job {
    checks: usize,
    input: usize,
    way: Way,
    opt: usize,
}

struct World {
    files: Vec<(String, Option<Vec<Ck>>)>,
    inputs: Vec<&'static str>,
    opts: Vec<Opt>,
}

fn world() -> World {
    let num_n = |e| parts(Plain, &[l("<"), num(None, None, Some(e)), l(">")]);
    let modelled: Vec<Vec<Ck>> = vec![
        vec![lit(Plain, "a")],
        vec![lit(Plain, "b"), lit(Next, "a")],
        vec![parts(Plain, &[d("X", "[ab]")]), parts(Next, &[u("X")])],
        vec![parts(Plain, &[u("X")])],
        vec![parts(Plain, &[l("<"), num(None, Some("N"), None), l(">")]), num_n(b('+', v("N"), Ex::Int(1)))],
        vec![num_n(v("N"))],
        vec![lit(Label, "L"), parts(Dag, &[d("$G", "[a-z]")]), lit(Not, "z"), lit(Label, "L"), parts(Plain, &[u("$G")])],
        vec![Ck::new(Count(2), vec![l("a")]), lit(Not, "b")],
        vec![num_n(Ex::Line), re(Same, "[a-z]")],
        vec![lit(Plain, "<1>"), lit(Empty, ""), parts(Plain, &[r("x|y"), l("b")])],
    ];
    let mut files: Vec<(String, Option<Vec<Ck>>)> = modelled.into_iter().map(|c| (fcm::render(&c), Some(c))).collect();
    for bad in ["CHECK-NEXT: a\n", "nothing\n", "CHECK: [[#N\n", "CHECK: {{(}}\n"] {
        files.push((bad.into(), None));
    }
    World {
        files,
        inputs: vec!["a\n", "b\na\n", "a\na\n", "<1>\n<2>\n", "L\nq\nL\nq\n", "<1>a\n\nxb", "", "CHECK: <1>a\n"],
        opts: vec![
            Opt::default(),
            Opt { defs: vec![("X".into(), Val::S("a".into())), ("N".into(), Val::N(1, NumFmt::U))], ..Opt::default() },
            Opt { scope: true, implicit: vec!["z".into(), "q".into()], ..Opt::default() },
            Opt { strict_ws: true, icase: true, allow_empty: true, ..Opt::default() },
        ],
    }
}

fn result(dir: &str, r: Result<Result<Vec<filecheck_match::Info>, String>, String>) -> Res {
    match r {
        Ok(Ok(m)) => Res::Accept(m.iter().map(|x| x.0).collect(), m.into_iter().map(|x| x.1).collect()),
        Ok(Err(e)) => Res::Reject(e.replace(dir, "DIR")),
        Err(p) => Res::Panic(p.replace(dir, "DIR")),
    }
}

mod filecheck_match {
    use super::Place;
    pub type Info = (Place, String);
    /// A match, with the sources its spans are in checked against the texts of the job.
    pub fn info(conf: &filecheck::Config, text: &str, input: &str, m: &filecheck::pattern::matcher::MatchInfo<'_>) -> Info {
        use litcheck::diagnostics::SourceManager;
        let of = |s: litcheck::diagnostics::SourceSpan, t: &str| conf.source_manager.get(s.source_id()).is_ok_and(|f| f.as_str() == t);
        let n = |x: litcheck::diagnostics::ByteIndex| x.to_usize();
        let caps = m.captures.iter().map(|c| format!("{:?} {}..{} {:?}", c.index, n(c.span.start()), n(c.span.end()), c.value)).collect::<Vec<_>>().join("; ");
        // (the numbers given to sources depend on how many there are)
        let mut caps: String = caps.split("SourceId(").enumerate().map(|(i, p)| if i == 0 { p } else { p.split_once(')').map_or(p, |x| x.1) }).collect();
        if !of(m.span, input) || !of(m.pattern_span, text) || m.captures.iter().any(|c| !of(c.span, input)) {
            caps.push_str("; in another source");
        }
        ((n(m.span.start()), n(m.span.end()), n(m.pattern_span.start()), n(m.pattern_span.end()), m.pattern_id), caps)
    }
}
use filecheck_match::info;

/// Run one job with this configuration.
fn job(w: &World, c: &Config, dir: &Path, j: Job) -> Res {
    let (text, input) = (w.files[j.checks].0.as_str(), w.inputs[j.input]);
    let (cf, inf) = (dir.join("checks.txt"), dir.join("input.txt"));
    let put = |p: &Path, t: &str| std::fs::write(p, t).expect("scratch file");
    let load = |n: &str, t: &str| c.source_manager.load(SourceLanguage::Unknown, FileName::from(n.to_string()), t.to_string());
    let done = |r: litcheck::diagnostics::DiagResult<Vec<filecheck::pattern::matcher::MatchInfo<'static>>>| r.map(|v| v.iter().map(|m| info(c, text, input, m)).collect()).map_err(|e| fc::show(&e));
    let d = dir.to_string_lossy();
    result(
        &d,
        case(text, input, || {
            guard(|| match j.way {
                Files => {
                    put(&cf, text);
                    put(&inf, input);
                    done(Test::from_file(&cf, c).verify_file(&inf))
                }
                Loaded => {
                    let m = load("checks.txt", text);
                    let i = load("input.txt", input);
                    done(Test::new(m, c).verify(i))
                }
                Macro => Ok(filecheck::filecheck!(input, text, c).iter().map(|m| info(c, text, input, m)).collect()),
                Path | Str => {
                    let m = load("checks.txt", text);
                    let mut p = CheckFileParser::new(c);
                    let file = p.parse(m.id(), m.as_str()).map_err(|e| fc::show(&Report::new(e).with_source_code(m.clone())))?;
                    let program = file.compile(c).map_err(|e| fc::show(&e))?;
                    let mut k = Checker::new(c, program, m.clone());
                    let r = if j.way == Path {
                        put(&inf, input);
                        k.check(&inf).map_err(|e| e.to_string())?
                    } else {
                        k.check_str(FileName::from("input.txt".to_string()), input)
                    };
                    done(r.into_result().map_err(Report::new))
                }
            })
        }),
    )
}

fn kind(r: &Res) -> &'static str {
    match r {
        Res::Accept(..) => "accepted",
        Res::Reject(_) | Res::Panic(_) => "rejected",
    }
}

fn judge(w: &World, j: Job, alone: &Res, got: &Res) -> Option<&'static str> {
    // a rejection by the macro is a panic
    if matches!(got, Res::Panic(_)) && j.way != Macro {
        return Some("panic");
    }
    if alone != got {
        return Some(if kind(alone) != kind(got) { "the verdict depends on an earlier verification" } else { "the result depends on an earlier verification" });
    }
    let o = &w.opts[j.opt];
    let m = match &w.files[j.checks].1 {
        None => Verdict::Reject("invalid"),
        Some(c) => fcm::eval(c, o, w.inputs[j.input]),
    };
    if let Res::Accept(_, c) = got
        && c.iter().any(|c| c.contains("another source"))
    {
        return Some("the matches are said to be in another source");
    }
    match (&m, got) {
        (Verdict::Accept(s), Res::Accept(p, _)) => (s != &p.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>()).then_some("wrong spans"),
        (Verdict::Accept(_), _) => Some("rejected but should pass"),
        (Verdict::Reject(_), Res::Accept(..)) => Some("accepted but should fail"),
        _ => None,
    }
}

fn text(w: &World, j: Job) -> String {
    format!("{:?} {} on {:?}{}", j.way, w.files[j.checks].0.trim_end().replace('\n', "; "), w.inputs[j.input], w.opts[j.opt].text())
}

pub fn check(run: &Run) {
    let _ = litcheck::reporting::set_hook(Box::new(|_| Box::new(litcheck::reporting::ReportHandlerOpts::new().width(200).build())));
    let w = world();
    let all = |opts: &[usize], ways: &[Way]| {
        let mut v = vec![];
        for &opt in opts {
            for &way in ways {
                for checks in 0..w.files.len() {
                    for input in 0..w.inputs.len() {
                        v.push(Job { checks, input, way, opt });
                    }
                }
            }
        }
        v
    };
    // pairs on one configuration
    for opt in 0..w.opts.len() {
        let jobs = all(&[opt], &WAYS);
        if run.thorough() {
            histories(run, &w, &jobs, &jobs, &[]);
        } else {
            let first: Vec<Job> = jobs.iter().copied().filter(|j| (j.checks + j.input + j.way as usize) % 10 == opt).collect();
            let second: Vec<Job> = jobs.into_iter().filter(|j| opt == 0 || (j.checks + j.input) % 3 == opt % 3).collect();
            histories(run, &w, &first, &second, &[]);
        }
    }
    // configurations taken by turns, in one process
    let jobs: Vec<Job> = all(&[0, 1, 2], &[Loaded]).into_iter().filter(|j| run.thorough() || j.input % 4 == j.checks % 4 ).collect();
    histories(run, &w, &jobs, &jobs, &[]);
    // three in a row
    let few: Vec<Job> = all(&[0], &[Files, Str]).into_iter().filter(|j| [0, 2, 4, 7, 11].contains(&j.checks) && [0, 2, 3].contains(&j.input)).collect();
    histories(run, &w, &few, &few, &few);
    run.bound(if run.thorough() {
        "histories of two jobs on one configuration: all pairs of 14 check files x 8 inputs x 5 public ways of running them, for each of 4 sets of options; of configurations by turns: all pairs of 14 check files x 8 inputs x 3 sets of options; of three jobs: 5 check files x 3 inputs x 2 ways"
    } else {
        "histories of two jobs on one configuration: a tenth of 14 check files x 8 inputs x 5 public ways of running them, and then each of them (with options: a third), for 4 sets of options; of configurations by turns: all pairs of a quarter of 14 check files x 8 inputs x 3 sets of options; of three jobs: 5 check files x 3 inputs x 2 ways"
    });
    reuse(run, &w);
    missing(run, &w);
}

/// All sequences of a job of each list; those with the same options share a configuration.
fn histories(run: &Run, w: &World, first: &[Job], second: &[Job], third: &[Job]) {
    par_for(run, first.len(), |i| {
        let dir = Scratch::new("f18");
        let mut alone: HashMap<Job, Res> = HashMap::new();
        let (mut n, mut steps) = (0, 0);
        let mut oc: BTreeMap<&'static str, u64> = BTreeMap::new();
        for &b in second {
            for c in third.iter().copied().map(Some).chain(third.is_empty().then_some(None)) {
                let history: Vec<Job> = [Some(first[i]), Some(b), c].into_iter().flatten().collect();
                let mut shared: HashMap<usize, Config> = HashMap::new();
                let mut seen = vec![];
                n += 1;
                for &j in &history {
                    let want = alone.entry(j).or_insert_with(|| job(w, &fc::config(&w.opts[j.opt]), dir.path(), j)).clone();
                    let conf = shared.entry(j.opt).or_insert_with(|| fc::config(&w.opts[j.opt]));
                    let got = job(w, conf, dir.path(), j);
                    steps += 1;
                    *oc.entry(kind(&got)).or_default() += 1;
                    seen.push(text(w, j));
                    if let Some(e) = judge(w, j, &want, &got) {
                        run.violation(format!("{e}: {}", seen.join(", then ")), format!("alone: {want:#?}\nin the history: {got:#?}"));
                    }
                }
                if run.done() {
                    break;
                }
            }
        }
        run.count(n, steps, n);
        run.outcomes(&oc);
    });
}

/// One test, and one checker, over sequences of inputs.
fn reuse(run: &Run, w: &World) {
    let seqs = sequences(&(0..w.inputs.len()).collect::<Vec<_>>(), 2, run.pick(3, 4));
    let jobs: Vec<(usize, usize)> = (0..w.files.len()).flat_map(|c| (0..w.opts.len()).map(move |o| (c, o))).collect();
    par_for(run, jobs.len(), |i| {
        let (checks, opt) = jobs[i];
        let dir = Scratch::new("f18");
        let inf = dir.path().join("input.txt");
        let d = dir.path().to_string_lossy().into_owned();
        let fixed = |way, input: usize| job(w, &fc::config(&w.opts[opt]), dir.path(), Job { checks, input, way, opt });
        let alone: Vec<[Res; 2]> = (0..w.inputs.len()).map(|i| [fixed(Files, i), fixed(Loaded, i)]).collect();
        let alone_checker: Vec<[Res; 2]> = (0..w.inputs.len()).map(|i| [fixed(Path, i), fixed(Str, i)]).collect();
        let mut n = 0;
        for s in seqs.iter().filter(|s| run.thorough() || opt == 0 || s.len() < 3) {
            let conf = fc::config(&w.opts[opt]);
            let input = std::cell::Cell::new("");
            let text = w.files[checks].0.as_str();
            let done = |r: litcheck::diagnostics::DiagResult<Vec<filecheck::pattern::matcher::MatchInfo<'static>>>| r.map(|v| v.iter().map(|m| info(&conf, text, input.get(), m)).collect()).map_err(|e| fc::show(&e));
            let load = |n: &str, t: &str| conf.source_manager.load(SourceLanguage::Unknown, FileName::from(n.to_string()), t.to_string());
            let name = |what: &str, k: usize| format!("{what}: {} on {:?}{}", text.trim_end().replace('\n', "; "), s[..=k].iter().map(|&i| w.inputs[i]).collect::<Vec<_>>(), w.opts[opt].text());
            // with files, and with sources, and alternating between them
            for mode in 0..3usize {
                n += 1;
                let by_file = |k: usize| mode == 0 || mode == 2 && k % 2 == 0;
                if mode == 0 {
                    std::fs::write(dir.path().join("checks.txt"), text).unwrap();
                }
                let mut test = if mode == 0 { Test::from_file(dir.path().join("checks.txt"), &conf) } else { Test::new(load("checks.txt", text), &conf) };
                for (k, &i) in s.iter().enumerate() {
                    input.set(w.inputs[i]);
                    let got = result(&d, guard(|| if by_file(k) {
                        std::fs::write(&inf, w.inputs[i]).unwrap();
                        done(test.verify_file(&inf))
                    } else {
                        done(test.verify(load("input.txt", w.inputs[i])))
                    }));
                    let want = &alone[i][!by_file(k) as usize];
                    // (the name of the check file is part of the report)
                    let same = mode == 2 && by_file(k) && kind(want) == "rejected" && kind(&got) == "rejected";
                    if !same && let Some(e) = judge(w, Job { checks, input: i, way: Loaded, opt }, want, &got) {
                        run.violation(name(&format!("one test, {e}"), k), format!("alone: {want:#?}\nafter the others: {got:#?}"));
                    }
                }
            }
            let m = load("checks.txt", text);
            let mut p = CheckFileParser::new(&conf);
            let Ok(file) = p.parse(m.id(), m.as_str()) else { continue };
            let Ok(program) = file.compile(&conf) else { continue };
            let mut checker = Checker::new(&conf, program, m.clone());
            for mode in 0..3usize {
                n += 1;
                for (k, &i) in s.iter().enumerate() {
                    input.set(w.inputs[i]);
                    let by_file = mode == 0 || mode == 2 && k % 2 == 1;
                    let got = result(&d, guard(|| {
                        let r = if by_file {
                            std::fs::write(&inf, w.inputs[i]).unwrap();
                            checker.check(&inf).map_err(|e| e.to_string())?
                        } else {
                            checker.check_str(FileName::from("input.txt".to_string()), w.inputs[i])
                        };
                        done(r.into_result().map_err(Report::new))
                    }));
                    let want = &alone_checker[i][!by_file as usize];
                    if let Some(e) = judge(w, Job { checks, input: i, way: Str, opt }, want, &got) {
                        run.violation(name(&format!("one checker, {e}"), k), format!("alone: {want:#?}\nafter the others: {got:#?}"));
                    }
                }
            }
            if run.done() {
                break;
            }
        }
        run.count(n, n * 3, n);
    });
    run.bound(format!("one test and one checker over all sequences of 2 to {} of 8 inputs, for every check file and set of options (with options, 2 in the quick run), by file, as text and alternating", run.pick(3, 4)));
}

/// Files that are gone, or cannot be read as text, are errors, whatever was read before.
fn missing(run: &Run, w: &World) {
    let dir = Scratch::new("f18");
    let inf = dir.path().join("input.txt");
    let bad: [(&str, &dyn Fn()); 3] = [
        ("removed", &|| {
            let _ = std::fs::remove_file(&inf);
        }),
        ("a directory", &|| {
            let _ = std::fs::remove_file(&inf);
            std::fs::create_dir(&inf).unwrap();
        }),
        ("not text", &|| std::fs::write(&inf, b"a\n\xff\n").unwrap()),
    ];
    let mut n = 0;
    for (checks, (text, model)) in w.files.iter().enumerate() {
        if model.is_none() {
            continue;
        }
        for (what, make) in &bad {
            for before in [false, true] {
                for checker in [false, true] {
                    let _ = std::fs::remove_dir(&inf);
                    let conf = fc::config(&w.opts[0]);
                    let m = conf.source_manager.load(SourceLanguage::Unknown, FileName::from("checks.txt".to_string()), text.clone());
                    let mut p = CheckFileParser::new(&conf);
                    let program = p.parse(m.id(), m.as_str()).ok().and_then(|f| f.compile(&conf).ok()).expect("valid check file");
                    let mut k = Checker::new(&conf, program, m.clone());
                    let mut t = Test::new(m.clone(), &conf);
                    let mut one = || guard(|| if checker { k.check(&inf).is_ok_and(|r| r.is_ok()) } else { t.verify_file(&inf).is_ok() });
                    for input in 0..w.inputs.len() {
                        let _ = std::fs::remove_dir(&inf);
                        if before {
                            std::fs::write(&inf, w.inputs[input]).unwrap();
                            let _ = one();
                        }
                        make();
                        n += 1;
                        if one() != Ok(false) {
                            run.violation(format!("an input that is {what} is accepted: checks {checks} before={before} checker={checker}"), format!("checks: {text}\ninput before: {:?}", w.inputs[input]));
                        }
                    }
                    let _ = std::fs::remove_dir(&inf);
                    let _ = std::fs::remove_file(&inf);
                }
            }
        }
    }
    run.count(n, n, n);
}
