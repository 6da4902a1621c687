//! L02: the reported status of a test follows from its requirements and its outcome.
use crate::fw::{guard, par_for, Run};
use crate::litx::{config, format, Bench};
use lit::{Config, TestStatus};
use std::os::unix::fs::PermissionsExt;

/// A condition: its text, and what it means for a set of features
type Cond = (&'static str, fn(&[&str]) -> bool);
fn has(f: &[&str], x: &str) -> bool {
    f.contains(&x)
}
const A: Cond = ("a", |f| has(f, "a"));
const B: Cond = ("b", |f| has(f, "b"));
const NA: Cond = ("!a", |f| !has(f, "a"));
const AND: Cond = ("a && b", |f| has(f, "a") && has(f, "b"));
const OR: Cond = ("a || b", |f| has(f, "a") || has(f, "b"));
const STAR: Cond = ("*", |_| true);
const PAT: Cond = ("{{^[ab]$}}", |f| has(f, "a") || has(f, "b"));

/// Lines of conditions of one keyword
type Lines = Vec<Vec<Cond>>;
fn cond_sets(star: bool) -> Vec<Lines> {
    let mut v: Vec<Lines> = vec![
        vec![],
        vec![vec![A]],
        vec![vec![B]],
        vec![vec![NA]],
        vec![vec![A, B]],
        vec![vec![A], vec![B]],
        vec![vec![AND]],
        vec![vec![OR]],
        vec![vec![NA], vec![B]],
        vec![vec![OR, NA]],
        vec![vec![PAT, B]],
    ];
    if star {
        v.push(vec![vec![STAR]]);
        v.push(vec![vec![A, STAR]]);
    }
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Pass,
    Fail,
    /// fails the first n times, then passes
    Flaky(u32),
    /// the shell is killed by a signal
    Killed(i32),
    /// fails n times, then is killed by a signal
    FlakyKilled(u32),
    /// a command (not the shell) is killed by a signal, which is a failure
    Child(i32),
    /// the shell exits with this status
    Exit(i32),
}
impl Act {
    fn line(self) -> String {
        match self {
            Act::Pass => "true".into(),
            Act::Fail => "false".into(),
            Act::Flaky(n) => format!("for i in $(seq {n}); do if [ ! -e $D/$i ]; then : > $D/$i; exit 1; fi; done"),
            Act::FlakyKilled(n) => format!("for i in $(seq {n}); do if [ ! -e $D/$i ]; then : > $D/$i; exit 1; fi; done; kill -9 $$"),
            Act::Killed(s) => format!("kill -{s} $$"),
            Act::Child(s) => format!("sh -c 'kill -{s} $$'"),
            Act::Exit(n) => format!("exit {n}"),
        }
    }
    /// status ignoring expectations, and how many times the commands run
    fn outcome(self, retries: u32) -> (TestStatus, u32) {
        match self {
            Act::Pass | Act::Exit(0) => (TestStatus::Pass, 1),
            Act::Fail | Act::Child(_) | Act::Exit(_) => (TestStatus::Fail, retries + 1),
            Act::Flaky(0) => (TestStatus::Pass, 1),
            Act::Flaky(n) if n <= retries => (TestStatus::FlakyPass, n + 1),
            Act::Flaky(_) => (TestStatus::Fail, retries + 1),
            Act::Killed(_) => (TestStatus::Unresolved, 1),
            Act::FlakyKilled(n) if n <= retries => (TestStatus::Unresolved, n + 1),
            Act::FlakyKilled(_) => (TestStatus::Fail, retries + 1),
        }
    }
}

struct Case {
    lines: Vec<String>,
    features: Vec<&'static str>,
    no_execute: bool,
    xfail_not: bool,
    want: TestStatus,
    runs: u32,
}

fn model(req: &Lines, uns: &Lines, xf: &Lines, f: &[&str], act: Act, retries: Option<u32>, no_execute: bool, xfail_not: bool) -> (TestStatus, u32) {
    let any = |l: &Lines| l.iter().flatten().any(|(_, e)| e(f));
    let all = |l: &Lines| l.iter().flatten().all(|(_, e)| e(f));
    if !all(req) || any(uns) {
        return (TestStatus::Unsupported, 0);
    }
    if no_execute {
        return (TestStatus::Pass, 0);
    }
    let (st, n) = act.outcome(retries.unwrap_or(0));
    let st = match st {
        TestStatus::Pass | TestStatus::FlakyPass if any(xf) && !xfail_not => TestStatus::Xpass,
        TestStatus::Fail if any(xf) && !xfail_not => TestStatus::Xfail,
        s => s,
    };
    (st, n)
}

fn directives(kw: &str, l: &Lines) -> Vec<String> {
    l.iter().map(|cs| format!("// {kw}: {}", cs.iter().map(|c| c.0).collect::<Vec<_>>().join(", "))).collect()
}

fn permutations(v: &[String]) -> Vec<Vec<String>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    (0..v.len())
        .flat_map(|i| {
            let mut rest = v.to_vec();
            let x = rest.remove(i);
            permutations(&rest).into_iter().map(move |mut p| {
                p.insert(0, x.clone());
                p
            })
        })
        .collect()
}

pub fn check(run: &Run) {
    let feats: [&[&'static str]; 4] = [&[], &["a"], &["b"], &["a", "b"]];
    let mut cases: Vec<(&str, Case)> = vec![];
    let mut add = |fam: &'static str, req: &Lines, uns: &Lines, xf: &Lines, f: &[&'static str], act: Act, retries: Option<u32>, ne: bool, xn: bool, perm: bool| {
        let (want, runs) = model(req, uns, xf, f, act, retries, ne, xn);
        let mut lines = directives("REQUIRES", req);
        lines.extend(directives("UNSUPPORTED", uns));
        lines.extend(directives("XFAIL", xf));
        lines.extend(retries.map(|r| format!("// ALLOWED_RETRIES: {r}")));
        lines.push(format!("// RUN: echo r >> $LOG; {}", act.line()));
        let orders = if perm { permutations(&lines) } else { vec![lines] };
        for lines in orders {
            cases.push((fam, Case { lines, features: f.to_vec(), no_execute: ne, xfail_not: xn, want, runs }));
        }
    };
    let (rs, us) = (cond_sets(false), cond_sets(true));
    let acts = [Act::Pass, Act::Fail, Act::Killed(9), Act::Flaky(1)];
    // every combination of conditions and features
    for r in &rs {
        for u in &us {
            for x in &us {
                for f in feats {
                    for a in &acts[..run.pick(2, 4)] {
                        let used = |l: &Lines| !l.is_empty();
                        if !run.thorough() && used(r) && used(u) && used(x) && r.len() + u.len() + x.len() > 4 {
                            continue;
                        }
                        add("conditions", r, u, x, f, *a, None, false, false, false);
                    }
                }
            }
        }
    }
    // longer lists, divided among lines in every way
    let pool = [A, B, NA, STAR];
    for n in 3..=run.pick(4, 5) {
        for l in crate::fw::sequences(&pool[..3], n, n) {
            for cut in 0..1u32 << (n - 1) {
                if !run.thorough() && n == 4 && !matches!(cut, 0 | 2 | 7) {
                    continue;
                }
                let mut lines: Lines = vec![vec![]];
                for (i, c) in l.iter().enumerate() {
                    lines.last_mut().unwrap().push(*c);
                    if i + 1 < n && cut >> i & 1 == 1 {
                        lines.push(vec![]);
                    }
                }
                for f in feats {
                    add("lists", &lines, &vec![], &vec![], f, Act::Pass, None, false, false, false);
                    add("lists", &vec![], &lines, &vec![], f, Act::Pass, None, false, false, false);
                    add("lists", &vec![], &vec![], &lines, f, Act::Fail, None, false, false, false);
                }
            }
        }
    }
    // every outcome, under every number of retries and expectation
    let mut outcomes = vec![Act::Pass, Act::Fail];
    outcomes.extend((0..=3).map(Act::Flaky));
    outcomes.extend((1..=3).map(Act::FlakyKilled));
    outcomes.extend([1, 2, 3, 6, 9, 11, 13, 15].map(Act::Killed));
    outcomes.extend([6, 9, 11, 15].map(Act::Child));
    outcomes.extend([0, 1, 2, 3, 42, 77, 100, 126, 127, 128, 129, 137, 139, 143, 254, 255].map(Act::Exit));
    for a in outcomes {
        for retries in [None, Some(0), Some(1), Some(2), Some(3)] {
            for x in [vec![], vec![vec![A]], vec![vec![STAR]], vec![vec![B], vec![A]]] {
                for f in [feats[0], feats[1]] {
                    for xn in [false, true] {
                        add("outcomes", &vec![], &vec![], &x, f, a, retries, false, xn, false);
                    }
                }
            }
        }
    }
    // wherever the directives stand
    for a in [Act::Pass, Act::Fail, Act::Flaky(1)] {
        for f in feats {
            for (r, u, x) in [
                (vec![vec![A]], vec![vec![B]], vec![vec![A]]),
                (vec![vec![OR], vec![A]], vec![], vec![vec![B]]),
                (vec![], vec![vec![AND], vec![NA]], vec![vec![STAR]]),
            ] {
                add("orders of directives", &r, &u, &x, f, a, Some(1), false, false, true);
            }
        }
    }
    // --no-execute
    for a in [Act::Pass, Act::Fail, Act::Killed(9)] {
        for f in feats {
            for r in &rs[..6] {
                for u in &us[..6] {
                    for x in [vec![], vec![vec![A]]] {
                        add("no-execute", r, u, &x, f, a, None, true, false, false);
                    }
                }
            }
        }
    }
    let n = cases.len();
    par_for(run, n, |i| {
        let (fam, c) = &cases[i];
        let b = Bench::mine();
        let d = b.path("w/d");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir(&d).unwrap();
        let log = b.log();
        let mut cfg = Config::default();
        cfg.options.no_execute = c.no_execute;
        let text = c.lines.join("\n") + "\n";
        std::fs::write(b.path("t.txt"), &text).unwrap();
        let env = [("LOG", log.display().to_string()), ("D", d.display().to_string())];
        let r = guard(|| b.run_existing("t.txt", config(&c.features, &env, &[]), &cfg, c.xfail_not));
        let got_runs = std::fs::read_to_string(&log).unwrap_or_default().lines().count() as u32;
        run.count(1, c.runs.max(1) as u64, 1);
        run.outcome(c.want.tag());
        let what = match r {
            Err(p) => format!("panics: {p}"),
            Ok(r) if r.status() != c.want => format!("status is {}, should be {}", r.status().tag(), c.want.tag()),
            Ok(_) if got_runs != c.runs => format!("the commands ran {got_runs} times, should be {}", c.runs),
            Ok(_) => return,
        };
        run.violation(
            format!("{fam}: {} with {:?}{}{}", c.lines.join("; "), c.features, if c.no_execute { " no-execute" } else { "" }, if c.xfail_not { " xfail-not" } else { "" }),
            format!("{what}\n{text}\nfeatures: {:?}, no-execute: {}, xfail-not: {}", c.features, c.no_execute, c.xfail_not),
        );
    });
    run.bound(format!("{n} combinations of REQUIRES, UNSUPPORTED, XFAIL, ALLOWED_RETRIES, feature sets, outcomes, --no-execute and directive orders"));

    // files which are not valid tests: unresolved, and nothing is run
    let invalid: Vec<(&str, String)> = vec![
        ("no RUN", "// XFAIL: *\n".into()),
        ("no RUN", "".into()),
        ("no RUN", "DEFINE: %{a}=1\n".into()),
        ("no RUN", "END.\nRUN: echo r >> $LOG\n".into()),
        ("bad expression", "RUN: echo r >> $LOG\nREQUIRES: (\n".into()),
        ("bad expression", "UNSUPPORTED: a b\nRUN: echo r >> $LOG\n".into()),
        ("bad expression", "XFAIL: a &&\nRUN: echo r >> $LOG\n".into()),
        ("bad retries", "ALLOWED_RETRIES: x\nRUN: echo r >> $LOG\n".into()),
        ("bad retries", "ALLOWED_RETRIES: 1\nRUN: echo r >> $LOG\nALLOWED_RETRIES: 1\n".into()),
        ("bad definition", "RUN: echo r >> $LOG\nREDEFINE: %{a}=1\n".into()),
        ("bad definition", "RUN: echo r >> $LOG\nDEFINE: %{a}=1\nDEFINE: %{a}=1\n".into()),
        ("nul", "RUN: echo r >> $LOG\0\n".into()),
    ];
    for (what, text) in &invalid {
        for x in ["", "XFAIL: *\n"] {
            for name in ["t.txt", "t", "a.b.c", "a b.txt"] {
                let text = format!("{x}{text}");
                let b = Bench::mine();
                let log = b.log();
                let r = guard(|| b.run(name, text.as_bytes(), config(&[], &[("LOG", log.display().to_string())], &[]), &Config::default()));
                run.count(1, 1, 1);
                let ok = matches!(&r, Ok(r) if r.status() == TestStatus::Unresolved) && !log.exists();
                if !ok {
                    run.violation(format!("invalid: {what}: {text:?} {name}"), format!("should be unresolved without running anything, is {:?}, ran: {}", r.map(|r| r.status()), log.exists()));
                }
            }
        }
    }
    // files that cannot be read as text
    {
        let b = Bench::mine();
        let log = b.log();
        let env = [("LOG", log.display().to_string())];
        let r1 = guard(|| b.run("bin.txt", b"RUN: echo r >> $LOG\n\xff\xfe\n", config(&[], &env, &[]), &Config::default()).status());
        let r2 = guard(|| b.run_existing("missing.txt", config(&[], &env, &[]), &Config::default(), false).status());
        run.count(2, 2, 2);
        for (k, r) in [("not UTF-8", r1), ("missing file", r2)] {
            if r != Ok(TestStatus::Unresolved) || log.exists() {
                run.violation(format!("invalid: {k}"), format!("should be unresolved, is {r:?}"));
            }
        }
    }
    // other shells
    for (fmt, act, want) in [
        ("[format.shtest]\nshell = \"bash\"", "true", TestStatus::Pass),
        ("[format.shtest]\nshell = \"bash\"", "false", TestStatus::Fail),
        ("[format.shtest]\nshell = \"bash\"", "[[ a == a ]]", TestStatus::Pass),
        ("[format.shtest]\nshell = \"bash\"", "false | true", TestStatus::Pass),
        ("[format.shtest]\nshell = \"bash\"\npipefail = true", "false | true", TestStatus::Fail),
        ("[format.shtest]\nshell = \"bash\"\npipefail = true", "true | true", TestStatus::Pass),
        ("[format.shtest]\nshell = \"/nonexistent/sh\"", "true", TestStatus::Unresolved),
        ("[format.sh]", "true", TestStatus::Pass),
        ("[format.shtest]", "kill -9 $$", TestStatus::Unresolved),
    ] {
        for xf in [false, true] {
            let b = Bench::mine();
            let mut tc = config(&[], &[], &[]);
            tc.format = format(fmt);
            let text = format!("{}RUN: {act}\n", if xf { "XFAIL: *\n" } else { "" });
            let want = match want {
                TestStatus::Pass if xf => TestStatus::Xpass,
                TestStatus::Fail if xf => TestStatus::Xfail,
                w => w,
            };
            let r = guard(|| b.run("t.txt", text.as_bytes(), tc, &Config::default()).status());
            run.count(1, 1, 1);
            if r != Ok(want) {
                run.violation(format!("shell: {fmt:?} {act} {xf}"), format!("should be {want:?}, is {r:?}"));
            }
        }
    }
    // the executable format
    let progs: Vec<(String, TestStatus)> = vec![
        ("#!/bin/sh\necho r >> $LOG; exit 0\n".into(), TestStatus::Pass),
        ("#!/bin/sh\necho r >> $LOG; exit 1\n".into(), TestStatus::Fail),
        ("#!/bin/sh\necho r >> $LOG; exit 255\n".into(), TestStatus::Fail),
        ("#!/bin/sh\necho r >> $LOG; kill -9 $$\n".into(), TestStatus::Unresolved),
        ("#!/bin/sh\necho r >> $LOG; kill -11 $$\n".into(), TestStatus::Unresolved),
        ("#!/bin/sh\necho r >> $LOG; sh -c 'kill -9 $$'\n".into(), TestStatus::Fail),
        ("#!/nonexistent/sh\necho r >> $LOG\n".into(), TestStatus::Unresolved),
        ("".into(), TestStatus::Unresolved),
    ];
    for (text, want) in &progs {
        for mode in [0o755, 0o644] {
            for (uns, f, skip) in [("", &["a"][..], false), ("unsupported = [\"a\"]", &["a"], true), ("unsupported = [\"a && b\", \"!c\"]", &["c"], false), ("unsupported = [\"b\", \"!c\"]", &[], true)] {
                for ne in [false, true] {
                    let b = Bench::mine();
                    let log = b.log();
                    let mut tc = config(f, &[("LOG", log.display().to_string())], &[]);
                    tc.format = format(&format!("[format.executable]\n{uns}"));
                    let want = match (skip, ne, mode) {
                        (true, ..) => TestStatus::Unsupported,
                        (_, true, _) => TestStatus::Pass,
                        (_, _, 0o644) => TestStatus::Unresolved,
                        _ if text.is_empty() => TestStatus::Unresolved,
                        _ => *want,
                    };
                    let runs = !skip && !ne && mode == 0o755 && text.starts_with("#!/bin");
                    let p = b.path("x.exe");
                    let _ = std::fs::remove_file(&p);
                    std::fs::write(&p, text).unwrap();
                    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)).unwrap();
                    let mut cfg = Config::default();
                    cfg.options.no_execute = ne;
                    let r = guard(|| b.run_existing("x.exe", tc, &cfg, false).status());
                    run.count(1, 1, 1);
                    let ran = std::fs::read_to_string(&log).unwrap_or_default().lines().count();
                    if r != Ok(want) || ran != runs as usize {
                        run.violation(format!("executable: {text:?} mode {mode:o} {uns} no-execute={ne}"), format!("should be {want:?} and run {}, is {r:?} and ran {ran}", runs as u8));
                    }
                }
            }
        }
    }
    run.bound("12 kinds of invalid tests x 4 names, unreadable files, 9 shell settings, 8 executables x permissions x unsupported x --no-execute");
}
