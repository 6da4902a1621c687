//! L07: the runner. The real binary runs real tests; tests that block on a FIFO until they are
//! told to finish make every order of completion happen, for every number of workers.
use crate::fw::*;
use crate::proc::{Call, litcheck};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read};
use std::os::fd::AsRawFd;
use std::os::unix::fs::OpenOptionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum St {
    Pass,
    Fail,
    Xfail,
    Xpass,
    Unsupported,
    Unresolved,
    Flaky,
    Timeout,
    Excluded,
    Skipped,
}
use St::*;
impl St {
    fn tag(self) -> &'static str {
        match self {
            Pass => "PASS",
            Fail => "FAIL",
            Xfail => "XFAIL",
            Xpass => "XPASS",
            Unsupported => "UNSUPPORTED",
            Unresolved => "UNRESOLVED",
            Flaky => "FLAKYPASS",
            Timeout => "TIMEOUT",
            Excluded => "EXCLUDED",
            Skipped => "SKIPPED",
        }
    }
    fn label(self) -> &'static str {
        match self {
            Pass => "Passed",
            Fail => "Failed",
            Xfail => "Failed As Expected",
            Xpass => "Unexpectedly Passed",
            Unsupported => "Unsupported",
            Unresolved => "Unresolved",
            Flaky => "Passed With Retry",
            Timeout => "Timed Out",
            Excluded => "Excluded",
            Skipped => "Skipped",
        }
    }
    fn failing(self) -> bool {
        matches!(self, Fail | Xpass | Unresolved | Timeout)
    }
    /// how often its script runs
    fn runs(self) -> usize {
        match self {
            Unsupported | Unresolved | Excluded | Skipped => 0,
            Flaky => 2,
            _ => 1,
        }
    }
    /// A script with this status; `%L` is the log of executions.
    fn script(self, name: &str, dir: &Path) -> String {
        let log = format!("echo {name} >> {}/log && echo out-{name}", dir.display());
        match self {
            Pass => format!("RUN: {log}\n"),
            Fail => format!("RUN: {log} && false\n"),
            Xfail => format!("XFAIL: *\nRUN: {log} && false\n"),
            Xpass => format!("XFAIL: *\nRUN: {log}\n"),
            Unsupported => format!("UNSUPPORTED: *\nRUN: {log}\n"),
            Unresolved => format!("nothing to do: {log}\n"),
            Flaky => format!("ALLOWED_RETRIES: 1\nRUN: {log} && if test -e {0}/{name}.m; then true; else touch {0}/{name}.m; false; fi\n", dir.display()),
            Timeout => format!("RUN: {log} && sleep 30\n"),
            Excluded | Skipped => unreachable!(),
        }
    }
}

/// What a run printed, by its parts.
#[derive(Debug, Default, PartialEq)]
struct Report {
    /// "TAG: name" lines, sorted
    lines: Vec<String>,
    /// groups of the summary, names sorted
    groups: BTreeMap<String, Vec<String>>,
    /// label and count
    totals: BTreeMap<String, String>,
    discovered: Option<String>,
}
fn parse_report(out: &str, tests: &[(String, St)]) -> Result<Report, String> {
    let mut r = Report::default();
    let mut lines = out.lines().peekable();
    while let Some(l) = lines.next() {
        if let Some(h) = l.strip_prefix("******************** ") {
            let (label, n) = h.split_once(" Tests (").ok_or("group header")?;
            let mut names = vec![];
            while let Some(l) = lines.next_if(|l| l.starts_with("  ")) {
                names.push(l[2..].to_string());
            }
            names.sort();
            if n != format!("{}):", names.len()) {
                return Err(format!("group {label:?} says {n:?} but lists {names:?}"));
            }
            if r.groups.insert(label.into(), names).is_some() {
                return Err(format!("group {label:?} appears twice"));
            }
        } else if let Some(n) = l.strip_prefix("Total Discovered Tests: ") {
            r.discovered = Some(n.into());
            for l in lines.by_ref() {
                let (label, rest) = l.split_once(':').ok_or(format!("total {l:?}"))?;
                r.totals.insert(label.trim().into(), rest.trim().into());
            }
        } else if tests.iter().any(|t| l.ends_with(&format!(": {}", t.0))) && l.chars().next().is_some_and(|c| c.is_ascii_uppercase()) {
            r.lines.push(l.into());
        }
    }
    r.lines.sort();
    Ok(r)
}
/// The report of a run in which every test has the given status.
fn expected(tests: &[(String, St)], quiet: bool, all: bool) -> Report {
    let mut r = Report::default();
    let mut count = BTreeMap::<St, usize>::new();
    for (name, st) in tests {
        *count.entry(*st).or_default() += 1;
        if st.failing() || !quiet {
            r.groups.entry(st.label().into()).or_default().push(name.clone());
        }
        if *st != Excluded && *st != Skipped && (st.failing() || !quiet || all) {
            r.lines.push(format!("{}: {name}", st.tag()));
        }
    }
    r.lines.sort();
    for g in r.groups.values_mut() {
        g.sort();
    }
    for (st, n) in count {
        r.totals.insert(st.label().into(), format!("{n} ({:.2}%)", n as f64 / tests.len() as f64 * 100.0));
    }
    r.discovered = Some(tests.len().to_string());
    r
}
/// Compare everything a finished run shows with what it should.
fn judge(dir: &Path, tests: &[(String, St)], out: &str, code: Option<i32>, quiet: bool, verbose: bool, all: bool) -> Result<(), String> {
    let got = parse_report(out, tests)?;
    let want = expected(tests, quiet, all);
    if got != want {
        return Err(format!("the report is not that of the outcomes:\n  should be {want:?}\n  is {got:?}"));
    }
    let fails = tests.iter().any(|t| t.1.failing() || t.1 == Skipped);
    if code != Some(fails as i32) {
        return Err(format!("exit status {code:?}, should be {}", fails as i32));
    }
    executed(dir, tests)?;
    for (name, st) in tests {
        let token = format!("out-{}", short(name));
        let shown = out.lines().any(|l| l.trim() == token);
        let want = st.runs() > 0 && (all || verbose && st.failing());
        if shown != want {
            return Err(format!("the output of {name} ({}) is {}shown", st.tag(), if shown { "" } else { "not " }));
        }
    }
    Ok(())
}
fn short(name: &str) -> String {
    name.rsplit("::").next().unwrap().replace(['/', '.'], "_")
}
fn executed(dir: &Path, tests: &[(String, St)]) -> Result<(), String> {
    let log = std::fs::read_to_string(dir.join("log")).unwrap_or_default();
    for (name, st) in tests {
        let n = log.lines().filter(|l| *l == short(name)).count();
        if n != st.runs() {
            return Err(format!("{name} was executed {n} times, should be {}", st.runs()));
        }
    }
    Ok(())
}

struct Fifo {
    path: PathBuf,
    held: Option<std::fs::File>,
    done: bool,
}

/// One run in which the tests finish in the order that `choices` says: each is an index among the
/// tests running at that time.
fn schedule(dir: &Path, outcomes: &[St], workers: Option<usize>, choices: &[usize]) -> Result<bool, String> {
    let n = outcomes.len();
    let w = workers.unwrap_or(n).min(n);
    std::fs::write(dir.join("lit.suite.toml"), "name = \"s\"\npatterns = [\"*.t\"]\nworking_dir = \".\"\n").unwrap();
    let mut tests = vec![];
    let mut fifos = vec![];
    for (k, st) in outcomes.iter().enumerate() {
        let p = dir.join(format!("f{k}"));
        let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
        assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0);
        let name = format!("t{k}_t");
        // announces itself, blocks, then does what it does
        let text = st.script(&name, dir).replace("RUN: ", &format!("RUN: timeout 60 cat {} && ", p.display()));
        std::fs::write(dir.join(format!("t{k}.t")), text).unwrap();
        tests.push((format!("s::t{k}.t"), *st));
        fifos.push(Fifo { path: p, held: None, done: false });
    }
    let mut args = vec!["lit".to_string(), "run".into()];
    if let Some(w) = workers {
        args.extend(["-j".into(), w.to_string()]);
    }
    args.push(".".into());
    let mut child = Command::new(litcheck())
        .args(&args)
        .env_clear()
        .env("PATH", "/usr/local/bin:/usr/bin:/bin")
        .env("NO_COLOR", "1")
        .current_dir(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .process_group(0)
        .spawn()
        .unwrap();
    struct Kill(i32);
    impl Drop for Kill {
        fn drop(&mut self) {
            unsafe { libc::kill(-self.0, libc::SIGKILL) };
        }
    }
    let _kill = Kill(child.id() as i32);
    let (tx, rx) = mpsc::channel::<String>();
    let so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let err = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = se.read_to_string(&mut s);
        s
    });
    let reader = std::thread::spawn(move || {
        for l in BufReader::new(so).lines().map_while(Result::ok) {
            let _ = tx.send(l);
        }
    });
    let mut out = String::new();
    let mut full = true;
    let limit = Instant::now() + Duration::from_secs(60);
    let mut poll = |fifos: &mut Vec<Fifo>, want: usize| -> Result<usize, String> {
        let t = Instant::now();
        loop {
            let mut running = 0;
            for f in fifos.iter_mut() {
                if f.held.is_none() && !f.done {
                    // succeeds once the test has it open
                    f.held = std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(&f.path).ok();
                    if let Some(h) = &f.held {
                        let _ = h.as_raw_fd();
                    }
                }
                running += f.held.is_some() as usize;
            }
            if running > w {
                return Err(format!("{running} tests run at once with {w} workers"));
            }
            if running >= want {
                return Ok(running);
            }
            if running > 0 && t.elapsed() > Duration::from_secs(5) {
                full = false;
                return Ok(running);
            }
            if Instant::now() > limit {
                return Err("the run got stuck: no test is running".into());
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    };
    for (k, choice) in choices.iter().enumerate() {
        let running = poll(&mut fifos, w.min(n - k))?;
        let i = (0..n).filter(|&i| fifos[i].held.is_some()).nth(*choice % running).unwrap();
        // let it finish, and wait until it is reported
        fifos[i].held = None;
        fifos[i].done = true;
        let line = format!(": {}", tests[i].0);
        loop {
            let l = rx.recv_timeout(Duration::from_secs(30)).map_err(|_| format!("{} was not reported after it finished", tests[i].0))?;
            out += &l;
            out.push('\n');
            if l.ends_with(&line) {
                break;
            }
        }
    }
    let t = Instant::now();
    let st = loop {
        if let Some(st) = child.try_wait().unwrap() {
            break st;
        }
        if t.elapsed() > Duration::from_secs(30) {
            return Err("the run did not end after all tests did".into());
        }
        std::thread::sleep(Duration::from_micros(500));
    };
    reader.join().unwrap();
    for l in rx.iter() {
        out += &l;
        out.push('\n');
    }
    judge(dir, &tests, &out, st.code(), false, false, false).map_err(|e| format!("{e}\n--- stdout\n{out}\n--- stderr\n{}", err.join().unwrap()))?;
    Ok(full)
}

fn lit(dir: &Path, args: &[&str], env: &[(&str, &str)]) -> (Option<i32>, String, String) {
    let mut a = vec!["lit"];
    a.extend(args);
    let mut c = Call::new(dir, &a);
    c.env = env.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    // a copy that anyone can execute: what a run kills by mistake can only be its own
    c.nobody = args.contains(&"--timeout");
    let o = c.run_bin(&dir.parent().unwrap().join("litcheck"));
    if o.timed_out {
        return (None, o.stdout(), "timed out".into());
    }
    (o.code, o.stdout(), o.stderr())
}
fn write(dir: &Path, p: &str, text: &str) {
    let p = dir.join(p);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, text).unwrap();
}

pub fn check(run: &Run) {
    let scratch = Scratch::new("l07");
    let seq = std::sync::atomic::AtomicU64::new(0);
    let open = |p: &Path| {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o777)).unwrap();
    };
    std::fs::copy(litcheck(), scratch.path().join("litcheck")).unwrap();
    open(scratch.path());
    open(&scratch.path().join("litcheck"));
    let fresh = || -> PathBuf {
        let d = scratch.path().join(format!("{}", seq.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        open(&d);
        std::fs::canonicalize(d).unwrap()
    };

    // A: schedules
    let mut work: Vec<(Vec<St>, Option<usize>, Vec<usize>)> = vec![];
    for n in 1..=run.pick(5, 6) {
        let outcomes: Vec<Vec<St>> = if n <= 2 {
            sequences(&[Pass, Fail, Xfail, Xpass], n, n)
        } else if n == 3 {
            sequences(&[Pass, Fail], 3, 3)
        } else {
            let mut v = vec![vec![Pass; n], vec![Fail; n]];
            for k in 0..n {
                v.push((0..n).map(|i| if i == k { Fail } else { Pass }).collect());
            }
            v
        };
        for w in (1..=n).map(Some).chain([Some(n + 1), None]) {
            let width = w.unwrap_or(n).min(n);
            if w.is_none() && n > 2 || w == Some(n + 1) && n > 3 {
                continue;
            }
            let mut orders: Vec<Vec<usize>> = vec![vec![]];
            for k in 0..n {
                orders = orders.into_iter().flat_map(|o| (0..width.min(n - k)).map(move |c| [o.clone(), vec![c]].concat())).collect();
            }
            for o in &outcomes {
                for c in &orders {
                    work.push((o.clone(), w, c.clone()));
                }
            }
        }
    }
    par_for(run, work.len(), |i| {
        let (o, w, c) = &work[i];
        let dir = fresh();
        let r = guard(|| schedule(&dir, o, *w, c)).unwrap_or_else(Err);
        let _ = std::fs::remove_dir_all(&dir);
        run.count(1, o.len() as u64, 1);
        match r {
            Ok(true) => run.outcome("schedule with all workers busy"),
            Ok(false) => run.outcome("schedule with idle workers"),
            Err(e) => run.violation(format!("schedule: outcomes {o:?}, workers {w:?}, choices {c:?}"), e),
        }
    });
    run.bound(format!("{} schedules: every completion order of 1..={} tests with 1 to all workers, crossed with outcomes", work.len(), run.pick(5, 6)));

    // B: statuses and output options
    let kinds = [Pass, Fail, Xfail, Xpass, Unsupported, Unresolved, Flaky];
    let mut sets = sequences(&kinds, 1, 2);
    let three = sequences(&kinds, 3, 3);
    sets.extend(three.into_iter().filter(|s| run.tier == Tier::Thorough || s.is_sorted()));
    sets.push(vec![Timeout]);
    sets.push(vec![Pass, Timeout]);
    sets.push(vec![Timeout, Flaky, Xfail]);
    let opts: [(&str, bool, bool, bool); 7] = [("", false, false, false), ("-q", true, false, false), ("-v", false, true, false), ("-a", false, false, true), ("-q -v", true, true, false), ("-q -a", true, false, true), ("-v -j1", false, true, false)];
    par_for(run, sets.len() * opts.len(), |i| {
        let (set, (o, q, v, a)) = (&sets[i / opts.len()], opts[i % opts.len()]);
        let dir = fresh();
        write(&dir, "lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\"]\nworking_dir = \".\"\n");
        let mut tests = vec![];
        for (k, st) in set.iter().enumerate() {
            write(&dir, &format!("t{k}.t"), &st.script(&format!("t{k}_t"), &dir));
            tests.push((format!("s::t{k}.t"), *st));
        }
        let mut args = vec!["run"];
        args.extend(o.split_whitespace());
        if set.contains(&Timeout) {
            args.extend(["--timeout", "1"]);
        }
        args.push(".");
        let (code, out, err) = lit(&dir, &args, &[]);
        run.count(1, set.len() as u64, 1);
        run.outcome(if code == Some(0) { "exit 0" } else { "exit not 0" });
        if let Err(e) = judge(&dir, &tests, &out, code, q, v, a) {
            run.violation(format!("statuses {set:?} options {o:?}"), format!("{e}\n--- stdout\n{out}\n--- stderr\n{err}"));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    run.bound(format!("{} lists of statuses x {} sets of output options", sets.len(), opts.len()));

    // C: selection. Four tests in two suites, one of which fails.
    let layout = [("a/x.t", "a", Pass), ("a/y.t", "a", Fail), ("b/x.t", "b", Pass), ("b/c/y.t", "b", Xfail)];
    type P = fn(&str) -> bool;
    let filters: [(&str, P); 7] = [
        ("x", |n| n.contains('x')),
        ("^b::", |n| n.starts_with("b::")),
        ("y.t$", |n| n.ends_with("y.t")),
        ("a::y", |n| n.contains("a::y")),
        ("nothing", |_| false),
        ("", |_| true),
        ("c/", |n| n.contains("c/")),
    ];
    let none = filters.len();
    let nf = none + 1;
    let inputs: [(&[&str], P); 5] = [(&["."], |_| true), (&["a"], |p| p.starts_with("a/")), (&["b/c", "a/x.t"], |p| p == "b/c/y.t" || p == "a/x.t"), (&["b/c/y.t", "b/c/y.t"], |p| p == "b/c/y.t"), (&["a", "b"], |_| true)];
    let jobs = nf * nf * inputs.len() * 2;
    par_for(run, jobs, |i| {
        let (f, o, inp, env) = (i % nf, i / nf % nf, inputs[i / nf / nf % inputs.len()], i / nf / nf / inputs.len() == 1);
        if env && f == none && o == none {
            return;
        }
        let dir = fresh();
        let mut tests = vec![];
        for s in ["a", "b"] {
            write(&dir, &format!("{s}/lit.suite.toml"), &format!("name = \"{s}\"\npatterns = [\"*.t\"]\nworking_dir = \".\"\n"));
        }
        // "." is searched as a suite which contains no test of its own
        write(&dir, "lit.suite.toml", "name = \"top\"\npatterns = [\"*.t\"]\nworking_dir = \".\"\n");
        for (p, s, st) in layout {
            let name = format!("{s}::{}", &p[2..]);
            write(&dir, p, &st.script(&short(&name).replace("x_t", &format!("{s}x_t")).replace("y_t", &format!("{s}y_t")), &dir));
            if inp.1(p) {
                let sel = filters.get(f).is_none_or(|x| x.1(&name)) && !filters.get(o).is_some_and(|x| x.1(&name));
                tests.push((name, if sel { st } else { Excluded }));
            }
        }
        let mut args = vec!["run"];
        let mut vars = vec![];
        if env {
            vars.extend(filters.get(f).map(|x| ("LIT_FILTER", x.0)));
            vars.extend(filters.get(o).map(|x| ("LIT_FILTER_OUT", x.0)));
        } else {
            args.extend(filters.get(f).iter().flat_map(|x| ["--filter", x.0]));
            args.extend(filters.get(o).iter().flat_map(|x| ["--filter-out", x.0]));
        }
        args.extend(inp.0);
        let (code, out, err) = lit(&dir, &args, &vars);
        run.count(1, tests.len() as u64, 1);
        let log = std::fs::read_to_string(dir.join("log")).unwrap_or_default();
        let mut ran: Vec<&str> = log.lines().collect();
        ran.sort();
        let mut should: Vec<String> = tests.iter().filter(|t| t.1 != Excluded).map(|t| {
            let (s, p) = t.0.split_once("::").unwrap();
            p.replace(['/', '.'], "_").replace("x_t", &format!("{s}x_t")).replace("y_t", &format!("{s}y_t"))
        }).collect();
        should.sort();
        let r = if ran != should {
            Err(format!("the tests executed are {ran:?}, should be {should:?}"))
        } else if tests.iter().all(|t| t.1 == Excluded) {
            run.outcome("none selected");
            if code == Some(0) || code.is_none() { Err(format!("nothing was selected, but the exit status is {code:?}")) } else { Ok(()) }
        } else {
            parse_report(&out, &tests).and_then(|got| {
                let want = expected(&tests, false, false);
                let fails = tests.iter().any(|t| t.1.failing());
                if got != want {
                    Err(format!("the report is not that of the outcomes:\n  should be {want:?}\n  is {got:?}"))
                } else if code != Some(fails as i32) {
                    Err(format!("exit status {code:?}, should be {}", fails as i32))
                } else {
                    Ok(())
                }
            })
        };
        if let Err(e) = r {
            run.violation(
                format!("selection: filter {:?} filter-out {:?}{} inputs {:?}", filters.get(f).map(|x| x.0), filters.get(o).map(|x| x.0), if env { " (environment)" } else { "" }, inp.0),
                format!("{e}\n--- stdout\n{out}\n--- stderr\n{err}"),
            );
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    run.bound(format!("{jobs} selections: filters (options or environment) x filters-out x inputs over two suites"));

    // D: runs which cannot happen, or end early
    let case = |name: &str, args: &[&str], files: &[(&str, &str)], ok: &dyn Fn(Option<i32>, &str, &str, &Path) -> Result<(), String>| {
        let dir = fresh();
        std::fs::create_dir_all(dir.join("x:y")).unwrap();
        for (p, t) in files {
            write(&dir, p, &t.replace("%L", dir.join("log").to_str().unwrap()));
        }
        let (code, out, err) = lit(&dir, args, &[]);
        run.count(1, 1, 1);
        run.outcome("degenerate run");
        if let Err(e) = ok(code, &out, &err, &dir) {
            run.violation(format!("run: {name}"), format!("exit status {code:?}: {e}\n--- stdout\n{out}\n--- stderr\n{err}"));
        }
        let _ = std::fs::remove_dir_all(&dir);
    };
    let failing = |code: Option<i32>, _: &str, _: &str, dir: &Path| -> Result<(), String> {
        if matches!(code, None | Some(0)) {
            return Err("should fail".into());
        }
        match dir.join("log").exists() {
            true => Err("a test was executed".into()),
            false => Ok(()),
        }
    };
    let suite = ("lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\"]\nworking_dir = \".\"\n");
    let pass = "RUN: echo x >> %L\n";
    case("no suite", &["run", "."], &[("x.t", pass)], &failing);
    case("no suite, show-tests", &["show-tests", "."], &[("x.t", pass)], &failing);
    case("missing input", &["run", "nope"], &[suite, ("x.t", pass)], &failing);
    case("missing and existing input", &["run", "x.t", "nope"], &[suite, ("x.t", pass)], &failing);
    case("invalid suite", &["run", "."], &[("lit.suite.toml", "name = \n"), ("x.t", pass)], &failing);
    case("suite without a name", &["run", "."], &[("lit.suite.toml", "name = \"\"\npatterns = [\"*.t\"]\n"), ("x.t", pass)], &failing);
    case("invalid local configuration", &["run", "."], &[suite, ("lit.local.toml", "env = 1\n"), ("x.t", pass)], &failing);
    case("suite without tests", &["run", "."], &[suite, ("x.u", pass)], &failing);
    case("input not matching the patterns", &["run", "x.u"], &[suite, ("x.u", pass), ("x.t", pass)], &failing);
    case("invalid filter", &["run", "--filter", "(", "."], &[suite, ("x.t", pass)], &failing);
    case("no inputs", &["run"], &[suite, ("x.t", pass)], &failing);
    for n in [1, 2, 5] {
        for j in ["-j1", "-j2"] {
            let names: Vec<String> = (0..n).map(|k| format!("t{k}.t")).collect();
            for format in ["shtest", "executable"] {
                let s = format!("{}[format.{format}]\n", suite.1);
                let mut files = vec![("lit.suite.toml", s.as_str())];
                files.extend(names.iter().map(|n| (n.as_str(), pass)));
                // a search path that cannot be part of PATH
                case(&format!("unusable search path, {n} tests, {j}, {format}"), &["run", j, "--path", "x:y", "."], &files, &|code, out, err, dir| {
                    failing(code, out, err, dir)?;
                    // but each of its tests is reported, and once
                    let tests: Vec<_> = names.iter().map(|n| (format!("s::{n}"), Unresolved)).collect();
                    let r = parse_report(out, &tests)?;
                    let mut listed = r.groups.into_values().flatten().collect::<Vec<_>>();
                    listed.sort();
                    if r.discovered != Some(n.to_string()) || !listed.iter().eq(tests.iter().map(|t| &t.0)) {
                        return Err(format!("reported {listed:?} of {:?}, should be all {n}", r.discovered));
                    }
                    Ok(())
                });
            }
        }
    }
    // a run which ends early, of the tests that are selected
    for n in [2, 3, 5] {
        for j in ["-j1", "-j2", "-j4"] {
            for mask in 1usize..1 << n {
                if n == 5 && mask % 3 != 0 {
                    continue;
                }
                let names: Vec<String> = (0..n).map(|k| format!("t{k}.t")).collect();
                let set: String = (0..n).filter(|k| mask >> k & 1 == 1).map(|k| k.to_string()).collect();
                for (opt, filter) in [("--filter", format!("t[{set}]")), ("--filter-out", format!("t[^{set}]"))] {
                    let s = format!("{}[format.executable]\n", suite.1);
                    let mut files = vec![("lit.suite.toml", s.as_str())];
                    files.extend(names.iter().map(|n| (n.as_str(), pass)));
                    case(&format!("unusable search path, {n} tests, {j}, {opt} {filter}"), &["run", j, "--path", "x:y", opt, &filter, "."], &files, &|code, out, err, dir| {
                        failing(code, out, err, dir)?;
                        let tests: Vec<_> = names.iter().map(|n| (format!("s::{n}"), Unresolved)).collect();
                        let mut r = parse_report(out, &tests)?;
                        let excluded = r.groups.remove(Excluded.label()).unwrap_or_default();
                        let mut others = r.groups.into_values().flatten().collect::<Vec<_>>();
                        others.sort();
                        let of = |want: bool| tests.iter().enumerate().filter(|(k, _)| (mask >> k & 1 == 1) == want).map(|(_, t)| t.0.clone()).collect::<Vec<_>>();
                        if excluded != of(false) || others != of(true) {
                            return Err(format!("{excluded:?} are excluded, should be {:?}; {others:?} are not, should be {:?}", of(false), of(true)));
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // listing executes nothing
    for cmd in ["show-tests", "show-suites"] {
        case(cmd, &[cmd, "."], &[suite, ("x.t", pass), ("y.t", pass)], &|code, out, _, dir| {
            if code != Some(0) || dir.join("log").exists() {
                return Err("should list, and execute nothing".into());
            }
            match cmd {
                "show-tests" if !(out.contains("s::x.t") && out.contains("s::y.t")) => Err("a test is not listed".into()),
                "show-suites" if !out.contains("s - 2 tests") => Err("the suite is not listed with its tests".into()),
                _ => Ok(()),
            }
        });
    }
    case("no-execute", &["run", "--no-execute", "."], &[suite, ("x.t", pass), ("y.t", "RUN: false\n")], &|code, _, _, dir| {
        if code != Some(0) || dir.join("log").exists() { Err("should execute nothing, and pass".into()) } else { Ok(()) }
    });
    // each test has the format of its own directory
    let exe = "#!/bin/sh\necho exe >> %L\n";
    case("formats", &["run", "."], &[suite, ("x.t", pass), ("e/lit.local.toml", "[format.executable]\n"), ("e/y.t", exe), ("e/f/lit.local.toml", "[format.shtest]\n"), ("e/f/z.t", pass)], &|code, out, _, _| {
        // y.t lacks the permission to be executed
        if code != Some(1) || !out.contains("PASS: s::x.t") || !out.contains("PASS: s::e/f/z.t") || !out.contains("UNRESOLVED: s::e/y.t") {
            return Err("x.t and z.t should pass, y.t cannot be executed".into());
        }
        Ok(())
    });
    let dir = fresh();
    for (p, t) in [suite, ("x.t", pass), ("e/lit.local.toml", "[format.executable]\n"), ("e/y.t", exe), ("e/n.t", "#!/bin/sh\nexit 3\n")] {
        write(&dir, p, &t.replace("%L", dir.join("log").to_str().unwrap()));
    }
    for f in ["e/y.t", "e/n.t"] {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(dir.join(f), std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    for (args, want, log) in [(&["run", "."][..], 1, "exe\nx\n"), (&["run", "e"], 1, "exe\n"), (&["run", "e/y.t"], 0, "exe\n"), (&["run", "x.t", "e/y.t"], 0, "exe\nx\n"), (&["run", "e/n.t"], 1, "")] {
        let _ = std::fs::remove_file(dir.join("log"));
        let (code, out, err) = lit(&dir, args, &[]);
        run.count(1, 1, 1);
        let mut l: Vec<String> = std::fs::read_to_string(dir.join("log")).unwrap_or_default().lines().map(|l| format!("{l}\n")).collect();
        l.sort();
        if code != Some(want) || l.concat() != log {
            run.violation(format!("formats: {args:?}"), format!("exit status {code:?}, should be {want}; executed {l:?}, should be {log:?}\n{out}\n{err}"));
        }
    }
    run.assume("not judged: the order of the lines of a report; how long the workers idle");
}
