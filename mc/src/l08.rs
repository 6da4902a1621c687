//! L08: the time limit of a test. Every case is executed by the real test formats in a process of
//! its own, which has no privileges: what the code under test kills by mistake can only be its own.
use crate::fw::*;
use crate::litx;
use crate::proc::Call;
use lit::{Config, Test, TestFormat, TestSuite};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// How late the end of a test may be noticed, on a busy machine.
const MARGIN: f64 = 4.0;

/// `mc __lit8 DIR FORMAT LIMIT` executes the test DIR/s/t.t. Says how it ended, how long it took, and
/// which of the processes recorded in DIR/pids are left.
pub fn child(dir: &Path, format: &str, limit: u64) -> ! {
    unsafe { libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0) };
    // Written here, where nothing has been forked that could still have it open: such a file
    // cannot be executed.
    use std::os::unix::fs::PermissionsExt;
    std::fs::copy(dir.join("script"), dir.join("s/t.t")).unwrap();
    std::fs::set_permissions(dir.join("s/t.t"), std::fs::Permissions::from_mode(0o755)).unwrap();
    let r = guard(|| {
        let mut cfg = Config::default();
        cfg.options.timeout = Some(limit);
        let suite = TestSuite::parse(dir.join("s/lit.suite.toml"), &cfg).expect("suite");
        let mut tc = litx::config(&[], &[], &[]);
        tc.format = litx::format(&format!("[format.{format}]\n"));
        let tc = Arc::new(tc);
        let t = Test::new(PathBuf::from("t.t"), suite, tc.clone());
        let start = Instant::now();
        let r = tc.format.execute(&t, &cfg).unwrap_or_else(|e| panic!("execute returned an error: {e}"));
        let took = start.elapsed().as_secs_f64();
        std::fs::write(dir.join("stdout"), r.stdout().as_bytes()).unwrap();
        std::fs::write(dir.join("stderr"), r.stderr().as_bytes()).unwrap();
        (r.status().tag(), took)
    });
    match r {
        Ok((tag, took)) => {
            // what was killed takes a moment to be gone
            let grace = Instant::now() + Duration::from_millis(1500);
            let alive = || std::fs::read_to_string(dir.join("pids")).unwrap_or_default().lines().filter(|p| running(p)).count();
            let mut n = alive();
            while n > 0 && tag == "TIMEOUT" && Instant::now() < grace {
                std::thread::sleep(Duration::from_millis(10));
                n = alive();
            }
            println!("{tag} {took:.3} {n}");
        }
        Err(e) => println!("PANIC {}", e.replace('\n', " ")),
    }
    for f in ["pids", "away"] {
        for p in std::fs::read_to_string(dir.join(f)).unwrap_or_default().lines() {
            if let Ok(p) = p.trim().parse::<i32>() {
                if p > 1 && running(&p.to_string()) {
                    unsafe { libc::kill(p, libc::SIGKILL) };
                }
            }
        }
    }
    std::process::exit(0)
}
fn running(pid: &str) -> bool {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{}/stat", pid.trim())) else { return false };
    !s.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with(['Z', 'X']))
}

/// Something that a test does before it ends, or does not. `D` is the directory of the case.
#[derive(Clone, Copy, Debug)]
struct Step {
    name: &'static str,
    sh: &'static str,
    out: usize,
    err: usize,
    /// the output stays open for so long after the test ended
    holds: f64,
    late: bool,
}
const fn step(name: &'static str, sh: &'static str) -> Step {
    Step { name, sh, out: 0, err: 0, holds: 0., late: false }
}
const K: usize = 300_000;
const STEPS: [Step; 9] = [
    Step { out: K, ..step("large stdout", "head -c 300000 /dev/zero | tr '\\0' o") },
    Step { err: K, ..step("large stderr", "head -c 300000 /dev/zero | tr '\\0' e >&2") },
    Step { out: K, err: K, ..step("large stderr, then stdout", "head -c 300000 /dev/zero | tr '\\0' e >&2; head -c 300000 /dev/zero | tr '\\0' o") },
    Step { holds: 2.2, ..step("child holding the output", "sleep HOLD & echo $! >> D/pids") },
    step("child without output", "sleep 20 >/dev/null 2>&1 & echo $! >> D/away"),
    step("ignores SIGTERM, SIGINT and SIGHUP", "trap '' TERM INT HUP"),
    step("child in another session", "setsid sleep 20 >/dev/null 2>&1 </dev/null & echo $! >> D/away"),
    Step { late: true, holds: 0.3, ..step("late output", "(sleep 0.3; echo late) &") },
    step("closes its output", "exec >&- 2>&-"),
];
#[derive(Clone, Copy, Debug)]
struct End {
    name: &'static str,
    sh: &'static str,
    /// None: it does not end
    tag: Option<&'static str>,
    takes: f64,
}
const fn end(name: &'static str, sh: &'static str, tag: &'static str) -> End {
    End { name, sh, tag: Some(tag), takes: 0. }
}
const fn hang(name: &'static str, sh: &'static str) -> End {
    End { name, sh, tag: None, takes: 0. }
}
const ENDS: [End; 5] = [
    end("succeeds", "exit 0", "PASS"),
    end("fails", "exit 1", "FAIL"),
    end("fails with 127", "exit 127", "FAIL"),
    end("kills itself", "kill -9 $$", "UNRESOLVED"),
    End { takes: 0.5, ..end("succeeds after a while", "sleep 0.5; exit 0", "PASS") },
];
const HANGS: [End; 5] = [
    hang("sleeps", "sleep 20 & echo $! >> D/pids; wait; wait"),
    hang("sleeps in the foreground", "sleep 20"),
    hang("becomes a sleep", "echo $$ >> D/pids; exec sleep 20"),
    hang("stops itself", "echo $$ >> D/pids; kill -STOP $$"),
    hang("waits in a pipeline", "sleep 20 | sleep 20 | cat"),
];

#[derive(Clone)]
struct Case {
    steps: Vec<Step>,
    end: End,
    format: &'static str,
    limit: u64,
    extra: String,
}
impl Case {
    fn name(&self) -> String {
        let s: Vec<&str> = self.steps.iter().map(|s| s.name).collect();
        format!("{} | {}{} ({}, limit {})", s.join(", "), self.end.name, if self.extra.is_empty() { "" } else { " + more" }, self.format, self.limit)
    }
    fn script(&self, dir: &Path) -> String {
        let hold = if self.end.tag.is_some() { "2.2" } else { "20" };
        let body: Vec<&str> = ["echo ran >> D/log; echo first"].into_iter().chain(self.steps.iter().map(|s| s.sh)).chain([self.end.sh]).collect();
        let body = body.join("; ").replace("&;", "&").replace("HOLD", hold).replace('D', "\x01").replace('\x01', &dir.display().to_string());
        if self.format == "shtest" {
            format!("{}RUN: {}\n", self.extra, body)
        } else {
            format!("#!/bin/sh\n{}{}\n", self.extra, body)
        }
    }
}

fn judge(c: &Case, dir: &Path, said: &str) -> Result<&'static str, String> {
    let w: Vec<&str> = said.split_whitespace().collect();
    let [tag, took, left] = w[..] else { return Err(format!("it did not end properly: {said:?}")) };
    let (took, left): (f64, usize) = (took.parse().unwrap(), left.parse().unwrap());
    let log = std::fs::read_to_string(dir.join("log")).unwrap_or_default().lines().count();
    if log != 1 {
        return Err(format!("it was executed {log} times ({tag})"));
    }
    let limit = c.limit as f64;
    let stdout = std::fs::read(dir.join("stdout")).unwrap();
    let stderr = std::fs::read_to_string(dir.join("stderr")).unwrap();
    // what it writes until it ends, or is stopped
    let mut want = b"first\n".to_vec();
    let mut errs = 0;
    let mut closed = false;
    for s in &c.steps {
        if !closed {
            want.extend(std::iter::repeat_n(b'o', s.out));
            errs += s.err;
        }
        closed |= s.name == "closes its output";
    }
    let mut late = 0;
    let mut closed = false;
    for s in &c.steps {
        late += (s.late && !closed) as usize;
        closed |= s.name == "closes its output";
    }
    let check_output = |late: usize| -> Result<(), String> {
        let mut got = stdout.clone();
        let mut n = 0;
        while let Some(i) = got.windows(5).position(|w| w == b"late\n") {
            got.drain(i..i + 5);
            n += 1;
        }
        if n != late {
            return Err(format!("{n} of {late} late lines were captured"));
        }
        if got != want {
            let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return Err(format!("{} bytes of standard output were captured, should be {}; they differ from {at}", got.len(), want.len()));
        }
        // (traces of commands come in between, anywhere)
        let n = stderr.matches('e').count();
        if errs > 0 && !(errs..errs + 900).contains(&n) {
            return Err(format!("{n} bytes of standard error were captured, should be {errs}"));
        }
        Ok(())
    };
    match c.end.tag {
        None => {
            if tag != "TIMEOUT" {
                return Err(format!("it was reported as {tag}, should be TIMEOUT (after {took} s)"));
            }
            if took < limit - 0.01 {
                return Err(format!("it was stopped after {took} s, before its limit of {limit} s"));
            }
            if took > limit + MARGIN {
                return Err(format!("it took {took} s to stop it, with a limit of {limit} s"));
            }
            if left > 0 {
                return Err(format!("{left} of its processes were not stopped"));
            }
            check_output(late)?;
            Ok("timed out")
        }
        Some(want) => {
            let holds = c.steps.iter().map(|s| s.holds).fold(0., f64::max);
            // the output of a test is that of everything it started: a test that ends, while its
            // children hold the output beyond the limit, may be judged either way
            let beyond = c.limit > 0 && holds + c.end.takes + 0.5 > limit;
            if tag != want && !(beyond && tag == "TIMEOUT") {
                return Err(format!("it was reported as {tag}, should be {want} (after {took} s)"));
            }
            let most = if c.limit > 0 { (holds + c.end.takes).min(limit) } else { holds + c.end.takes };
            if took > most + MARGIN {
                return Err(format!("it took {took} s, should be {most} s"));
            }
            if !beyond {
                check_output(late)?;
            }
            Ok(if beyond { "ended, its children did not" } else { "ended in time" })
        }
    }
}

/// Threads which mostly wait.
fn many(run: &Run, n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..48.min(n) {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n || run.done() {
                        return;
                    }
                    f(i);
                }
            });
        }
    });
}

pub fn check(run: &Run) {
    let scratch = Scratch::new("l08");
    let open = |p: &Path, mode: u32| {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode)).unwrap();
    };
    open(scratch.path(), 0o777);
    // copies which anyone can execute
    let mc = scratch.path().join("mc");
    std::fs::copy(std::env::current_exe().unwrap(), &mc).unwrap();
    open(&mc, 0o755);
    let lit = scratch.path().join("litcheck");
    std::fs::copy(crate::proc::litcheck(), &lit).unwrap();
    open(&lit, 0o755);
    let seq = AtomicUsize::new(0);
    let fresh = || -> PathBuf {
        let d = scratch.path().join(format!("c{}", seq.fetch_add(1, SeqCst)));
        for p in [d.clone(), d.join("s"), d.join("w")] {
            std::fs::create_dir(&p).unwrap();
            open(&p, 0o777);
        }
        std::fs::write(d.join("s/lit.suite.toml"), "name = \"s\"\npatterns = [\"*\"]\nworking_dir = \"../w\"\n").unwrap();
        d
    };

    let mut cases: Vec<Case> = vec![];
    let depth = run.pick(2, 3);
    let sets: Vec<Vec<Step>> = sequences(&STEPS, 0, depth)
        .into_iter()
        // each step once; the third only after two others that interact
        .filter(|s| s.iter().map(|s| s.name).collect::<BTreeSet<_>>().len() == s.len())
        .collect();
    for s in &sets {
        for format in ["shtest", "executable"] {
            for end in HANGS {
                if s.len() == 3 && end.name != "sleeps" && end.name != "stops itself" {
                    continue;
                }
                cases.push(Case { steps: s.clone(), end, format, limit: 1, extra: String::new() });
            }
            for end in ENDS {
                if s.len() == 3 && end.name != "succeeds" {
                    continue;
                }
                for limit in [0, 1, 20, u64::MAX] {
                    // not within reach of a limit of one second
                    if limit == 1 && end.takes > 0. {
                        continue;
                    }
                    cases.push(Case { steps: s.clone(), end, format, limit, extra: String::new() });
                }
            }
        }
    }
    // other limits; more of the script than a pipe holds; directives that affect the outcome
    let filler = |f: &str| if f == "shtest" { "RUN: true # filler filler filler filler filler filler filler\n".repeat(3000) } else { "true # filler\n".repeat(30000) };
    for format in ["shtest", "executable"] {
        for end in HANGS {
            for limit in [2, 3] {
                cases.push(Case { steps: vec![], end, format, limit, extra: String::new() });
            }
        }
        for (end, limit) in [(ENDS[0], 0), (ENDS[0], 20), (ENDS[1], 20), (HANGS[1], 3)] {
            cases.push(Case { steps: vec![], end, format, limit, extra: filler(format) });
        }
    }
    for extra in ["XFAIL: *\n", "ALLOWED_RETRIES: 2\n", "XFAIL: *\nALLOWED_RETRIES: 1\n"] {
        for end in HANGS {
            cases.push(Case { steps: vec![], end, format: "shtest", limit: 1, extra: extra.into() });
        }
    }
    // the slowest first
    cases.sort_by_key(|c| c.end.tag.is_some());
    many(run, cases.len(), |i| {
        let c = &cases[i];
        let dir = fresh();
        let script = dir.join("script");
        std::fs::write(&script, c.script(&dir)).unwrap();
        open(&script, 0o644);
        let mut call = Call::new(&dir, &["__lit8", dir.to_str().unwrap(), c.format, &c.limit.to_string()]);
        call.nobody = true;
        call.limit = Duration::from_secs(40);
        let o = call.run_bin(&mc);
        run.count(1, c.steps.len() as u64 + 1, 1);
        match if o.timed_out { Err("it was not stopped, and does not end".into()) } else { judge(c, &dir, o.stdout().trim()) } {
            Ok(k) => run.outcome(k),
            Err(e) => run.violation(c.name(), format!("{e}\n--- test\n{}\n--- stderr\n{}", c.script(&dir).chars().take(2000).collect::<String>(), o.stderr())),
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    run.bound(format!("{} tests: sequences of at most {depth} of {} steps x {} ends and {} ways not to end x formats x limits (none, 1, 20 and 2^64-1 s; 2 and 3 s without steps)", cases.len(), STEPS.len(), ENDS.len(), HANGS.len()));

    // the whole runner: tests that hang among others, for every number of workers
    let mut runs = vec![];
    for n in 1..=run.pick(3, 4) {
        for set in sequences(&[0usize, 1, 2], n, n) {
            for j in 1..=n {
                if set.contains(&2) {
                    runs.push((set.clone(), j));
                }
            }
        }
    }
    many(run, runs.len(), |i| {
        let (set, j) = &runs[i];
        let dir = fresh();
        for (k, t) in set.iter().enumerate() {
            std::fs::write(dir.join(format!("s/t{k}.t")), ["RUN: true\n", "RUN: false\n", "RUN: sleep 20\n"][*t]).unwrap();
        }
        let s = dir.join("s");
        let mut call = Call::new(&s, &["lit", "run", "--timeout", "1", "-j", &j.to_string(), "."]);
        call.nobody = true;
        let o = call.run_bin(&lit);
        run.count(1, set.len() as u64, 1);
        let hangs = set.iter().filter(|t| **t == 2).count();
        let out = o.stdout();
        let mut bad = vec![];
        for (k, t) in set.iter().enumerate() {
            let l = format!("{}: s::t{k}.t", ["PASS", "FAIL", "TIMEOUT"][*t]);
            if out.lines().filter(|x| **x == l).count() != 1 {
                bad.push(format!("no line {l:?}"));
            }
        }
        let (least, most) = (hangs.div_ceil(*j) as f64, hangs as f64);
        let took = o.elapsed.as_secs_f64();
        if took < least - 0.01 || took > most + MARGIN {
            bad.push(format!("it took {took} s, should be {least} to {most} s"));
        }
        if o.code != Some(1) {
            bad.push(format!("{}, should be exit 1", o.status()));
        }
        run.outcome("run with tests that time out");
        if !bad.is_empty() {
            run.violation(format!("run of {set:?} with {j} workers"), format!("{}\n{out}\n{}", bad.join("\n"), o.stderr()));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    run.bound(format!("{} runs of up to {} tests that pass, fail or hang, with 1 to all workers", runs.len(), run.pick(3, 4)));
    run.assume(format!("a delay of {MARGIN} s beyond the limit is small; a test stopped within its limit ran on a machine that gives it some time"));
    run.assume("not judged: the status of a test which ends in time, but leaves children that hold its output beyond the limit");
}
