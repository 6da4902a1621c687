//! F17: the remarks of `-v`. The real engine runs with remarks on and its standard error goes to
//! a file; every remark must name a check that did match (its line, its column, its kind), and
//! once everything matched, every positive check must have its remarks.
use crate::fc::config;
use crate::fcm::{self, *};
use crate::fcs::{self, Suite};
use crate::fw::*;
use crate::proc::Call;
use filecheck::{check::Checker, parse::CheckFileParser};
use litcheck::diagnostics::{FileName, SourceLanguage, SourceManager};
use std::collections::BTreeMap;
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::AsRawFd;

/// Standard error, kept in a file.
struct Capture {
    file: std::fs::File,
    old: i32,
}
impl Capture {
    fn new(dir: &Scratch) -> Capture {
        let file = std::fs::OpenOptions::new().read(true).write(true).append(true).create(true).open(dir.path().join("stderr")).unwrap();
        let old = unsafe { libc::dup(2) };
        unsafe { libc::dup2(file.as_raw_fd(), 2) };
        Capture { file, old }
    }
    /// What was written since the last time.
    fn take(&mut self) -> String {
        let n = self.file.seek(SeekFrom::End(0)).unwrap();
        if n == 0 {
            return String::new();
        }
        self.file.seek(SeekFrom::Start(0)).unwrap();
        let mut s = vec![];
        self.file.read_to_end(&mut s).unwrap();
        self.file.set_len(0).unwrap();
        String::from_utf8_lossy(&s).into_owned()
    }
}
impl Drop for Capture {
    fn drop(&mut self) {
        unsafe { libc::dup2(self.old, 2) };
        unsafe { libc::close(self.old) };
    }
}

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
struct Remark {
    line: usize,
    col: usize,
    kind: String,
    /// k of n times
    times: Option<(usize, usize)>,
    /// says that something was not found
    negative: bool,
}

/// `[file@line:column]: remark: KIND: text`
fn parse(s: &str) -> Result<Vec<Remark>, String> {
    let mut v = vec![];
    for l in s.lines().filter(|l| l.contains(": remark: ")) {
        let r = (|| {
            let (place, text) = l.split_once(": remark: ")?;
            let mut it = place.trim_matches(|c| c == '[' || c == ']').rsplit(|c: char| !c.is_ascii_digit());
            let col = it.next()?.parse().ok()?;
            let line = it.next()?.parse().ok()?;
            let (kind, text) = text.split_once(": ")?;
            let n: Vec<usize> = text.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
            Some(Remark { line, col, kind: kind.to_string(), times: (n.len() == 2).then(|| (n[0], n[1])), negative: text.contains("none of") || text.contains("not found") })
        })();
        v.push(r.ok_or_else(|| format!("unreadable remark {l:?}"))?);
    }
    Ok(v)
}

fn column(c: &Ck) -> usize {
    let d = c.directive().len();
    let p = c.pattern_text();
    d + 2 + (p.len() - p.trim_start_matches([' ', '\t']).len())
}

fn judge(checks: &[Ck], o: &Opt, input: &str, model: &Verdict, why: Option<Why>, accepted: bool, remarks: &[Remark]) -> Option<&'static str> {
    let text = if o.strict_ws { input.to_string() } else { input.replace('\t', " ") };
    let mut per: Vec<Vec<&Remark>> = vec![vec![]; checks.len()];
    for r in remarks {
        // (exclusions the options imply have no line of their own)
        if r.negative && !o.implicit.is_empty() {
            continue;
        }
        let Some(c) = r.line.checked_sub(1).and_then(|i| checks.get(i)) else { return Some("a remark about a line without a check") };
        if r.negative != (c.kind == Not) {
            return Some("a remark says that text was found, or not, of the wrong kind of check");
        }
        let name = c.directive().trim_end_matches(':').trim_end_matches("{LITERAL}").to_string();
        if r.kind != name && !(matches!(c.kind, Count(_)) && r.kind.starts_with("CHECK") && name.starts_with(&r.kind)) {
            return Some("a remark names the wrong kind of check");
        }
        // (the place of a pattern that starts with a block may be that of what the block contains)
        // (and leading blanks may count to the pattern or not)
        if c.kind != Empty && !(c.directive().len() + if o.strict_ws { 1 } else { 2 }..=column(c) + 2).contains(&r.col) {
            return Some("a remark gives the wrong column");
        }
        per[r.line - 1].push(r);
    }
    let pure = |i: usize| checks[i].parts.iter().all(|p| matches!(p, Part::Lit(_) | Part::Re(_)));
    for (i, c) in checks.iter().enumerate() {
        let n = per[i].len();
        let most = match c.kind {
            Count(n) => n as usize,
            _ => 1,
        };
        // (the search for an explanation of a failure after CHECK-DAG may repeat them)
        if n > most && (accepted || !checks.iter().any(|c| c.kind == Dag)) {
            return Some("more remarks than matches");
        }
        if let Count(_) = c.kind
            && most > 1
            && (accepted || !checks.iter().any(|c| c.kind == Dag))
            && per[i].iter().any(|r| r.times.is_some())
            && per[i].iter().enumerate().any(|(k, r)| r.times != Some((k + 1, most)))
        {
            return Some("the remarks of a counted check do not count");
        }
        if accepted && n < most && c.kind != Not {
            return Some("a check matched without a remark");
        }
        if n > 0 && c.kind != Not && !matches!(c.kind, Empty) && pure(i) && !fcm::occurs(c, o, i, &text, 0, text.len()) {
            return Some("a remark about a check whose text is nowhere");
        }
        if !accepted
            && matches!(model, Verdict::Reject(_))
            && let Some(w) = why
            && w.first == i
            && w.last == i
            && w.what == "pattern not found"
            && !checks.iter().any(|c| matches!(c.kind, Not | Dag))
        {
            let found = if let Count(_) = c.kind { w.found } else { 0 };
            if n != found {
                return Some("a remark about the check that failed");
            }
        }
    }
    None
}

pub fn check(run: &Run) {
    let explore = std::env::var("FC_EXPLORE").is_ok();
    let dir = Scratch::new("f17");
    let len = run.pick(3, 4);
    let mut all: Vec<Suite> = vec![];
    for id in ["F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F10", "F12", "F14"] {
        all.extend(fcs::suites(id, false).into_iter().map(|mut s| {
            s.files.retain(|f| f.len() <= len);
            s
        }));
    }
    let step = run.pick(97, 29);
    for id in ["F01", "F02", "F03", "F04", "F05", "F06"] {
        all.extend(fcs::cross(id, false).into_iter().map(|mut s| {
            let mut k = 0;
            s.inputs.retain(|_| {
                k += 1;
                k % step == 0
            });
            s
        }));
    }
    run.assume("a remark about an excluded text which was not found is optional, and so is the way it is put");
    let mut cap = Some(Capture::new(&dir));
    let mut found = vec![];
    for s in &all {
        for o in s.opts.iter().filter(|o| !o.full_lines) {
            suite(run, s, o, cap.as_mut().unwrap(), &mut found);
        }
    }
    drop(cap.take());
    let mut seen: BTreeMap<String, (usize, String, String)> = BTreeMap::new();
    for (key, d, shape) in found {
        if explore {
            let e = seen.entry(shape).or_insert((0, key, d));
            e.0 += 1;
        } else {
            run.violation(key, d);
        }
    }
    for (shape, (n, k, d)) in seen {
        println!("--- {n} x {shape}\n{k}\n{d}");
    }
    binary(run, &dir);
}

fn suite(run: &Run, s: &Suite, o: &Opt, cap: &mut Capture, found: &mut Vec<(String, String, String)>) {
    let max = run.pick(24, 400);
    // (spread over the files too)
    let every = if s.files.len() > 200 { run.pick(3, 1) } else { 1 };
    for checks in s.files.iter().step_by(every) {
        if found.len() > if std::env::var("FC_EXPLORE").is_ok() { 100000 } else { 60 } {
            return;
        }
        let text = fcm::render(checks);
        let mut config = config(o);
        config.options.verbose = 1;
        let sm = config.source_manager.clone();
        let mf = sm.load(SourceLanguage::Unknown, FileName::from("checks.txt"), text.clone());
        let mut parser = CheckFileParser::new(&config);
        let Ok(Ok(program)) = guard(|| parser.parse(mf.id(), mf.as_str()).map(|f| f.compile(&config))) else { continue };
        let Ok(program) = program else { continue };
        let mut checker = Checker::new(&config, program, mf.clone());
        let mut oc: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut n = 0;
        // spread over the inputs
        let step = s.inputs.len().div_ceil(max).max(1);
        for input in s.inputs.iter().step_by(step) {
            let src = sm.load(SourceLanguage::Unknown, FileName::from("input.txt"), input.to_string());
            cap.take();
            let Ok(accepted) = guard(|| checker.check_input(src).is_ok()) else { continue };
            let err = cap.take();
            let (model, why) = fcm::eval_why(checks, o, input);
            n += 1;
            *oc.entry(if accepted { "accepted" } else { "rejected" }).or_default() += 1;
            let wrong = match parse(&err) {
                Err(e) => Some(e),
                Ok(r) => judge(checks, o, input, &model, why, accepted, &r).map(String::from),
            };
            if let Some(w) = wrong {
                let shape: String = checks.iter().map(|c| c.directive()).collect();
                found.push((
                    format!("{w}: {} on {input:?}{}", text.trim_end().replace('\n', "; "), o.text()),
                    format!("check file:\n{text}\ninput: {input:?}\noptions: {o:?}\naccepted: {accepted}\nmodel: {model:?} {why:?}\nstandard error:\n{err}"),
                    format!("{w} {accepted} {shape}"),
                ));
                break;
            }
        }
        run.count(n, n, n);
        run.outcomes(&oc);
    }
    run.bound(format!("{}: {} check files x {} inputs{}", s.tag, s.files.len().div_ceil(every), s.inputs.len().min(max), o.text()));
}

/// The same from the binary: with -v and -vv there are the remarks of the library, without there
/// are none, and the exit status is the same.
fn binary(run: &Run, dir: &Scratch) {
    let suites: Vec<Suite> = ["F02", "F04", "F05", "F06"].iter().flat_map(|id| fcs::suites(id, false)).collect();
    let cases: Vec<(&Vec<Ck>, &String)> = suites
        .iter()
        .flat_map(|s| s.files.iter().filter(|f| f.len() <= 3).step_by(29).flat_map(|f| s.inputs.iter().step_by(s.inputs.len().div_ceil(3).max(1)).map(move |i| (f, i))))
        .collect();
    par_for(run, cases.len(), |i| {
        let (checks, input) = cases[i];
        let d = dir.path().join(format!("b{i}"));
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("checks.txt"), fcm::render(checks)).unwrap();
        std::fs::write(d.join("input.txt"), input.as_str()).unwrap();
        let (model, why) = fcm::eval_why(checks, &Opt::default(), input);
        let mut codes = vec![];
        for v in [&[][..], &["-v"], &["-vv"], &["-v", "--dump-input=never"]] {
            let mut args = vec!["filecheck"];
            args.extend(v);
            args.extend(["checks.txt", "--input-file", "input.txt"]);
            let out = Call::new(&d, &args).run();
            let code = out.code;
            codes.push(code);
            let err = String::from_utf8_lossy(&out.stderr).into_owned();
            let wrong = match parse(&err) {
                Err(e) => Some(e),
                Ok(r) if v.is_empty() => (!r.is_empty()).then(|| "remarks without -v".to_string()),
                Ok(r) if code == Some(0) || code == Some(1) => judge(checks, &Opt::default(), input, &model, why, code == Some(0), &r).map(String::from),
                _ => None,
            };
            if let Some(w) = wrong {
                run.violation(format!("binary {v:?}: {w}: {} on {input:?}", fcm::render(checks).trim_end().replace('\n', "; ")), err);
            }
        }
        if codes.iter().any(|c| *c != codes[0]) {
            run.violation(format!("binary: -v changes the status: {} on {input:?}", fcm::render(checks).trim_end().replace('\n', "; ")), format!("{codes:?}"));
        }
        run.count(4, 4, 4);
    });
    run.bound(format!("{} runs of the binary with and without -v", cases.len() * 4));
}
