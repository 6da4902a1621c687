//! L14: where an invalid test is said to be wrong. Test files made of fragments, some of which are
//! wrong at a known place, are executed by the real format; the report must have one error for
//! each of them, in order, and each must show the place.
use crate::fw::*;
use crate::litx::{config, Bench};
use lit::{Config, TestStatus};

/// Lines of a test file; «» surrounds what is wrong.
const WRONG: [&str; 37] = [
    "REQUIRES: a «b»",
    "REQUIRES: a, (b«»",
    "REQUIRES: a &&«»",
    "REQUIRES:   a,b , «)»",
    "REQUIRES: a, «{{(}}», b",
    "REQUIRES: a, b, «#»",
    "// REQUIRES: !«&&» a",
    "\t;; REQUIRES: (a || b) && «)»",
    "UNSUPPORTED: a «b», b",
    "UNSUPPORTED: «)»",
    "UNSUPPORTED: *, «{{[}}»",
    "XFAIL: a «b»",
    "REQUIRES: a «b», c, c «d», «)»",
    "XFAIL: «{{(}}», a «b», !«»",
    "UNSUPPORTED: a «b», c && «}»",
    "XFAIL: *, a ||«»",
    "XFAIL: a «b-1», b",
    "# DEFINE: «x»",
    "DEFINE: «%{a}»",
    "DEFINE: «x = y»",
    "DEFINE: «%{1} = y»",
    "DEFINE:      «{a}=1»   ",
    "REDEFINE: «%a=1»",
    "REDEFINE: «%{b} c»",
    "«ALLOWED_RETRIES: x»",
    "// «ALLOWED_RETRIES: -1»",
    "«ALLOWED_RETRIES:»",
    "RUN: true %(line«+99999999999999999999»)",
    "RUN: true; true %(line«- 99999999999999999999») %(line+1)",
    "RUN: true %(line) %(line-1) %(line«+99999999999999999999»)",
    "RUN: true \\\n// RUN: %(line«+99999999999999999999»)",
    "RUN: true \\\nRUN:   a \\\n  # RUN:   b %(line«+99999999999999999999»)",
    "DEFINE: %{c}= %(line«+99999999999999999999»)",
    "DEFINE: %{d}=1 \\\n// DEFINE:   2 %(line«+99999999999999999999»)",
    "DEFINE: %{e}=1 \\\nDEFINE:   2 \\\nDEFINE:\t%(line«+99999999999999999999») 3",
    "RUN: «true \\\nxyz»",
    "RUN: «true \\\nREQUIRES: a»",
];
const RIGHT: [&str; 6] = ["", "// text", "RUN: true", "REQUIRES: a, b, {{c}}", "DEFINE: %{z} = 1", "// é RUN: true \\\n// RUN: %(line+2)"];
/// Wrong once the definitions are applied: the first of these is reported.
const LATE: [&str; 4] = ["REDEFINE: «%{q}=1»", "DEFINE: %{w}=1\nDEFINE: «%{w} = 2»", "// DEFINE:   «%{s}a = 1»\nRUN: true", "REDEFINE: «%{q}=1 \\\nREDEFINE: 2»"];

#[derive(Debug, Clone, Copy, PartialEq)]
struct Place {
    start: usize,
    end: usize,
}

/// The text without the marks, and what they surround.
fn strip(s: &str) -> (String, Vec<Place>) {
    let (mut out, mut v) = (String::new(), vec![]);
    for c in s.chars() {
        match c {
            '«' => v.push(Place { start: out.len(), end: out.len() }),
            '»' => v.last_mut().unwrap().end = out.len(),
            c => out.push(c),
        }
    }
    (out, v)
}

/// The (line, column) of each error in the report.
fn shown(report: &str, file: &str) -> Vec<(usize, usize)> {
    report
        .lines()
        .filter_map(|l| {
            let l = &l[l.find(file)? + file.len()..];
            let l = l.strip_prefix(':')?.split(']').next()?;
            let (a, b) = l.split_once(':')?;
            Some((a.parse().ok()?, b.parse().ok()?))
        })
        .collect()
}

fn one(run: &Run, b: &Bench, text: &str, wrong: &[Place], crlf: bool) {
    let (text, wrong) = if crlf {
        let at = |p: usize| p + text[..p].matches('\n').count();
        (text.replace('\n', "\r\n"), wrong.iter().map(|p| Place { start: at(p.start), end: at(p.end) }).collect::<Vec<_>>())
    } else {
        (text.to_string(), wrong.to_vec())
    };
    let r = case("test script", &text, || guard(|| b.run("t.txt", text.as_bytes(), config(&["a", "b", "c"], &[], &[]), &Config::default())));
    run.count(1, wrong.len() as u64, 1);
    let fail = |what: String| run.violation(format!("{text:?}"), what);
    let r = match r {
        Ok(r) => r,
        Err(p) => return fail(format!("panics: {p}")),
    };
    if wrong.is_empty() {
        return;
    }
    run.outcome(r.status().tag());
    if r.status() != TestStatus::Unresolved {
        return fail(format!("an invalid test has the status {}", r.status().tag()));
    }
    let report = r.stderr().into_owned();
    let got = shown(&report, "t.txt");
    if got.len() != wrong.len() {
        return fail(format!("{} errors, but {} places: {wrong:?}\n{report}", wrong.len(), got.len()));
    }
    for (w, g) in wrong.iter().zip(&got) {
        // the offset of that line and column, in bytes or characters
        let start: usize = text.split_inclusive('\n').take(g.0 - 1).map(str::len).sum();
        let line = text[start..].split('\n').next().unwrap_or("");
        let offsets = [start + g.1 - 1, start + line.char_indices().nth(g.1 - 1).map_or(line.len(), |c| c.0)];
        if !offsets.iter().any(|o| (w.start..=w.end.max(w.start)).contains(o) && (*o < w.end || w.start == w.end)) {
            return fail(format!("{:?} is wrong, but line {} column {} is shown\n{report}", &text[w.start..w.end], g.0, g.1));
        }
    }
}

fn join(parts: &[&str]) -> (String, Vec<Place>) {
    strip(&(parts.join("\n") + "\n"))
}

pub fn check(run: &Run) {
    let _ = litcheck::reporting::set_hook(Box::new(|_| Box::new(litcheck::reporting::ReportHandlerOpts::new().width(200).build())));
    // retries may be given only once, and a definition only once a test
    let compatible = |s: &[&str]| {
        let n = |k: &str| s.iter().filter(|x| x.contains(k)).count();
        n("ALLOWED_RETRIES") <= 1
    };
    let mut files: Vec<(String, Vec<Place>)> = vec![];
    let any: Vec<&str> = WRONG.iter().chain(&RIGHT).copied().collect();
    for s in sequences(&any, 1, 2) {
        if compatible(&s) {
            let mut s = s.clone();
            s.push("RUN: true");
            files.push(join(&s));
        }
    }
    // three, with the ends varied
    let some: Vec<&str> = if run.thorough() { any.clone() } else { any.iter().step_by(3).copied().chain([RIGHT[2], RIGHT[5]]).collect() };
    for s in sequences(&some, 3, 3) {
        if compatible(&s) {
            files.push(join(&[&["RUN: true"], &s[..]].concat()));
        }
    }
    // without the last line end
    for w in WRONG {
        let (t, p) = join(&["RUN: true", w]);
        files.push((t.trim_end_matches('\n').to_string(), p));
    }
    // repeated retries
    for between in sequences(&RIGHT, 0, 3) {
        let s = format!("«ALLOWED_RETRIES: 1\n{}ALLOWED_RETRIES: 1»", between.iter().map(|l| format!("{l}\n")).collect::<String>());
        files.push(join(&["RUN: true", &s]));
        files.push(join(&[&s, "RUN: true"]));
    }
    // what shows only when definitions are applied
    for l in LATE {
        for before in sequences(&RIGHT, 0, 2) {
            for after in [&[][..], &["RUN: true"], &["REDEFINE: %{other}=1"]] {
                let s: Vec<&str> = before.iter().copied().chain([l]).chain(after.iter().copied()).chain(["RUN: true"]).collect();
                if s.iter().filter(|x| x.contains("%{z}")).count() < 2 {
                    files.push(join(&s));
                }
            }
        }
    }
    let n = files.len();
    par_for(run, n, |i| {
        let b = Bench::mine();
        one(run, &b, &files[i].0, &files[i].1, false);
        if i % 3 == 0 || run.thorough() {
            one(run, &b, &files[i].0, &files[i].1, true);
        }
    });
    run.bound(format!("{n} test files of up to 3 of {} wrong and {} right fragments, before or after a command, with LF and CRLF line endings", WRONG.len(), RIGHT.len()));
}
