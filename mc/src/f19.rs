//! F19: what a rejection shows of the input. Every rejection's diagnostics are read through the
//! interface the renderer uses: the dump (all of the input, with every match that was made), and
//! the region each pattern that is not found was searched for in, for every value of --dump-input
//! and with and without -vv.
use crate::f16::{spots, Spot};
use crate::fc::config;
use crate::fcm::{self, *};
use crate::fcs::{self, Suite};
use crate::fw::*;
use filecheck::{check::Checker, parse::CheckFileParser, Dump};
use litcheck::diagnostics::{FileName, SourceLanguage, SourceManager};
use std::collections::BTreeMap;

type Report = Vec<(String, Vec<Spot>)>;

/// Runs with the process's standard error (where remarks go) shut.
struct Hush(i32);
impl Hush {
    fn new() -> Hush {
        use std::os::fd::AsRawFd;
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        unsafe {
            let saved = libc::dup(2);
            libc::dup2(null.as_raw_fd(), 2);
            Hush(saved)
        }
    }
}
impl Drop for Hush {
    fn drop(&mut self) {
        unsafe {
            libc::dup2(self.0, 2);
            libc::close(self.0);
        }
    }
}

pub fn check(run: &Run) {
    let explore = std::env::var("FC_EXPLORE").is_ok();
    let _hush = (!explore).then(Hush::new);
    let mut all: Vec<Suite> = long(run);
    for id in ["F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F09", "F10", "F12", "F14"] {
        all.extend(fcs::suites(id, false).into_iter().map(|mut s| {
            s.files.retain(|f| f.len() <= 3);
            s
        }));
    }
    for id in ["F01", "F02", "F03", "F04", "F05", "F06"] {
        all.extend(fcs::cross(id, false).into_iter().map(|mut s| {
            if !run.thorough() {
                let mut k = 0;
                s.inputs.retain(|_| {
                    k += 1;
                    k % 83 == 0
                });
            }
            s
        }));
    }
    run.assume("whether checks which follow a failed one in its block are still tried, and so whether their matches are shown, is not specified");
    for s in &all {
        for o in s.opts.iter().filter(|o| !o.full_lines) {
            suite(run, explore, s, o);
        }
    }
}

/// Inputs of any number of lines: regions of up to ten are shown, larger ones by their ends.
fn long(run: &Run) -> Vec<Suite> {
    let lit = |k, t: &str| Ck::lit(k, t);
    let files: Vec<Vec<Ck>> = vec![
        vec![lit(Plain, "z")],
        vec![lit(Plain, "a"), lit(Plain, "z")],
        vec![lit(Plain, "a"), lit(Next, "z")],
        vec![lit(Plain, "a"), lit(Same, "z")],
        vec![lit(Plain, "b"), lit(Plain, "z"), lit(Plain, "y")],
        vec![lit(Label, "L"), lit(Plain, "z")],
        vec![lit(Plain, "z"), lit(Label, "L")],
        vec![lit(Plain, "a"), lit(Plain, "z"), lit(Label, "L"), lit(Plain, "b")],
        vec![lit(Label, "L"), lit(Plain, "b"), lit(Plain, "z"), lit(Label, "M"), lit(Plain, "b")],
        vec![lit(Label, "L"), lit(Label, "z")],
        vec![lit(Plain, "a"), lit(Not, "q"), lit(Plain, "z")],
        vec![lit(Count(3), "b"), lit(Plain, "z")],
        vec![lit(Count(99), "b")],
        vec![lit(Dag, "a"), lit(Dag, "z")],
        vec![lit(Plain, "a"), lit(Dag, "z"), lit(Dag, "b")],
        vec![lit(Plain, "z"), lit(Label, "L"), lit(Plain, "z"), lit(Label, "M"), lit(Plain, "z")],
    ];
    let most = if run.thorough() { 40 } else { 14 };
    let mut ins = vec![];
    for n in 1..=most {
        for m in [0, 1, 2, 9, 10, 11] {
            for end in ["", "\n", "\n\n"] {
                let f = |k: usize| vec!["b"; k].join("\n");
                ins.push(format!("{}{end}", f(n)));
                ins.push(format!("a\n{}{end}", f(n)));
                ins.push(format!("{}\na\n{}{end}", f(m), f(n)));
                ins.push(format!("a\n{}\nL\n{}{end}", f(m), f(n)));
                ins.push(format!("éa\n{}\nL b é\n{}\nM\nb{end}", f(n), f(m)));
                ins.push(format!("L\n{}\nM\n{}é{end}", f(n), f(m)));
            }
        }
    }
    ins.sort();
    ins.dedup();
    vec![Suite { tag: "long inputs", files, inputs: ins, opts: vec![Opt::default()], ..fcs::suites("F01", false).remove(0) }]
}

const KINDS: [(&str, Dump, u8); 4] = [("fail", Dump::Fail, 0), ("always", Dump::Always, 0), ("never", Dump::Never, 0), ("fail -vv", Dump::Fail, 2)];

fn suite(run: &Run, explore: bool, s: &Suite, o: &Opt) {
    let stats: std::sync::Mutex<BTreeMap<String, (u64, String)>> = Default::default();
    let max = if s.tag == "long inputs" || run.thorough() { usize::MAX } else { 20 };
    par_for(run, s.files.len(), |fi| {
        let checks = &s.files[fi];
        let text = fcm::render(checks);
        let inputs: Vec<(&String, Rejection)> = s
            .inputs
            .iter()
            .filter(|i| !i.contains('\t') && !i.is_empty())
            .take(max)
            .filter_map(|i| match fcm::eval_all(checks, o, i) {
                (Verdict::Reject(_), Some(r)) => Some((i, r)),
                _ => None,
            })
            .collect();
        if inputs.is_empty() {
            return;
        }
        let mut reports: Vec<Vec<Option<Report>>> = vec![];
        for (_, dump, verbose) in KINDS {
            // (the same as "fail": short of the thorough tier, long inputs show it)
            if dump == Dump::Always && s.tag != "long inputs" && !run.thorough() {
                reports.push(vec![None; inputs.len()]);
                continue;
            }
            let mut config = config(o);
            config.options.dump_input = dump;
            config.options.verbose = verbose;
            let sm = config.source_manager.clone();
            let mf = sm.load(SourceLanguage::Unknown, FileName::from("checks.txt"), text.clone());
            let mut parser = CheckFileParser::new(&config);
            let Ok(Ok(Ok(program))) = guard(|| parser.parse(mf.id(), mf.as_str()).map(|f| f.compile(&config))) else { return };
            let mut checker = Checker::new(&config, program, mf.clone());
            reports.push(
                inputs
                    .iter()
                    .map(|(input, _)| {
                        let src = sm.load(SourceLanguage::Unknown, FileName::from("input.txt"), input.to_string());
                        match guard(|| checker.check_input(src).into_result()) {
                            Ok(Err(e)) => {
                                let mut v = vec![];
                                spots(&e, None, &mut v);
                                // (how many failures the report consists of)
                                v.push((e.errors().len().to_string(), vec![]));
                                Some(v)
                            }
                            _ => None,
                        }
                    })
                    .collect(),
            );
        }
        let mut n = 0;
        for (k, (input, r)) in inputs.iter().enumerate() {
            let got: Vec<Option<&Report>> = reports.iter().map(|v| v[k].as_ref()).collect();
            n += got.iter().flatten().count() as u64;
            for (i, (name, ..)) in KINDS.iter().enumerate() {
                // (whether it is rejected is what the other properties are about)
                let Some(v) = got[i] else { continue };
                let Some(w) = judge(checks, o, input, r, i, v, got[2]) else { continue };
                let d = format!("check file:\n{text}\ninput: {input:?}\noptions: {o:?} --dump-input={name}\nmodel: {:?} {:?}\nreport: {v:#?}", r.why, r.matched);
                if explore {
                    let shape: String = checks.iter().map(|c| c.directive()).collect();
                    let mut g = stats.lock().unwrap();
                    let e = g.entry(format!("{w} {} {shape}", r.why.what)).or_insert((0, d.clone()));
                    e.0 += 1;
                    if d.len() < e.1.len() {
                        e.1 = d;
                    }
                } else {
                    run.violation(format!("{w}: {} on {input:?}{} dump-input={name}", text.trim_end().replace('\n', "; "), o.text()), d);
                }
            }
            if run.done() {
                break;
            }
        }
        run.count(n, n, n);
    });
    run.bound(format!("{}: {} check files x up to {} inputs{}, with each of {} ways of showing the input", s.tag, s.files.len(), s.inputs.len().min(max), o.text(), KINDS.len()));
    let mut v: Vec<_> = stats.into_inner().unwrap().into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1.0));
    if explore {
        println!("=== {} {}: {} divergence classes", s.tag, o.text(), v.len());
        for (k, (n, d)) in v.iter().take(6) {
            println!("--- {n} x {k}\n{d}\n");
        }
    }
}

/// All numbers in a text.
fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect()
}

const DUMP: &str = "the input that was checked";
const NOWHERE: &str = "no match anywhere in this region";
const FIRST: &str = "search began here";
const LAST: &str = "no match was found in any of the intervening lines";
const NOTES: [&str; 2] = ["the search began at the end of the input", "the region of input available to be searched was empty"];
const AGAIN: &str = "searched the same region of the input as an earlier failure";

fn about_input(x: &(String, Vec<Spot>)) -> bool {
    x.0.starts_with(DUMP) || x.0 == AGAIN || NOTES.iter().any(|n| x.0.starts_with(n)) || x.1.iter().any(|s| [NOWHERE, FIRST, LAST].contains(&s.text.as_str()))
}

fn judge(checks: &[Ck], o: &Opt, input: &str, r: &Rejection, kind: usize, v: &Report, never: Option<&Report>) -> Option<&'static str> {
    let (failures, v) = v.split_last().unwrap();
    let plain = |v: &[(String, Vec<Spot>)]| -> Vec<String> { v.iter().filter(|x| !about_input(x)).map(|x| format!("{x:?}")).collect() };
    if kind == 2 {
        return v.iter().any(about_input).then_some("input shown though it is not to be");
    }
    // nothing else depends on it
    if let Some(n) = never
        && plain(v) != plain(&n[..n.len() - 1])
    {
        return Some("the rest of the report depends on whether the input is shown");
    }
    // the dump
    let dumps: Vec<_> = v.iter().filter(|x| x.0.starts_with(DUMP)).collect();
    let [dump] = dumps[..] else { return Some("the input is not shown once") };
    if !std::ptr::eq(dump, v.last().unwrap()) {
        return Some("the input is not shown last");
    }
    let lines = input.strip_suffix('\n').unwrap_or(input).split('\n').count();
    if numbers(&dump.0) != [lines, failures.0.parse::<usize>().unwrap()] {
        return Some("the number of lines or failures is wrong");
    }
    if dump.1.iter().any(|s| s.file != "input.txt") {
        return Some("the dump is of something else");
    }
    let Some(whole) = dump.1.iter().find(|s| s.text.contains("checks matched") || s.text.contains("check(s) matched")) else { return Some("the dump does not say how many checks matched") };
    if (whole.start, whole.end) != (0, input.len()) {
        return Some("not all of the input is shown");
    }
    let shown: Vec<(usize, usize, Option<usize>)> = dump.1.iter().filter(|s| !std::ptr::eq(*s, whole)).map(|s| (s.start, s.end, numbers(&s.text).first().copied())).collect();
    if shown.iter().any(|x| x.0 >= x.1 || x.2.is_none()) {
        return Some("a match shown is empty or of no check");
    }
    let total = numbers(&whole.text).first().copied().unwrap_or(0);
    if total < shown.len() {
        return Some("more matches are shown than are said to be");
    }
    // (text found by unordered checks may yet be discarded, as it is beyond a check that follows)
    let after_dag = checks[..r.why.first.min(checks.len())].iter().rev().find(|c| c.kind != Not).is_some_and(|c| c.kind == Dag);
    if let Some(m) = r.matched.as_ref().filter(|_| !after_dag) {
        let all: Vec<(usize, usize, usize)> = m.iter().enumerate().flat_map(|(i, v)| v.iter().map(move |s| (s.0, s.1, i + 1))).collect();
        let count = |v: &[(usize, usize, Option<usize>)], x: &(usize, usize, usize)| v.iter().filter(|y| (y.0, y.1, y.2) == (x.0, x.1, Some(x.2))).count();
        for x in all.iter().filter(|x| x.0 < x.1) {
            if count(&shown, x) != 1 {
                return Some("a match is not shown once");
            }
        }
        if total < all.len() {
            return Some("fewer matches are said to be than there are");
        }
        // nothing comes after the failure
        let last = r.why.what != "label not found" && r.why.last == checks.len() - 1 && r.failed == 1 && !matches!(checks[r.why.last].kind, Dag | Not | Count(_)) && r.why.region.is_some();
        if last && (shown.len() != all.iter().filter(|x| x.0 < x.1).count() || total != all.len()) {
            return Some("more matches are shown than there are");
        }
    }
    // where a pattern was searched for
    let at = |x: &(String, Vec<Spot>), l: usize| x.1.first().is_some_and(|s| s.file == "checks.txt" && s.line == l);
    let mut regions = vec![];
    for (p, x) in v.iter().enumerate() {
        let ends = x.1.iter().find(|s| s.text == FIRST);
        let Some(s) = ends.or(x.1.iter().find(|s| s.text == NOWHERE)) else { continue };
        let (start, end) = match ends {
            None => (s.start, s.end),
            Some(f) => {
                let Some(l) = v.get(p + 1).and_then(|y| y.1.iter().find(|s| s.text == LAST)) else { return Some("only one end of a region is shown") };
                let to_end = v[p + 1].0.contains("end of the input");
                let end = input[l.start..].find('\n').map_or(input.len(), |n| l.start + n + 1);
                if to_end != (end >= input.len()) && to_end {
                    return Some("a region is wrongly said to end with the input");
                }
                (f.start, end)
            }
        };
        if regions.contains(&(start, end)) {
            return Some("a region is shown twice");
        }
        regions.push((start, end));
        let line = |p: usize| input.as_bytes()[..p].iter().filter(|b| **b == b'\n').count() + 1;
        let (first, last) = (line(start), line(end - 1));
        let n = last - first + 1;
        if ends.is_some() == (kind == 3 || n <= 10) {
            return Some("a region is shown in the wrong way");
        }
        let want = match ends {
            Some(_) => vec![n, first, last],
            None if first == last => vec![first],
            None => vec![first, last],
        };
        if numbers(&x.0) != want {
            return Some("the lines of a region are wrong");
        }
    }
    // the one that decides
    if let Some((a, b)) = r.why.region
        && !matches!(checks[r.why.first].kind, Dag | Count(_))
        && !after_dag
        && let Some(p) = v.iter().position(|x| at(x, r.why.first) && !x.1[0].text.contains("this check failed"))
        && !v[p].0.contains("error occurred")
    {
        // (found elsewhere)
        if let Some(s) = p.checked_sub(1).and_then(|p| v[p].1.first()).filter(|s| s.file == "input.txt" && s.text == "match found here") {
            if !v[p - 1].0.contains("wrong line") {
                return None;
            }
            let c = &checks[r.why.first];
            let pure = c.parts.iter().all(|p| matches!(p, Part::Lit(_) | Part::Re(_)));
            if a <= s.start && s.end <= b && a < b {
                return Some("a match is said to be on the wrong line that is not");
            }
            if pure && !fcm::matches_exactly(c, o, &Default::default(), r.why.first, input.as_bytes(), s.start, s.end) {
                return Some("the match on the wrong line is none");
            }
            return None;
        }
        let note = v.get(p + 1).filter(|x| about_input(x) && !x.0.starts_with(DUMP));
        let got = match note {
            None => return Some("it is not shown where the pattern was searched for"),
            Some(x) if x.1.is_empty() => None,
            Some(x) if x.1[0].text == FIRST => Some((x.1[0].start, None)),
            Some(x) => Some((x.1[0].start, Some(x.1[0].end))),
        };
        let line = |p: usize| input.as_bytes()[..p].iter().filter(|b| **b == b'\n').count();
        match got {
            None if a < b => return Some("a region that is not empty is said to be"),
            Some(_) if a >= b => return Some("an empty region is shown"),
            Some((s, _)) if s != a => return Some("the region starts elsewhere"),
            Some((_, Some(e))) if e != b => return Some("the region ends elsewhere"),
            Some((_, None)) if v.get(p + 2).and_then(|y| y.1.first()).is_none_or(|s| line(s.start) != line(b - 1)) => return Some("the region ends on another line"),
            _ => {}
        }
    }
    None
}
