//! F16: what a rejection reports. The diagnostics of every rejection are read through the same
//! interface the renderer uses (labels and the source text they point into): the first place in
//! the check file must be the check that fails, an excluded match must be shown where it is, the
//! dump of the input must attribute text to checks which match it.
use crate::fc::config;
use crate::fcm::{self, *};
use crate::fcs::{self, Suite};
use crate::fw::*;
use filecheck::{check::Checker, parse::CheckFileParser};
use litcheck::diagnostics::{Diagnostic, FileName, Report, SourceCode, SourceLanguage, SourceManager};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Spot {
    pub file: String,
    pub line: usize,
    pub col: usize,
    pub start: usize,
    pub end: usize,
    pub text: String,
}

/// Every place a diagnostic shows, in the order of the report.
pub fn spots(d: &dyn Diagnostic, code: Option<&dyn SourceCode>, out: &mut Vec<(String, Vec<Spot>)>) {
    let own = d.source_code();
    let code = own.or(code);
    let mut v = vec![];
    if let (Some(labels), Some(code)) = (d.labels(), code) {
        let mut labels: Vec<_> = labels.collect();
        if let Some(p) = labels.iter().position(|l| l.primary()) {
            let l = labels.remove(p);
            labels.insert(0, l);
        }
        for l in labels {
            let (start, end) = (l.offset(), l.offset() + l.len());
            let c = match code.read_span(l.inner(), 0, 0) {
                Ok(c) => (c.name().unwrap_or("").to_string(), c.line(), c.column()),
                Err(e) => (format!("unreadable: {e:?}"), 0, 0),
            };
            v.push(Spot { file: c.0, line: c.1, col: c.2, start, end, text: l.label().unwrap_or("").to_string() });
        }
    }
    out.push((d.to_string(), v));
    if let Some(r) = d.related() {
        for r in r {
            spots(r, code, out);
        }
    }
}

pub fn check(run: &Run) {
    let explore = std::env::var("FC_EXPLORE").is_ok();
    let _ = litcheck::reporting::set_hook(Box::new(|_| Box::new(litcheck::reporting::ReportHandlerOpts::new().width(200).build())));
    let len = 3;
    let mut all: Vec<Suite> = vec![];
    for id in ["F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F09", "F10", "F12", "F14"] {
        all.extend(fcs::suites(id, false).into_iter().map(|mut s| {
            s.files.retain(|f| f.len() <= len);
            s
        }));
    }
    for id in ["F01", "F02", "F03", "F04", "F05", "F06"] {
        all.extend(fcs::cross(id, false).into_iter().map(|mut s| {
            if !run.thorough() {
                let mut k = 0;
                s.inputs.retain(|_| {
                    k += 1;
                    k % 29 == 0
                });
            }
            s
        }));
    }
    run.assume("which of several failures is reported first is not specified where one of them is an exclusion or an unordered check");
    for s in &all {
        // (whole lines are a recorded finding, see F10)
        for o in s.opts.iter().filter(|o| !o.full_lines) {
            suite(run, explore, s, o);
        }
    }
}

fn suite(run: &Run, explore: bool, s: &Suite, o: &Opt) {
    let stats: std::sync::Mutex<BTreeMap<String, (u64, String)>> = Default::default();
    let max = if run.thorough() { usize::MAX } else { 150 };
    par_for(run, s.files.len(), |fi| {
        let checks = &s.files[fi];
        let text = fcm::render(checks);
        let config = config(o);
        let sm = config.source_manager.clone();
        let mf = sm.load(SourceLanguage::Unknown, FileName::from("checks.txt"), text.clone());
        let mut parser = CheckFileParser::new(&config);
        let Ok(Ok(program)) = guard(|| parser.parse(mf.id(), mf.as_str()).map(|f| f.compile(&config))) else { return };
        let Ok(program) = program else { return };
        let mut checker = Checker::new(&config, program, mf.clone());
        let mut n = 0;
        let mut oc: BTreeMap<&'static str, u64> = BTreeMap::new();
        for input in s.inputs.iter().filter(|i| !i.contains('\t')).take(max) {
            let (m, why) = fcm::eval_why(checks, o, input);
            let (Verdict::Reject(_), Some(why)) = (m, why) else { continue };
            let src = sm.load(SourceLanguage::Unknown, FileName::from("input.txt"), input.to_string());
            let Ok(Err(e)) = guard(|| checker.check_input(src).into_result()) else { continue };
            n += 1;
            *oc.entry(why.what).or_default() += 1;
            let mut v = vec![];
            spots(&e, None, &mut v);
            let mut wrong = judge(checks, o, &text, input, why, &v);
            // the text of the report leads with that place
            if n <= 12
                && wrong.is_none()
                && let Some(f) = v.iter().flat_map(|x| x.1.first()).find(|s| s.file == "checks.txt")
            {
                let shown = format!("{:?}", Report::new(e));
                let place = format!("checks.txt:{}:", f.line + 1);
                if shown.find("checks.txt:").is_none_or(|p| !shown[p..].starts_with(&place)) {
                    wrong = Some("the text of the report does not lead to the place");
                }
            }
            if let Some(w) = wrong {
                let d = format!("check file:\n{text}\ninput: {input:?}\noptions: {o:?}\nmodel: {why:?}\nreport: {v:#?}");
                if explore {
                    let shape: String = checks.iter().map(|c| c.directive()).collect();
                    let mut g = stats.lock().unwrap();
                    let e = g.entry(format!("{w} {} {shape}", why.what)).or_insert((0, d.clone()));
                    e.0 += 1;
                    if d.len() < e.1.len() {
                        e.1 = d;
                    }
                } else {
                    run.violation(format!("{w}: {} on {input:?}{}", text.trim_end().replace('\n', "; "), o.text()), d);
                }
            }
            if run.done() {
                break;
            }
        }
        run.count(n, n, n);
        run.outcomes(&oc);
    });
    run.bound(format!("{}: {} check files x up to {} inputs{}", s.tag, s.files.len(), s.inputs.len().min(max), o.text()));
    let mut v: Vec<_> = stats.into_inner().unwrap().into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1.0));
    if explore {
        println!("=== {} {}: {} divergence classes", s.tag, o.text(), v.len());
        for (k, (n, d)) in v.iter().take(8) {
            println!("--- {n} x {k}\n{d}\n");
        }
    }
}

/// Does the model blame line `l` when some of the exclusions and unordered checks are left out?
/// (Which of several failures is reported first is not specified where one of them is about these.)
/// The second result tells whether this is unspecified for one of them.
fn blames(checks: &[Ck], o: &Opt, input: &str, l: usize) -> (Vec<Why>, bool) {
    let soft: Vec<usize> = (0..checks.len()).filter(|&i| i != l && matches!(checks[i].kind, Not | Dag)).collect();
    let mut v = vec![];
    let mut open = false;
    for m in 0u32..1 << soft.len() {
        let keep: Vec<usize> = (0..checks.len()).filter(|i| soft.iter().position(|s| s == i).is_none_or(|b| m >> b & 1 == 0)).collect();
        let part: Vec<Ck> = keep.iter().map(|&i| checks[i].clone()).collect();
        for o in [o, &Opt { implicit: vec![], ..o.clone() }] {
            match fcm::eval_why(&part, o, input) {
                (Verdict::Reject(_), Some(w)) if w.first != usize::MAX && (keep[w.first]..=keep[w.last]).contains(&l) => v.push(w),
                (Verdict::Ambiguous, _) => open = true,
                _ => {}
            }
        }
    }
    (v, open)
}

/// The line numbers a message gives.
fn lines_in(s: &str) -> Option<(usize, usize)> {
    let at = s.find("line ").map(|p| p + 5).or(s.find("lines ").map(|p| p + 6))?;
    let num = |s: &str| s.chars().take_while(char::is_ascii_digit).collect::<String>().parse::<usize>().ok();
    let a = num(&s[at..])?;
    let rest = s[at..].trim_start_matches(|c: char| c.is_ascii_digit());
    Some((a, rest.strip_prefix('-').and_then(num).unwrap_or(a)))
}

fn judge(checks: &[Ck], o: &Opt, text: &str, input: &str, why: Why, v: &[(String, Vec<Spot>)]) -> Option<&'static str> {
    let pure = |i: usize| checks[i].parts.iter().all(|p| matches!(p, Part::Lit(_) | Part::Re(_)));
    let flat: Vec<&Spot> = v.iter().flat_map(|x| &x.1).collect();
    for s in &flat {
        let t = match s.file.as_str() {
            "checks.txt" => text,
            "input.txt" => input,
            f if f.starts_with("unreadable") => return Some("shows a place that does not exist"),
            _ => continue,
        };
        if s.end > t.len() {
            return Some("shows a place beyond the end");
        }
        let start = t.as_bytes()[..s.start].iter().rposition(|b| *b == b'\n').map_or(0, |p| p + 1);
        // columns are counted in characters
        let col = t[start..].char_indices().take_while(|(i, _)| start + i < s.start).count();
        if s.line != t.as_bytes()[..s.start].iter().filter(|b| **b == b'\n').count() || s.col != col {
            return Some("the line or column shown is not that of the place");
        }
    }
    // who is blamed
    let first = flat.iter().find(|s| s.file != "input.txt").filter(|s| s.file == "checks.txt");
    let found = flat.iter().find(|s| s.file == "input.txt");
    if why.first != usize::MAX {
        let Some(f) = first else {
            let implied = found.is_some_and(|f| fcm::implicit(o, input, f.start, f.end));
            // a group of exclusions, one of which cannot be evaluated, is blamed together
            let together = why.what == "excluded pattern cannot be evaluated"
                && flat.iter().any(|s| s.file == "checks.txt" && (why.first..=why.last).contains(&s.line));
            return (!implied && !together).then_some("nothing blamed");
        };
        if f.line >= checks.len() {
            return Some("blames a line without a check");
        }
        let mut ws = vec![why];
        if !(why.first..=why.last).contains(&f.line) {
            let open;
            (ws, open) = blames(checks, o, input, f.line);
            // whether a line follows a final newline is not specified
            let beyond = open && checks[f.line].kind == Next;
            // unordered text found, but beyond the check that follows and fails
            let overtaken = f.line < why.first && checks[f.line].kind == Dag && checks[f.line..why.first].iter().all(|c| matches!(c.kind, Dag | Not));
            // several exclusions are blamed together, and then the one which cannot be evaluated
            let together = why.what == "excluded pattern cannot be evaluated"
                && f.line < why.first
                && checks[f.line..why.first].iter().all(|c| c.kind == Not)
                && flat.iter().any(|s| s.file == "checks.txt" && (why.first..=why.last).contains(&s.line));
            // numbers too large to represent: where this shows is not specified
            let mut digits = 0;
            let huge = input.bytes().any(|b| {
                digits = if b.is_ascii_hexdigit() { digits + 1 } else { 0 };
                digits > 15
            });
            if ws.is_empty() && !overtaken && !together && !huge && !beyond {
                return Some(if f.line < why.first { "blames an earlier check" } else { "blames a later check" });
            }
        }
        // and the text it must not find
        if pure(f.line) && checks[f.line].kind == Not && ws.iter().any(|w| w.at.is_some()) {
            match found {
                None => return Some("the excluded text is not shown"),
                // any occurrence of it (which of several is shown is not specified)
                Some(f2)
                    if !fcm::matches_exactly(&checks[f.line], o, &Default::default(), f.line, input.as_bytes(), f2.start, f2.end)
                        || !ws.iter().any(|w| w.at.is_some_and(|a| a.0 <= f2.start)) =>
                {
                    return Some("the wrong text is shown as excluded");
                }
                _ => {}
            }
        }
    }
    if why.first == usize::MAX && first.is_none() && !found.is_some_and(|f| fcm::implicit(o, input, f.start, f.end)) {
        return Some("the wrong text is shown as excluded");
    }
    // how often a counted pattern was found
    if let Some((title, spots)) = v.iter().find(|x| x.0.contains("(matched "))
        && let Some(f) = spots.first()
        && let Some(Count(total)) = checks.get(f.line).map(|c| c.kind)
    {
        // (after unordered checks the explanation searches from before them: not specified)
        let unordered = checks[..f.line].iter().rev().find(|c| c.kind != Not).is_some_and(|c| c.kind == Dag);
        let n: Vec<usize> = title.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
        if n.len() == 2 && (n[1] != total as usize || n[0] >= n[1] || !unordered && why.first == f.line && why.what == "pattern not found" && n[0] != why.found) {
            return Some("the number of matches reported is wrong");
        }
    }
    // regions said to be without a match, and matches said to be of a check
    let mut blamed = None;
    for (title, spots) in v {
        for s in spots {
            if s.file == "checks.txt" {
                blamed = Some(s.line);
            } else if s.file == "input.txt" && s.text.contains("no match anywhere in this region") {
                let b = blamed?;
                // (unordered text may be there, but taken by another check of its group)
                if b < checks.len() && pure(b) && !matches!(checks[b].kind, Empty | Dag) && fcm::occurs(&checks[b], o, b, input, s.start, s.end) {
                    return Some("the pattern occurs in the region said to be without it");
                }
                let last = input.as_bytes()[..s.end.max(1) - 1].iter().filter(|b| **b == b'\n').count() + 1;
                if lines_in(title).is_some_and(|l| l != (s.line + 1, last)) {
                    return Some("the region is not made of the lines given");
                }
            } else if s.file == "input.txt" && s.text.contains("matched by the check on line") {
                let Some((l, _)) = lines_in(&s.text) else { continue };
                if l == 0 || l > checks.len() || checks[l - 1].kind == Not {
                    return Some("a match is attributed to a line without a check");
                }
                if pure(l - 1) && !fcm::matches_exactly(&checks[l - 1], o, &Default::default(), l - 1, input.as_bytes(), s.start, s.end) {
                    return Some("a match is attributed to a check which does not match it");
                }
            }
        }
    }
    None
}
