//! Driving the real FileCheck engine on enumerated check files and inputs, against `fcm`.
use crate::fcm::{self, *};
use crate::fw::*;
use filecheck::{Config, Test, check::{CheckProgram, Checker}, parse::CheckFileParser};
use litcheck::Symbol;
use litcheck::diagnostics::{FileName, Report, SourceLanguage, SourceManager};
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
pub enum Real {
    Accept(Vec<(usize, usize)>),
    Reject,
    Invalid(String),
    Panic(String),
}

pub fn config(o: &Opt) -> Config {
    let mut c = Config::default();
    let p = &mut c.options;
    p.allow_empty = o.allow_empty;
    p.strict_whitespace = o.strict_ws;
    p.match_full_lines = o.full_lines;
    p.ignore_case = o.icase;
    p.enable_var_scope = o.scope;
    p.implicit_check_not = o.implicit.iter().map(|s| Symbol::intern(s.as_str())).collect();
    for (n, v) in &o.defs {
        let t = match v {
            Val::S(s) => format!("{n}={s}"),
            Val::N(x, f) if *f == NumFmt::U => format!("#{n}={x}"),
            Val::N(x, f) => format!("#{},{n}={x}", f.text()),
        };
        p.variables.push(t.parse().unwrap_or_else(|_| panic!("cli variable {t}")));
    }
    c
}

/// Compile a check file once and run it over many inputs.
pub fn with_checks(
    config: &Config,
    text: &str,
    render_errors: bool,
    body: impl FnOnce(&mut dyn FnMut(&str) -> Real),
) {
    let sm = config.source_manager.clone();
    let mf = sm.load(SourceLanguage::Unknown, FileName::from("checks.txt"), text.to_string());
    let compiled = guard(|| {
        let mut parser = CheckFileParser::new(config);
        match parser.parse(mf.id(), mf.as_str()) {
            Err(e) => Err(show(&Report::new(e).with_source_code(mf.clone()))),
            Ok(cf) => cf.compile(config).map_err(|e| show(&e)),
        }
    });
    let program: CheckProgram = match compiled {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return body(&mut |_| Real::Invalid(e.clone())),
        Err(p) => return body(&mut |_| Real::Panic(format!("compiling: {p}"))),
    };
    let mut checker = Checker::new(config, program, mf.clone());
    let mut one = |input: &str| -> Real {
        let src = sm.load(SourceLanguage::Unknown, FileName::from("input.txt"), input.to_string());
        match case(text, input, || guard(|| {
            let r = checker.check_input(src);
            if r.is_ok() || render_errors {
                r.into_result()
                    .map(|v| {
                        v.iter()
                            .map(|m| (m.span.start().to_usize(), m.span.end().to_usize()))
                            .collect::<Vec<_>>()
                    })
                    .map_err(|e| show(&Report::new(e)))
            } else {
                Err(String::new())
            }
        })) {
            Ok(Ok(v)) => Real::Accept(v),
            Ok(Err(_)) => Real::Reject,
            Err(p) => Real::Panic(p),
        }
    };
    body(&mut one)
}

pub fn show(r: &Report) -> String {
    format!("{r:?}")
}

/// The one-shot public entry point.
pub fn verify(config: &Config, text: &str, input: &str) -> Real {
    let sm = config.source_manager.clone();
    let mf = sm.load(SourceLanguage::Unknown, FileName::from("checks.txt"), text.to_string());
    let src = sm.load(SourceLanguage::Unknown, FileName::from("input.txt"), input.to_string());
    match guard(|| {
        Test::new(mf, config).verify(src).map_err(|e| show(&e)).map(|v| {
            v.iter()
                .map(|m| (m.span.start().to_usize(), m.span.end().to_usize()))
                .collect::<Vec<_>>()
        })
    }) {
        Ok(Ok(v)) => Real::Accept(v),
        Ok(Err(e)) => {
            let _ = e;
            Real::Reject
        }
        Err(p) => Real::Panic(p),
    }
}

/// One divergence, or None.
pub fn judge(checks: &[Ck], o: &Opt, input: &str, model: &Verdict, real: &Real, spans: bool) -> Option<&'static str> {
    match (model, real) {
        (Verdict::Ambiguous, Real::Accept(b)) if spans => unsound(checks, o, input, b),
        (_, Real::Panic(_)) => Some("panic"),
        (Verdict::Ambiguous, _) => None,
        (Verdict::Accept(a), Real::Accept(b)) => (spans && a != b).then_some("wrong-spans"),
        (Verdict::Accept(_), Real::Invalid(_)) => Some("valid-check-file-rejected"),
        (Verdict::Accept(_), Real::Reject) => Some("rejected-but-should-pass"),
        (Verdict::Reject(_), Real::Accept(_)) => Some("accepted-but-should-fail"),
        (Verdict::Reject(_), _) => None,
    }
}

/// What any acceptance must satisfy even where more than one matching is possible: every reported
/// span is text its pattern matches, and the members of an unordered group do not overlap.
fn unsound(checks: &[Ck], o: &Opt, input: &str, b: &[(usize, usize)]) -> Option<&'static str> {
    let t = if o.strict_ws { input.to_string() } else { input.replace('\t', " ") };
    let t = t.as_bytes();
    let want: usize = checks
        .iter()
        .map(|c| match c.kind {
            Not => 0,
            Count(n) => n as usize,
            _ => 1,
        })
        .sum();
    if want != b.len() {
        return Some("number-of-matches");
    }
    let mut k = 0;
    let mut group: Vec<(usize, usize)> = vec![];
    for (i, c) in checks.iter().enumerate() {
        if c.kind == Not {
            continue;
        }
        let n = if let Count(n) = c.kind { n as usize } else { 1 };
        if c.kind != Dag || i == 0 || checks[i - 1].kind != Dag {
            group.clear();
        }
        for _ in 0..n {
            let (s, e) = b[k];
            k += 1;
            if c.kind == Dag {
                if group.iter().any(|x| s < x.1 && x.0 < e) {
                    return Some("overlapping-unordered-matches");
                }
                group.push((s, e));
            }
            let uses = c.parts.iter().any(|p| matches!(p, Part::Use(_) | Part::Num { expr: Some(_), .. }));
            if c.kind != Empty
                && !uses
                && !fcm::matches_exactly(c, o, &Default::default(), i, t, s, e)
            {
                return Some("reported-span-does-not-match-its-pattern");
            }
        }
    }
    None
}

/// Enumerate `files` x `inputs` under `o`.
pub fn sweep(run: &Run, tag: &str, files: &[Vec<Ck>], inputs: &[String], o: &Opt, spans: bool, crlf: bool) {
    let explore = std::env::var("FC_EXPLORE").is_ok();
    let stats: std::sync::Mutex<BTreeMap<String, (u64, String)>> = Default::default();
    par_for(run, files.len(), |fi| {
        let checks = &files[fi];
        let text = fcm::render(checks);
        let config = config(o);
        let mut oc: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut n = 0;
        with_checks(&config, &text, false, |one| {
            for input in inputs {
                let m = fcm::eval(checks, o, input);
                let given = if crlf { input.replace('\n', "\r\n") } else { String::new() };
                let given = if crlf { &given } else { input };
                let mut r = one(given);
                if let (true, Real::Accept(v)) = (crlf, &mut r) {
                    // where the same text is without the carriage returns
                    let back = |p: usize| p - given[..p].matches("\r\n").count() + 1_000_000 * given[..p].ends_with('\r') as usize;
                    for s in v {
                        *s = (back(s.0), back(s.1));
                    }
                }
                n += 1;
                *oc.entry(match (&m, &r) {
                    (Verdict::Ambiguous, _) => "ambiguous",
                    (_, Real::Accept(_)) => "accepted",
                    (_, Real::Invalid(_)) => "invalid",
                    _ => "rejected",
                })
                .or_default() += 1;
                if let Some(kind) = judge(checks, o, input, &m, &r, spans) {
                    let mut d = String::new();
                    let _ = write!(
                        d,
                        "check file:\n{text}\ninput: {given:?}\noptions: {o:?}\nmodel: {m:?}\nimplementation: {r:?}"
                    );
                    if explore {
                        let shape: String = checks.iter().map(|c| c.directive()).collect();
                        let k = format!("{kind} {tag} {}", if kind == "panic" { format!("{r:?}") } else { shape });
                        let mut g = stats.lock().unwrap();
                        let e = g.entry(k).or_insert((0, d.clone()));
                        e.0 += 1;
                        if d.len() < e.1.len() {
                            e.1 = d;
                        }
                    } else {
                        run.violation(
                            format!("{kind}: {} on {given:?}{}", text.trim_end().replace('\n', "; "), o.text()),
                            d,
                        );
                    }
                }
                if run.done() {
                    break;
                }
            }
        });
        run.count(n, n, n);
        run.outcomes(&oc);
    });
    if explore {
        let mut v: Vec<_> = stats.into_inner().unwrap().into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1.0));
        println!("=== {tag}: {} divergence classes", v.len());
        for (k, (n, d)) in v.iter().take(25) {
            println!("--- {n} x {k}\n{d}\n");
        }
    }
}

pub fn inputs(lines: &[&str], max: usize) -> Vec<String> {
    let mut v = vec![];
    for s in sequences(lines, 1, max) {
        let t = s.join("\n");
        v.push(t.clone());
        v.push(t + "\n");
    }
    v.sort();
    v.dedup();
    v.sort_by_key(|s| s.len());
    v
}

