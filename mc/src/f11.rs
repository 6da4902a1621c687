//! F11: which lines of a check file are directives. A recogniser over the raw text, written from
//! the rules alone, yields a structured check file (or "invalid"), which the reference matcher of
//! `fcm` then evaluates; the real parser, compiler and matcher get the raw text.
use crate::fc::*;
use crate::fcm::*;
use crate::fw::*;
use filecheck::Config;
use litcheck::Symbol;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Prefixes {
    check: Vec<&'static str>,
    comment: Vec<&'static str>,
    allow_unused: bool,
}

impl Default for Prefixes {
    fn default() -> Self {
        Prefixes { check: vec!["CHECK"], comment: vec!["COM", "RUN"], allow_unused: false }
    }
}

pub enum Parsed {
    Checks(Vec<Ck>),
    Invalid(&'static str),
    /// not determined by the rules
    Open,
}

/// A directive header at the start of `s`: kind (None for a comment), literal, length with colon.
fn header(s: &str, p: &Prefixes, used: &mut [bool]) -> Option<(Option<Result<Kind, &'static str>>, bool, usize, usize)> {
    for c in &p.comment {
        if let Some(r) = s.strip_prefix(c) {
            if r.starts_with(':') {
                return Some((None, false, c.len() + 1, usize::MAX));
            }
        }
    }
    for (i, c) in p.check.iter().enumerate() {
        let Some(r) = s.strip_prefix(c) else { continue };
        let mut cand: Vec<(Result<Kind, &'static str>, &str)> = vec![(Ok(Plain), r)];
        for (t, k) in [("-NEXT", Next), ("-SAME", Same), ("-NOT", Not), ("-DAG", Dag), ("-LABEL", Label), ("-EMPTY", Empty)] {
            if let Some(x) = r.strip_prefix(t) {
                cand.push((Ok(k), x));
            }
        }
        if let Some(x) = r.strip_prefix("-COUNT-") {
            let n = x.bytes().take_while(|b| b.is_ascii_digit()).count();
            if n > 0 {
                let k = match x[..n].parse::<u32>() {
                    Ok(v @ 1..=255) => Ok(Count(v)),
                    _ => Err("count"),
                };
                cand.push((k, &x[n..]));
            }
        }
        for (k, x) in cand {
            let (lit, y) = match x.strip_prefix("{LITERAL}") {
                Some(y) => (true, y),
                None => (false, x),
            };
            if let Some(z) = y.strip_prefix(':') {
                used[i] = true;
                return Some((Some(k), lit, s.len() - z.len(), i));
            }
        }
    }
    None
}

pub fn parse(text: &str, p: &Prefixes) -> Parsed {
    let mut used = vec![false; p.check.len()];
    let mut out: Vec<Ck> = vec![];
    for line in text.split('\n') {
        let mut found = None;
        for (i, _) in line.char_indices() {
            let boundary = i == 0 || line[..i].ends_with(|c: char| c.is_whitespace());
            if boundary {
                if let Some(h) = header(&line[i..], p, &mut used) {
                    found = Some((h, i));
                    break;
                }
            }
        }
        let Some(((kind, literal, len, _), at)) = found else { continue };
        let Some(kind) = kind else { continue };
        let kind = match kind {
            Ok(k) => k,
            Err(e) => return Parsed::Invalid(e),
        };
        let rest = &line[at + len..];
        let pat = rest.trim_start_matches(|c: char| c.is_ascii_whitespace());
        if kind == Empty {
            if literal {
                return Parsed::Open;
            }
            if !pat.is_empty() {
                return Parsed::Invalid("EMPTY with a pattern");
            }
            out.push(Ck { kind, literal, parts: vec![] });
            continue;
        }
        if pat.is_empty() {
            return Parsed::Invalid("no pattern");
        }
        if pat != pat.trim_end() {
            return Parsed::Open;
        }
        let mut parts = vec![];
        let mut s = pat;
        if !literal {
            // only the one-block shapes the templates use
            while let Some((a, b)) = s.split_once("{{") {
                let (re, c) = b.split_once("}}").expect("template");
                if !a.is_empty() {
                    parts.push(Part::Lit(a.into()));
                }
                parts.push(Part::Re(re.into()));
                s = c;
            }
        }
        if !s.is_empty() {
            parts.push(Part::Lit(s.into()));
        }
        out.push(Ck { kind, literal, parts });
    }
    if out.is_empty() {
        return Parsed::Invalid("no directives");
    }
    if !p.allow_unused && used.contains(&false) {
        return Parsed::Invalid("unused prefix");
    }
    if out.iter().any(|c| c.kind == Label && !c.literal && c.defines()) {
        return Parsed::Open;
    }
    // NEXT, SAME and EMPTY need something before them in the file
    if let Some(c) = out.iter().find(|c| c.kind != Not) {
        if matches!(c.kind, Next | Same | Empty) {
            return Parsed::Invalid("adjacency with nothing before it");
        }
    }
    Parsed::Checks(out)
}

fn cfg(p: &Prefixes) -> Config {
    let mut c = config(&Opt::default());
    c.options.check_prefixes = p.check.iter().map(|s| Symbol::intern(*s)).collect();
    c.options.comment_prefixes = p.comment.iter().map(|s| Symbol::intern(*s)).collect();
    c.options.allow_unused_prefixes = p.allow_unused;
    c
}

/// The options for command line arguments, if they are accepted.
fn options(args: &[String]) -> Option<filecheck::Options> {
    use clap::{Args, FromArgMatches};
    let cmd = filecheck::Options::augment_args(clap::Command::new("filecheck").no_binary_name(true));
    let m = cmd.try_get_matches_from(args).ok()?;
    let o = filecheck::Options::from_arg_matches(&m).ok()?;
    o.validate().ok()?;
    Some(o)
}

/// Which names may be given as prefixes, and that those which may work as such.
fn names(run: &Run) {
    let names = strings(&["A", "z", "0", "_", "-", "\u{e9}", "\u{661}", " ", ".", "NOT", "NEXT", "COUNT-1"], run.pick(4, 5));
    let names: Vec<_> = names.into_iter().filter(|n| n != "-").collect();
    par_for(run, names.len(), |i| {
        let name = &names[i];
        let valid = name.starts_with(|c: char| c.is_ascii_alphabetic())
            && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-');
        let mut oc: BTreeMap<&'static str, u64> = BTreeMap::new();
        for flag in ["--check-prefix", "--check-prefixes", "--comment-prefix", "--comment-prefixes"] {
            let r = options(&[format!("{flag}={name}")]);
            *oc.entry(if valid { "name-accepted" } else { "name-invalid" }).or_default() += 1;
            if r.is_some() != valid {
                run.violation(format!("prefix-name: {flag}={name:?}"), format!("accepted: {}, expected: {valid}", r.is_some()));
                continue;
            }
            let Some(o) = r else { continue };
            let config = Config { options: o, ..Default::default() };
            let (text, inputs) = if flag.starts_with("--check") {
                (format!("zz {name}: a\n"), [("xay", true), ("b", false), ("zz", false)])
            } else {
                (format!("{name}: CHECK: b\nCHECK: a"), [("a", true), ("b", false), ("zz", false)])
            };
            with_checks(&config, &text, false, |one| {
                for (input, want) in inputs {
                    let real = one(input);
                    let ok = match real {
                        Real::Accept(_) => want,
                        Real::Reject => !want,
                        _ => false,
                    };
                    if !ok {
                        run.violation(format!("prefix-use: {flag}={name:?} {text:?} on {input:?}"), format!("{real:?}, expected acceptance: {want}"));
                    }
                }
            });
        }
        run.count(4, 4, 4);
        run.outcomes(&oc);
    });
    run.bound(format!("{} names of up to {} fragments given as check and as comment prefix, by either spelling of the option", names.len(), run.pick(4, 5)));

    let pool = ["CHECK", "COM", "RUN", "A", "AB", "check"];
    let mut lists: Vec<Option<Vec<&str>>> = vec![None];
    lists.extend(sequences(&pool, 1, 2).into_iter().filter(|v| v.len() < 2 || v[0] != v[1]).map(Some));
    for c in &lists {
        for k in &lists {
            let cs = c.clone().unwrap_or(vec!["CHECK"]);
            let ks = k.clone().unwrap_or(vec!["COM", "RUN"]);
            let valid = !cs.iter().any(|x| ks.contains(x));
            for split in [false, true] {
                let mut args = vec![];
                for (f, l) in [("--check-prefix", c), ("--comment-prefix", k)] {
                    match l {
                        None => (),
                        Some(l) if split => args.extend(l.iter().map(|x| format!("{f}={x}"))),
                        Some(l) => args.push(format!("{f}es={}", l.join(","))),
                    }
                }
                let r = options(&args);
                let mut got = r.map(|o| {
                    (o.check_prefixes.iter().map(|x| x.to_string()).collect::<Vec<_>>(), o.comment_prefixes.iter().map(|x| x.to_string()).collect::<Vec<_>>())
                });
                let mut want = valid.then(|| (cs.iter().map(|x| x.to_string()).collect::<Vec<_>>(), ks.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
                for x in [&mut got, &mut want].into_iter().flatten() {
                    x.0.sort();
                    x.1.sort();
                }
                run.count(1, 1, 1);
                if got != want {
                    run.violation(format!("prefix-lists: {args:?}"), format!("got {got:?}, expected {want:?}"));
                }
            }
        }
    }
    run.bound(format!("{0} x {0} lists of check and comment prefixes, which must be disjoint, in both spellings", lists.len()));
}

fn sweep(run: &Run, tag: &str, files: &[String], inputs: &[&str], p: &Prefixes) {
    let explore = std::env::var("FC_EXPLORE").is_ok();
    let o = Opt::default();
    par_for(run, files.len(), |fi| {
        let text = &files[fi];
        let config = cfg(p);
        let parsed = parse(text, p);
        let mut oc: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut n = 0;
        with_checks(&config, text, false, |one| {
            for &input in inputs.iter().chain([&text.as_str()]) {
                let real = one(input);
                n += 1;
                let (kind, model) = match &parsed {
                    Parsed::Open => {
                        *oc.entry("open").or_default() += 1;
                        (matches!(real, Real::Panic(_)).then_some("panic"), String::new())
                    }
                    Parsed::Invalid(e) => {
                        *oc.entry("invalid").or_default() += 1;
                        let k = match real {
                            Real::Invalid(_) => None,
                            Real::Panic(_) => Some("panic"),
                            // found only when the check runs
                            Real::Reject => None,
                            Real::Accept(_) => Some("invalid-check-file-accepted"),
                        };
                        (k, format!("invalid: {e}"))
                    }
                    Parsed::Checks(cks) => {
                        let m = eval(cks, &o, input);
                        *oc.entry("valid").or_default() += 1;
                        let k = match (&m, &real) {
                            (_, Real::Invalid(_)) if !input.is_empty() => Some("valid-check-file-rejected"),
                            _ => judge(cks, &o, input, &m, &real, true),
                        };
                        (k, format!("{cks:?}\n  {m:?}"))
                    }
                };
                if let Some(kind) = kind {
                    let d = format!(
                        "check file: {text:?}\ninput: {input:?}\nprefixes: {p:?}\nmodel: {model}\nimplementation: {real:?}"
                    );
                    if explore {
                        println!("--- {kind} {tag}\n{d}\n");
                        continue;
                    }
                    run.violation(format!("{kind}: {text:?} on {input:?} with {p:?}"), d);
                }
                if run.done() {
                    break;
                }
            }
        });
        run.count(n, n, n);
        run.outcomes(&oc);
    });
}

pub fn check(run: &Run) {
    names(run);
    let n = |q: usize, t: usize| run.pick(q, t);
    let p = |check: &[&'static str], comment: &[&'static str], allow_unused| Prefixes {
        check: check.to_vec(),
        comment: comment.to_vec(),
        allow_unused,
    };
    let default = p(&["CHECK"], &["COM", "RUN"], false);
    let inputs = ["", "a", "X", "aX\n", "a\na", "a\n\n", "CHECK: a", ": a", "-NEXT: a", "\n", "aa", "{{a}}"];
    let frag = strings(&["CHECK", "COM", "-NEXT", "-NOT", "-COUNT-2", "{LITERAL}", ":", " ", "a", "\n", "-"], n(4, 5));
    sweep(run, "fragments", &frag, &inputs, &default);
    run.bound(format!("every string of up to {} of 11 fragments of a check file ({}) x {} inputs", n(4, 5), frag.len(), inputs.len() + 1));

    let words = strings(&["CHECK", "xCHECK", "-CHECK", "_", "CHECK:", "RUN:", "//", " ", "\t", "\u{a0}", "a", "-DAG:", "-LABEL:", "-FOO:", "-EMPTY:", "-COUNT-0:", "-COUNT-3:", "-COUNT-x:", "-COUNT-256:", "-COUNT:"], n(3, 4));
    sweep(run, "words", &words, &inputs, &default);
    run.bound(format!("every string of up to {} of 20 words ({}) x {} inputs", n(3, 4), words.len(), inputs.len() + 1));

    // unusual characters around directives
    let odd = strings(&["\0", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{feff}", "\n", " ", "b"], n(2, 3));
    let mut files = vec![];
    for x in &odd {
        for d in ["CHECK: a", "CHECK-NOT: X", "CHECK-EMPTY:", "CHECK{LITERAL}: a", "COM: CHECK: zz"] {
            for more in ["", "\nCHECK: a", "\nCHECK-NEXT: a"] {
                files.extend([format!("{x}{d}{more}"), format!("b\n{x}{d}{more}"), format!("{d}\n{x}{more}"), format!("{d} {x}{more}"), format!("{d}{x}{more}\n")]);
            }
        }
    }
    let ins = ["", "a", "X", "a\na", "a\n\n", "\0", "a\0", "a\u{c}\na", "a \u{feff}", "ab\0b"];
    sweep(run, "unusual characters", &files, &ins, &default);
    run.bound(format!("directives with every string of up to {} of 9 unusual characters before, after and between them ({}) x {} inputs", n(2, 3), files.len(), ins.len() + 1));

    for k in 0..=260usize {
        let ins: Vec<String> = [k.saturating_sub(1), k, k + 1, k / 10, k % 100].iter().map(|n| "a".repeat(*n)).collect();
        let ins: Vec<&str> = ins.iter().map(|x| x.as_str()).collect();
        let mut files = vec![];
        for f in [format!("{k}"), format!("0{k}"), format!("00{k}")] {
            files.push(format!("CHECK-COUNT-{f}: a"));
            files.push(format!("CHECK: a\nCHECK-COUNT-{f}:a\nCHECK-NOT: a"));
        }
        sweep(run, "counts", &files, &ins, &default);
    }
    run.bound("every count 0..=260, with and without leading zeros, on inputs with fewer, as many and more repetitions");

    let templates = [
        "CHECK: a", "// CHECK-NEXT: a", "CHECK-SAME:X", ";  CHECK-NOT:  X", "CHECK-DAG: a", "CHECK-LABEL: X", "CHECK-EMPTY:", "CHECK-COUNT-2: a", "CHECK{LITERAL}: {{a}}", "CHECK-NOT{LITERAL}: {{a}}", "CHECK: {{a}}", "CHECK: a CHECK-NOT: a", "RUN: CHECK: zz", "COM: CHECK-NOT: a", "CHECK: a COM: b", "CHECK-FOO: a", "xCHECK: zz", "CHECK : zz", "check: zz", "", "text a", "CHECK-NEXT{LITERAL}: {{a}}", "CHECK-COUNT-0: a", "CHECK:", "CHECK-EMPTY: a", "CHECK-COUNT-1:a", "  CHECK: X", " \t CHECK-NEXT: a",
    ];
    let seqs: Vec<String> = sequences(&templates, 1, n(3, 3)).into_iter().map(|v| v.join("\n")).collect();
    let seqs: Vec<String> = seqs.iter().flat_map(|s| [s.clone(), format!("{s}\n"), format!("\n\n{s}")]).collect();
    sweep(run, "lines", &seqs, &inputs, &default);
    run.bound(format!("every sequence of up to 3 of 28 line templates, bare, newline-terminated and after blank lines ({}) x {} inputs", seqs.len(), inputs.len() + 1));

    let sets = [
        p(&["A"], &["COM"], false),
        p(&["A", "AB"], &["COM"], false),
        p(&["AB", "A"], &["COM"], false),
        p(&["A", "AB"], &["COM"], true),
        p(&["A-B", "A"], &["C"], true),
        p(&["A", "A-B"], &["A-C", "C"], true),
        p(&["CHECK", "A"], &["COM", "RUN"], false),
        p(&["A"], &["AB"], true),
        p(&["AB"], &["A"], true),
        p(&["A", "AB", "A-B"], &["COM"], false),
    ];
    let pf = strings(&["A", "B", "-B", "C", "-NEXT", "-NOT", "-COUNT-2", ":", " ", "a", "\n", "CHECK"], n(3, 4));
    let lines2 = ["A: a", "AB: a", "A-B: X", "A-NEXT: a", "AB-NOT: X", "C: A: zz", "COM: A: zz", "CHECK: zz", "A-B-NOT: a", "BA: zz", "A-C: A: zz", "A-B-NEXT: a", "AB-COUNT-2: a"];
    let mut l2: Vec<String> = sequences(&lines2, 1, n(3, 4)).into_iter().map(|v| v.join("\n")).collect();
    l2.extend(pf);
    for s in &sets {
        sweep(run, "prefixes", &l2, &inputs, s);
    }
    run.bound(format!("{} check files (fragment strings and line sequences) x {} inputs x {} prefix sets", l2.len(), inputs.len() + 1, sets.len()));
    run.assume("a pattern ending in whitespace, and the literal modifier on an EMPTY check, are left open: only absence of a crash is required");
}
