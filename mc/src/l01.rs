//! L01: feature expressions.
//!
//! Every token sequence and every character string up to a bound is parsed by the real
//! `BooleanExpr`, and, if accepted, evaluated under every set of features of a small universe;
//! both are compared with the grammar in the documentation, evaluated directly on the text.
use crate::fw::*;
use lit::Config;
use lit::config::{BooleanExpr, FeatureSet};
use lit::test::TestConfig;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    /// identifier or regex parts, up to the next operator or blank
    Word(Vec<(bool, String)>),
    Op(char),
}

fn ident(c: char) -> bool {
    c.is_ascii_alphanumeric() || "-+=._".contains(c)
}

/// `None`: not a sequence of tokens.
fn lex(s: &str) -> Option<Vec<Tok>> {
    let mut out: Vec<Tok> = vec![];
    let mut glued = false;
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        let push = |part: (bool, String), out: &mut Vec<Tok>, glued: bool| match out.last_mut() {
            Some(Tok::Word(w)) if glued => w.push(part),
            _ => out.push(Tok::Word(vec![part])),
        };
        if c.is_whitespace() {
            rest = &rest[c.len_utf8()..];
            glued = false;
        } else if ident(c) {
            let n = rest.find(|c| !ident(c)).unwrap_or(rest.len());
            push((false, rest[..n].into()), &mut out, glued);
            rest = &rest[n..];
            glued = true;
        } else if rest.starts_with("{{") {
            // the regex runs to the last two braces of the first run of at least two
            let body = &rest[2..];
            let mut end = body.find("}}")?;
            while body[end + 1..].starts_with("}}") {
                end += 1;
            }
            if end == 0 {
                return None;
            }
            push((true, body[..end].into()), &mut out, glued);
            rest = &body[end + 2..];
            glued = true;
        } else if rest.starts_with("&&") || rest.starts_with("||") {
            out.push(Tok::Op(c));
            rest = &rest[2..];
            glued = false;
        } else if "!()".contains(c) {
            out.push(Tok::Op(c));
            rest = &rest[1..];
            glued = false;
        } else {
            return None;
        }
    }
    Some(out)
}

/// Two operands side by side of which one is a regex block: the documented grammar does not say
/// whether blanks may separate the parts of a pattern.
fn ambiguous(ts: &[Tok]) -> bool {
    ts.windows(2).any(|w| match (&w[0], &w[1]) {
        (Tok::Word(a), Tok::Word(b)) => a.iter().chain(b).any(|p| p.0),
        _ => false,
    })
}

#[derive(Debug)]
enum M {
    Word(Vec<(bool, String)>),
    Not(Box<M>),
    And(Box<M>, Box<M>),
    Or(Box<M>, Box<M>),
}
/// The grammar, top down, by the place of the *last* top-level operator of lowest precedence.
fn parse(ts: &[Tok]) -> Option<M> {
    for op in ['|', '&'] {
        let mut depth = 0i32;
        for i in (0..ts.len()).rev() {
            match &ts[i] {
                Tok::Op(')') => depth += 1,
                Tok::Op('(') => depth -= 1,
                Tok::Op(c) if *c == op && depth == 0 => {
                    let (l, r) = (parse(&ts[..i])?, parse(&ts[i + 1..])?);
                    return Some(if op == '|' { M::Or(l.into(), r.into()) } else { M::And(l.into(), r.into()) });
                }
                _ => {}
            }
        }
    }
    match ts {
        [Tok::Op('!'), rest @ ..] => Some(M::Not(parse(rest)?.into())),
        [Tok::Op('('), mid @ .., Tok::Op(')')] => parse(mid),
        [Tok::Word(w)] => {
            if w.iter().any(|p| p.0) {
                // must be a valid regular expression
                regex::Regex::new(&concat(w)).ok()?;
            }
            Some(M::Word(w.clone()))
        }
        _ => None,
    }
}
fn concat(w: &[(bool, String)]) -> String {
    w.iter().map(|(re, s)| if *re { format!("({s})") } else { regex::escape(s) }).collect()
}
fn eval(m: &M, env: &[&str]) -> bool {
    match m {
        M::Word(w) => match &w[..] {
            [(false, s)] => match s.as_str() {
                "true" => true,
                "false" => false,
                s => env.contains(&s),
            },
            w => {
                let re = cached(&concat(w));
                env.iter().any(|f| re.is_match(f))
            }
        },
        M::Not(x) => !eval(x, env),
        M::And(x, y) => eval(x, env) & eval(y, env),
        M::Or(x, y) => eval(x, env) | eval(y, env),
    }
}
fn cached(s: &str) -> regex::Regex {
    thread_local!(static C: std::cell::RefCell<BTreeMap<String, regex::Regex>> = Default::default());
    C.with(|c| c.borrow_mut().entry(s.into()).or_insert_with(|| regex::Regex::new(s).unwrap()).clone())
}

fn one(run: &Run, input: &str, envs: &[Vec<&str>], n: &(AtomicU64, AtomicU64, AtomicU64)) {
    let bad = |kind: &str, what: String| run.violation(format!("{kind}: {input:?}"), what);
    let ts = lex(input);
    if ts.as_deref().is_some_and(ambiguous) {
        // only: no panic
        if let Err(p) = case("feature expression", input, || guard(|| input.parse::<BooleanExpr>().is_ok())) {
            bad("panic", p);
        }
        n.2.fetch_add(1, Relaxed);
        return;
    }
    let want = ts.and_then(|t| parse(&t));
    let got = match case("feature expression", input, || guard(|| input.parse::<BooleanExpr>())) {
        Ok(r) => r,
        Err(p) => return bad("panic", p),
    };
    match (&want, &got) {
        (None, Ok(e)) => bad("malformed expression accepted", format!("parsed as {e}")),
        (Some(m), Err(e)) => bad("well-formed expression rejected", format!("{e}; it is {m:?}")),
        (None, Err(_)) => {
            n.1.fetch_add(1, Relaxed);
        }
        (Some(m), Ok(e)) => {
            n.0.fetch_add(1, Relaxed);
            // messages show the expression: it must read as one that means the same
            // (which a block cannot if its pattern has a brace before the end)
            let text = Some(e.to_string()).filter(|t| !t.contains("})")).unwrap_or_else(|| input.to_string());
            let again = match guard(|| text.parse::<BooleanExpr>()) {
                Ok(Ok(again)) => again,
                r => return bad("shown as something else", format!("shown as {text:?}, which does not read as an expression: {r:?}")),
            };
            for env in envs {
                if again.evaluate(&&env[..]) != eval(m, env) {
                    return bad("shown as something else", format!("shown as {text:?}, which has another value with {env:?}"));
                }
                let want = eval(m, env);
                let got = guard(|| {
                    let set: BTreeSet<&str> = env.iter().copied().collect();
                    let fs = FeatureSet::new(env.iter().map(|s| s.to_string()));
                    let all = [e.evaluate(env), e.evaluate(&&env[..]), e.evaluate(&set), e.evaluate(&fs)];
                    (all, fs.missing_features(&[e.clone()]).is_none(), fs.unsupported_features(&[e.clone()]).is_some())
                });
                match got {
                    Ok((all, req, uns)) => {
                        if all.iter().any(|g| *g != want) || req != want || uns != want {
                            bad(
                                "wrong value",
                                format!("with {env:?}: should be {want}, evaluates to {all:?} (as list, slice, set, feature set), as a requirement {req}, as an unsupported condition {uns}\nparsed as {e}"),
                            );
                            return;
                        }
                    }
                    Err(p) => return bad("panic", p),
                }
            }
        }
    }
}

fn subsets<'a>(fs: &[&'a str]) -> Vec<Vec<&'a str>> {
    (0..1usize << fs.len()).map(|m| (0..fs.len()).filter(|i| m >> i & 1 == 1).map(|i| fs[i]).collect()).collect()
}

pub fn check(run: &Run) {
    let totals: Mutex<Vec<String>> = Mutex::new(vec![]);
    let family = |name: &str, inputs: Vec<String>, envs: &[Vec<&str>]| {
        let n = Default::default();
        par_for(run, inputs.len(), |i| one(run, &inputs[i], envs, &n));
        let (ok, no, amb) = (n.0.into_inner(), n.1.into_inner(), n.2.into_inner());
        let k = inputs.len() as u64;
        run.count(k, ok * envs.len() as u64 + no, k);
        run.outcomes(&[("accepted and evaluated", ok), ("rejected", no), ("blank inside a pattern (no verdict)", amb)].into_iter().collect());
        totals.lock().unwrap().push(format!("{name}: {k} inputs under {} feature sets", envs.len()));
    };

    // token sequences
    let toks = ["a", "b", "true", "!", "&&", "||", "(", ")"];
    let seq: Vec<String> = sequences(&toks, 0, run.pick(7, 8)).into_iter().map(|s| s.join(" ")).collect();
    family("token sequences", seq, &subsets(&["a", "b"]));
    let toks = ["a", "false", "{{b}}", "c", "!", "&&", "||", "(", ")"];
    let seq: Vec<String> = sequences(&toks, 0, run.pick(5, 6)).into_iter().map(|s| s.join("")).collect();
    family("token sequences without blanks", seq, &subsets(&["a", "b", "c", "ab"]));

    // longer, well-formed: every parenthesis-free formula
    let ops = ["&&", "||"];
    let lits = ["a", "!a", "b", "!b", "c", "!c"];
    let k = run.pick(4, 5);
    let mut f = vec![];
    for ls in sequences(&lits, k, k) {
        for os in sequences(&ops, k - 1, k - 1) {
            let mut s = ls[0].to_string();
            for (o, l) in os.iter().zip(&ls[1..]) {
                s.push_str(&format!(" {o} {l}"));
            }
            f.push(s);
        }
    }
    family("formulas of literals", f, &subsets(&["a", "b", "c"]));
    // one group placed anywhere in a chain of four or five
    let mut f = vec![];
    let chain = ["a", "b", "c", "d", "a"];
    for n in 3..=5 {
        for os in sequences(&ops, n - 1, n - 1) {
            for i in 0..n {
                for j in i + 1..n {
                    for neg in ["", "!", "!!"] {
                        let mut s = String::new();
                        for k in 0..n {
                            if k > 0 {
                                s.push_str(&format!(" {} ", os[k - 1]));
                            }
                            if k == i {
                                s.push_str(neg);
                                s.push('(');
                            }
                            s.push_str(chain[k]);
                            if k == j {
                                s.push(')');
                            }
                        }
                        f.push(s);
                    }
                }
            }
        }
    }
    family("grouped formulas", f, &subsets(&["a", "b", "c", "d"]));

    // character strings
    let ab = ["a", " ", "{", "}", "!", "&", "|", "(", ")", "."];
    family("character strings", strings(&ab, run.pick(6, 7)), &[vec![], vec!["a"], vec!["a", "."]]);
    let ab = ["a", "{", "}", "2", "\0", "é", "#", "\t", "\n", "-", "&&", "||"];
    family("odd character strings", strings(&ab, run.pick(5, 6)), &[vec![], vec!["a"], vec!["aa", "2"]]);

    // patterns
    let parts = [
        "a", "b-1", "target=", "{{a}}", "{{a|b}}", "{{a{2}}}", "{{a{1,2}b}}", "{{^a}}", "{{a$}}", "{{^(a|b)$}}", "{{.}}", "{{.+}}",
        "{{[}]}}", "{{(}}", "{{x86_64-.+}}", "{{}}", "{{ }}", "{{\\}}}", "{{a}b}}", "{{(?i)A}}", "-", "+", ".",
    ];
    let uni = [
        "a", "b", "aa", "ab", "aab", "b-1", "ab-1", "a}b", "xax", "}", "target=x86_64-unknown-linux-gnu", "target=aarch64-apple-darwin", "A",
        " ", "+", ".", "-",
    ];
    let mut envs: Vec<Vec<&str>> = vec![vec![]];
    envs.extend(uni.iter().map(|f| vec![*f]));
    envs.push(uni.to_vec());
    let seq: Vec<String> = sequences(&parts, 1, 3).into_iter().map(|s| s.concat()).collect();
    family("patterns of up to 3 parts", seq, &envs);
    let seq: Vec<String> = sequences(&parts, 1, 2).into_iter().flat_map(|s| [s.join(" && "), s.join(" || "), format!("!({})", s.join("||!"))]).collect();
    family("formulas of patterns", seq, &envs);

    // lists of conditions, and which of them the message names
    let few = ["a", "b", "!a", "a && b", "{{^[ab]$}} || c"];
    let lists = sequences(&few, 0, run.pick(5, 6));
    let envs = subsets(&["a", "b", "c"]);
    par_for(run, lists.len(), |i| {
        let l = &lists[i];
        let es: Vec<BooleanExpr> = l.iter().map(|e| e.parse().expect("valid")).collect();
        for env in &envs {
            let fs = FeatureSet::new(env.iter().map(|s| s.to_string()));
            let (yes, no): (Vec<_>, Vec<_>) = l.iter().zip(&es).map(|(s, e)| (eval(&parse(&lex(s).unwrap()).unwrap(), env), e.to_string())).partition(|x| x.0);
            let named = |m: Option<String>| m.map(|m| m.split_once(": ").map_or(m.clone(), |x| x.1.to_string()));
            let want = |v: Vec<(bool, String)>| (!v.is_empty()).then(|| v.into_iter().map(|x| x.1).collect::<Vec<_>>().join(", "));
            for (what, got, want) in [("missing", named(fs.missing_features(&es)), want(no)), ("unsupported", named(fs.unsupported_features(&es)), want(yes))] {
                if got != want {
                    run.violation(format!("list of conditions: {l:?} with {env:?}"), format!("{what}: {got:?}, should be {want:?}"));
                }
            }
        }
    });
    run.count(lists.len() as u64, (lists.len() * envs.len()) as u64, lists.len() as u64);
    totals.lock().unwrap().push(format!("lists of conditions: {} lists of up to {} under {} feature sets", lists.len(), run.pick(5, 6), envs.len()));

    // nesting
    let mut f = vec![];
    for n in [1usize, 2, 3, 10, 50, 100, 200] {
        f.push(format!("{}a", "!".repeat(n)));
        f.push(format!("{}a{}", "(".repeat(n), ")".repeat(n)));
        f.push(format!("{}a{}", "(".repeat(n), ")".repeat(n - 1)));
        f.push(format!("{}a{}", "(".repeat(n), ")".repeat(n + 1)));
        f.push(format!("{}a{}", "!(".repeat(n), ")".repeat(n)));
        f.push(vec!["a"; n].join(" && "));
        f.push(vec!["a"; n].join("||") + "&&b");
    }
    family("nesting", f, &subsets(&["a", "b"]));

    // features that come from the target
    let triples = [
        "x86_64-unknown-linux-gnu", "aarch64-apple-darwin", "x86_64-apple-darwin", "i686-unknown-linux-gnu", "armv7-unknown-linux-gnueabihf",
        "wasm32-unknown-unknown", "riscv64gc-unknown-linux-gnu", "x86_64-pc-windows-msvc",
        "x86_64h-apple-darwin", "i386-unknown-linux-gnu", "i586-pc-windows-msvc", "x86_64-unknown-freebsd", "aarch64-unknown-linux-gnu", "thumbv7em-none-eabi", "powerpc64le-unknown-linux-gnu", "s390x-unknown-linux-gnu",
        "aarch64-apple-macosx11.0.0", "x86_64-unknown-linux-musl", "wasm32-wasi", "mips-unknown-linux-gnu", "aarch64-apple-ios", "riscv32imac-unknown-none-elf",
    ];
    for t in triples {
        let mut cfg = Config::default();
        cfg.options.target = Some(t.parse().expect("triple"));
        let host = cfg.host().to_string();
        let mut tc = TestConfig::default();
        tc.set_default_features(&cfg);
        let arch = t.split('-').next().unwrap();
        let family = match arch {
            "i686" | "i386" | "i586" => "target-x86".to_string(),
            "x86_64h" => "target-x86_64".into(),
            "aarch64" => "target-aarch64".into(),
            "armv7" | "thumbv7em" => "target-arm".into(),
            a => format!("target-{a}"),
        };
        let mac = t.contains("darwin") || t.contains("macosx");
        let want = [
            (format!("target={t}"), true),
            (format!("host={host}"), true),
            (format!("target={{{{{arch}-.*}}}}"), true),
            ("target=nosuch".into(), false),
            ("native".into(), t == host),
            (family, true),
            ("system-linker-mach-o".into(), mac),
            ("x86_64-linux".into(), t.starts_with("x86_64") && t.contains("linux")),
            ("x86_64-apple".into(), t.starts_with("x86_64") && mac),
            ("target-x86_64".into(), arch == "x86_64" || arch == "x86_64h"),
            ("target-x86".into(), arch.starts_with('i')),
            ("target-aarch64".into(), arch == "aarch64"),
            ("target-arm".into(), arch == "armv7" || arch == "thumbv7em"),
            (format!("system-{}", cfg.host().operating_system), true),
        ];
        for (e, w) in want {
            run.count(1, 1, 1);
            let got = e.parse::<BooleanExpr>().map(|x| x.evaluate(&tc.available_features));
            if !matches!(got, Ok(g) if g == w) {
                run.violation(format!("target feature: {e} for {t}"), format!("should be {w}, is {got:?}"));
            }
        }
    }
    for t in totals.into_inner().unwrap() {
        run.bound(t);
    }
    run.bound(format!("default features of {} target triples", triples.len()));
    run.assume("a regex block matches a feature if it matches anywhere in it, as the implementation documents (LLVM's lit wants the whole name)");
}
