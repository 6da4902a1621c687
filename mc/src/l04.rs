//! L04: substitutions expand exactly as defined.
use crate::fw::{guard, par_for, sequences, Run, Scratch};
use crate::litx::{config, Bench};
use crate::proc::Call;
use lit::config::{ScopedSubstitutionSet, SubstitutionSet};
use lit::{Config, TestStatus};
use litcheck::diagnostics::{SourceSpan, Span};

/// How a pattern is found: where it matches at or after a position, by hand
type Find = fn(&str, usize) -> Option<(usize, usize)>;
struct Sub {
    pattern: &'static str,
    value: &'static str,
    find: Find,
    /// what a match is replaced by
    expand: fn(&str, &str) -> String,
}
fn plain(_m: &str, v: &str) -> String {
    v.to_string()
}
macro_rules! lit {
    ($p:expr, $t:expr, $v:expr) => {
        Sub {
            pattern: $p,
            value: $v,
            find: |s, at| s[at..].find($t).map(|i| (at + i, at + i + $t.len())),
            expand: plain,
        }
    };
}

/// None: the meaning is not determined (an escape sequence appears in what was substituted)
fn apply(subs: &[&Sub], input: &str) -> Option<String> {
    // `%%` stands for a percent sign which is not part of anything else
    let mut s = input.replace("%%", "\u{1}");
    for sub in subs {
        let mut out = String::new();
        let mut at = 0;
        while let Some((a, b)) = (sub.find)(&s, at) {
            out.push_str(&s[at..a]);
            out.push_str(&(sub.expand)(&s[a..b], &sub.value.replace("%%", "\u{1}")));
            at = b;
            if a == b {
                return None;
            }
        }
        out.push_str(&s[at..]);
        if out.contains("%%") {
            return None;
        }
        s = out;
    }
    Some(s.replace('\u{1}', "%"))
}

fn pool() -> Vec<Sub> {
    let mut v = vec![
        lit!("%a", "%a", "1"),
        lit!("%a", "%a", "$0"),
        lit!("%a", "%a", "$$"),
        lit!("%a", "%a", "${a}$a$1"),
        lit!("%a", "%a", "%b"),
        lit!("%a", "%a", ""),
        lit!("%a", "%a", "b%ab"),
        lit!("%a", "%a", "\\1 \\n\\"),
        lit!("%a", "%a", "%%b"),
        lit!("%a", "%a", "<%%>%%"),
        lit!("%b", "%b", "%%a%%%%"),
        lit!("%ab", "%ab", "2"),
        lit!("%ab", "%ab", "a$b"),
        lit!("%b", "%b", "x"),
        lit!("%b", "%b", "%a"),
        lit!("%b", "%b", "é b"),
        lit!("%\\{a\\}", "%{a}", "3"),
        lit!("%\\{a\\}", "%{a}", "$"),
        lit!("%\\{a\\}", "%{a}", "%a"),
        lit!("b", "b", "$1"),
        lit!("b", "b", "bb"),
    ];
    // a pattern with groups, whose value refers to them
    v.push(Sub {
        pattern: "%(?<n>[ab])\\(",
        value: "<${n}$$>",
        find: |s, at| (at..s.len()).find(|i| s.is_char_boundary(*i) && (s[*i..].starts_with("%a(") || s[*i..].starts_with("%b("))).map(|i| (i, i + 3)),
        expand: |m, _| format!("<{}$>", &m[1..2]),
    });
    // a pattern with a class
    v.push(Sub {
        pattern: "[ab]+",
        value: "c",
        find: |s, at| {
            let b = s.as_bytes();
            let i = (at..b.len()).find(|i| b"ab".contains(&b[*i]))?;
            let j = (i..b.len()).find(|j| !b"ab".contains(&b[*j])).unwrap_or(b.len());
            Some((i, j))
        },
        expand: plain,
    });
    v
}

fn direct(run: &Run) {
    let pool = pool();
    let frags = ["%a", "%b", "b", "%%", "%", "%{a}", "$1", "a", "(", "\\"];
    let inputs: Vec<String> = sequences(&frags, 0, run.pick(4, 5)).into_iter().map(|s| s.concat()).collect();
    let mut sets: Vec<Vec<usize>> = vec![];
    for i in 0..pool.len() {
        sets.push(vec![i]);
        for j in 0..pool.len() {
            if pool[i].pattern != pool[j].pattern {
                sets.push(vec![i, j]);
            }
        }
    }
    // each set, with every split into those of the configuration and those of the test
    let mut work = vec![];
    for s in &sets {
        for k in 0..=s.len() {
            work.push((s.clone(), k));
        }
    }
    par_for(run, work.len(), |w| {
        let (set, k) = &work[w];
        let parent = SubstitutionSet::new(set[..*k].iter().map(|i| (pool[*i].pattern, pool[*i].value)));
        let mut scoped = ScopedSubstitutionSet::new(&parent);
        scoped.extend(set[*k..].iter().map(|i| (pool[*i].pattern, pool[*i].value)));
        let subs: Vec<&Sub> = set.iter().map(|i| &pool[*i]).collect();
        if subs.iter().any(|s| s.value.contains("%%")) {
            // as for every test
            scoped.insert("%%", "%");
        }
        let mut n = 0;
        for input in &inputs {
            let Some(want) = apply(&subs, input) else { continue };
            n += 1;
            let got = guard(|| scoped.apply(Span::new(SourceSpan::UNKNOWN, input.as_str())).map(|s| s.into_owned()).map_err(|e| e.to_string()));
            if got.as_ref() != Ok(&Ok(want.clone())) {
                run.violation(
                    format!("apply: {:?} to {input:?}", subs.iter().map(|s| (s.pattern, s.value)).collect::<Vec<_>>()),
                    format!("should be {want:?}\nis {got:?}\nof which {k} are in the configuration"),
                );
            }
        }
        run.count(n, n, n);
    });
    run.bound(format!("{} sets of up to 2 of {} substitutions, split between configuration and test, applied to {} texts", work.len(), pool.len(), inputs.len()));
    // three substitutions, in order
    let small: Vec<usize> = vec![0, 4, 5, 8, 10, 11, 14, 15, 18, 19, 21, 22];
    let inputs: Vec<String> = sequences(&frags, 0, 3).into_iter().map(|s| s.concat()).collect();
    let triples: Vec<Vec<usize>> = sequences(&small, 3, 3).into_iter().filter(|t| pool[t[0]].pattern != pool[t[1]].pattern && pool[t[1]].pattern != pool[t[2]].pattern && pool[t[0]].pattern != pool[t[2]].pattern).collect();
    par_for(run, triples.len(), |w| {
        let set = &triples[w];
        let parent = SubstitutionSet::new(set.iter().map(|i| (pool[*i].pattern, pool[*i].value)));
        let mut scoped = ScopedSubstitutionSet::new(&parent);
        let subs: Vec<&Sub> = set.iter().map(|i| &pool[*i]).collect();
        if subs.iter().any(|s| s.value.contains("%%")) {
            // as for every test
            scoped.insert("%%", "%");
        }
        let mut n = 0;
        for input in &inputs {
            let Some(want) = apply(&subs, input) else { continue };
            n += 1;
            let got = guard(|| scoped.apply(Span::new(SourceSpan::UNKNOWN, input.as_str())).map(|s| s.into_owned()).map_err(|e| e.to_string()));
            if got.as_ref() != Ok(&Ok(want.clone())) {
                run.violation(format!("apply: {:?} to {input:?}", subs.iter().map(|s| (s.pattern, s.value)).collect::<Vec<_>>()), format!("should be {want:?}\nis {got:?}"));
            }
        }
        run.count(n, n, n);
    });
    run.bound(format!("{} ordered triples of substitutions, applied to {} texts", triples.len(), inputs.len()));
    // a substitution of the test overrides one of the configuration, in its place
    for (p, q) in [("%a", "%b"), ("%b", "%a")] {
        for (v, w) in [("1", "2"), ("$0", "$1"), ("%b", "3"), ("", "x")] {
            let parent = SubstitutionSet::new([(p, v), (q, "4")]);
            let mut scoped = ScopedSubstitutionSet::new(&parent);
            scoped.insert(p, w);
            for input in &inputs {
                let s = input.replace("%%", "\u{1}");
                let t = s.replace(p, w).replace(q, "4");
                if t.contains("%%") || s.replace(p, w).contains("%%") || t.contains(p) || w.contains(p) || w.contains(q) {
                    continue;
                }
                let want = t.replace('\u{1}', "%");
                let got = guard(|| scoped.apply(Span::new(SourceSpan::UNKNOWN, input.as_str())).map(|s| s.into_owned()).map_err(|e| e.to_string()));
                run.count(1, 1, 1);
                if got.as_ref() != Ok(&Ok(want.clone())) {
                    run.violation(format!("override: {p}={v} by {w}, to {input:?}"), format!("should be {want:?}, is {got:?}"));
                }
            }
        }
    }
    // an invalid pattern is an error
    for p in ["%(", "[", "a{2,1}", "(?<x>a)(?<x>b)"] {
        let parent = SubstitutionSet::new([(p, "1")]);
        let scoped = ScopedSubstitutionSet::new(&parent);
        let got = guard(|| scoped.apply(Span::new(SourceSpan::UNKNOWN, "%(")).map(|s| s.into_owned()).map_err(|_| ()));
        run.count(1, 1, 1);
        if got != Ok(Err(())) {
            run.violation(format!("invalid pattern: {p}"), format!("should be an error, is {got:?}"));
        }
    }
}

/// The definitions made by a test
fn definitions(run: &Run) {
    let items = [
        "DEFINE: %{d}=1", "DEFINE: %{d}=<%{e}>", "DEFINE: %{e}=2", "DEFINE: %{e} = [%{d}]", "REDEFINE: %{d}=3", "REDEFINE: %{e}=(%(line))", "REDEFINE: %{c}=9", "DEFINE: %{c}=8",
        "DEFINE: %{f}=%{c}%k$0 ${d} .*+", "RUN: echo '%{d},%{e},%{c},%{f},%k,%(line)'", "text", "DEFINE: %{d}=%{d}+ \\\nDEFINE:  %(line)",
        "REDEFINE: %{f}=$1 \\\nREDEFINE: =%{d}",
    ];
    let confs: [(&str, &str); 2] = [("%\\{c\\}", "C%k"), ("%k", "K$2")];
    let seqs = sequences(&items, 0, run.pick(3, 4));
    par_for(run, seqs.len(), |i| {
        let mut s = seqs[i].clone();
        s.push(items[9]);
        let text: String = s.iter().map(|l| format!("{l}\n")).collect();
        // the model
        let mut defs: Vec<(String, String)> = vec![]; // most recent first
        let mut conf = [("%{c}", "C%k".to_string()), ("%k", "K$2".to_string())];
        let mut ok = true;
        let mut out = vec![];
        let mut line = 0;
        for l in &s {
            let parts: Vec<&str> = l.split('\n').collect();
            let mut body = String::new();
            for (n, p) in parts.iter().enumerate() {
                line += 1;
                let p = p.strip_prefix("REDEFINE:").or(p.strip_prefix("DEFINE:")).or(p.strip_prefix("RUN:")).unwrap_or("");
                let p = p.trim().trim_end_matches('\\').trim();
                if n > 0 {
                    body.push(' ');
                }
                body.push_str(&p.replace("%(line)", &line.to_string()));
            }
            if l.starts_with("RUN") {
                let mut c = body;
                for (n, v) in &defs {
                    c = c.replace(n.as_str(), v);
                }
                for (n, v) in &conf {
                    c = c.replace(n, v);
                }
                out.push(c.strip_prefix("echo '").unwrap().trim_end_matches('\'').to_string());
            } else if l.contains("DEFINE") {
                let (n, v) = body.split_once('=').unwrap();
                let (n, v) = (n.trim().to_string(), v.trim().to_string());
                let redef = l.starts_with("RE");
                if let Some(d) = defs.iter_mut().find(|d| d.0 == n) {
                    ok &= redef;
                    d.1 = v;
                } else if n == "%{c}" {
                    ok &= redef;
                    conf[0].1 = v;
                } else {
                    ok &= !redef;
                    defs.insert(0, (n, v));
                }
            }
        }
        let want = if ok { (TestStatus::Pass, out.join("\n") + "\n") } else { (TestStatus::Unresolved, String::new()) };
        let b = Bench::mine();
        let r = guard(|| b.run("t.txt", text.as_bytes(), config(&[], &[], &confs), &Config::default()));
        run.count(1, s.len() as u64, 1);
        run.outcome(if ok { "definitions valid" } else { "definitions invalid" });
        let got = r.map(|r| (r.status(), r.stdout().into_owned()));
        if got.as_ref() != Ok(&want) {
            run.violation(format!("definitions: {text:?}"), format!("should be {want:?}\nis {got:?}\n{text}"));
        }
    });
    run.bound(format!("{} sequences of DEFINE, REDEFINE and RUN lines, with two substitutions of the configuration", seqs.len()));
}

/// Substitutions of the configuration, of the format, and of the test
fn levels(run: &Run) {
    let values = ["1", "x y", "$0", "${a}", "\\1", "é", ""];
    let mut cases = vec![];
    for a in [None, Some(0), Some(2)] {
        for b in 0..values.len() {
            for d in [None, Some(1), Some(4)] {
                for conf in [false, true] {
                    cases.push((a, b, d, conf));
                }
            }
        }
    }
    par_for(run, cases.len(), |k| {
        let (a, b, d, conf) = cases[k];
        let esc = |v: &str| v.replace('\\', "\\\\");
        let mut extra = format!("\"%b\" = \"{}\"\n", esc(values[b]));
        if conf {
            extra += "\"%[c]+%\" = \"c\"\n";
        }
        let mut tc = config(&[], &[("P", "%".into())], &a.map(|a| vec![("%a", values[a])]).unwrap_or_default());
        tc.format = crate::litx::format(&format!("[format.shtest.extra_substitutions]\n{extra}"));
        let def = d.map(|d| format!("DEFINE: %{{d}} = {}\n", values[d])).unwrap_or_default();
        let text = format!("{def}RUN: printf '%%s\\n' '<%b>' '<%a>' '<%{{d}}>' '<%cc%>' '<%%b>'\n");
        let bench = Bench::mine();
        let r = guard(|| bench.run("t.txt", text.as_bytes(), tc, &Config::default()));
        let want = format!(
            "<{}>\n<{}>\n<{}>\n<{}>\n<%b>\n",
            values[b],
            a.map_or("%a", |a| values[a]),
            d.map_or("%{d}", |d| values[d]),
            if conf { "c" } else { "%cc%" }
        );
        run.count(1, 1, 1);
        let got = r.map(|r| (r.status(), r.stdout().into_owned()));
        if got != Ok((TestStatus::Pass, want.clone())) {
            run.violation(format!("levels: {text:?} with {a:?} {extra:?}"), format!("should print {want:?}\nis {got:?}"));
        }
    });
    run.bound(format!("{} combinations of substitutions defined in the configuration, by the format and in the test", cases.len()));
}

/// Relative line references
fn lines(run: &Run) {
    let refs = ["%(line)", "%(line+1)", "%(line-1)", "%(line + 20)", "%(line- 0)", "%(line+007)", "%(lines)", "%(line+)", "%(line+x)", "(line)", "%%(line)", "%(line)%(line+2)", "% (line)", "é%(line-1)é"];
    let mut scripts = vec![];
    for a in refs {
        for b in refs {
            for blank in [0usize, 1, 2, 9] {
                for form in 0..4 {
                    scripts.push((a, b, blank, form));
                }
            }
        }
    }
    let value = |t: &str, line: usize| -> String {
        let mut o = t.to_string();
        for (p, d) in [("%(line)", 0i64), ("%(line+1)", 1), ("%(line-1)", -1), ("%(line + 20)", 20), ("%(line- 0)", 0), ("%(line+007)", 7), ("%(line+2)", 2)] {
            o = o.replace(p, &(line as i64 + d).to_string());
        }
        o.replace("%%", "%")
    };
    par_for(run, scripts.len(), |i| {
        let (a, b, blank, form) = scripts[i];
        let pre = "text\r\n".repeat(blank) + "x\n";
        let l = blank + 2;
        let (text, want) = match form {
            0 => (format!("{pre}RUN: echo '{a}'\nRUN: echo '{b}'\n"), format!("{}\n{}\n", value(a, l), value(b, l + 1))),
            1 => (format!("{pre}RUN: echo '{a}' \\\nRUN: '{b}'\n"), format!("{} {}\n", value(a, l), value(b, l + 1))),
            2 => (format!("{pre}RUN: echo '{a}' \\\n// RUN: end \\  \nRUN: '{b}'"), format!("{} end {}\n", value(a, l), value(b, l + 2))),
            _ => (format!("{pre}DEFINE: %{{d}}={a} \\\nDEFINE: {b}\n\nRUN: echo '%{{d}}'\n"), format!("{} {}\n", value(a, l), value(b, l + 1))),
        };
        if a.contains("%%") && b.contains("%%") && form == 3 {
            return;
        }
        if form == 3 && (a.contains("%%") || b.contains("%%")) {
            return; // escapes within a value are not determined
        }
        let bench = Bench::mine();
        let r = guard(|| bench.run("t.txt", text.as_bytes(), config(&[], &[], &[]), &Config::default()));
        run.count(1, 1, 1);
        let got = r.map(|r| (r.status(), r.stdout().into_owned()));
        if got != Ok((TestStatus::Pass, want.clone())) {
            run.violation(format!("line references: {text:?}"), format!("should print {want:?}\nis {got:?}\n{text}"));
        }
    });
    run.bound(format!("{} scripts with pairs of relative line references in commands, continuations and definitions", scripts.len()));
    // offsets of any size: no crash, and the right number where there is one
    for off in ["0", "1", "4294967295", "4294967296", "9223372036854775807", "18446744073709551614", "18446744073709551615", "18446744073709551616", "99999999999999999999999"] {
        for sign in ["+", "-"] {
            let text = format!("x\nRUN: echo '%(line{sign}{off})'\n");
            let bench = Bench::mine();
            let r = guard(|| bench.run("t.txt", text.as_bytes(), config(&[], &[], &[]), &Config::default()));
            run.count(1, 1, 1);
            let n: u128 = off.parse().unwrap();
            let got = r.map(|r| (r.status(), r.stdout().trim().to_string()));
            let fine = match &got {
                Err(_) => false,
                Ok((TestStatus::Unresolved, _)) => n > u32::MAX as u128,
                // no file has that many lines: a sum which does not fit is any number
                Ok((TestStatus::Pass, o)) if sign == "+" => n + 2 > usize::MAX as u128 || *o == (n + 2).to_string(),
                Ok((TestStatus::Pass, o)) => n > 2 || *o == (2 - n).to_string(),
                _ => false,
            };
            if !fine {
                run.violation(format!("line reference {sign}{off}"), format!("{got:?}"));
            }
        }
    }
}

/// The paths of a test
fn paths(run: &Run) {
    let names = [
        "t.txt", "t", "a b.txt", "a$1.txt", "$0", "${n}.x.y", "a\\1.txt", "é.txt", "a&b;c.txt", "a{b}.txt", "[a].txt", "a+b*.txt", "-x.txt", "d/t.txt", "d e/f$1/t.txt", "d/$$/é/t", "\\/\\.txt", "a\"b.txt", "#x.txt", "x.tmp", "d/t.tar.gz",
    ];
    let b = Bench::mine();
    let w = b.path("w");
    for n in names {
        let abs = b.path(n);
        let file = abs.file_name().unwrap().to_str().unwrap().to_string();
        let dir = abs.parent().unwrap().to_str().unwrap().to_string();
        // everything is observed through the file system, as a shell would show it
        for (what, cmds, pass) in [
            ("%s", vec!["cmp '%s' \"$S\"", "test '%s' = \"$S\""], true),
            ("%S", vec!["test '%S' = \"$DIR\""], true),
            ("%s twice", vec!["test '%s%s' = \"$S$S\""], true),
            ("%t is new", vec!["test ! -e '%t'"], true),
            ("%t can be written", vec!["echo x > '%t'", "test -f '%t'", "test \"$(cat '%t')\" = x", "mkdir '%t.dir'"], true),
            ("%t is below the working directory", vec!["case '%t' in \"$W\"/*) true;; *) false;; esac"], true),
            ("%basename_t", vec!["test '%basename_t' = \"$F\""], true),
            ("name of %t", vec!["case '%t' in */\"$F\".tmp) true;; *) false;; esac"], true),
            ("%% escapes", vec!["test '%%s' = \"$P\"s", "test '%%%%' = \"$P$P\""], true),
            ("other text", vec!["test '%x %' = \"$P\"'x '\"$P\""], true),
            ("not the path", vec!["test '%s' = x"], false),
        ] {
            let text: String = cmds.iter().map(|c| format!("RUN: {c}\n")).collect();
            let env = [("S", abs.to_str().unwrap().to_string()), ("DIR", dir.clone()), ("F", file.clone()), ("W", w.to_str().unwrap().to_string()), ("P", "%".to_string())];
            let r = guard(|| b.run(n, text.as_bytes(), config(&[], &env, &[]), &Config::default()));
            run.count(1, 1, 1);
            let want = if pass { TestStatus::Pass } else { TestStatus::Fail };
            if !matches!(&r, Ok(r) if r.status() == want) {
                run.violation(format!("paths: {what} of {n:?}"), format!("should be {want:?}\nis {:?}", r.map(|r| (r.status(), r.stderr().into_owned()))));
            }
        }
    }
    // temporary paths of different tests differ, also when they run at the same time
    let seen = std::sync::Mutex::new(std::collections::BTreeSet::new());
    std::thread::scope(|s| {
        for n in ["t1.txt", "d/t1.txt", "e/t1.txt", "t2.txt", "d/t2.txt", "t1.txt.x", "t1", "d"] {
            let (b, seen) = (&b.suite, &seen);
            let dir = w.parent().unwrap();
            s.spawn(move || {
                let name = if n == "d" { "f/d" } else { n };
                let p = dir.join(name);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(&p, "RUN: echo '%t'; test ! -e '%t' && : > '%t' && sleep 0.2\n").unwrap();
                for _ in 0..3 {
                    let tc = std::sync::Arc::new(config(&[], &[], &[]));
                    let t = lit::Test::new(name.into(), b.clone(), tc.clone());
                    let r = lit::TestFormat::execute(&tc.format, &t, &Config::default()).unwrap();
                    assert!(seen.lock().unwrap().insert((r.status() == TestStatus::Pass, r.stdout().trim().to_string())));
                }
            });
        }
    });
    let seen = seen.into_inner().unwrap();
    run.count(24, 24, 24);
    if seen.len() != 24 || seen.iter().any(|(ok, _)| !ok) {
        run.violation("temporary paths of tests running at the same time", format!("{seen:?}"));
    }
    run.bound(format!("{} names of tests x 11 uses of the path substitutions; 8 tests at once", names.len()));
}

/// The commands which are replaced by those of this binary
fn binary(run: &Run) {
    let sc = Scratch::new("l04");
    std::fs::write(sc.path().join("lit.suite.toml"), "name = \"s\"\npatterns = [\"*.t\"]\n[substitutions]\n\"%\\\\{w\\\\}\" = \"<%v>\"\n\"%v\" = \"a$1b\"\n\"%v2\" = \"no\"\n").unwrap();
    let files = [
        ("p1.t", true, "RUN: echo hello | filecheck %s\nCHECK: hello\n"),
        ("p2.t", true, "RUN: echo hello | FileCheck %s\nCHECK: hello\n"),
        ("p3.t", true, "RUN: echo other | not filecheck %s\nCHECK: hello\n"),
        ("p4.t", true, "RUN: not false\n"),
        ("p5.t", true, "RUN: not false && not sh -c 'exit 3'\n"),
        ("p6.t", true, "RUN: echo hello > %t; filecheck %s --input-file %t\nCHECK: hello\n"),
        ("p7.t", true, "RUN: test 'xfilecheck filecheck.txt not-a notx /not filechecks' = 'xfilecheck filecheck.txt not-a notx /not file''checks'\n"),
        ("p8.t", true, "RUN: test '%v %{w}' = 'a$1b <a$1b>'\n"),
        ("p9.t", true, "RUN: test '%{fs-sep}%{pathsep}' = '/:'\n"),
        ("q1.t", false, "RUN: echo other | filecheck %s\nCHECK: hello\n"),
        ("q2.t", false, "RUN: not true\n"),
        ("q3.t", false, "RUN: echo hello | not filecheck %s\nCHECK: hello\n"),
    ];
    for (n, _, t) in &files {
        std::fs::write(sc.path().join(n), t).unwrap();
    }
    let o = Call::new(sc.path(), &["lit", "run", "."]).run();
    for (n, pass, t) in &files {
        let want = format!("{}: s::{n}", if *pass { "PASS" } else { "FAIL" });
        run.count(1, 1, 1);
        if !o.stdout().lines().any(|l| l == want) {
            run.violation(format!("binary: {n} {t:?}"), format!("should print {want:?}\n{}\n{}", o.stdout(), o.stderr()));
        }
    }
    run.bound(format!("{} tests using the commands of the binary itself", files.len()));
}

pub fn check(run: &Run) {
    direct(run);
    definitions(run);
    levels(run);
    lines(run);
    paths(run);
    binary(run);
    run.assume("`%%` that arises when a value is put next to a percent sign, names containing `%`, and a relative line before the first are not judged");
    run.assume("substitutions apply in order, each to the result of the ones before, as in LLVM's lit; those defined by the test come first, the most recent before the others");
}
