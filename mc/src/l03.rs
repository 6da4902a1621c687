//! L03: run scripts execute every command in order and stop at the first failure; keywords,
//! continuations, the end marker and malformed directives.
use crate::fw::{guard, par_for, sequences, Run};
use crate::litx::{config, Bench};
use lit::{Config, TestStatus};
use std::collections::BTreeMap;

/// What a script does, by the rules alone.
#[derive(Debug, PartialEq, Clone)]
enum Expect {
    Invalid,
    Runs { out: Vec<String>, ok: bool },
}

const KEYWORDS: [&str; 8] = ["RUN:", "DEFINE:", "REDEFINE:", "REQUIRES:", "UNSUPPORTED:", "XFAIL:", "ALLOWED_RETRIES:", "END."];

/// The first keyword of a line, and what follows it
fn keyword(line: &str) -> Option<(&'static str, &str)> {
    let mut best: Option<(usize, &'static str)> = None;
    for k in KEYWORDS {
        if let Some(i) = line.find(k) {
            // `DEFINE:` is also found within `REDEFINE:`
            let better = match best {
                None => true,
                Some((j, b)) => i < j || (i == j && k.len() > b.len()),
            };
            if better {
                best = Some((i, k));
            }
        }
    }
    best.map(|(i, k)| (k, &line[i + k.len()..]))
}

/// The output and success of one of the simple commands used here
fn shell(cmd: &str) -> Option<(Vec<String>, bool)> {
    let words: Vec<&str> = cmd.split_whitespace().collect();
    let ok = |b| Some((vec![], b));
    match words.first().copied() {
        Some("echo") => {
            let mut out = vec![];
            let mut cur = vec![];
            for w in &words[1..] {
                match *w {
                    "&&" | "||" | ";" | "|" => return None,
                    w => cur.push(w.trim_matches('\'')),
                }
            }
            out.push(cur.join(" "));
            Some((out, true))
        }
        Some("true" | ":") => ok(true),
        Some("false") => ok(false),
        Some("(exit") => ok(words[1] == "0)"),
        Some("(echo") => Some((vec![words[1].to_string()], false)),
        Some("!") => ok(true),
        _ => None,
    }
}

/// None: not determined by the rules (the shell decides)
fn model(text: &str) -> Option<Expect> {
    let mut lines: Vec<&str> = text.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    }
    let lines: Vec<&str> = lines.into_iter().map(|l| l.strip_suffix('\r').unwrap_or(l)).collect();
    let mut cmds: Vec<String> = vec![];
    let mut defs: BTreeMap<String, String> = BTreeMap::new();
    let mut invalid = false;
    let mut runs = 0;
    let mut retries = 0;
    let mut i = 0;
    while i < lines.len() {
        let Some((k, mut rest)) = keyword(lines[i]) else {
            i += 1;
            continue;
        };
        i += 1;
        match k {
            "END." => {
                if rest.trim().is_empty() {
                    break;
                }
            }
            "RUN:" | "DEFINE:" | "REDEFINE:" => {
                let mut parts = vec![];
                loop {
                    let t = rest.trim_end();
                    let Some(s) = t.strip_suffix('\\') else {
                        parts.push(t.trim());
                        break;
                    };
                    parts.push(s.trim());
                    // the next line must carry on with the same keyword
                    let Some(l) = lines.get(i) else {
                        invalid = true;
                        break;
                    };
                    i += 1;
                    match keyword(l) {
                        Some((k2, r)) if k2 == k => rest = r,
                        Some((_, r)) => {
                            invalid = true;
                            rest = r;
                        }
                        None => {
                            invalid = true;
                            rest = l;
                        }
                    }
                }
                let joined = parts.join(" ");
                if k == "RUN:" {
                    runs += 1;
                    let mut c = joined;
                    for (n, v) in &defs {
                        c = c.replace(n, v);
                    }
                    cmds.push(c);
                } else {
                    let Some((n, v)) = joined.split_once('=') else {
                        invalid = true;
                        continue;
                    };
                    let n = n.trim();
                    let inner = n.strip_prefix("%{").and_then(|n| n.strip_suffix('}'));
                    let valid = inner.is_some_and(|n| {
                        let mut c = n.chars();
                        c.next().is_some_and(|c| c == '_' || c.is_ascii_alphabetic()) && c.all(|c| "-_:".contains(c) || c.is_ascii_alphanumeric())
                    });
                    if !valid || (k == "DEFINE:") == defs.contains_key(n) {
                        invalid = true;
                        continue;
                    }
                    defs.insert(n.to_string(), v.trim().to_string());
                }
            }
            "ALLOWED_RETRIES:" => {
                retries += 1;
                if retries > 1 || rest.trim().is_empty() || !rest.trim().bytes().all(|b| b.is_ascii_digit()) {
                    invalid = true;
                }
            }
            _ => {
                for e in rest.split(',') {
                    match e.trim() {
                        "*" if k == "XFAIL:" => return None,
                        "yes" | "no" | "!no" => {}
                        "" | "(" | "yes no" | "yes &&" => invalid = true,
                        e => panic!("{e:?}"),
                    }
                }
            }
        }
    }
    if invalid || runs == 0 {
        return Some(Expect::Invalid);
    }
    let mut out = vec![];
    for c in &cmds {
        let (o, ok) = shell(c)?;
        out.extend(o);
        if !ok {
            return Some(Expect::Runs { out, ok: false });
        }
    }
    Some(Expect::Runs { out, ok: true })
}

pub fn check(run: &Run) {
    let mut total = vec![];
    let mut family = |name: &str, texts: Vec<String>| {
        let mut n = 0u64;
        let texts: Vec<(String, Expect)> = texts
            .into_iter()
            .filter_map(|t| {
                let e = model(&t)?;
                Some((t, e))
            })
            .collect();
        n += texts.len() as u64;
        par_for(run, texts.len(), |i| {
            let (t, want) = &texts[i];
            let b = Bench::mine();
            let got = guard(|| b.run("t.txt", t.as_bytes(), config(&["yes"], &[], &[]), &Config::default()));
            let got = got.map(|r| match r.status() {
                TestStatus::Unresolved => (Expect::Invalid, r.stdout().into_owned()),
                s => (
                    Expect::Runs { out: r.stdout().lines().map(|l| l.to_string()).collect(), ok: s == TestStatus::Pass },
                    if matches!(s, TestStatus::Pass | TestStatus::Fail) { String::new() } else { format!("{s:?}") },
                ),
            });
            run.count(1, 1, 1);
            run.outcome(match want {
                Expect::Invalid => "invalid",
                Expect::Runs { ok: true, .. } => "pass",
                Expect::Runs { ok: false, .. } => "fail",
            });
            match got {
                Ok((g, extra)) if g == *want && extra.is_empty() => {}
                g => run.violation(format!("{name}: {t:?}"), format!("should be {want:?}\nis {g:?}\n{t}")),
            }
        });
        total.push(format!("{name}: {n} scripts"));
    };

    // sequences of commands
    let cmds = [
        "RUN: echo a", "// RUN: echo b", "#RUN:echo c", "RUN: false", "RUN: true", "RUN: (exit 3)", "RUN: (echo d ; exit 1)", "text", "END.",
    ];
    family("commands", sequences(&cmds, 0, run.pick(4, 6)).into_iter().map(|s| s.concat_lines()).collect());
    // continuations
    let cont = [
        "RUN: echo a \\", "RUN: echo b", "RUN: false \\", "// RUN:   echo c \\  ", "text", "DEFINE: %{d}=echo e \\", "DEFINE: f", "RUN: %{d}", "END.", "",
    ];
    family("continuations", sequences(&cont, 1, run.pick(4, 5)).into_iter().map(|s| s.concat_lines()).collect());
    // forms of the keywords
    let forms = [
        "RUN: echo a", "RUN echo b", "run: echo c", "RUN : echo d", "Run: echo e", "; RUN: echo f", "<!-- RUN: echo g", "\tRUN:\techo h\t", "RUN: echo RUN: i",
        "END. of it", "END.  ", "// END.", "END", "end.", "RUN: echo END.", "text RUN: echo é", "// DEFINE: %{a}=1 RUN: echo j",
    ];
    family("keyword forms", sequences(&forms, 1, run.pick(3, 4)).into_iter().map(|s| s.concat_lines()).collect());
    // malformed directives
    let bad = [
        "RUN: echo a", "RUN: echo %{a}", "DEFINE: %{a}=b", "DEFINE: %{a}", "DEFINE:", "DEFINE: a=b", "DEFINE: %a=b", "DEFINE: %{1}=b", "DEFINE: %{a}x=b", "DEFINE: %{}=b", "DEFINE: %{a b}=c",
        "DEFINE: %{_a-:9}=b", "DEFINE: =b", "REDEFINE: %{a}=c", "REDEFINE: %{a}", "DEFINE: %{a}==", "REDEFINE: %{ a}=d", "ALLOWED_RETRIES: 1", "ALLOWED_RETRIES: 0", "ALLOWED_RETRIES:", "ALLOWED_RETRIES: x",
        "ALLOWED_RETRIES: -1", "ALLOWED_RETRIES: 1 2", "REQUIRES: yes", "REQUIRES: yes, !no", "REQUIRES: (", "REQUIRES:", "REQUIRES: yes,", "UNSUPPORTED: no", "UNSUPPORTED: yes no", "UNSUPPORTED: no, (",
        "XFAIL: no", "XFAIL: yes &&", "XFAIL: ,no", "END.",
    ];
    family("malformed directives", sequences(&bad, 1, run.pick(3, 3)).into_iter().filter(|s| s.len() < 3 || s.iter().any(|l| l.starts_with("RUN"))).map(|s| s.concat_lines()).collect());
    // line endings
    let ends = ["RUN: echo a", "RUN: echo b \\", "RUN: false", "text", "END.", "DEFINE: %{a}=c", "RUN: echo %{a}"];
    let mut texts = vec![];
    for s in sequences(&ends, 1, run.pick(3, 4)) {
        for eol in ["\n", "\r\n", " \r\n", "\n\n"] {
            texts.push(s.join(eol));
            texts.push(s.join(eol) + eol);
            texts.push(format!("{eol}{}", s.join(eol)));
        }
    }
    family("line endings", texts);
    // long scripts
    let mut texts = vec![];
    for n in [10usize, 100, 300] {
        for fail in [0, n / 2, n - 1, n] {
            for sep in ["\n", "\ntext\n"] {
                let v: Vec<String> = (0..n).map(|i| if i == fail { "RUN: false".into() } else { format!("RUN: echo {i}") }).collect();
                texts.push(v.join(sep));
                let v: Vec<String> = (0..n).map(|i| if i == fail { "RUN: false \\".into() } else { format!("RUN: echo {i} \\") }).collect();
                texts.push(v.join("\n") + "\nRUN: end");
            }
        }
    }
    family("long scripts", texts);
    drop(family);
    for t in total {
        run.bound(t);
    }

    // commands that only a shell can judge: sequences of them, against the same commands given
    // to a shell one by one
    let sh = [
        "echo a; false", "false; echo b", "echo c && false || echo d", "echo e | cat", "echo f | grep -q x", "! true", "echo g # comment", "(cd / && echo h)", "V=1; echo i$V", "echo j$V", "if false; then echo k; fi",
        "for x in 1 2; do echo l$x; done", "{ echo m; }", "echo 'n;o' \"p && q\"", "echo $(echo r)", "test 1 = 2", "cat", "echo s >&2", "sh -c 'exit 7'", "echo t &",
    ];
    let seqs = sequences(&sh, 1, run.pick(2, 3));
    par_for(run, seqs.len(), |i| {
        let s = &seqs[i];
        if s.iter().filter(|c| c.contains('&') && c.ends_with('&')).count() > 0 && s.len() > 1 {
            return; // output of a background command comes in any order
        }
        let b = Bench::mine();
        let text: String = s.iter().map(|c| format!("RUN: {c}\n")).collect();
        let got = guard(|| b.run("t.txt", text.as_bytes(), config(&[], &[], &[]), &Config::default()));
        // reference: `set -e`-free step by step execution in one shell
        let script: String = s.iter().map(|c| format!("{c}\nr=$?; [ $r = 0 ] || exit $r\n")).collect();
        let f = b.path("w/ref.sh");
        std::fs::write(&f, script).unwrap();
        let o = std::process::Command::new("sh").arg(&f).current_dir(b.path("w")).stdin(std::process::Stdio::null()).output().expect("sh");
        let want = (if o.status.success() { TestStatus::Pass } else { TestStatus::Fail }, String::from_utf8_lossy(&o.stdout).into_owned());
        run.count(1, s.len() as u64, 1);
        match got {
            Ok(r) if (r.status(), r.stdout().into_owned()) == want => {}
            g => run.violation(
                format!("shell commands: {}", s.join("; ")),
                format!("should be {want:?}\nis {:?}", g.map(|r| (r.status(), r.stdout().into_owned(), r.stderr().into_owned()))),
            ),
        }
    });
    run.bound(format!("{} sequences of shell commands, against a shell given them one by one", seqs.len()));
    // a command broken over two or three lines at every position is the command in one piece
    let whole = ["echo \"a  b\" c", "echo a && false", "V=\"x y\" ; echo \"$V\"", "test \"a b\" = \"a  b\"", "echo é|cat", "echo $((1 + 2))"];
    let mut broken: Vec<(String, String)> = vec![];
    for w in whole {
        let cuts: Vec<usize> = (0..=w.len()).filter(|i| w.is_char_boundary(*i)).collect();
        for indent in ["", " ", "   ", "\t"] {
            for after in ["", "  "] {
                for (n, &i) in cuts.iter().enumerate() {
                    let (l, r) = w.split_at(i);
                    broken.push((format!("RUN: {l}\\{after}\nRUN:{indent}{r}\n"), format!("{l}{indent}{r}")));
                    if indent == "   " && after.is_empty() {
                        continue;
                    }
                    for &j in &cuts[n..] {
                        if (i + j) % run.pick(5, 1) != 0 {
                            continue;
                        }
                        let (m, e) = (&w[i..j], &w[j..]);
                        broken.push((format!("// RUN: {l}\\\n// RUN:{indent}{m}\\{after}\n// RUN: {e}\n"), format!("{l}{indent}{m} {e}")));
                    }
                }
            }
        }
    }
    par_for(run, broken.len(), |i| {
        let (text, one) = &broken[i];
        let b = Bench::mine();
        let got = guard(|| b.run("t.txt", text.as_bytes(), config(&[], &[], &[]), &Config::default()));
        let o = std::process::Command::new("sh").arg("-c").arg(one.trim()).current_dir(b.path("w")).stdin(std::process::Stdio::null()).output().expect("sh");
        let want = (if o.status.success() { TestStatus::Pass } else { TestStatus::Fail }, String::from_utf8_lossy(&o.stdout).into_owned());
        run.count(1, 1, 1);
        match got {
            Ok(r) if (r.status(), r.stdout().into_owned()) == want => {}
            g => run.violation(
                format!("broken command: {text:?}"),
                format!("{one:?} gives {want:?}\nthis gives {:?}", g.map(|r| (r.status(), r.stdout().into_owned(), r.stderr().into_owned()))),
            ),
        }
    });
    run.bound(format!("{} commands broken over two or three lines, against the command in one piece", broken.len()));
    run.assume("a command runs until it returns: one that ends the shell itself (exit, exec) ends the script, as in LLVM's lit with an external shell");
    run.assume("keywords are recognised anywhere in a line, as in LLVM's lit; a continued line must be followed by a line with the same keyword");
    run.assume("a command broken within single quotes is not judged (the shell keeps the backslash there; LLVM's lit joins the lines first)");
    run.assume("an empty RUN line is not judged (LLVM's lit and this shell disagree on its meaning)");
}

trait ConcatLines {
    fn concat_lines(&self) -> String;
}
impl ConcatLines for Vec<&str> {
    fn concat_lines(&self) -> String {
        self.iter().map(|l| format!("{l}\n")).collect()
    }
}
