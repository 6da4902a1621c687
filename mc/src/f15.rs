//! F15: the filecheck command. Every combination of a check file's condition, an input's
//! condition, the way it is given and the options is run through the real binary; the exit status
//! is compared with the verdict of the reference model.
use crate::f11::{self, Parsed};
use crate::fcm::{self, Opt, Val, Verdict};
use crate::fw::*;
use crate::proc::*;

fn report(run: &Run, kind: &str, key: String, o: &Out) {
    let e = o.stderr();
    run.violation(format!("{kind}: {key}"), format!("{}\nstdout: {:?}\nstderr: {}", o.status(), o.stdout(), &e.chars().take(1500).collect::<String>()));
}

/// Exits by itself, without a crash, with the status the verdict asks for.
pub fn judge(run: &Run, key: &str, o: &Out, accept: Option<bool>) {
    let panicked = o.signal.is_some() || o.code == Some(101) || o.stderr().contains("panicked");
    if o.timed_out {
        report(run, "does-not-terminate", key.into(), o);
    } else if panicked {
        report(run, "crash", key.into(), o);
    } else if let Some(a) = accept {
        if a != (o.code == Some(0)) {
            report(run, if a { "fails-but-should-succeed" } else { "succeeds-but-should-fail" }, key.into(), o);
        }
    }
}

pub fn verdict(text: &str, o: &Opt, input: &str) -> Option<bool> {
    let p = f11::Prefixes::default();
    match f11::parse(text, &p) {
        Parsed::Invalid(_) => Some(false),
        Parsed::Open => None,
        Parsed::Checks(c) => match fcm::eval(&c, o, input) {
            Verdict::Accept(_) => Some(true),
            Verdict::Reject(_) => Some(false),
            Verdict::Ambiguous => None,
        },
    }
}

pub fn check(run: &Run) {
    let dir = Scratch::new("f15");
    let d = dir.path();

    // 1. conditions of the two files, and how the input arrives
    let checks: Vec<(&str, Option<Vec<u8>>)> = vec![
        ("plain", Some(b"CHECK: a\n".to_vec())),
        ("next", Some(b"; CHECK: a\n; CHECK-NEXT: b\n".to_vec())),
        ("not", Some(b"// CHECK-NOT: b\n".to_vec())),
        ("bare", Some(b"CHECK: a".to_vec())),
        ("crlf", Some(b"CHECK: a\r\nCHECK-NEXT: b\r\n".to_vec())),
        ("empty-line", Some(b"CHECK: a\nCHECK-EMPTY:\n".to_vec())),
        ("empty", Some(vec![])),
        ("no-directives", Some(b"hello\n".to_vec())),
        ("comment-only", Some(b"RUN: x\nCOM: CHECK: a\n".to_vec())),
        ("no-pattern", Some(b"CHECK:\n".to_vec())),
        ("bad-count", Some(b"CHECK-COUNT-0: a\n".to_vec())),
        ("bad-regex", Some(b"CHECK: {{(}}\n".to_vec())),
        ("unclosed", Some(b"CHECK: [[X\n".to_vec())),
        ("first-next", Some(b"CHECK-NEXT: a\n".to_vec())),
        ("undefined", Some(b"CHECK: [[X]]\n".to_vec())),
        ("not-utf8", Some(b"CHECK: a\xff\n".to_vec())),
        ("missing", None),
        ("directory", None),
    ];
    let inputs: Vec<(&str, Option<Vec<u8>>)> = vec![
        ("ab", Some(b"a\nb\n".to_vec())),
        ("a", Some(b"a".to_vec())),
        ("b", Some(b"b\n".to_vec())),
        ("axb", Some(b"a\n\nb\n".to_vec())),
        ("crlf", Some(b"a\r\nb\r\n".to_vec())),
        ("empty", Some(vec![])),
        ("newline", Some(b"\n".to_vec())),
        ("accent", Some("b\né".into())),
        ("not-utf8", Some(b"a\xff\nb\n".to_vec())),
        ("big", Some({
            let mut v = b"x".repeat(70_000);
            v.extend(b"\na\nb\n");
            v
        })),
        ("missing", None),
        ("directory", None),
    ];
    for (n, t) in &checks {
        if let Some(t) = t {
            std::fs::write(d.join(format!("c-{n}")), t).unwrap();
        }
    }
    for (n, t) in &inputs {
        if let Some(t) = t {
            std::fs::write(d.join(format!("i-{n}")), t).unwrap();
        }
    }
    std::fs::create_dir(d.join("c-directory")).unwrap();
    std::fs::create_dir(d.join("i-directory")).unwrap();
    let mut cases = vec![];
    for c in &checks {
        for i in &inputs {
            for stdin in [false, true] {
                if stdin && i.1.is_none() {
                    continue;
                }
                for allow in [false, true] {
                    cases.push((c, i, stdin, allow));
                }
            }
        }
    }
    par_for(run, cases.len(), |k| {
        let (c, i, stdin, allow) = &cases[k];
        let (cf, inf) = (format!("c-{}", c.0), format!("i-{}", i.0));
        let mut args = vec!["filecheck", &cf];
        if !stdin {
            args.extend(["--input-file", &inf]);
        }
        if *allow {
            args.push("--allow-empty");
        }
        let mut call = Call::new(d, &args);
        if *stdin {
            call.stdin = i.1.as_deref();
        }
        let o = call.run();
        let opt = Opt { allow_empty: *allow, ..Opt::default() };
        let text = |b: &Option<Vec<u8>>| b.as_ref().and_then(|b| String::from_utf8(b.clone()).ok());
        let want = match (text(&c.1), text(&i.1)) {
            (None, _) | (_, None) => Some(false),
            _ if matches!(c.0, "bad-regex" | "unclosed" | "undefined") => Some(false),
            // newlines are always canonicalized
            (Some(c), Some(i)) => verdict(&c.replace("\r\n", "\n"), &opt, &i.replace("\r\n", "\n")),
        };
        judge(run, &format!("check file {} input {}{}{}", c.0, i.0, if *stdin { " on stdin" } else { "" }, if *allow { " --allow-empty" } else { "" }), &o, want);
        run.outcome(if o.code == Some(0) { "exit zero" } else { "exit nonzero" });
        run.count(1, 1, 1);
    });
    run.bound(format!("{} check file conditions x {} input conditions x file or standard input x --allow-empty", checks.len(), inputs.len()));

    channels(run);

    // 2. every option reaches the engine: on the command line and through FILECHECK_OPTS
    let texts = [
        "CHECK: a b\n", "CHECK:  a\n", "CHECK: A\n", "CHECK: [[X]]\n", "CHECK: [[#N+1]]\n", "CHECK: a\nCHECK: b\n", "CHECK-NOT: b\nCHECK: a\n", "CHECK: [[Y:a]]\nCHECK-LABEL: b\nCHECK: [[Y]]\n", "CHECK: [[$Y:a]]\nCHECK-LABEL: b\nCHECK: [[$Y]]\n",
    ];
    let ins = ["a b\n", "a  b\n", "  a\n", "a\n", "\n  a\nb\n a\n", "7\n8\n", "aab\nb\naa\n", ""];
    // (argument, effect on the model's options)
    type Eff = fn(&mut Opt);
    let opts: Vec<(&[&str], Eff)> = vec![
        (&["--strict-whitespace"], |o| o.strict_ws = true),
        // (--match-full-lines has no effect: a known finding of F10)
        (&["--ignore-case"], |o| o.icase = true),
        (&["--enable-var-scope"], |o| o.scope = true),
        (&["--allow-empty"], |o| o.allow_empty = true),
        (&["--implicit-check-not", "b"], |o| o.implicit.push("b".into())),
        (&["-D", "X=a b"], |o| o.defs.push(("X".into(), Val::S("a b".into())))),
        (&["-D#N=7"], |o| o.defs.push(("N".into(), Val::N(7, fcm::NumFmt::U)))),
        (&["-v"], |_| ()),
        (&["--dump-input", "never"], |_| ()),
        (&["--color", "always"], |_| ()),
    ];
    for (k, t) in texts.iter().enumerate() {
        std::fs::write(d.join(format!("o{k}")), t).unwrap();
    }
    let mut sets: Vec<(Vec<usize>, u8)> = vec![];
    for m in 0u32..1 << opts.len() {
        if m.count_ones() > run.pick(2, 4) {
            continue;
        }
        let v: Vec<usize> = (0..opts.len()).filter(|i| m >> i & 1 == 1).collect();
        // how they are given: all on the command line, all in FILECHECK_OPTS, one of each
        for how in 0..3 {
            if how == 1 && v.is_empty() || how == 2 && v.len() < 2 {
                continue;
            }
            sets.push((v.clone(), how));
        }
    }
    par_for(run, sets.len() * texts.len(), |k| {
        let (set, how) = &sets[k / texts.len()];
        let ti = k % texts.len();
        let file = format!("o{ti}");
        let mut o = Opt::default();
        let mut argv: Vec<&str> = vec!["filecheck", &file];
        let mut envv: Vec<&str> = vec![];
        for (j, i) in set.iter().enumerate() {
            opts[*i].1(&mut o);
            let to_env = *how == 1 || (*how == 2 && j % 2 == 1);
            if to_env { &mut envv } else { &mut argv }.extend(opts[*i].0);
        }
        for input in &ins {
            let mut call = Call::new(d, &argv);
            call.stdin = Some(input.as_bytes());
            let quoted = shlex::try_join(envv.iter().copied()).unwrap();
            if !envv.is_empty() {
                call.env.push(("FILECHECK_OPTS".into(), quoted.clone()));
            }
            let out = call.run();
            let model = structured(ti, &o, input);
            judge(run, &format!("{:?} on {input:?} with {:?} FILECHECK_OPTS={quoted:?}", texts[ti], &argv[2..]), &out, model);
            run.outcome(if out.code == Some(0) { "exit zero" } else { "exit nonzero" });
            run.count(1, 1, 1);
            if run.done() {
                return;
            }
        }
    });
    run.bound(format!("{} sets of up to {} of {} options, on the command line, in FILECHECK_OPTS and divided between them x {} check files x {} inputs", sets.len(), run.pick(2, 4), opts.len(), texts.len(), ins.len()));

    // 2b. FILECHECK_OPTS is split into words as a shell does; what cannot be understood is an error
    let words = strings(&["--implicit-check-not=", "x", "'", "\"", "\\", " "], run.pick(5, 6));
    std::fs::write(d.join("w"), "CHECK: a\n").unwrap();
    par_for(run, words.len(), |k| {
        let text = &words[k];
        let input = "a\nx x\nx\n";
        let want = match split_words(text) {
            None => Some(false),
            Some(w) => {
                let values: Option<Vec<&str>> = w.iter().map(|w| w.strip_prefix("--implicit-check-not=")).collect();
                match values {
                    // anything else is not an option
                    None => Some(false),
                    // values that are empty, or mean something else as regular expressions
                    Some(v) if v.iter().any(|v| v.trim().is_empty() || v.contains('\\')) => None,
                    Some(v) => Some(!v.iter().any(|v| input.contains(v))),
                }
            }
        };
        let mut call = Call::new(d, &["filecheck", "w"]);
        call.stdin = Some(input.as_bytes());
        call.env.push(("FILECHECK_OPTS".into(), text.clone()));
        judge(run, &format!("FILECHECK_OPTS={text:?}"), &call.run(), want);
        run.count(1, 1, 1);
    });
    run.bound(format!("{} values of FILECHECK_OPTS: quotes, backslashes, blanks, options and other text, against the words of a shell", words.len()));

    // 2c. --dump-input=help explains the option, verifies nothing, and wins over everything else
    for args in [vec!["filecheck", "w", "--dump-input=help"], vec!["filecheck", "missing", "--dump-input", "help"], vec!["filecheck", "w", "--dump-input=help", "-v", "--input-file", "missing"]] {
        for env in [false, true] {
            let mut argv = args.clone();
            let mut call = if env {
                argv.retain(|a| !a.contains("dump-input") && *a != "help");
                let mut c = Call::new(d, &argv);
                c.env.push(("FILECHECK_OPTS".into(), "--dump-input=help".into()));
                c
            } else {
                Call::new(d, &argv)
            };
            call.stdin = Some(b"b\n");
            let o = call.run();
            let shown = String::from_utf8_lossy(&o.stdout).to_string();
            if o.code != Some(0) || !shown.contains("--dump-input") || ["never", "fail", "always", "help"].iter().any(|w| !shown.contains(w)) {
                run.violation(&format!("dump-input=help: {argv:?} env={env}"), &format!("exit {:?}, stdout {shown:?}", o.code));
            }
            run.count(1, 1, 1);
        }
    }
    run.bound("--dump-input=help given as an argument or in FILECHECK_OPTS, with files that exist or not".to_string());

    // 3. prefixes
    std::fs::write(d.join("p"), "AA: a\nBB: b\nCHECK: c\nNO: AA: zz\n").unwrap();
    let pf: Vec<(Vec<&str>, Option<&str>)> = vec![
        (vec![], Some("c")),
        (vec!["--check-prefixes", "AA"], Some("a")),
        (vec!["--check-prefix", "AA"], Some("a")),
        (vec!["--check-prefix=BB"], Some("b")),
        (vec!["--check-prefixes", "AA,BB"], Some("ab")),
        (vec!["--check-prefixes", "BB,AA"], Some("ab")),
        (vec!["--check-prefix", "AA", "--check-prefix", "CHECK"], Some("ac")),
        (vec!["--check-prefix", "AA", "--check-prefix", "AA"], Some("a")),
        (vec!["--check-prefixes", "AA,ZZ"], None),
        (vec!["--check-prefixes", "AA,ZZ", "--allow-unused-prefixes"], Some("a")),
        (vec!["--check-prefixes", "ZZ"], None),
        (vec!["--check-prefixes", "ZZ", "--allow-unused-prefixes"], None),
        (vec!["--check-prefixes", "AA", "--comment-prefixes", "NO"], Some("a")),
        (vec!["--check-prefixes", "AA", "--comment-prefixes", "AA"], None),
        (vec!["--check-prefixes", ""], None),
        (vec!["--check-prefixes", "1A"], None),
        (vec!["--check-prefixes", "A A"], None),
        (vec!["--check-prefixes", "A.A"], None),
        (vec!["--no-such-option"], None),
    ];
    // with NO as a comment prefix the last line is a comment; otherwise it is a check for "zz"
    let lines = ["a\nb\nc\n", "a\nb\nc\nzz\n", "a\nb\nzz\n", "c\n", "b\na\nzz\n", "x\n"];
    par_for(run, pf.len(), |k| {
        let (opts, want) = &pf[k];
        for input in lines {
            let mut args = vec!["filecheck", "p"];
            args.extend(opts);
            let mut call = Call::new(d, &args);
            call.stdin = Some(input.as_bytes());
            let o = call.run();
            let mut pats: Vec<String> = want.unwrap_or("").chars().map(String::from).collect();
            if pats.contains(&"a".to_string()) && !opts.contains(&"--comment-prefixes") {
                pats.push("zz".into());
            }
            let mut at = 0;
            let ok = want.is_some()
                && pats.iter().all(|p| match input[at..].find(p.as_str()) {
                    Some(i) => {
                        at += i + p.len();
                        true
                    }
                    None => false,
                });
            judge(run, &format!("prefixes {opts:?} on {input:?}"), &o, Some(ok));
            run.count(1, 1, 1);
        }
    });
    run.bound(format!("{} settings of the prefixes x {} inputs", pf.len(), lines.len()));

    // 4. line endings of either file make no difference
    use fcm::{Ck, Kind::*, Part};
    let re = |k, r: &str| Ck::new(k, vec![Part::Re(r.into())]);
    let items = [
        Ck::lit(Plain, "a"),
        re(Plain, "a$"),
        Ck::new(Plain, vec![Part::Lit("a".into()), Part::Def("X".into(), ".*".into())]),
        Ck::new(Plain, vec![Part::Lit("b".into()), Part::Use("X".into())]),
        Ck::lit(Next, "b"),
        re(Next, "^b?$"),
        Ck::lit(Empty, ""),
        re(Same, "b$"),
        re(Not, "a$"),
        Ck::lit(Dag, "b"),
    ];
    let files: Vec<Vec<Ck>> = sequences(&items, 1, run.pick(2, 3)).into_iter().filter(|f| !matches!(f[0].kind, Next | Empty | Same) && !(f[0].kind == Not && f.get(1).is_some_and(|c| matches!(c.kind, Next | Empty | Same | Not)))).collect();
    let ins = crate::fc::inputs(&["", "a", "b", "ab"], run.pick(2, 3));
    let sub = |k: usize| dir.path().join(k.to_string());
    par_for(run, files.len(), |k| {
        let w = sub(k);
        std::fs::create_dir(&w).unwrap();
        let text = fcm::render(&files[k]);
        std::fs::write(w.join("lf"), &text).unwrap();
        std::fs::write(w.join("crlf"), text.replace('\n', "\r\n")).unwrap();
        for input in &ins {
            let cr = input.replace('\n', "\r\n");
            std::fs::write(w.join("in"), &cr).unwrap();
            for strict in [false, true] {
                let o = Opt { strict_ws: strict, ..Opt::default() };
                let want = match fcm::eval(&files[k], &o, input) {
                    Verdict::Accept(_) => Some(true),
                    Verdict::Reject(_) => Some(false),
                    Verdict::Ambiguous => None,
                };
                for (c, i, stdin) in [("lf", &cr, false), ("crlf", input, true), ("crlf", &cr, true)] {
                    let mut args = vec!["filecheck", c];
                    if strict {
                        args.push("--strict-whitespace");
                    }
                    if !stdin {
                        args.extend(["--input-file", "in"]);
                    }
                    let mut call = Call::new(&w, &args);
                    if stdin {
                        call.stdin = Some(i.as_bytes());
                    }
                    let out = call.run();
                    judge(run, &format!("check file {text:?} with {c} line endings on {i:?}{}", if strict { " --strict-whitespace" } else { "" }), &out, want);
                    run.outcome(if out.code == Some(0) { "exit zero" } else { "exit nonzero" });
                    run.count(1, 1, 1);
                }
            }
            if run.done() {
                return;
            }
        }
        let _ = std::fs::remove_dir_all(&w);
    });
    run.bound(format!("CRLF line endings in the check file, the input or both: {} check files x {} inputs x --strict-whitespace", files.len(), ins.len()));
}

/// How the input arrives and where the output goes make no difference to the verdict.
fn channels(run: &Run) {
    let dir = Scratch::new("f15c");
    let d = &dir.path().canonicalize().unwrap();
    let exe = litcheck();
    let exe = exe.to_str().unwrap();
    let checks = [("plain", "CHECK: a\nCHECK-NEXT: é\n"), ("not", "CHECK-NOT: x\nCHECK: é\n"), ("capture", "CHECK: [[X:.*]]\nCHECK-NEXT: [[X]]\n"), ("bad", "CHECK: [[X\n"), ("none", "hello\n")];
    let inputs = [("good", "a\né\n"), ("bad", "x\na\nb\n"), ("same", "é\né"), ("long", ""), ("empty", "")];
    let long = format!("{}a\né\n", "é 0123456789\n".repeat(20_000));
    let text = |n: &str, t: &str| if n == "long" { long.clone() } else { t.to_string() };
    std::fs::create_dir_all(d.join("dir with é/x")).unwrap();
    for (n, t) in checks {
        std::fs::write(d.join(format!("c-{n}")), t).unwrap();
        std::fs::write(d.join(format!("dir with é/c-{n}")), t).unwrap();
        std::os::unix::fs::symlink(d.join(format!("c-{n}")), d.join(format!("cl-{n}"))).unwrap();
    }
    for (n, t) in inputs {
        std::fs::write(d.join(format!("i-{n}")), text(n, t)).unwrap();
        std::fs::write(d.join(format!("dir with é/i-{n}")), text(n, t)).unwrap();
        std::os::unix::fs::symlink(format!("i-{n}"), d.join(format!("il-{n}"))).unwrap();
    }
    // $C: the name of the check file's contents, $I: that of the input's
    let ways = [
        "$E filecheck c-$C < i-$I",
        "$E filecheck c-$C --input-file i-$I",
        "$E filecheck --input-file=i-$I c-$C",
        "$E filecheck c-$C --input-file - < i-$I",
        "cat i-$I | $E filecheck c-$C",
        "dd bs=1 count=40 if=i-$I 2>/dev/null > s-$C-$I; (dd bs=1 if=s-$C-$I; sleep 0.05; tail -c +41 i-$I) 2>/dev/null | $E filecheck c-$C",
        "$E filecheck c-$C --input-file <(cat i-$I)",
        "$E filecheck <(cat c-$C) --input-file i-$I",
        "$E filecheck c-$C --input-file /dev/stdin < i-$I",
        "$E filecheck - --input-file i-$I < c-$C",
        "$E filecheck cl-$C --input-file il-$I",
        "$E filecheck $PWD/c-$C --input-file $PWD/i-$I",
        "$E filecheck './dir with é/c-'$C --input-file 'dir with é/x/../i-'$I",
        "cd 'dir with é/x'; $E filecheck ../../c-$C --input-file ../../i-$I",
        "$E filecheck c-$C < i-$I > /dev/full",
        "$E filecheck c-$C < i-$I 2> /dev/full",
        "$E filecheck c-$C < i-$I > /dev/full 2>&1",
        "$E filecheck c-$C < i-$I >&-",
        "$E filecheck c-$C < i-$I 2>&-",
        "$E filecheck c-$C < i-$I >&- 2>&-",
        "$E filecheck c-$C --input-file i-$I <&-",
        "cd /; $E filecheck $D/c-$C --input-file $D/i-$I",
        "TERM=dumb COLUMNS=1 RUST_BACKTRACE=full LANG=xx $E filecheck c-$C < i-$I",
        "ulimit -n 16; $E filecheck c-$C < i-$I",
        "$E filecheck c-$C < i-$I | true; exit ${PIPESTATUS[0]}",
        "trap '' PIPE; $E filecheck c-$C < i-$I 2>&1 >/dev/null | true; exit ${PIPESTATUS[0]}",
    ];
    par_for(run, ways.len() * checks.len() * inputs.len(), |k| {
        let (w, c, i) = (ways[k / (checks.len() * inputs.len())], checks[k / inputs.len() % checks.len()], inputs[k % inputs.len()]);
        let script = w.replace("$C", c.0).replace("$I", i.0);
        let mut call = Call::new(d, &["-c", &script]);
        call.env = vec![("E".into(), exe.into()), ("D".into(), d.to_str().unwrap().into()), ("LANG".into(), "C.UTF-8".into())];
        let o = call.run_bin(std::path::Path::new("/bin/bash"));
        let want = match c.0 {
            "bad" => Some(false),
            "capture" => Some(matches!(i.0, "same" | "long")),
            _ => verdict(c.1, &Opt::default(), &text(i.0, i.1)),
        };
        // a report which cannot be written is lost, the verdict is not
        if w.contains("/dev/full") || w.contains(">&-") || w.contains("| true") {
            if want.is_some_and(|w| w != (o.code == Some(0))) || o.timed_out {
                report(run, "verdict-depends-on-output", script, &o);
            }
        } else {
            judge(run, &script, &o, want);
        }
        run.outcome(if o.code == Some(0) { "exit zero" } else { "exit nonzero" });
        run.count(1, 1, 1);
    });
    run.bound(format!("{} ways of giving the files and of taking the output x {} check files x {} inputs", ways.len(), checks.len(), inputs.len()));
    for extra in [&[][..], &["--allow-empty"], &["-v"]] {
        let mut args = vec!["filecheck", "c-plain", "--dump-input=help", "--input-file", "i-bad"];
        args.extend(extra);
        let o = Call::new(d, &args).run();
        run.count(1, 1, 1);
        judge(run, &format!("{args:?}"), &o, Some(true));
        if o.stdout().trim().is_empty() {
            report(run, "no help", format!("{args:?}"), &o);
        }
    }
}

/// The structured form of the texts of part 2.
fn structured(i: usize, o: &Opt, input: &str) -> Option<bool> {
    use fcm::{Ck, Ex, Kind::*, Part};
    let l = |s: &str| Part::Lit(s.into());
    let u = |s: &str| Part::Use(s.into());
    let df = |s: &str| Part::Def(s.into(), "a".into());
    let plain = |p: Part| Ck::new(Plain, vec![p]);
    let c = match i {
        0 => vec![plain(l("a b"))],
        1 => vec![plain(l(if o.strict_ws { " a" } else { "a" }))],
        2 => vec![plain(l("A"))],
        3 => vec![plain(u("X"))],
        4 => vec![plain(Part::Num { fmt: None, def: None, expr: Some(Ex::Bin('+', Box::new(Ex::Var("N".into())), Box::new(Ex::Int(1)))) })],
        5 => vec![plain(l("a")), plain(l("b"))],
        6 => vec![Ck::lit(Not, "b"), plain(l("a"))],
        7 => vec![plain(df("Y")), Ck::lit(Label, "b"), plain(u("Y"))],
        _ => vec![plain(df("$Y")), Ck::lit(Label, "b"), plain(u("$Y"))],
    };
    match fcm::eval(&c, o, input) {
        Verdict::Accept(_) => Some(true),
        Verdict::Reject(_) => Some(false),
        Verdict::Ambiguous => None,
    }
}

/// The words of `text` as a POSIX shell splits them (without expansions), or None if a quote is not closed
/// or a backslash is the last character.
fn split_words(text: &str) -> Option<Vec<String>> {
    let mut words = vec![];
    let mut word: Option<String> = None;
    let mut chars = text.chars();
    while let Some(c) = chars.next() {
        match c {
            ' ' => words.extend(word.take()),
            '\\' => word.get_or_insert_default().push(chars.next()?),
            '\'' => {
                let w = word.get_or_insert_default();
                loop {
                    match chars.next()? {
                        '\'' => break,
                        c => w.push(c),
                    }
                }
            }
            '"' => {
                let w = word.get_or_insert_default();
                loop {
                    match chars.next()? {
                        '"' => break,
                        '\\' => match chars.next()? {
                            c @ ('"' | '\\' | '$' | '`') => w.push(c),
                            c => {
                                w.push('\\');
                                w.push(c);
                            }
                        },
                        c => w.push(c),
                    }
                }
            }
            c => word.get_or_insert_default().push(c),
        }
    }
    words.extend(word);
    Some(words)
}
