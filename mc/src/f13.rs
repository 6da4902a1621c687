//! F13: totality. Every enumerated (check file, input, options) must end in acceptance, rejection
//! or a diagnostic which can be rendered; and options that only concern reporting must leave the
//! verdict alone.
use crate::fc::*;
use crate::fcm::Opt;
use crate::fw::*;
use crate::proc::*;
use filecheck::{Config, Dump, expr::CliVariable};
use litcheck::Symbol;
use std::collections::BTreeMap;

type Tweak = (&'static str, fn(&mut Config));

fn class(r: &Real) -> &'static str {
    match r {
        Real::Accept(_) => "accepted",
        Real::Reject => "rejected",
        Real::Invalid(_) => "invalid",
        Real::Panic(_) => "panic",
    }
}

/// What the check is doing when it fails.
fn report(run: &Run, explore: bool, kind: &str, text: &str, input: &str, opts: &str, what: &str) {
    let d = format!("check file: {text:?}\ninput: {input:?}\noptions: {opts}\n{what}");
    if explore {
        println!("--- {what}\n{d}\n");
    } else {
        run.violation(format!("{kind}: {text:?} on {input:?}{opts}"), d);
    }
}

fn sweep(run: &Run, files: &[String], inputs: &[String], opts: &str, set: impl Fn(&mut Config) + Sync) {
    let explore = std::env::var("FC_EXPLORE").is_ok();
    par_for(run, files.len(), |fi| {
        let text = &files[fi];
        let mut c = config(&Opt::default());
        c.options.dump_input = Dump::Fail;
        set(&mut c);
        let mut oc: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut n = 0;
        with_checks(&c, text, true, |one| {
            for input in inputs {
                let r = one(input);
                n += 1;
                *oc.entry(class(&r)).or_default() += 1;
                if let Real::Panic(p) = &r {
                    report(run, explore, "panic", text, input, opts, p);
                }
                // the same answer for every input: the file does not compile
                if run.done() || matches!(r, Real::Invalid(_)) || matches!(&r, Real::Panic(p) if p.starts_with("compiling")) {
                    break;
                }
            }
        });
        run.count(n, n, n);
        run.outcomes(&oc);
    });
}

fn wrap(pre: &str, post: &str, v: &[String]) -> Vec<String> {
    v.iter().map(|s| format!("{pre}{s}{post}")).collect()
}
fn own(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

pub fn check(run: &Run) {
    let n = |q: usize, t: usize| run.pick(q, t);
    let _ = litcheck::reporting::set_hook(Box::new(|_| Box::new(litcheck::reporting::ReportHandlerOpts::new().build())));
    let odd = own(&["", "a", "\n", "1 0x1F é\r\n X 12\n", "[[a]] {{a}}\n\n", "漢a\u{301}é"]);

    // 1. pattern text
    let general = ["[[", "]]", "{{", "}}", "[[#", "X", ":", "%", ",", "@LINE", "(", ")", "=", "1", "$", "\\", "[", "]", "{", "}", "|", "*", "^", "é", " ", "a", "-"];
    let inner = ["X", "a", ":", "%", "x", "d", ",", "@LINE", "@", "+", "-", "(", ")", "==", "=", "0x", "0b", "1", "8", "18446744073709551616", "$", "#", ".3", "min", "add(", " ", "é", "[", "]", "\\", "\"", "_"];
    let regex = ["a", "(", ")", "[", "]", "{", "}", "?", "*", "+", "|", "\\", "^", "$", ".", "\\b", "\\d", "2", ",", "é", "[^", "(?:", "(?i)", "\\x", ":", "-", " ", "{9999}", "(?<n>"];
    let g = strings(&general, n(3, 4));
    let i = strings(&inner, n(3, 4));
    let x = strings(&regex, n(3, 4));
    let mut files = wrap("CHECK: ", "\n", &g);
    files.extend(wrap("CHECK: a[[", "]]b", &i));
    files.extend(wrap("CHECK: [[#", "]]\n", &i));
    files.extend(wrap("CHECK: {{", "}}\n", &x));
    files.extend(wrap("CHECK: [[X:", "]][[X]]\n", &x));
    sweep(run, &files, &odd, "", |_| ());
    run.bound(format!("{} check files with one pattern: every string of up to {} fragments as a pattern, in a substitution block, in a numeric block, in a regex block and in a capture x {} inputs", files.len(), n(3, 4), odd.len()));

    // 2. variables defined first, then used in odd ways
    let uses = strings(&inner, 2);
    let mut files = wrap("CHECK: [[X:a+]] [[#%x,N:]]\nCHECK-NEXT: [[", "]]", &uses);
    files.extend(wrap("CHECK: [[X:a+]] [[#%x,N:]]\nCHECK-NEXT: [[#X", "]]", &uses));
    files.extend(wrap("CHECK: [[X:a+]] [[#%x,N:]]\nCHECK-NEXT: [[#%.2d,N", "]]\nCHECK-NOT: [[#N]]", &uses));
    let nums = own(&["a 1\na", "aa ff\n-1\n", "a ffffffffffffffff\n1", "a 8000000000000000\n0", "a é\né"]);
    sweep(run, &files, &nums, "", |_| ());
    run.bound(format!("{} check files using captured variables in every way of up to 2 fragments x {} inputs", files.len(), nums.len()));

    // 3. directive sequences on odd inputs
    let lines = [
        "CHECK: a", "CHECK-NEXT: é", "CHECK-SAME: {{$}}", "CHECK-NOT: {{a*}}", "CHECK-DAG: {{^}}", "CHECK-LABEL: é", "CHECK-EMPTY:", "CHECK-COUNT-2: {{a?}}", "CHECK-DAG: [[X:.]]", "CHECK: [[#@LINE]]", "CHECK-NOT: [[X]]", "CHECK-LABEL: {{^}}", "CHECK{LITERAL}: {{",
        "CHECK: [[#N:]]", "CHECK-DAG: [[#N+1]]", "CHECK-SAME: [[X:]]", "CHECK: {{(a|é)+}}", "CHECK-NEXT: {{[^x]}}",
    ];
    let seqs: Vec<String> = sequences(&lines, 1, n(3, 4)).into_iter().map(|v| v.join("\n")).collect();
    let seq2: Vec<String> = sequences(&lines, 1, 2).into_iter().map(|v| v.join("\n") + "\n").collect();
    let crlf: Vec<String> = sequences(&lines, 1, 2).into_iter().map(|v| v.join("\r\n") + "\r\n").collect();
    let ins = strings(&["a", "é", "\n", "\r\n", "7", "\t"], n(2, 3));
    let ins3 = strings(&["a", "é", "\n", "\r", "7", "漢", "\0", "\u{a0}", " "], 3);
    sweep(run, &seqs, &ins, "", |_| ());
    sweep(run, &seq2, &ins3, "", |_| ());
    sweep(run, &crlf, &ins, "", |_| ());
    run.bound(format!("every sequence of up to {} of {} directives ({}) x {} inputs, of up to 2 x {} inputs, and of up to 2 with CRLF line ends", n(3, 4), lines.len(), seqs.len(), ins.len(), ins3.len()));

    // 4. options: implicit patterns, command line variables, and every combination of switches
    let imp = strings(&general, 2);
    par_opts(run, "implicit-check-not", &imp, &ins, &seq2[..18], |c, s| {
        c.options.implicit_check_not = vec![Symbol::intern(s)];
        true
    });
    let defs = strings(&["X", "#", "=", "1", "%x", "%", ",", "$", "+", "N", "-", " ", ":", "é", "0x", ".9"], n(4, 5));
    let with = own(&["CHECK: [[X]]", "CHECK: [[#N]]", "CHECK: [[#X+1]]", "CHECK: [[$X]]"]);
    par_opts(run, "D", &defs, &own(&["1 X é", "0x1\n-1"]), &with, |c, s| match s.parse::<CliVariable>() {
        Ok(v) => {
            c.options.variables = vec![v];
            true
        }
        Err(_) => false,
    });
    run.bound(format!("{} implicit patterns, {} command line variable definitions", imp.len(), defs.len()));
    let tweaks: [Tweak; 6] = [
        ("strict-whitespace", |c| c.options.strict_whitespace = true),
        ("match-full-lines", |c| c.options.match_full_lines = true),
        ("ignore-case", |c| c.options.ignore_case = true),
        ("enable-var-scope", |c| c.options.enable_var_scope = true),
        ("allow-empty", |c| c.options.allow_empty = true),
        ("allow-unused-prefixes", |c| c.options.allow_unused_prefixes = true),
    ];
    for m in 1u32..64 {
        if !run.thorough() && m.count_ones() > 2 {
            continue;
        }
        let names: String = tweaks.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, t)| format!(" {}", t.0)).collect();
        sweep(run, &seq2, &ins, &names, |c| {
            for (i, t) in tweaks.iter().enumerate() {
                if m >> i & 1 == 1 {
                    (t.1)(c)
                }
            }
        });
    }
    run.bound("sequences of up to 2 directives under every combination of matching options (pairs in the quick tier)");

    // 5. reporting options leave the verdict alone
    reporting(run, &seq2, &ins3);

    // 6. tracing, which formats what the implementation works on, does so as well
    log::set_logger(&Sink).expect("no other logger");
    let mut traced = seq2.clone();
    traced.extend(wrap("CHECK: ", "\n", &strings(&general, 2)));
    traced.extend(wrap("CHECK: [[#", "]]\n", &strings(&inner, 2)));
    traced.extend(wrap("CHECK: a[[", "]]b", &strings(&inner, 2)));
    traced.extend(uses.iter().map(|u| format!("CHECK: [[X:a+]] [[#%x,N:]]\nCHECK-NEXT: [[{u}]]")));
    let mut ins_t = nums.clone();
    ins_t.extend(ins.iter().cloned());
    ins_t.extend(odd.iter().cloned());
    tracing(run, &traced, &ins_t);

    // 7. size: each shape at growing sizes, in a process of its own
    let r = |s: &str, n: usize| s.repeat(n);
    let shapes: Vec<(&str, fn(usize) -> String)> = vec![
        ("nested parentheses", |n| format!("CHECK: [[#{}1{}]]\n", "(".repeat(n), ")".repeat(n))),
        ("terms of a sum", |n| format!("CHECK: [[#{}1]]\n", "1+".repeat(n))),
        ("nested calls", |n| format!("CHECK: [[#{}1{}]]\n", "add(1,".repeat(n), ")".repeat(n))),
        ("nested groups", |n| format!("CHECK: {{{{{}a{}}}}}\n", "(".repeat(n), ")".repeat(n))),
        ("regex blocks", |n| format!("CHECK: {}\n", "{{a}}b".repeat(n))),
        ("substitutions", |n| format!("CHECK: [[X:a]]{}\n", "[[X]]".repeat(n))),
        ("checks", |n| "CHECK: a\n".repeat(n)),
        ("unordered checks", |n| "CHECK-DAG: a\n".repeat(n)),
        ("forbidden patterns", |n| format!("{}CHECK: a\n", "CHECK-NOT: b\n".repeat(n))),
        ("labels", |n| "CHECK-LABEL: a\n".repeat(n)),
        ("brackets", |n| format!("CHECK: {}\n", "[".repeat(n))),
        ("braces", |n| format!("CHECK: {}\n", "{".repeat(n))),
    ];
    let dir = Scratch::new("f13");
    std::fs::write(dir.path().join("i"), r("a\n", 1000) + "1\n").unwrap();
    let sizes = [0usize, 1, 10, 100, 300, 100_000];
    par_for(run, shapes.len() * sizes.len(), |k| {
        let ((name, f), n) = (&shapes[k / sizes.len()], sizes[k % sizes.len()]);
        // the large size is about the depth of expressions and patterns, not about search time
        if n > 300 && !matches!(*name, "nested parentheses" | "terms of a sum" | "nested calls" | "nested groups" | "brackets" | "braces") {
            return;
        }
        let file = format!("c{k}");
        std::fs::write(dir.path().join(&file), f(n)).unwrap();
        let o = Call::new(dir.path(), &["filecheck", &file, "--input-file", "i"]).run();
        crate::f15::judge(run, &format!("{n} {name}"), &o, None);
        run.outcome(if o.code == Some(0) { "accepted" } else { "rejected" });
        run.count(1, 1, 1);
    });
    std::fs::write(dir.path().join("cols"), "CHECK-NOT: b\n").unwrap();
    for n in [0usize, 1, 200, 60_000, 70_000] {
        let f = format!("line{n}");
        std::fs::write(dir.path().join(&f), r("x", n) + "b\n").unwrap();
        let o = Call::new(dir.path(), &["filecheck", "cols", "--input-file", &f]).run();
        crate::f15::judge(run, &format!("excluded text after {n} columns"), &o, Some(false));
        run.count(1, 1, 1);
    }
    run.bound("an excluded match after 0, 1, 200, 60000 and 70000 columns");
    run.bound("12 shapes of check file at sizes 0, 1, 10, 100, 300 (and 100000 where the size is one of depth), each in its own process");
}

fn par_opts(run: &Run, name: &str, vals: &[String], inputs: &[String], files: &[String], set: impl Fn(&mut Config, &str) -> bool + Sync) {
    let explore = std::env::var("FC_EXPLORE").is_ok();
    par_for(run, vals.len(), |vi| {
        let val = &vals[vi];
        let opts = format!(" with {name}={val:?}");
        let mut c = config(&Opt::default());
        c.options.dump_input = Dump::Fail;
        let ok = case(&opts, "", || guard(|| set(&mut c, val)));
        let mut n = 1;
        match ok {
            Err(p) => report(run, explore, "panic", "", "", &opts, &p),
            Ok(false) => run.outcome("option refused"),
            Ok(true) => {
                for f in files {
                    with_checks(&c, f, true, |one| {
                        for input in inputs {
                            let r = one(input);
                            n += 1;
                            run.outcome(class(&r));
                            if let Real::Panic(p) = &r {
                                report(run, explore, "panic", f, input, &opts, p);
                            }
                            if matches!(r, Real::Invalid(_)) {
                                break;
                            }
                        }
                    });
                    if run.done() {
                        return;
                    }
                }
            }
        }
        run.count(n, n, n);
    });
}

/// A logger which formats every message, and drops it.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        struct Null;
        impl std::fmt::Write for Null {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = std::fmt::write(&mut Null, *r.args());
    }
    fn flush(&self) {}
}

fn tracing(run: &Run, files: &[String], inputs: &[String]) {
    let explore = std::env::var("FC_EXPLORE").is_ok();
    let mut base = vec![];
    for level in [log::LevelFilter::Off, log::LevelFilter::Trace] {
        log::set_max_level(level);
        let all: Vec<_> = files.iter().map(|_| std::sync::Mutex::new(vec![])).collect();
        par_for(run, files.len(), |fi| {
            let f = &files[fi];
            let c = config(&Opt::default());
            let mut v = vec![];
            with_checks(&c, f, false, |one| {
                for i in inputs {
                    let r = match one(i) {
                        Real::Invalid(_) => Real::Invalid(String::new()),
                        r => r,
                    };
                    let stop = matches!(r, Real::Invalid(_));
                    v.push(r);
                    if stop {
                        break;
                    }
                }
            });
            run.count(v.len() as u64, v.len() as u64, v.len() as u64);
            *all[fi].lock().unwrap() = v;
        });
        let all: Vec<Vec<Real>> = all.into_iter().map(|m| m.into_inner().unwrap()).collect();
        if base.is_empty() {
            base = all;
            continue;
        }
        for (fi, (a, b)) in base.iter().zip(&all).enumerate() {
            if let Some(k) = (0..a.len().max(b.len())).find(|k| a.get(*k) != b.get(*k)) {
                report(run, explore, "tracing-changes-verdict", &files[fi], &inputs[k], "", &format!("{:?} becomes {:?}", a.get(k), b.get(k)));
            }
        }
    }
    log::set_max_level(log::LevelFilter::Off);
    run.bound(format!("{} check files x {} inputs with and without tracing", files.len(), inputs.len()));
}

fn reporting(run: &Run, files: &[String], inputs: &[String]) {
    let explore = std::env::var("FC_EXPLORE").is_ok();
    // the verbose settings write remarks to standard error
    let null = std::fs::File::options().write(true).open("/dev/null").unwrap();
    let saved = unsafe { libc::dup(2) };
    unsafe { libc::dup2(std::os::fd::AsRawFd::as_raw_fd(&null), 2) };
    let tweaks: [Tweak; 5] = [
        ("dump-input=never", |c| c.options.dump_input = Dump::Never),
        ("dump-input=always", |c| c.options.dump_input = Dump::Always),
        ("-v", |c| c.options.verbose = 1),
        ("-vv", |c| c.options.verbose = 2),
        ("-vv dump-input=never", |c| {
            c.options.verbose = 2;
            c.options.dump_input = Dump::Never
        }),
    ];
    par_for(run, files.len(), |fi| {
        let f = &files[fi];
        let mut base = vec![];
        let mut c = config(&Opt::default());
        c.options.dump_input = Dump::Fail;
        let verdict = |r: Real| match r {
            Real::Invalid(_) => Real::Invalid(String::new()),
            r => r,
        };
        with_checks(&c, f, true, |one| base = inputs.iter().map(|i| verdict(one(i))).collect());
        for (name, t) in &tweaks {
            let mut c = config(&Opt::default());
            c.options.dump_input = Dump::Fail;
            t(&mut c);
            with_checks(&c, f, true, |one| {
                for (k, i) in inputs.iter().enumerate() {
                    let r = verdict(one(i));
                    if r != base[k] {
                        report(run, explore, "reporting-option-changes-verdict", f, i, &format!(" with {name}"), &format!("{:?} becomes {r:?}", base[k]));
                    }
                    if run.done() {
                        return;
                    }
                }
            });
            run.count(inputs.len() as u64, inputs.len() as u64, inputs.len() as u64);
        }
    });
    unsafe {
        libc::dup2(saved, 2);
        libc::close(saved);
    }
    run.bound(format!("{} check files x {} inputs x 5 settings of the reporting options against the default", files.len(), inputs.len()));
}
