//! L13: what the report of a test shows. Scripts of every shape are executed by the real format and
//! by the real binary; the commands that ran are named with the line they are on, and what they
//! printed is there, all of it, in order, and with the test it is of.
use crate::fw::*;
use crate::litx::{config, format, Bench};
use crate::proc::{Call, litcheck};
use lit::{Config, TestStatus};
use std::path::Path;

/// A command: its lines, what it prints on either stream, and its status
struct Cmd {
    text: &'static str,
    out: &'static [u8],
    err: &'static str,
    code: i32,
}
const fn c(text: &'static str, out: &'static [u8], err: &'static str, code: i32) -> Cmd {
    Cmd { text, out, err, code }
}
const CMDS: [Cmd; 13] = [
    c("true", b"", "", 0),
    c("echo a", b"a\n", "", 0),
    c("echo b >&2", b"", "b\n", 0),
    c("printf c", b"c", "", 0),
    c("cat $D/bin", b"\xff\xfe\0x\n", "", 0),
    c("echo d; false", b"d\n", "", 1),
    c("echo e >&2; exit 3", b"", "e\n", 3),
    c("echo f \\\nRUN:   g", b"f g\n", "", 0),
    c("echo 'q  r'", b"q  r\n", "", 0),
    c("echo x && sh -c 'exit 7'", b"x\n", "", 7),
    c("echo \"$D\" >/dev/null && echo \\\n// RUN: h \\\n  ## RUN: i >&2", b"", "h i\n", 0),
    c("false || echo 'it''s'", b"its\n", "", 0),
    c("echo %{v} && exit %(line)", b"V\n", "", -1),
];
const BETWEEN: [&str; 3] = ["", "\n// text\n", "DEFINE: %{w} = \\\nDEFINE:  1\nXFAIL: never\n"];

/// The commands that ran, and what they should leave.
fn scripts(run: &Run, b: &Bench, cmds: &[usize], between: &[&str], shell: &str) {
    let mut text = String::new();
    let (mut out, mut err, mut code, mut ended) = (vec![], String::new(), 0, false);
    for (k, &i) in cmds.iter().enumerate() {
        // definitions may be given once
        let sep = between[(k + cmds.len()) % between.len()];
        text += if text.contains(sep) { "" } else { sep };
        let line = text.matches('\n').count() + 1;
        let x = &CMDS[i];
        text += &format!("RUN: {}\n", x.text);
        if ended {
            continue;
        }
        // every line without its keyword
        let shown: Vec<String> = x.text.split('\n').enumerate().map(|(j, l)| if j == 0 { l.to_string() } else { l.split_once("RUN:").unwrap().1.to_string() }).collect();
        let shown = shown.join("\n").replace("%{v}", "V").replace("%(line)", &line.to_string());
        err += &format!("RUN at line {line}: {shown}\n{}", x.err);
        out.extend_from_slice(x.out);
        code = if x.code < 0 { line as i32 } else { x.code };
        ended = code != 0;
    }
    let mut tc = config(&[], &[("D", b.path("data").display().to_string())], &[("%\\{v\\}", "V")]);
    tc.format = format(&format!("[format.shtest]\nshell = \"{shell}\"\n"));
    let r = case("test script", &text, || guard(|| b.run("t.txt", text.as_bytes(), tc, &Config::default())));
    run.count(1, cmds.len() as u64, 1);
    let fail = |what: String| run.violation(format!("script: {text:?} with {shell}"), what);
    let r = match r {
        Ok(r) => r,
        Err(p) => return fail(format!("panics: {p}")),
    };
    let want = if code == 0 { TestStatus::Pass } else { TestStatus::Fail };
    run.outcome(want.tag());
    if r.status() != want || r.exit_code() != Some(code) {
        return fail(format!("{} with exit code {:?}, should be {} with {code}\n{}", r.status().tag(), r.exit_code(), want.tag(), r.stderr()));
    }
    if r.stdout() != String::from_utf8_lossy(&out) {
        return fail(format!("the standard output is {:?}, should be {:?}", r.stdout(), String::from_utf8_lossy(&out)));
    }
    // the shell also traces each command
    let got: String = r.stderr().split_inclusive('\n').filter(|l| !l.starts_with('+')).collect();
    if got != err {
        return fail(format!("the commands shown and the standard error are\n{got}\nshould be\n{err}"));
    }
}

// ---------------------------------------------------------------------------------- the report

/// What a test prints, and how it ends
struct T {
    name: String,
    tag: &'static str,
    failing: bool,
    /// the part after the line with the status
    body: String,
}

const OUTS: [(&str, &[u8]); 10] = [
    ("none", b""),
    ("line", b"text\n"),
    ("open", b"no line end"),
    ("blank", b"\n"),
    ("lines", b"a\n\n\nb\n\n"),
    ("bytes", b"\xff\xc3\x28\xe2\x82\xac\n"),
    ("fake", b"FAIL: s::x.test\nExit Code: 7\nCommand Output (stderr) ----\n----------------------------\n\nPASS: s::y.test\n"),
    ("summary", b"******************** Failed Tests (9):\n  s::z\n\nTotal Discovered Tests: 99\n"),
    ("ansi", b"\x1b[31mred\x1b[0m\ttab\r\n%s {} {{x}}\n"),
    ("long", b""),
];
fn data(name: &str) -> Vec<u8> {
    if name == "huge" {
        return (0..600_000).flat_map(|i| format!("{i:09}\n").into_bytes()).collect();
    }
    if name == "long" {
        return (0..12000).flat_map(|i| format!("{i} of many lines\n").into_bytes()).collect();
    }
    OUTS.iter().find(|o| o.0 == name).unwrap().1.to_vec()
}
/// status, lines before the command, and how the command ends
const ENDS: [(&str, bool, &str, &str, Option<i32>); 9] = [
    ("PASS", false, "", "exit 0", Some(0)),
    ("FAIL", true, "", "exit 1", Some(1)),
    ("FAIL", true, "", "exit 3", Some(3)),
    ("FAIL", true, "ALLOWED_RETRIES: 1\n", "exit 255", Some(255)),
    ("UNRESOLVED", true, "", "kill -9 $$", None),
    ("XFAIL", false, "XFAIL: *\n", "exit 2", Some(2)),
    ("XPASS", true, "XFAIL: *\n", "exit 0", Some(0)),
    ("UNSUPPORTED", false, "REQUIRES: feature, a || b\n", "exit 0", None),
    ("UNSUPPORTED", false, "UNSUPPORTED: nothing, !feature\n", "exit 1", None),
];

fn section(s: &mut String, name: &str, bytes: &[u8]) {
    if !bytes.is_empty() {
        *s += &format!("Command Output ({name}) ----\n{}\n----------------------------\n", String::from_utf8_lossy(bytes));
    }
}
fn body(code: Option<i32>, timing: &str, out: &[u8], err: &[u8]) -> String {
    let mut s = match code {
        Some(0) => String::new(),
        Some(c) => format!("Exit Code: {c}\n"),
        None => "Exit Code: N/A\n".into(),
    };
    s += timing;
    s.push('\n');
    section(&mut s, "stdout", out);
    section(&mut s, "stderr", err);
    s
}

fn write_suite(d: &Path, name: &str, ends: &[usize], outs: &[&str], errs: &[&str], executable: bool) -> Vec<T> {
    std::fs::create_dir_all(d).unwrap();
    let f = if executable { "executable" } else { "shtest" };
    std::fs::write(d.join("lit.suite.toml"), format!("name = \"{name}\"\npatterns = [\"*.test\"]\nworking_dir = \".\"\n[format.{f}]\n")).unwrap();
    let mut v = vec![];
    for &e in ends {
        let (tag, failing, before, end, code) = ENDS[e];
        for o in outs {
            for r in errs {
                let file = format!("{e}-{o}-{r}.test");
                let cat = |n: &str| format!("cat {}/{n}", d.parent().unwrap().join("data").display());
                let text;
                let mut err = vec![];
                if executable {
                    text = format!("#!/bin/sh\n{}\n{} >&2\n{end}\n", cat(o), cat(r));
                } else {
                    let cmd = format!("{}; {} >&2; {end}", cat(o), cat(r));
                    text = format!("{before}RUN: {cmd}\n");
                    err = format!("RUN at line {}: {cmd}\n+ {}\n+ {}\n", before.matches('\n').count() + 1, cat(o), cat(r)).into_bytes();
                }
                let p = d.join(&file);
                std::fs::write(&p, &text).unwrap();
                if executable {
                    use std::os::unix::fs::PermissionsExt;
                    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
                }
                let body = if tag == "UNSUPPORTED" {
                    let what = if before.starts_with("REQ") {
                        "Test requires the following unavailable features: feature, (a || b)"
                    } else {
                        "Test does not support the following features: !feature"
                    };
                    body(None, "", b"", what.as_bytes())
                } else {
                    err.extend(data(r));
                    if !executable {
                        err.extend(if end.starts_with("kill") { b"+ kill -9 PID\n".to_vec() } else { format!("+ {end}\n").into_bytes() });
                    }
                    body(code, "Elapsed: T", &data(o), &err)
                };
                v.push(T { name: format!("{name}::{file}"), tag, failing, body });
            }
        }
    }
    v
}

/// Times and process ids differ.
fn normal(s: &str) -> String {
    s.split_inclusive('\n')
        .map(|l| {
            if let Some(t) = l.strip_prefix("Elapsed: ") {
                let t = t.trim_end();
                let n = t.strip_suffix("ms").or(t.strip_suffix('s')).unwrap_or("x");
                if n.parse::<f64>().is_ok() {
                    return "Elapsed: T\n".to_string();
                }
            }
            if l.starts_with("+ kill -9 ") && l.trim_end()[10..].bytes().all(|b| b.is_ascii_digit()) {
                return "+ kill -9 PID\n".to_string();
            }
            l.to_string()
        })
        .collect()
}

fn judge(tests: &[T], out: &str, opts: &[&str]) -> Result<(), String> {
    let has = |o: &str| opts.contains(&o);
    let out = normal(out);
    let mut rest = out.as_str();
    let mut left: Vec<&T> = tests.iter().filter(|t| !has("-q") || t.failing || has("-a")).collect();
    while !left.is_empty() {
        let Some(i) = left.iter().position(|t| rest.starts_with(&format!("{}: {}\n", t.tag, t.name))) else {
            return Err(format!("{} tests are not reported, and the report has here: {:?}", left.len(), rest.chars().take(200).collect::<String>()));
        };
        let t = left.swap_remove(i);
        rest = &rest[t.tag.len() + t.name.len() + 3..];
        let want = if has("-a") || has("-v") && t.failing { format!("{}\n", t.body) } else { String::new() };
        rest = match rest.strip_prefix(want.as_str()) {
            Some(r) => r,
            None => {
                let same = rest.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
                let at = |s: &str| String::from_utf8_lossy(&s.as_bytes()[same.saturating_sub(60).min(s.len())..(same + 120).min(s.len())]).into_owned();
                return Err(format!("the report of {} is not what it should be: it has\n{:?}\nshould be\n{:?}", t.name, at(rest), at(&want)));
            }
        };
    }
    let end = rest.trim_start_matches('\n');
    if !end.starts_with("********************") && !end.starts_with("Total Discovered Tests: ") {
        return Err(format!("after the last test, there is {:?}", rest.chars().take(200).collect::<String>()));
    }
    Ok(())
}

pub fn check(run: &Run) {
    // scripts in process
    let n = CMDS.len();
    let all = sequences(&(0..n).collect::<Vec<_>>(), 1, run.pick(3, 4));
    let shells = ["sh", "bash"];
    par_for(run, all.len(), |i| {
        let b = Bench::mine();
        let d = b.path("data");
        if !d.join("bin").exists() {
            std::fs::create_dir_all(&d).unwrap();
            std::fs::write(d.join("bin"), CMDS[4].out).unwrap();
        }
        for (k, shell) in shells.iter().enumerate() {
            if all[i].len() < 3 || run.thorough() || (i + k) % 4 == 0 {
                scripts(run, &b, &all[i], &BETWEEN, shell);
            }
        }
    });
    run.bound(format!("{} scripts of up to {} of {n} commands, with text and definitions between, and two shells", all.len(), run.pick(3, 4)));

    // reports of the real binary
    let dir = Scratch::new("l13");
    let root = dir.path();
    use std::os::unix::fs::PermissionsExt;
    let data_dir = root.join("data");
    std::fs::create_dir(&data_dir).unwrap();
    for o in OUTS {
        std::fs::write(data_dir.join(o.0), data(o.0)).unwrap();
    }
    std::fs::write(data_dir.join("huge"), data("huge")).unwrap();
    let outs: Vec<&str> = OUTS.iter().map(|o| o.0).collect();
    let all: Vec<usize> = (0..ENDS.len()).collect();
    let errs = ["none", "line", "lines", "fake", "long"];
    // one run at a time in a directory: runs make and remove directories there
    let mut suites: Vec<(std::path::PathBuf, Vec<T>, std::sync::Mutex<()>)> = vec![];
    let mut add = |name: &str, ends: &[usize], outs: &[&str], errs: &[&str], exe: bool| {
        let d = root.join(name);
        let t = write_suite(&d, name, ends, outs, errs, exe);
        suites.push((d, t, std::sync::Mutex::new(())));
    };
    add("all", &all, &outs, &errs, false);
    add("huge", &[0, 1], &["huge", "line"], &["huge", "line"], false);
    add("huge-exe", &[0, 1], &["huge", "line"], &["huge", "line"], true);
    add("exe", &[0, 1, 2, 4], &outs, &errs, true);
    for e in &all {
        add(&format!("end{e}"), &[*e], &["none", "open", "fake"], &["none", "line"], false);
        add(&format!("one{e}"), &[*e], &["lines"], &["line"], false);
        if [0, 1, 2, 4].contains(e) {
            add(&format!("exe{e}"), &[*e], &["none"], &["none"], true);
        }
    }
    let opts: [&[&str]; 9] = [&[], &["-v"], &["-a"], &["-q"], &["-v", "-q"], &["-a", "-q"], &["-a", "-v"], &["-v", "-j", "1"], &["-a", "-j", "3"]];
    let n_suites = suites.len();
    let jobs: Vec<(usize, usize)> = (0..opts.len()).flat_map(|o| (0..n_suites).map(move |s| (s, o))).collect();
    let times = run.pick(1, 5);
    par_for(run, jobs.len() * times, |i| {
        let (s, o) = jobs[i % jobs.len()];
        let (d, tests, one) = &suites[s];
        let _one = one.lock();
        let mut args = vec!["lit"];
        args.extend(opts[o]);
        args.push(".");
        let r = Call::new(d, &args).run_bin(&litcheck());
        run.count(1, tests.len() as u64, 1);
        let e = if r.timed_out { Err("does not end".to_string()) } else { judge(tests, &r.stdout(), opts[o]) };
        if let Err(e) = e {
            let suite = d.file_name().unwrap().to_string_lossy();
            run.violation(format!("report: suite {suite} with {}", opts[o].join(" ")), format!("{e}\nexit code {:?}\n{}", r.code, r.stderr()));
        }
    });
    run.bound(format!("{} suites of {} ways for a test to end x {} standard outputs x {} standard errors, as scripts and as executables, with {} sets of options", suites.len(), ENDS.len(), OUTS.len(), errs.len(), opts.len()));

    // what was printed before the time is up, and by the last of several attempts
    let d = root.join("slow");
    std::fs::create_dir(&d).unwrap();
    std::fs::set_permissions(root, std::fs::Permissions::from_mode(0o777)).unwrap();
    std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o777)).unwrap();
    let bin = root.join("litcheck");
    std::fs::copy(litcheck(), &bin).unwrap();
    std::fs::set_permissions(&bin, std::fs::Permissions::from_mode(0o755)).unwrap();
    std::fs::write(d.join("lit.suite.toml"), "name = \"s\"\npatterns = [\"*.test\"]\nworking_dir = \".\"\n[format.shtest]\n").unwrap();
    let cat = |n: &str| format!("cat {}/{n}", data_dir.display());
    let mut tests = vec![];
    for o in ["none", "open", "fake", "long"] {
        let cmd = format!("{}; sleep 30", cat(o));
        std::fs::write(d.join(format!("{o}.test")), format!("RUN: {cmd}\nRUN: echo never\n")).unwrap();
        let err = format!("RUN at line 1: {cmd}\n+ {}\n+ sleep 30\n", cat(o));
        tests.push(T { name: format!("s::{o}.test"), tag: "TIMEOUT", failing: true, body: body(None, "Timeout: Reached timeout after 1s", &data(o), err.as_bytes()) });
    }
    for o in ["lines", "long"] {
        let m = format!("{}/{o}.mark", d.display());
        let cmd = format!("if test -e {m}; then {}; else touch {m}; echo first; exit 9; fi", cat(o));
        std::fs::write(d.join(format!("again-{o}.test")), format!("ALLOWED_RETRIES: 2\nRUN: {cmd}\n")).unwrap();
        let err = format!("RUN at line 2: {cmd}\n+ test -e {m}\n+ {}\n", cat(o));
        tests.push(T { name: format!("s::again-{o}.test"), tag: "FLAKYPASS", failing: false, body: body(Some(0), "Elapsed: T", &data(o), err.as_bytes()) });
    }
    // each attempt prints and ends otherwise; the last is the one shown
    for (retries, o) in [(0, "lines"), (1, "none"), (2, "lines"), (5, "open")] {
        let m = format!("{}/fails-{retries}.count", d.display());
        let cmd = format!("echo x >> {m}; {}; exit $(wc -l < {m})", cat(o));
        std::fs::write(d.join(format!("fails-{retries}.test")), format!("ALLOWED_RETRIES: {retries}\nRUN: {cmd}\nRUN: echo never\n")).unwrap();
        let err = format!("RUN at line 2: {cmd}\n+ echo x\n+ {}\n+ wc -l\n+ exit {}\n", cat(o), retries + 1);
        tests.push(T { name: format!("s::fails-{retries}.test"), tag: "FAIL", failing: true, body: body(Some(retries + 1), "Elapsed: T", &data(o), err.as_bytes()) });
    }
    for opts in [&["-v"][..], &["-a"], &["-a", "-q"]] {
        for o in ["lines", "long"] {
            let _ = std::fs::remove_file(d.join(format!("{o}.mark")));
        }
        for n in [0, 1, 2, 5] {
            let _ = std::fs::remove_file(d.join(format!("fails-{n}.count")));
        }
        let mut args = vec!["lit", "--timeout", "1"];
        args.extend(opts);
        args.push(".");
        let mut c = Call::new(&d, &args);
        c.nobody = true;
        let r = c.run_bin(&bin);
        run.count(1, tests.len() as u64, 1);
        let e = if r.timed_out { Err("does not end".to_string()) } else { judge(&tests, &r.stdout(), opts) };
        if let Err(e) = e {
            run.violation(format!("report: timeouts and retries with {}", opts.join(" ")), format!("{e}\nexit code {:?}\n{}", r.code, r.stderr()));
        }
    }
    run.bound("tests that exceed the time limit, and tests that are run again, after outputs of several shapes");
}
