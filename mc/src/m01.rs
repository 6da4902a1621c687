//! M01: the executable is the tool that it is called as, and tracing what it does changes nothing.
use crate::fw::*;
use crate::proc::*;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};

struct Scene {
    tool: &'static str,
    args: Vec<&'static str>,
    stdin: &'static str,
    /// (exit status, whether standard output is part of what is compared)
    code: i32,
    out: bool,
}

fn scenes() -> Vec<Scene> {
    let s = |tool, args: &[&'static str], stdin, code, out| Scene { tool, args: args.to_vec(), stdin, code, out };
    vec![
        s("filecheck", &["checks"], "a\nb\n", 0, true),
        s("filecheck", &["checks"], "a\nc\nb\n", 1, true),
        s("filecheck", &["checks"], "", 1, true),
        s("filecheck", &["checks", "--input-file", "good"], "", 0, true),
        s("filecheck", &["missing"], "a\n", 1, true),
        s("filecheck", &["checks", "--check-prefix=X"], "x\n", 0, true),
        s("filecheck", &["checks", "--no-such-option"], "a\nb\n", 2, true),
        s("filecheck", &["checks", "-D", "V=1"], "a\nb\n", 0, true),
        s("lit", &["run", "-j1", "pass"], "", 0, true),
        s("lit", &["-j1", "pass"], "", 0, true),
        s("lit", &["run", "-j1", "fail"], "", 1, true),
        s("lit", &["run", "-j1", "none"], "", 1, false),
        s("lit", &["show-tests", "fail"], "", 0, true),
        s("lit", &["show-suites", "pass"], "", 0, false),
        s("not", &["false"], "", 0, true),
        s("not", &["true"], "", 1, true),
        s("not", &["--crash", "false"], "", 1, true),
        s("not", &["cat", "-"], "text", 1, true),
        s("not", &["sh", "-c", "echo x; exit 7"], "", 0, true),
        s("not", &["no-such-command"], "", 127, true),
    ]
}

fn world(d: &Path) {
    std::fs::write(d.join("checks"), "CHECK: a\nCHECK-NEXT: b\nX: x\n").unwrap();
    std::fs::write(d.join("good"), "a\nb\n").unwrap();
    for (dir, test) in [("pass", "true"), ("fail", "false")] {
        std::fs::create_dir(d.join(dir)).unwrap();
        std::fs::write(d.join(dir).join("lit.suite.toml"), format!("name = \"{dir}\"\npatterns = [\"*.test\"]\n[format.shtest]\n")).unwrap();
        std::fs::write(d.join(dir).join("a.test"), format!("RUN: {test}\n")).unwrap();
    }
}

/// What can be compared of a call.
fn shape(o: &Out, s: &Scene) -> (String, String) {
    // the numbers of a temporary directory or an address differ from run to run: only whole
    // outputs which have none are compared
    (o.status(), if s.out { o.stdout() } else { String::new() })
}

pub fn check(run: &Run) {
    let scratch = Scratch::new("m01");
    let d = scratch.path().canonicalize().unwrap();
    world(&d);
    let exe = litcheck();
    let real = d.join("the.executable");
    std::fs::copy(&exe, &real).unwrap();
    let bash = "exec -a \"$0\" \"$EXE\" \"$@\"";
    let scenes = scenes();
    let tools = ["filecheck", "lit", "not"];
    let known: [(&str, &str); 6] = [("filecheck", "filecheck"), ("FileCheck", "filecheck"), ("check", "filecheck"), ("lit", "lit"), ("not", "not"), ("NOT", "not")];
    let unknown = ["foo", "Filecheck", "FILECHECK", "filechec", "filechecks", "LIT", "lits", "Not", "nott", "li", "c", "run", "show-tests"];

    // the reference: `litcheck TOOL ARGS`, whose outcome is known
    let call = |bin: &Path, args: &[&str], s: &Scene, env: &[(&str, &str)]| {
        let mut c = Call::new(&d, args);
        c.args.extend(s.args.iter().map(|x| x.to_string()));
        c.stdin = Some(s.stdin.as_bytes());
        c.env = env.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        c.env.push(("LIT_FILTER".into(), String::new()));
        c.run_bin(bin)
    };
    let links = d.join("links");
    std::fs::create_dir(&links).unwrap();
    symlink(&real, links.join("litcheck")).unwrap();
    let base: Vec<(String, String)> = par_map(run, scenes.len(), |i| {
        let s = &scenes[i];
        let o = call(&links.join("litcheck"), &[s.tool], s, &[]);
        if o.code != Some(s.code) {
            run.violation(format!("status: litcheck {} {:?} <{:?}", s.tool, s.args, s.stdin), format!("{}, expected exit {}\n{}\n{}", o.status(), s.code, o.stdout(), o.stderr()));
        }
        shape(&o, s)
    });

    // every name, in every form
    type Form = (&'static str, fn(&Path, &Path, &str) -> PathBuf);
    let forms: [Form; 6] = [
        ("symlink", |d, real, n| {
            let p = sub(d, "sym").join(n);
            let _ = symlink(real, &p);
            p
        }),
        ("hard link", |d, real, n| {
            let p = sub(d, "hard").join(n);
            let _ = std::fs::hard_link(real, &p);
            p
        }),
        ("symlink to a symlink of another name", |d, real, n| {
            let p = sub(d, "chain").join(n);
            let via = d.join("chain").join(format!("not.{n}"));
            let _ = symlink(real, &via);
            let _ = symlink(&via, &p);
            p
        }),
        ("symlink in a directory named like another tool", |d, real, n| {
            let dir = sub(d, if n == "lit" { "dir/not" } else { "dir/lit" });
            let p = dir.join(n);
            let _ = symlink(real, &p);
            p
        }),
        ("name with an extension", |d, real, n| {
            let p = sub(d, "ext").join(format!("{n}.exe"));
            let _ = symlink(real, &p);
            p
        }),
        ("argument zero", |_, _, n| PathBuf::from(n)),
    ];
    fn sub(d: &Path, s: &str) -> PathBuf {
        let p = d.join(s);
        std::fs::create_dir_all(&p).unwrap();
        p
    }
    for (_, mk) in &forms[..5] {
        for n in known.iter().map(|x| x.0).chain(unknown) {
            mk(&d, &real, n);
        }
    }
    let mut jobs: Vec<(Option<usize>, &str, &str)> = vec![];
    for (f, _) in forms.iter().enumerate() {
        // an extension is part of the name on this platform: whether it counts is left open
        if forms[f].0 == "name with an extension" {
            continue;
        }
        for (n, t) in known {
            jobs.push((Some(f), n, t));
        }
        for n in unknown {
            jobs.push((Some(f), n, ""));
        }
    }
    for (n, t) in known {
        jobs.push((None, n, t));
    }
    for n in unknown {
        jobs.push((None, n, ""));
    }
    par_for(run, jobs.len(), |k| {
        let (f, name, tool) = jobs[k];
        for (i, s) in scenes.iter().enumerate() {
            // a name that means nothing is tried with the arguments of every tool
            if !tool.is_empty() && tool != s.tool || tool.is_empty() && !tools.contains(&s.tool) {
                continue;
            }
            let (how, o) = match f {
                None => ("subcommand", call(&links.join("litcheck"), &[name], s, &[])),
                Some(f) if forms[f].0 == "argument zero" => {
                    let mut args = vec!["-c", bash, name];
                    args.truncate(3);
                    ("argument zero", call(Path::new("/bin/bash"), &args, s, &[("EXE", real.to_str().unwrap())]))
                }
                Some(f) => (forms[f].0, call(&forms[f].1(&d, &real, name), &[], s, &[])),
            };
            run.count(1, 1, 1);
            run.outcome(if tool.is_empty() { "unknown-name" } else { "tool" });
            let key = format!("{how}: {name} {:?} <{:?}", s.args, s.stdin);
            if tool.is_empty() {
                if o.code.is_none_or(|c| c == 0) {
                    run.violation(format!("unknown-name-accepted: {key}"), format!("{}\n{}\n{}", o.status(), o.stdout(), o.stderr()));
                }
                continue;
            }
            let got = shape(&o, s);
            if got != base[i] {
                run.violation(format!("name: {key}"), format!("got {got:?}\nexpected, as for litcheck {}, {:?}\n{}", s.tool, base[i], o.stderr()));
            }
        }
    });
    run.bound(format!("{} names of tools and {} other names x 5 ways of calling the executable by that name, and as a subcommand, x {} calls", known.len(), unknown.len(), scenes.len()));

    // tracing
    let traces = ["", "off", "error", "info", "debug", "trace", "lit=trace", "smart:searcher=trace", "lit:shtest=debug", "trace/x", "no-such-level", "=,=", "a=b=c"];
    let timings = [None, Some("s"), Some("ms"), Some("us"), Some("ns"), Some("x"), Some("")];
    let mut jobs = vec![];
    for t in traces {
        for g in timings {
            for i in 0..scenes.len() {
                jobs.push((t, g, i));
            }
        }
    }
    par_for(run, jobs.len(), |k| {
        let (t, g, i) = jobs[k];
        let s = &scenes[i];
        let mut env = vec![("LITCHECK_TRACE", t)];
        if let Some(g) = g {
            env.push(("LITCHECK_TRACE_TIMING", g));
        }
        let o = call(&links.join("litcheck"), &[s.tool], s, &env);
        run.count(1, 1, 1);
        let key = format!("LITCHECK_TRACE={t:?} LITCHECK_TRACE_TIMING={g:?}: litcheck {} {:?} <{:?}", s.tool, s.args, s.stdin);
        if matches!(g, Some("x" | "")) {
            run.outcome("invalid-timing");
            if o.code.is_none_or(|c| c == 0 || c == 101) {
                run.violation(format!("timing: {key}"), format!("{}, expected an error\n{}", o.status(), o.stderr()));
            }
            return;
        }
        run.outcome("traced");
        let got = shape(&o, s);
        if got != base[i] {
            run.violation(format!("tracing: {key}"), format!("got {got:?}\nexpected {:?}\n{}", base[i], o.stderr()));
        }
    });
    run.bound(format!("{} values of LITCHECK_TRACE x {} of LITCHECK_TRACE_TIMING x {} calls", traces.len(), timings.len(), scenes.len()));
    run.assume("whether a name with an extension counts as that of the tool is left open");
}

fn par_map<T: Send + Default>(run: &Run, n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let v: Vec<_> = (0..n).map(|_| std::sync::Mutex::new(T::default())).collect();
    par_for(run, n, |i| *v[i].lock().unwrap() = f(i));
    v.into_iter().map(|m| m.into_inner().unwrap()).collect()
}
