//! N01: the not command, as the real binary.
use crate::fw::*;
use crate::proc::litcheck;
use std::ffi::OsString;
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::Duration;

/// `mc __n HOW ARGS...`: shows its arguments, its standard input and part of its environment, then
/// ends as HOW says: "7" (exit status), "s9" (signal), "p3" (stops, is continued, then exit 3)
pub fn child(args: &[OsString]) -> ! {
    let mut out = vec![];
    for a in &args[2..] {
        out.extend(a.as_bytes());
        out.push(0);
    }
    out.push(b'|');
    for v in ["MC_A", "PATH"] {
        out.extend(std::env::var_os(v).unwrap_or_else(|| "unset".into()).into_vec());
        out.push(b'|');
    }
    out.extend(std::env::current_dir().unwrap().as_os_str().as_bytes());
    out.push(b'|');
    let _ = std::io::stdin().read_to_end(&mut out);
    let _ = std::io::stdout().write_all(&out);
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().write_all(b"to stderr \xff\n");
    let how = args[2].to_str().unwrap();
    let n = |s: &str| s.parse::<i32>().unwrap();
    if let Some(s) = how.strip_prefix('s') {
        unsafe {
            let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            let mut set: libc::sigset_t = std::mem::zeroed();
            libc::sigemptyset(&mut set);
            libc::sigprocmask(libc::SIG_SETMASK, &set, std::ptr::null_mut());
            libc::signal(n(s), libc::SIG_DFL);
            libc::kill(libc::getpid(), n(s));
        }
        std::thread::sleep(Duration::from_secs(5));
        std::process::exit(99)
    }
    if let Some(s) = how.strip_prefix('p') {
        let pid = unsafe { libc::getpid() };
        let mut c = Command::new("sh").args(["-c", &format!("sleep 0.2; kill -CONT {pid}")]).spawn().unwrap();
        unsafe { libc::kill(pid, libc::SIGSTOP) };
        let _ = c.wait();
        std::process::exit(n(s))
    }
    std::process::exit(n(how))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Code(i32),
    Signal(i32),
}
use End::*;
struct Out {
    end: Option<End>,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
}
fn exec(prog: &Path, args: &[OsString], cwd: &Path, stdin: &[u8], env: &[(&str, &str)]) -> Out {
    let mut c = Command::new(prog);
    c.args(args)
        .env_clear()
        .env("PATH", format!("{}:/usr/bin:/bin", cwd.display()))
        .env("NO_COLOR", "1")
        .envs(env.iter().cloned())
        .current_dir(cwd)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .process_group(0);
    let mut ch = c.spawn().unwrap();
    let pid = ch.id() as i32;
    let (mut si, mut so, mut se) = (ch.stdin.take().unwrap(), ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    std::thread::scope(|s| {
        s.spawn(move || {
            let _ = si.write_all(stdin);
        });
        let a = s.spawn(move || {
            let mut v = vec![];
            let _ = so.read_to_end(&mut v);
            v
        });
        let b = s.spawn(move || {
            let mut v = vec![];
            let _ = se.read_to_end(&mut v);
            v
        });
        let t = std::time::Instant::now();
        let st = loop {
            if let Some(st) = ch.try_wait().unwrap() {
                break Some(st);
            }
            if t.elapsed() > Duration::from_secs(30) {
                unsafe { libc::kill(-pid, libc::SIGKILL) };
                let _ = ch.wait();
                break None;
            }
            std::thread::sleep(Duration::from_micros(200));
        };
        unsafe { libc::kill(-pid, libc::SIGKILL) };
        let end = st.map(|st| st.code().map(Code).unwrap_or_else(|| Signal(st.signal().unwrap())));
        Out { end, stdout: a.join().unwrap(), stderr: b.join().unwrap() }
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Wrap {
    crash: bool,
    dashes: bool,
}
/// What `not` makes of the end of its command
fn inverted(w: Wrap, e: End) -> End {
    Code(match (w.crash, e) {
        (false, Code(c)) => (c == 0) as i32,
        (false, Signal(_)) => 1,
        (true, Code(_)) => 1,
        (true, Signal(_)) => 0,
    })
}

pub fn check(run: &Run) {
    let scratch = Scratch::new("n01");
    let dir = std::fs::canonicalize(scratch.path()).unwrap();
    let me = std::env::current_exe().unwrap();
    let not = dir.join("not");
    let chmod = |p: &Path, mode: u32| {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode)).unwrap();
    };
    std::os::unix::fs::symlink(litcheck(), &not).unwrap();
    std::os::unix::fs::symlink(&me, dir.join("mcx")).unwrap();
    std::fs::write(dir.join("plain"), "#!/bin/sh\nexit 1\n").unwrap();
    chmod(&dir.join("plain"), 0o644);
    std::fs::write(dir.join("script"), "#!/bin/sh\nexit 1\n").unwrap();
    chmod(&dir.join("script"), 0o755);
    std::fs::write(dir.join("badint"), "#!/nonexistent/interpreter\n").unwrap();
    chmod(&dir.join("badint"), 0o755);
    std::os::unix::fs::symlink("loop", dir.join("loop")).unwrap();
    std::os::unix::fs::symlink("gone", dir.join("dangling")).unwrap();

    let wraps = [Wrap { crash: false, dashes: false }, Wrap { crash: true, dashes: false }, Wrap { crash: false, dashes: true }, Wrap { crash: true, dashes: true }];
    // the arguments of a chain of nots around a command
    let chain = |form: usize, ws: &[Wrap], cmd: &[OsString]| -> (std::path::PathBuf, Vec<OsString>) {
        let mut args: Vec<OsString> = vec![];
        for (k, w) in ws.iter().enumerate() {
            let (prog, sub): (OsString, bool) = match form {
                0 => (litcheck().into(), true),
                _ => (not.clone().into(), false),
            };
            if k > 0 {
                args.push(prog);
            }
            if sub {
                args.push("not".into());
            }
            if w.crash {
                args.push("--crash".into());
            }
            if w.dashes {
                args.push("--".into());
            }
        }
        args.extend(cmd.iter().cloned());
        (if form == 0 { litcheck() } else { not.clone() }, args)
    };
    let os = |v: &[&str]| -> Vec<OsString> { v.iter().map(|s| s.into()).collect() };
    let show = |form: usize, ws: &[Wrap], cmd: &[OsString]| -> String {
        let n: Vec<String> = ws.iter().map(|w| format!("{}{}{}", ["litcheck not", "not"][form], if w.crash { " --crash" } else { "" }, if w.dashes { " --" } else { "" })).collect();
        let c: Vec<String> = cmd.iter().map(|a| a.to_string_lossy().replace(me.to_str().unwrap(), "mc")).collect();
        format!("{} {c:?}", n.join(" "))
    };

    // A: every exit status and every terminating signal, under every chain of at most 2 (3)
    let mut ends: Vec<(String, End)> = (0..256).map(|n| (n.to_string(), Code(n))).collect();
    for s in (1..=64).filter(|s| ![17, 18, 19, 20, 21, 22, 23, 28, 32, 33].contains(s)) {
        ends.push((format!("s{s}"), Signal(s)));
    }
    ends.push(("p0".into(), Code(0)));
    ends.push(("p3".into(), Code(3)));
    let chains = sequences(&wraps, 1, run.pick(2, 3));
    let argsets: Vec<Vec<OsString>> = vec![
        vec![],
        os(&["--crash"]),
        os(&["--", "a", "--", "-h", "--help"]),
        vec!["".into(), OsString::from_vec(vec![0xff, b' ', b'*', b'\n', b'$']), "help".into(), "-".into()],
        vec!["x".repeat(100_000).into()],
    ];
    let big: Vec<u8> = (0..200_000u32).map(|i| (i * 7 % 251) as u8).collect();
    let stdins: [&[u8]; 3] = [b"", b"in\0\r\n\xfe", &big];
    struct Job {
        form: usize,
        ws: Vec<Wrap>,
        cmd: Vec<OsString>,
        stdin: usize,
        base: End,
    }
    let mut jobs = vec![];
    let command = |how: &str, a: &[OsString], k: usize| -> Vec<OsString> {
        // by its full path, a relative one, or its name
        let p: OsString = [me.clone().into_os_string(), "./mcx".into(), "mcx".into()][k % 3].clone();
        [vec![p, "__n".into(), how.into()], a.to_vec()].concat()
    };
    for form in [0, 1] {
        for ws in &chains {
            for (k, (how, e)) in ends.iter().enumerate() {
                if ws.len() > 1 && (k % 32 > 2 && k < 256 || ws.iter().any(|w| w.dashes) && ws.len() > 2 || form == 1) {
                    continue;
                }
                jobs.push(Job { form, ws: ws.clone(), cmd: command(how, &argsets[k % 3], k), stdin: k % 2, base: *e });
            }
        }
    }
    // B: streams and arguments
    for form in [0, 1] {
        for w in &wraps {
            for a in &argsets {
                for stdin in 0..stdins.len() {
                    for (how, e) in [("0", Code(0)), ("1", Code(1)), ("s6", Signal(6))] {
                        for p in 0..3 {
                            jobs.push(Job { form, ws: vec![*w], cmd: command(how, a, p), stdin, base: e });
                        }
                    }
                }
            }
        }
    }
    let env = [("MC_A", "1 2"), ("LITCHECK_X", "y")];
    par_for(run, jobs.len(), |i| {
        let j = &jobs[i];
        let (prog, args) = chain(j.form, &j.ws, &j.cmd);
        let o = exec(&prog, &args, &dir, stdins[j.stdin], &env);
        // the last is the innermost
        let want = j.ws.iter().rev().fold(j.base, |e, w| inverted(*w, e));
        run.count(1, j.ws.len() as u64, 1);
        run.outcome(if want == Code(0) { "succeeds" } else { "fails" });
        let mut bad = vec![];
        if o.end != Some(want) {
            bad.push(format!("{:?}, should be {want:?}", o.end));
        }
        let mut out = vec![];
        for a in &j.cmd[2..] {
            out.extend(a.as_bytes());
            out.push(0);
        }
        out.push(b'|');
        out.extend(format!("1 2|{0}:/usr/bin:/bin|{0}|", dir.display()).bytes());
        out.extend(stdins[j.stdin]);
        if o.stdout != out {
            bad.push(format!("standard output or input is not passed through: {:?}", String::from_utf8_lossy(&o.stdout).chars().take(300).collect::<String>()));
        }
        if o.stderr != b"to stderr \xff\n" {
            bad.push(format!("standard error is not passed through: {:?}", String::from_utf8_lossy(&o.stderr)));
        }
        if !bad.is_empty() {
            let mut k = show(j.form, &j.ws, &j.cmd);
            k.truncate(k.char_indices().nth(300).map_or(k.len(), |c| c.0));
            run.violation(k, bad.join("\n"));
        }
    });
    run.bound(format!("{} commands: every exit status, every terminating signal, chains of up to {} nots, argument lists, standard inputs, ways to name the command", jobs.len(), run.pick(2, 3)));

    // C: commands which cannot be started; no command
    let long = "n".repeat(5000);
    let missing = ["gone", "./gone", "/nonexistent/x", "", "dangling", "./dangling", "no such", "./badint", "--unknown"];
    let refused = ["./plain", ".", "/", "./plain/x", "./loop", long.as_str(), "/dev/null"];
    let chains = sequences(&wraps, 1, 3);
    let all: Vec<(&str, i32)> = missing.iter().map(|m| (*m, 127)).chain(refused.iter().map(|m| (*m, 126))).collect();
    par_for(run, chains.len() * all.len() * 2, |i| {
        let (form, ws, (c, code)) = (i % 2, &chains[i / 2 % chains.len()], all[i / 2 / chains.len()]);
        // where a command may not be what it looks like
        if c.starts_with('-') && !ws.last().unwrap().dashes || (ws.len() > 1 && c.len() > 1000) {
            return;
        }
        let cmd = os(&[c, "a"]);
        let (prog, args) = chain(form, ws, &cmd);
        let o = exec(&prog, &args, &dir, b"", &[]);
        let want = ws[..ws.len() - 1].iter().rev().fold(Code(code), |e, w| inverted(*w, e));
        run.count(1, ws.len() as u64, 1);
        run.outcome("cannot be started");
        if o.end != Some(want) {
            run.violation(show(form, ws, &cmd), format!("{:?}, should be {want:?}\n{}", o.end, String::from_utf8_lossy(&o.stderr)));
        } else if !o.stdout.is_empty() || o.stderr.is_empty() {
            run.violation(show(form, ws, &cmd), format!("says nothing on standard error, or something on standard output: {:?}", String::from_utf8_lossy(&o.stdout)));
        }
    });
    for form in [0, 1] {
        for w in &wraps {
            let (prog, args) = chain(form, &[*w], &[]);
            let o = exec(&prog, &args, &dir, b"", &[]);
            run.count(1, 1, 1);
            run.outcome("no command");
            if matches!(o.end, None | Some(Code(0)) | Some(Signal(_))) {
                run.violation(show(form, &[*w], &[]), format!("no command was given, but it ends with {:?}", o.end));
            }
        }
    }
    run.bound(format!("{} names of commands that cannot be started x chains of up to 3 nots", all.len()));
    run.assume("not judged: a command named help (asks for help), options of not other than --crash");
}
