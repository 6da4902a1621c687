//! Running the real multi-call binary.
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timed_out: bool,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub elapsed: Duration,
}
impl Out {
    pub fn stdout(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn stderr(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    pub fn status(&self) -> String {
        match (self.timed_out, self.code, self.signal) {
            (true, ..) => "timed out".into(),
            (_, Some(c), _) => format!("exit {c}"),
            (_, _, s) => format!("signal {}", s.unwrap_or(0)),
        }
    }
}

pub fn litcheck() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("litcheck")
}

pub struct Call<'a> {
    pub args: Vec<String>,
    pub stdin: Option<&'a [u8]>,
    pub env: Vec<(String, String)>,
    pub cwd: &'a Path,
    pub limit: Duration,
    /// without privileges: what it kills or removes by mistake can only be its own
    pub nobody: bool,
}
impl<'a> Call<'a> {
    pub fn new(cwd: &'a Path, args: &[&str]) -> Self {
        Call { args: args.iter().map(|s| s.to_string()).collect(), stdin: None, env: vec![], cwd, limit: Duration::from_secs(60), nobody: false }
    }
    pub fn run(&self) -> Out {
        self.run_bin(&litcheck())
    }
    pub fn run_bin(&self, bin: &Path) -> Out {
        let t = Instant::now();
        let mut c = Command::new(bin);
        c.args(&self.args)
            .env_clear()
            .env("PATH", "/usr/local/bin:/usr/bin:/bin")
            .env("NO_COLOR", "1")
            .env("HOME", self.cwd)
            .envs(std::env::var("LLVM_PROFILE_FILE").map(|v| ("LLVM_PROFILE_FILE", v)))
            .envs(self.env.iter().cloned())
            .current_dir(self.cwd)
            .stdin(if self.stdin.is_some() { Stdio::piped() } else { Stdio::null() })
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .process_group(0);
        if self.nobody && unsafe { libc::geteuid() } == 0 {
            c.uid(65534).gid(65534);
        }
        let mut ch = c.spawn().unwrap_or_else(|e| panic!("spawn {bin:?}: {e}"));
        let pid = ch.id() as i32;
        let stdin = ch.stdin.take();
        let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
        std::thread::scope(|s| {
            if let (Some(mut p), Some(d)) = (stdin, self.stdin) {
                s.spawn(move || {
                    let _ = p.write_all(d);
                });
            }
            let a = s.spawn(move || {
                let mut v = vec![];
                let _ = so.read_to_end(&mut v);
                v
            });
            let b = s.spawn(move || {
                let mut v = vec![];
                let _ = se.read_to_end(&mut v);
                v
            });
            let mut timed_out = false;
            let mut nap = Duration::from_micros(200);
            let st = loop {
                if let Ok(Some(st)) = ch.try_wait() {
                    break st;
                }
                if t.elapsed() > self.limit {
                    timed_out = true;
                    unsafe { libc::kill(-pid, libc::SIGKILL) };
                    break ch.wait().unwrap();
                }
                std::thread::sleep(nap);
                nap = (nap * 2).min(Duration::from_millis(4));
            };
            let elapsed = t.elapsed();
            // whatever the process left behind in its group must not outlive it
            unsafe { libc::kill(-pid, libc::SIGKILL) };
            Out { code: st.code(), signal: st.signal(), timed_out, stdout: a.join().unwrap(), stderr: b.join().unwrap(), elapsed }
        })
    }
}
