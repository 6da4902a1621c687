//! L15: invalid configurations. Configuration files made of right and wrong settings, whose wrong
//! places are known, are given to the real binary; it must run nothing, and show one of the places.
//! Files of right settings only must be accepted.
use crate::fw::*;
use crate::proc::{litcheck, Call};
use std::path::Path;

/// A setting: its key, which may be given once, and its text, in which «» surrounds what is wrong
type Setting = (&'static str, &'static str);

const RIGHT: [Setting; 9] = [
    ("", "# é comment"),
    ("", ""),
    ("available_features", "available_features = [\n  \"é\", # one\n  \"b\",\n]"),
    ("exclude", "exclude = [\"zz*\", \"y[ab]\"]"),
    ("substitutions", "substitutions = { \"%z\" = \"é\" }"),
    ("env", "env.A = \"1\"\n  env.B = '''\né'''"),
    ("source_dir", "source_dir = \".\""),
    ("working_dir", "working_dir = \".\""),
    ("format", "format.shtest = { shell = \"sh\" }"),
];
const WRONG: [Setting; 32] = [
    ("patterns", "patterns = «1»"),
    ("patterns", "patterns = «\"*.t\"»"),
    ("patterns", "patterns = [\"*.t\", «2»]"),
    ("patterns", "patterns = [\n  \"é*.t\",\n\n  «\"[a\"»,\n]"),
    ("exclude", "exclude = [«\"a**\"»]"),
    ("exclude", "exclude = «{}»"),
    ("available_features", "available_features = [\"é\", «true»]"),
    ("available_features", "  available_features = «\"a\"»"),
    ("env", "env = { A = \"é\", B = «1» }"),
    ("env", "env.A = «[]»"),
    ("env", "env = «\"A=1\"»"),
    ("substitutions", "substitutions = { \"%z\" = «1» }"),
    ("substitutions", "substitutions = «[\"%z\"]»"),
    ("format", "format = «\"nope\"»"),
    ("format", "format = «1»"),
    ("format", "format.«nope» = {}"),
    ("format", "format.shtest = { shell = «1» }"),
    ("format", "format.sh.pipefail = «\"yes\"»"),
    ("format", "format.executable = { unsupported = [\"a\", «\"b ||\"»] }"),
    ("format", "format.exe.unsupported = [«\")\"»]"),
    ("name", "name = «1»"),
    ("name", "name = «\"\"»"),
    ("source_dir", "source_dir = «\"nope\"»"),
    ("source_dir", "source_dir = «\"/nonexistent/é\"»"),
    ("source_dir", "source_dir = «\"x.t\"»"),
    ("source_dir", "source_dir = «1»"),
    ("working_dir", "working_dir = «\"nope\"»"),
    ("working_dir", "working_dir = «\"/nonexistent/é\"»"),
    ("working_dir", "working_dir = «\"x.t\"»"),
    ("working_dir", "working_dir = «[]»"),
    ("", "«x = y»"),
    ("", "«x y = 1»"),
];
/// Come last
const RIGHT_TABLES: [Setting; 5] = [
    ("env", "[env]\n# é\nA = \"1\""),
    ("substitutions", "[substitutions]\n\"%z\" = \"1\"\n"),
    ("format", "[format.shtest]"),
    ("format", "[format.sh]\nshell = \"sh\"\n\n[format.sh.extra_substitutions]\n\"%y\" = \"1\""),
    ("other", "[other]\nx = 1"),
];
const WRONG_TABLES: [Setting; 10] = [
    ("env", "[env]\nA = \"é\"\n\nB = «2»"),
    ("env", "«[[env]]»"),
    ("substitutions", "[substitutions]\n\"%y\" = «[1]»"),
    ("format", "[format.«nope»]"),
    ("format", "[format.shtest]\nshell = «1»"),
    ("format", "[format.shtest]\nextra_substitutions = «1»"),
    ("format", "[format.shtest]\npipefail = true\n\n[format.shtest.extra_substitutions]\n\"%é\" = «1»"),
    ("format", "[format.executable]\n  unsupported = [\"a\",\n  \"b\", «\"&&\"»]"),
    ("format", "[format]\nshtest = «1»"),
    ("env", "[env]\nA = \"1\"\n«A» = \"2\""),
];

/// The text without the marks, and what they surround.
fn strip(s: &str) -> (String, Vec<(usize, usize)>) {
    let (mut out, mut v) = (String::new(), vec![]);
    for c in s.chars() {
        match c {
            '«' => v.push((out.len(), out.len())),
            '»' => v.last_mut().unwrap().1 = out.len(),
            c => out.push(c),
        }
    }
    (out, v)
}

/// The (line, column) of each error that is shown
fn shown(report: &str, file: &str) -> Vec<(usize, usize)> {
    report
        .lines()
        .filter_map(|l| {
            let l = &l[l.find(file)? + file.len()..];
            let (a, b) = l.strip_prefix(':')?.split(']').next()?.split_once(':')?;
            Some((a.parse().ok()?, b.parse().ok()?))
        })
        .collect()
}

struct File {
    /// where the configuration goes
    name: &'static str,
    text: String,
    wrong: Vec<(usize, usize)>,
}

fn one(run: &Run, dir: &Path, f: &File, cmd: &[&str], crlf: bool) {
    let (text, wrong) = if crlf {
        let at = |p: usize| p + f.text[..p].matches('\n').count();
        (f.text.replace('\n', "\r\n"), f.wrong.iter().map(|p| (at(p.0), at(p.1))).collect())
    } else {
        (f.text.clone(), f.wrong.clone())
    };
    let log = dir.join("log");
    let _ = std::fs::remove_file(&log);
    let _ = std::fs::remove_dir_all(dir.join("s"));
    let test = format!("RUN: echo x >> {}\n", log.display());
    for p in ["s/x.t", "s/sub/y.t", "s/sub/deep/z.t"] {
        std::fs::create_dir_all(dir.join(p).parent().unwrap()).unwrap();
        std::fs::write(dir.join(p), &test).unwrap();
    }
    if f.name != "s/lit.suite.toml" {
        std::fs::write(dir.join("s/lit.suite.toml"), "name = \"s\"\npatterns = [\"*.t\"]\nworking_dir = \".\"\n").unwrap();
    }
    std::fs::write(dir.join(f.name), &text).unwrap();
    let r = Call::new(dir, cmd).run_bin(&litcheck());
    run.count(1, 1 + wrong.len() as u64, 1);
    let ran = std::fs::read_to_string(&log).unwrap_or_default().lines().count();
    let report = format!("exit status {:?}\n{}{}", r.code, r.stdout(), r.stderr());
    let fail = |what: String| run.violation(format!("{} {text:?} with {}", f.name, cmd.join(" ")), format!("{what}\n{report}"));
    if r.timed_out || r.code.is_none() {
        return fail("does not end by itself".into());
    }
    let runs = cmd[1] == "run" || cmd[1] == "s";
    if wrong.is_empty() {
        run.outcome("accepted");
        let want = if f.name == "s/lit.suite.toml" || !f.name.contains("suite") { 3 } else { 0 };
        if r.code != Some(0) || ran != if runs { want } else { 0 } {
            return fail(format!("this is right, and {ran} tests ran"));
        }
        return;
    }
    run.outcome("rejected");
    if r.code == Some(0) {
        return fail("this is wrong, but is accepted".into());
    }
    if ran > 0 {
        return fail(format!("this is wrong, but {ran} tests ran"));
    }
    let got = shown(&report, f.name);
    if got.is_empty() {
        return fail("no place in the file is shown".into());
    }
    for g in &got {
        let start: usize = text.split_inclusive('\n').take(g.0 - 1).map(str::len).sum();
        let line = text[start..].split('\n').next().unwrap_or("");
        // a column in bytes or in characters
        let offsets = [start + g.1 - 1, start + line.char_indices().nth(g.1 - 1).map_or(line.len(), |c| c.0)];
        if !offsets.iter().any(|o| wrong.iter().any(|w| (w.0..w.1.max(w.0 + 1)).contains(o))) {
            return fail(format!("{:?} is wrong, but line {} column {} is shown", wrong.iter().map(|w| &text[w.0..w.1]).collect::<Vec<_>>(), g.0, g.1));
        }
    }
}

pub fn check(run: &Run) {
    // a setting given twice would be wrong in itself
    let distinct = |s: &[Setting]| {
        let mut k: Vec<&str> = s.iter().map(|x| x.0).filter(|k| !k.is_empty()).collect();
        k.sort();
        k.windows(2).all(|w| w[0] != w[1])
    };
    let mut files: Vec<File> = vec![];
    let mut add = |s: &[Setting], tables: &[Setting], name: &'static str| {
        let all: Vec<Setting> = s.iter().chain(tables).copied().collect();
        if !distinct(&all) {
            return;
        }
        let has = |k: &str| all.iter().any(|x| x.0 == k);
        let local = name.ends_with("local.toml");
        let mut lines: Vec<&str> = all.iter().map(|x| x.1).collect();
        if local {
            // there, these mean nothing
            if ["name", "source_dir", "working_dir"].iter().any(|k| has(k)) {
                return;
            }
        } else {
            // at the start or right before the tables
            for (k, l) in [("name", "name = \"s\""), ("patterns", "patterns = [\"*.t\"]"), ("working_dir", "working_dir = \".\"")] {
                if !has(k) {
                    lines.insert(if (files.len() / 3) % 2 == 0 { 0 } else { s.len() }, l);
                }
            }
        }
        let end = ["\n", "", "\n\n# end"][files.len() % 3];
        let (text, wrong) = strip(&(lines.join("\n") + end));
        files.push(File { name, text, wrong });
    };
    let names = ["s/lit.suite.toml", "s/lit.local.toml", "s/sub/lit.local.toml", "s/sub/deep/lit.local.toml"];
    let settings: Vec<Setting> = WRONG.iter().chain(&RIGHT).copied().collect();
    let tables: Vec<Setting> = WRONG_TABLES.iter().chain(&RIGHT_TABLES).copied().collect();
    let top = sequences(&settings, 0, 2);
    for (i, s) in top.iter().enumerate() {
        let wrong = s.iter().filter(|x| x.1.contains('«')).count();
        for (k, name) in names.iter().enumerate() {
            if k < 2 || s.len() < 2 || run.thorough() {
                add(s, &[], name);
            }
            for (j, t) in tables.iter().enumerate() {
                if s.len() < 2 || run.thorough() && wrong < 2 || (i + j + k) % 40 == 0 {
                    add(s, &[*t], name);
                }
            }
        }
    }
    for t in sequences(&tables, 2, 2) {
        add(&[], &t, names[0]);
        add(&[], &t, names[1]);
        add(&[], &t, names[2]);
    }
    let dirs: Vec<Scratch> = (0..64).map(|i| Scratch::new(&format!("l15-{i}"))).collect();
    let free = std::sync::Mutex::new((0..dirs.len()).collect::<Vec<_>>());
    let n = files.len();
    par_for(run, n, |i| {
        let d = free.lock().unwrap().pop().unwrap();
        let dir = std::fs::canonicalize(dirs[d].path()).unwrap();
        let cmds: [&[&str]; 5] = [&["lit", "run", "s"], &["lit", "s"], &["lit", "show-tests", "s"], &["lit", "show-suites", "s"], &["lit", "run", "s/sub/deep/z.t", "s/x.t", "s/sub/y.t"]];
        one(run, &dir, &files[i], cmds[i % 5], i % 4 == 3);
        free.lock().unwrap().push(d);
    });
    run.bound(format!("{n} configurations of up to 2 settings and a table, or 2 tables, from {} right and {} wrong ones, of suites and of directories at 3 levels, with LF and CRLF line ends, for each command", RIGHT.len() + RIGHT_TABLES.len(), WRONG.len() + WRONG_TABLES.len()));
    run.assume("which of two errors is shown is not judged");
}
