//! L10, L11, L12: the real lit binary on whole suites. Tests do not affect one another; they run
//! in the environment that the options and the configuration describe; and what is listed is
//! what a run selects.
use crate::fw::*;
use crate::proc::{Call, Out, litcheck};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};

fn write(p: impl AsRef<Path>, text: &str) {
    let p = p.as_ref();
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, text).unwrap();
}
/// Programs are written before anything is started and linked into place afterwards: a file that
/// some forked process still has open for writing cannot be executed.
struct Programs(PathBuf);
impl Programs {
    fn new(dir: &Path, programs: &[(&str, String)]) -> Self {
        for (n, text) in programs {
            write(dir.join(n), text);
            std::fs::set_permissions(dir.join(n), std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        Programs(dir.into())
    }
    fn link(&self, name: &str, to: impl AsRef<Path>) {
        std::fs::create_dir_all(to.as_ref().parent().unwrap()).unwrap();
        std::fs::hard_link(self.0.join(name), to).unwrap();
    }
}
struct Dirs {
    root: Scratch,
    n: std::sync::atomic::AtomicUsize,
}
impl Dirs {
    fn new(tag: &str) -> Self {
        Dirs { root: Scratch::new(tag), n: Default::default() }
    }
    fn fresh(&self) -> PathBuf {
        let d = self.root.path().canonicalize().unwrap().join(self.n.fetch_add(1, std::sync::atomic::Ordering::Relaxed).to_string());
        std::fs::create_dir_all(d.join("tmp")).unwrap();
        std::fs::create_dir_all(d.join("out")).unwrap();
        d
    }
}
fn lit(dir: &Path, args: &[&str], env: &[(&str, &str)], stdin: Option<&[u8]>) -> Out {
    let mut c = Call::new(dir, &["lit"]);
    c.args.extend(args.iter().map(|s| s.to_string()));
    c.env.push(("TMPDIR".into(), dir.join("tmp").to_str().unwrap().into()));
    c.env.push(("OUT".into(), dir.join("out").to_str().unwrap().into()));
    c.env.extend(env.iter().map(|(k, v)| (k.to_string(), v.to_string())));
    c.stdin = stdin;
    c.run()
}
const TAGS: [&str; 8] = ["PASS", "FAIL", "XFAIL", "XPASS", "UNSUPPORTED", "UNRESOLVED", "FLAKYPASS", "TIMEOUT"];
/// The status of each test as it is reported
fn statuses(out: &str) -> Result<BTreeMap<String, String>, String> {
    let mut m = BTreeMap::new();
    for l in out.lines() {
        if let Some((t, n)) = l.split_once(": ")
            && TAGS.contains(&t)
            && m.insert(n.to_string(), t.to_string()).is_some()
        {
            return Err(format!("{n} is reported twice"));
        }
    }
    Ok(m)
}
fn show(o: &Out) -> String {
    format!("{}\n--- stdout\n{}\n--- stderr\n{}", o.status(), o.stdout(), o.stderr())
}
/// Everything that is left below a directory, other than directories
fn left(dir: &Path) -> Vec<String> {
    let mut v = vec![];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.file_type().unwrap().is_dir() {
            v.extend(left(&e.path()));
        } else {
            v.push(e.path().display().to_string());
        }
    }
    v
}
fn read(p: PathBuf) -> Option<String> {
    std::fs::read(p).ok().map(|b| String::from_utf8_lossy(&b).into_owned())
}

// ---------------------------------------------------------------------------------------------

struct Kind {
    name: &'static str,
    exec: bool,
    text: &'static str,
    status: &'static str,
}
const KINDS: [Kind; 14] = [
    Kind { name: "file", exec: false, text: "RUN: echo %t >> $OUT/t && test ! -e %t && echo mine > %t\nRUN: test $(cat %t) = mine && cp %t %t.2\n", status: "PASS" },
    Kind { name: "directory", exec: false, text: "RUN: echo %t >> $OUT/t && test ! -e %t && mkdir %t && touch %t/f %t.x\nRUN: test -e %t/f\n", status: "PASS" },
    Kind { name: "changes its state", exec: false, text: "RUN: export V=1 && cd / && umask 077 && set -- x\nRUN: test \"$V$PWD$1\" = 1/x\n", status: "PASS" },
    Kind { name: "sees its state", exec: false, text: "RUN: test -z \"$V$1\" && test \"$PWD\" != / && test \"$(umask)\" = 0022\n", status: "PASS" },
    Kind { name: "reads its input", exec: false, text: "RUN: read x && echo $x\n", status: "FAIL" },
    Kind { name: "reads all its input", exec: false, text: "RUN: cat > %t && test ! -s %t\n", status: "PASS" },
    Kind { name: "program reads its input", exec: true, text: "#!/bin/sh\nread x\n", status: "FAIL" },
    Kind { name: "program reads all its input", exec: true, text: "#!/bin/sh\ncat | grep -q . && exit 1; exit 0\n", status: "PASS" },
    Kind { name: "defines", exec: false, text: "DEFINE: %{a}=1\nRUN: test %{a} = 1\n", status: "PASS" },
    Kind { name: "does not define", exec: false, text: "RUN: test '%{a}' != 1 && test '%{a}' != 2\n", status: "PASS" },
    Kind { name: "defines otherwise", exec: false, text: "DEFINE: %{a}=2\nREDEFINE: %{a}=22\nXFAIL: *\nRUN: test %{a} != 22\n", status: "XFAIL" },
    Kind { name: "flaky", exec: false, text: "ALLOWED_RETRIES: 2\nRUN: echo x >> $OUT/%basename_t && test $(wc -l < $OUT/%basename_t) -ge 2\n", status: "FLAKYPASS" },
    Kind { name: "fails", exec: false, text: "RUN: touch %t && false\n", status: "FAIL" },
    Kind { name: "invalid", exec: false, text: "RUN: echo \\\n", status: "UNRESOLVED" },
];

pub fn l10(run: &Run) {
    let dirs = Dirs::new("l10");
    let progs: Vec<(&str, String)> = KINDS.iter().filter(|k| k.exec).map(|k| (k.name, k.text.to_string())).collect();
    let progs = Programs::new(&dirs.fresh(), &progs);
    let all: Vec<usize> = (0..KINDS.len()).collect();
    let sets = sequences(&all, 1, run.pick(3, 4));
    let try_set = |set: &[usize], place: usize, work: usize, workers: usize, rounds: usize| {
        // two that retry and have the same name share what they count with: the test's own doing
        if place > 0 && set.iter().filter(|k| KINDS[**k].name == "flaky").count() > 1 {
            return;
        }
        let dir = dirs.fresh();
        let mut want = BTreeMap::new();
        let mut suites = BTreeSet::new();
        for (i, &k) in set.iter().enumerate() {
            let kind = &KINDS[k];
            let (s, rel) = match place {
                0 => ("a", format!("k{i}.t")),
                1 => ("a", format!("d{i}/x.t")),
                _ => [("a", "x.t"), ("b", "x.t"), ("a", "d/x.t"), ("b", "d/x.t")].map(|(s, r)| (s, r.to_string()))[i].clone(),
            };
            let s = format!("{}{s}", if kind.exec { "e" } else { "" });
            let p = dir.join(&s).join(&rel);
            if kind.exec {
                progs.link(kind.name, p);
            } else {
                write(p, kind.text);
            }
            want.insert(format!("{s}::{rel}"), kind.status.to_string());
            suites.insert(s);
        }
        for s in &suites {
            let format = if s.starts_with('e') { "executable" } else { "shtest" };
            let w = ["", "working_dir = \"../w\"\n"][work];
            write(dir.join(s).join("lit.suite.toml"), &format!("name = \"{s}\"\npatterns = [\"*.t\"]\n{w}[format.{format}]\n"));
        }
        std::fs::create_dir_all(dir.join("w")).unwrap();
        let workers = workers.to_string();
        let mut args = vec!["run", "-j", &workers];
        args.extend(suites.iter().map(|s| s.as_str()));
        for _ in 0..rounds {
            let _ = std::fs::remove_dir_all(dir.join("out"));
            std::fs::create_dir_all(dir.join("out")).unwrap();
            let o = lit(&dir, &args, &[], Some(b"input of the runner\nand more of it\n"));
            run.count(1, set.len() as u64, 1);
            let mut errors = vec![];
            match statuses(&o.stdout()) {
                Err(e) => errors.push(e),
                Ok(got) if got != want => errors.push(format!("the statuses are {got:?}, each alone has {want:?}")),
                Ok(_) => (),
            }
            let temps: Vec<String> = read(dir.join("out/t")).unwrap_or_default().lines().map(|s| s.to_string()).collect();
            let base = dir.join(["tmp", "w"][work]);
            if temps.iter().collect::<BTreeSet<_>>().len() != temps.len() {
                errors.push(format!("two tests have the same temporary file: {temps:?}"));
            }
            if let Some(t) = temps.iter().find(|t| !Path::new(t).starts_with(&base)) {
                errors.push(format!("the temporary file {t} is not in {}", base.display()));
            }
            if temps.iter().any(|t| Path::new(t).parent().is_some_and(|p| p.exists())) {
                errors.push("the directory of a temporary file is left behind".into());
            }
            let l = left(&dir.join("w"));
            if !l.is_empty() || crate::litx::listing(&dir.join("tmp")) != [] as [&str; 0] {
                errors.push(format!("left behind: {l:?} {:?}", crate::litx::listing(&dir.join("tmp"))));
            }
            for e in errors {
                run.violation(
                    format!("{:?} placed {place}, working directory {work}, {workers} workers", set.iter().map(|k| KINDS[*k].name).collect::<Vec<_>>()),
                    format!("{e}\n{}", show(&o)),
                );
            }
        }
        run.outcome(if want.values().any(|s| s == "FAIL" || s == "UNRESOLVED") { "failing set" } else { "passing set" });
        let _ = std::fs::remove_dir_all(&dir);
    };
    par_for(run, sets.len(), |i| {
        let set = &sets[i];
        if set.len() < 3 || run.thorough() {
            for place in 0..3 {
                for work in 0..2 {
                    for workers in 1..=set.len() {
                        try_set(set, place, work, workers, 1);
                    }
                }
            }
        } else {
            try_set(set, i % 3, i / 3 % 2, 1 + i / 6 % 3, 1);
        }
    });
    run.bound(format!("{} sequences of {} kinds of tests, in one directory, several, or two suites; with a shared or a temporary working directory; with 1 to as many workers as tests{}", sets.len(), KINDS.len(), run.pick(" (for three tests: these in turn)", "")));
    // repeated runs over the same files
    let again: Vec<Vec<usize>> = sequences(&all, 2, 2);
    par_for(run, again.len(), |i| try_set(&again[i], i % 3, 1, 2, 3));
    run.bound(format!("{} pairs, run three times over", again.len()));

    // the name of a suite is any text
    let names = ["a", "a/b", "../up", "/abs", "a b", "é", "-x", "x::y", ".", "..", "$OUT", "*", "a.b", "//"];
    for n in names {
        for m in names {
            if n == m {
                continue;
            }
            let dir = dirs.fresh();
            for (s, name) in [("p", n), ("q", m)] {
                write(dir.join(s).join("lit.suite.toml"), &format!("name = '{name}'\npatterns = [\"*.t\"]\n[format.shtest]\n"));
                write(dir.join(s).join("x.t"), "RUN: echo %t >> $OUT/t; pwd >> $OUT/t\n");
            }
            let o = lit(&dir, &["run", "p", "q"], &[], None);
            run.count(1, 2, 1);
            let want: BTreeMap<String, String> = [n, m].iter().map(|s| (format!("{s}::x.t"), "PASS".to_string())).collect();
            let t = read(dir.join("out/t")).unwrap_or_default();
            let bad = t.lines().find(|l| !Path::new(l).starts_with(dir.join("tmp")));
            if statuses(&o.stdout()) != Ok(want) || t.lines().count() != 4 || bad.is_some() || !crate::litx::listing(&dir.join("tmp")).is_empty() {
                run.violation(format!("suites named {n:?} and {m:?}"), format!("temporary files: {t}\n{}", show(&o)));
            }
            let _ = std::fs::remove_dir_all(&dir);
        }
    }
    run.bound(format!("{} pairs of suite names", names.len() * (names.len() - 1)));
    run.assume("tests which write to the same files other than their temporary ones are not isolated from one another");
}

// ---------------------------------------------------------------------------------------------

pub fn l11(run: &Run) {
    let dirs = Dirs::new("l11");
    let base = dirs.fresh();
    const SEES: &str = "(tool || echo none) > $OUT/o 2> $OUT/e; printf PCTs \"$PATH\" > $OUT/path; printf PCTs \"${A-unset}\" > $OUT/a; printf PCTs \"${B-unset}\" > $OUT/b; pwd -P > $OUT/cwd";
    let mut p: Vec<(&str, String)> = vec![("sees", format!("#!/bin/sh\n{}\n", SEES.replace("PCT", "%")))];
    for n in ["p0", "p1", "p2"] {
        p.push((n, format!("#!/bin/sh\necho {n}\n")));
    }
    for n in ["not", "filecheck", "FileCheck"] {
        p.push((n, "#!/bin/sh\necho wrong tool; exit 42\n".into()));
    }
    let progs = Programs::new(&base.join("programs"), &p);
    for mask in 0..8 {
        for k in 0..3 {
            let d = base.join(format!("m{mask}/p{k}"));
            std::fs::create_dir_all(&d).unwrap();
            if mask >> k & 1 == 1 {
                progs.link(&format!("p{k}"), d.join("tool"));
            }
        }
        std::os::unix::fs::symlink("p1", base.join(format!("m{mask}/l1"))).unwrap();
    }
    let test = |dir: &Path, exec: bool, rel: &str| {
        if exec {
            progs.link("sees", dir.join("s").join(rel));
        } else {
            write(dir.join("s").join(rel), &format!("RUN: {}\n", SEES.replace("PCT", "%%")));
        }
    };
    let suite = |dir: &Path, exec: bool, more: &str, tables: &str| {
        let f = if exec { "executable" } else { "shtest" };
        write(dir.join("s/lit.suite.toml"), &format!("name = \"s\"\npatterns = [\"*.t\"]\n{more}\n{tables}\n[format.{f}]\n"));
    };

    // where programs are found
    let lists = sequences(&[0usize, 1, 2], 0, run.pick(2, 3));
    let jobs = lists.len() * 8 * 3 * 2 * 3 * 2;
    par_for(run, jobs, |i| {
        let mut k = i;
        let mut next = |n: usize| {
            let r = k % n;
            k /= n;
            r
        };
        let (exec, spelling, parent, conf, mask) = (next(2) == 1, next(3), next(2), next(3), next(8));
        let list = &lists[next(lists.len())];
        let dir = dirs.fresh();
        let m = base.join(format!("m{mask}"));
        let at = |n: usize| format!("{}/p{n}", m.display());
        let parent = [String::new(), at(0) + ":"][parent].clone() + "/usr/bin:/bin";
        let conf = [None, Some(format!("{}:/usr/bin:/bin", at(1))), Some(format!("{}:{}:/bin:/usr/bin", at(2), at(0)))][conf].clone();
        suite(&dir, exec, "working_dir = \"../w\"", &conf.iter().map(|p| format!("[env]\nPATH = \"{p}\"\n")).collect::<String>());
        std::fs::create_dir(dir.join("w")).unwrap();
        test(&dir, exec, "x.t");
        let mut args = vec!["run".to_string()];
        for &n in list {
            args.push("--path".into());
            args.push(match spelling {
                0 => at(n),
                1 => format!("../{}/m{mask}/p{n}", base.file_name().unwrap().to_str().unwrap()),
                _ if n == 1 => format!("{}/l1/.", m.display()),
                _ => format!("{}/p2/../p{n}/", m.display()),
            });
        }
        args.push("s".into());
        let o = lit(&dir, &args.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &[("PATH", &parent)], None);
        run.count(1, 1, 1);
        let path = list.iter().map(|n| at(*n) + ":").collect::<String>() + conf.as_ref().unwrap_or(&parent);
        let tool = path.split(':').find(|d| Path::new(d).join("tool").exists()).map_or("none", |d| &d[d.len() - 2..]);
        run.outcome(if tool == "none" { "no tool" } else { "tool" });
        let got = (read(dir.join("out/o")), read(dir.join("out/path")));
        let want = (Some(format!("{tool}\n")), Some(path));
        if got != want {
            run.violation(format!("--path {list:?} spelled {spelling}, PATH configured as {conf:?}, of the runner {parent}, tools {mask}, {}", if exec { "executable" } else { "shtest" }), format!("the tool and the path should be {want:?}, are {got:?}\n{}", show(&o)));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    run.bound(format!("{jobs} combinations of --path lists and spellings, configured and inherited PATH, and tools present"));

    // values of the environment
    let values = ["", "a b", "it's \"q\"", "$A", "%s %t %%", "é", "x\ny\n", "\\n\\", "a=b", " lead", "`id`"];
    let opt = |n: usize| if n == 0 { None } else { Some(values[n - 1]) };
    let nv = values.len() + 1;
    let jobs = nv * nv * 2 * 2 * 2;
    par_for(run, jobs, |i| {
        let (s, l, parent, exec, deep) = (opt(i % nv), opt(i / nv % nv), i / nv / nv % 2 == 1, i / nv / nv / 2 % 2 == 1, i / nv / nv / 4 == 1);
        if !run.thorough() && i % nv > 0 && i / nv % nv > 2 {
            return;
        }
        let dir = dirs.fresh();
        let table = |v: Option<&str>, key: &str| v.iter().map(|v| format!("{key} = {v:?}\n")).collect::<String>();
        suite(&dir, exec, "", &format!("[env]\n{}", table(s, "A") + &table(s, "B")));
        let rel = if deep { "d/e/x.t" } else { "d/x.t" };
        test(&dir, exec, rel);
        write(dir.join("s/d/lit.local.toml"), &format!("[env]\n{}", table(l, "A")));
        let env: &[(&str, &str)] = if parent { &[("A", "inherited"), ("B", "inherited too")] } else { &[] };
        let o = lit(&dir, &["run", "s"], env, None);
        run.count(1, 1, 1);
        let or = |v: Option<&str>, p: &str| v.map(|s| s.to_string()).unwrap_or(if parent { p.into() } else { "unset".into() });
        let want = (Some(or(l.or(s), "inherited")), Some(or(s, "inherited too")));
        let got = (read(dir.join("out/a")), read(dir.join("out/b")));
        if got != want {
            run.violation(format!("environment: suite {s:?} directory {l:?} inherited {parent}, {rel} as {}", if exec { "executable" } else { "shtest" }), format!("should be {want:?}, is {got:?}\n{}", show(&o)));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    run.bound("environment variables set by the suite, a directory and the runner: all pairs of 12 values (quick: the first 2 of a directory), both formats");

    // where tests run, and what the paths they are given are
    let works = ["", ".", "../w", "../w/x y", "é", "ABS"];
    let names = ["x.t", "d/x.t", "d/e/x y.t", "é.t", "$1.t", "a.b.t", "%s.t", "-x.t", "x'y.t", "d d/&.t"];
    let jobs = works.len() * names.len() * 2 * 3;
    par_for(run, jobs, |i| {
        let (work, name, exec, from) = (works[i % works.len()], names[i / works.len() % names.len()], i / works.len() / names.len() % 2 == 1, i / works.len() / names.len() / 2);
        let dir = dirs.fresh();
        for d in ["w/x y", "s/é", "w/abs"] {
            std::fs::create_dir_all(dir.join(d)).unwrap();
        }
        let abs = dir.join("w/abs").display().to_string();
        let w = if work == "ABS" { &abs } else { work };
        suite(&dir, exec, &if w.is_empty() { String::new() } else { format!("working_dir = \"{w}\"") }, "");
        if exec {
            test(&dir, true, name);
        } else {
            write(
                dir.join("s").join(name),
                &format!("RUN: {}; test -d \"$(dirname \"%t\")\" || echo no directory > $OUT/subs; for w in \"%s\" \"%S\" \"%t\" \"%{{pathsep}}\" \"%{{fs-sep}}\" \"%{{fs-src-root}}\" \"%{{fs-tmp-root}}\" ; do echo \"$w\" >> $OUT/subs ; done\n", SEES.replace("PCT", "%%")),
            );
        }
        let full = dir.join("s").join(name).display().to_string();
        let (cwd, arg) = [(dir.clone(), "s".to_string()), (dir.clone(), dir.join("s").display().to_string()), (dir.join("s"), full.clone())][from].clone();
        let mut c = Call::new(&cwd, &["lit", "run", &arg]);
        c.env = vec![("TMPDIR".into(), dir.join("tmp").display().to_string()), ("OUT".into(), dir.join("out").display().to_string())];
        let o = c.run();
        run.count(1, 1, 1);
        let mut e = vec![];
        let at = read(dir.join("out/cwd")).unwrap_or_default();
        let at = at.trim_end_matches('\n');
        let expect = if work == "ABS" { abs.clone() } else { dir.join("s").join(w).canonicalize().unwrap().display().to_string() };
        if if w.is_empty() { Path::new(at).parent() != Some(&dir.join("tmp")) } else { at != expect } {
            e.push(format!("it runs in {at:?}, should be in {:?}", if w.is_empty() { dir.join("tmp/*").display().to_string() } else { expect.clone() }));
        }
        // names with characters special to the shell are only substituted, not judged as commands
        if !exec && !name.contains(['$', '%', '\'', '&']) {
            let s = read(dir.join("out/subs")).unwrap_or_default();
            let l: Vec<&str> = s.lines().collect();
            let file = Path::new(name).file_name().unwrap().to_str().unwrap();
            let parent = Path::new(&full).parent().unwrap().display().to_string();
            let ok = l.len() == 7
                && l[0] == full
                && l[1] == parent
                && Path::new(l[2]).starts_with(Path::new(at).join(Path::new(name).parent().unwrap()))
                && Path::new(l[2]).file_name().and_then(|f| f.to_str()) == Some(&format!("{file}.tmp"))
                && l[3..] == [":", "/", "/", "/"];
            if !ok {
                e.push(format!("the paths it is given are {l:?}"));
            }
        }
        for x in e {
            run.violation(format!("working directory {work:?}, test {name:?}, {}, started {}", if exec { "executable" } else { "shtest" }, ["above the suite", "above the suite, with an absolute path", "in the suite, with the path of the test"][from]), format!("{x}\n{}", show(&o)));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    run.bound(format!("{jobs} combinations of working directories, test names, formats and places to start from"));

    // the tools of this executable
    let words = ["not", "filecheck", "FileCheck", "Filecheck", "fileCheck", "FILECHECK", "nota", "anot", "not-x", "x/not", "filecheck.txt", "file check", "Not", "--not", "-not", "not=1"];
    let tool = |w: &str| match w {
        "not" => Some("not"),
        "filecheck" | "FileCheck" | "Filecheck" | "fileCheck" => Some("filecheck"),
        _ => None,
    };
    let exe = litcheck().canonicalize().unwrap();
    let links = base.join("links");
    std::fs::create_dir_all(&links).unwrap();
    for l in ["lit", "litcheck"] {
        std::os::unix::fs::symlink(&exe, links.join(l)).unwrap();
    }
    let wrong = base.join("wrong");
    for n in ["not", "filecheck", "FileCheck"] {
        progs.link(n, wrong.join(n));
    }
    let seqs: Vec<Vec<&str>> = sequences(&words, 1, run.pick(2, 3))
        .into_iter()
        // the same tool twice in a row is not specified
        .filter(|s| s.windows(2).all(|w| tool(w[0]).is_none() || tool(w[0]) != tool(w[1])))
        .collect();
    par_for(run, seqs.len(), |i| {
        let dir = dirs.fresh();
        let s = &seqs[i];
        suite(&dir, false, "", "");
        // as arguments, then as commands
        let joined = s.join([" ", "  ", "\t"][i % 3]);
        write(dir.join("s/x.t"), &format!("RUN: for w in {joined} ; do echo \"$w\" >> $OUT/o ; done\n"));
        let o = lit(&dir, &["run", "s"], &[("PATH", &format!("{}:/usr/bin:/bin", wrong.display()))], None);
        run.count(1, 1, 1);
        let mut want = String::new();
        for w in s {
            match tool(w) {
                Some(t) => want += &format!("{}\n{t}\n", exe.display()),
                None => w.split(' ').for_each(|w| want += &format!("{w}\n")),
            }
        }
        let got = read(dir.join("out/o"));
        if got.as_deref() != Some(&want) {
            run.violation(format!("the words {joined:?}"), format!("should become {want:?}, are {got:?}\n{}", show(&o)));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    run.bound(format!("{} sequences of {} words that name tools, or nearly do", seqs.len(), words.len()));
    let commands = [
        ("echo a | filecheck %s", true), ("echo b | filecheck %s", false), ("echo b | not filecheck %s", true), ("echo a | not filecheck %s", false), ("not false", true), ("not true", false), ("not --crash false", false),
        ("not not-a-command", false), ("true && not false", true), ("FileCheck %s < %s", true), ("echo a > %t && FileCheck --input-file %t %s && not test -e %t.x", true), ("echo a | FileCheck --check-prefix=X %s", false), ("filecheck --help > /dev/null", true),
        ("cat %s | FileCheck %s && not filecheck %s < /dev/null", true),
    ];
    for (k, (c, ok)) in commands.iter().enumerate() {
        for (how, bin) in [("litcheck", exe.clone()), ("lit", links.join("lit")), ("a link", links.join("litcheck"))] {
            let dir = dirs.fresh();
            suite(&dir, false, "", "");
            write(dir.join("s/x.t"), &format!("CHECK: a\nRUN: {c}\n"));
            let args: &[&str] = if how == "lit" { &["run", "s"] } else { &["lit", "run", "s"] };
            let mut call = Call::new(&dir, args);
            call.env = vec![("TMPDIR".into(), dir.join("tmp").display().to_string()), ("OUT".into(), "/dev/null".into()), ("PATH".into(), format!("{}:/usr/bin:/bin", wrong.display()))];
            let o = call.run_bin(&bin);
            run.count(1, 1, 1);
            let want = if *ok { "PASS" } else { "FAIL" };
            if statuses(&o.stdout()).ok().and_then(|m| m.get("s::x.t").cloned()).as_deref() != Some(want) {
                run.violation(format!("command {k}: {c:?} run by {how}"), format!("should {want}\n{}", show(&o)));
            }
            let _ = std::fs::remove_dir_all(&dir);
        }
    }
    run.bound(format!("{} commands with tools, run under 3 names of the executable", commands.len()));
    run.assume("the same tool named twice in a row (`not not`) is not judged: the pattern of its substitution consumes the space between them");
}

// ---------------------------------------------------------------------------------------------

pub fn l12(run: &Run) {
    let dirs = Dirs::new("l12");
    let progs = Programs::new(&dirs.fresh(), &[("ok", "#!/bin/sh\necho ran >> $OUT/ran\n".into())]);
    const FILES: [&str; 8] = ["a/x.t", "a/y.t", "a/sub/x.t", "a/n/x.t", "b/x.t", "b/skip.t", "b/y.u", "b/sub/y.t"];
    let inputs: [&[&str]; 5] = [&["."], &["a"], &["b", "a"], &["a/sub", "b"], &["a/n", "a/n"]];
    type P = fn(&str) -> bool;
    let filters: [Option<(&str, P)>; 7] = [
        None,
        Some(("x", |n| n.contains('x'))),
        Some(("^B::", |n| n.starts_with("B::"))),
        Some(("y.t$", |n| n.ends_with("y.t"))),
        Some(("sub/", |n| n.contains("sub/"))),
        Some(("nothing", |_| false)),
        Some(("^", |_| true)),
    ];
    let nf = filters.len();
    let pairs: Vec<(usize, usize)> = (0..nf).flat_map(|f| (0..nf).map(move |o| (f, o))).filter(|(f, o)| *f == 0 || *o == 0 || (f + o) % 3 == 0).collect();
    let jobs = 256 * inputs.len();
    par_for(run, jobs, |i| {
        let (mask, inp) = (i % 256, inputs[i / 256]);
        if !run.thorough() && (mask * 7 + i / 256) % 4 != 0 {
            return;
        }
        let dir = dirs.fresh();
        write(dir.join("lit.suite.toml"), "name = \"top\"\npatterns = [\"*.t\"]\n");
        write(dir.join("a/lit.suite.toml"), "name = \"A\"\npatterns = [\"*.t\"]\n");
        write(dir.join("a/n/lit.suite.toml"), "name = \"N\"\npatterns = [\"*.t\"]\n");
        write(dir.join("b/lit.suite.toml"), "name = \"B\"\npatterns = [\"*.t\"]\nexclude = [\"*skip*\"]\n[format.executable]\n");
        for d in ["a/sub", "b/sub"] {
            std::fs::create_dir_all(dir.join(d)).unwrap();
        }
        for (k, f) in FILES.iter().enumerate() {
            if mask >> k & 1 == 1 {
                if f.starts_with("b/") {
                    progs.link("ok", dir.join(f));
                } else {
                    write(dir.join(f), "RUN: echo ran >> $OUT/ran\n");
                }
            }
        }
        // what there is, without a filter
        let list = |o: &Out| -> Option<BTreeMap<String, String>> {
            let out = o.stdout();
            let mut lines = out.lines();
            if lines.next() != Some("-- Available Tests --") {
                return None;
            }
            let mut m = BTreeMap::new();
            for l in lines {
                let (n, f) = l.strip_prefix("  ")?.strip_suffix(')')?.split_once(" (format=")?;
                if m.insert(n.to_string(), f.to_string()).is_some() {
                    return None;
                }
            }
            Some(m)
        };
        let mut args = vec!["show-tests"];
        args.extend(inp);
        let first = lit(&dir, &args, &[], None);
        let all = list(&first);
        let there: BTreeMap<String, String> = FILES
            .iter()
            .enumerate()
            .filter(|(k, f)| {
                let under = |d: &str| d == "." || f.starts_with(&format!("{d}/"));
                mask >> k & 1 == 1 && !f.ends_with(".u") && !f.contains("skip") && inp.iter().any(|d| under(d))
            })
            .map(|(_, f)| match f.split_once('/').unwrap() {
                ("a", r) => (r.strip_prefix("n/").map_or(format!("A::{r}"), |r| format!("N::{r}")), "shtest".to_string()),
                (_, r) => (format!("B::{r}"), "executable".to_string()),
            })
            .collect();
        let tell = |what: &str, e: String| run.violation(format!("{what}, files {:?}, inputs {inp:?}", FILES.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, f)| *f).collect::<Vec<_>>()), e);
        // a search which finds nothing at all may be reported as such
        if all.as_ref() != Some(&there) && !(there.is_empty() && all.is_none() && first.code != Some(0)) {
            tell("listed", format!("should be {there:?}\n{}", show(&first)));
            return;
        }
        if there.is_empty() {
            run.outcome("nothing there");
        }
        for (k, &(f, o)) in pairs.iter().enumerate() {
            let (f, o) = (filters[f], filters[o]);
            let sel: BTreeMap<&String, &String> = there.iter().filter(|(n, _)| f.is_none_or(|x| x.1(n)) && !o.is_some_and(|x| x.1(n))).collect();
            let mut opts: Vec<&str> = vec![];
            let mut env: Vec<(&str, &str)> = vec![];
            let style = (i + k) % 4;
            if style == 3 {
                env.extend(f.map(|x| ("LIT_FILTER", x.0)));
                env.extend(o.map(|x| ("LIT_FILTER_OUT", x.0)));
            } else {
                opts.extend(f.iter().flat_map(|x| ["--filter", x.0]));
                opts.extend(o.iter().flat_map(|x| ["--filter-out", x.0]));
            }
            let line = |cmd: &[&'static str]| -> Vec<&str> {
                let mut v: Vec<&str> = cmd.to_vec();
                if style == 1 {
                    v.extend(inp);
                    v.extend(&opts);
                } else if style == 2 {
                    v.push(inp[0]);
                    v.extend(&opts);
                    v.extend(&inp[1..]);
                } else {
                    v.extend(&opts);
                    v.extend(inp);
                }
                v
            };
            let what = format!("filter {:?} filter-out {:?} {}", f.map(|x| x.0), o.map(|x| x.0), ["before", "after", "between", "in the environment"][style]);
            let l = lit(&dir, &line(&["show-tests"]), &env, None);
            run.count(1, 3, 1);
            if l.code == Some(0) || !there.is_empty() {
                let got = list(&l);
                if l.code != Some(0) || got.as_ref().is_none_or(|g| g.iter().collect::<BTreeMap<_, _>>() != sel) {
                    tell(&format!("show-tests: {what}"), format!("should list {sel:?}\n{}", show(&l)));
                }
            }
            if !there.is_empty() {
                let s = lit(&dir, &line(&["show-suites"]), &env, None);
                let got: BTreeMap<String, String> = s.stdout().lines().filter_map(|l| l.strip_prefix("  * ")?.strip_suffix(" tests")?.split_once(" - ").map(|(a, b)| (a.into(), b.into()))).collect();
                let mut want = BTreeMap::<String, usize>::new();
                for n in there.keys() {
                    *want.entry(n.split("::").next().unwrap().into()).or_default() += sel.contains_key(n) as usize;
                }
                // suites that have no test at all may be listed
                let same = want.iter().all(|(k, v)| got.get(k) == Some(&v.to_string())) && got.iter().all(|(k, v)| want.contains_key(k) || v == "0");
                if s.code != Some(0) || !same {
                    tell(&format!("show-suites: {what}"), format!("should list {want:?}\n{}", show(&s)));
                }
            }
            let _ = std::fs::remove_file(dir.join("out/ran"));
            let cmd: &[&str] = if k % 2 == 0 { &["run"] } else { &[] };
            let r = lit(&dir, &line(cmd), &env, None);
            let got = statuses(&r.stdout());
            let want: BTreeMap<String, String> = sel.keys().map(|n| (n.to_string(), "PASS".to_string())).collect();
            let ran = read(dir.join("out/ran")).unwrap_or_default().lines().count();
            let code = if sel.is_empty() { r.code.is_some_and(|c| c != 0) } else { r.code == Some(0) };
            if got.as_ref() != Ok(&want) || ran != want.len() || !code {
                tell(&format!("{}: {what}", if cmd.is_empty() { "default" } else { "run" }), format!("should run {:?}, {ran} ran\n{}", want.keys(), show(&r)));
            }
            run.outcome(if sel.is_empty() { "none selected" } else if sel.len() == there.len() { "all selected" } else { "some selected" });
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    // suites in different places may have the same name
    const PLACES: [&str; 3] = ["a", "b", "b/n"];
    par_for(run, 64 * 4, |i| {
        let (counts, f) = ([i % 4, i / 4 % 4, i / 16 % 4], filters[[0, 1, 3, 6][i / 64]]);
        let dir = dirs.fresh();
        let dir = std::fs::canonicalize(&dir).unwrap();
        let mut want = BTreeMap::<String, usize>::new();
        for (p, n) in PLACES.iter().zip(counts) {
            write(dir.join(p).join("lit.suite.toml"), "name = \"s\"\npatterns = [\"*.t\"]\n");
            for k in 0..n {
                write(dir.join(p).join(["x.t", "y.t", "xy.t"][k]), "RUN: true\n");
            }
            let sel = ["x.t", "y.t", "xy.t"][..n].iter().filter(|t| f.is_none_or(|x| x.1(t))).count();
            want.insert(dir.join(p).display().to_string(), sel);
        }
        let mut args = vec!["show-suites"];
        args.extend(f.iter().flat_map(|x| ["--filter", x.0]));
        args.extend(["a", "b"]);
        let s = lit(&dir, &args, &[], None);
        run.count(1, 1, 1);
        let out = s.stdout();
        let mut got = BTreeMap::new();
        let mut lines = out.lines();
        while let Some(l) = lines.next() {
            if let Some(n) = l.strip_prefix("  * s - ").and_then(|l| l.strip_suffix(" tests")) {
                let root = lines.next().and_then(|l| l.trim().strip_prefix("Source Root")).map(|l| l.trim_start_matches([' ', ':']).trim_end_matches('/').to_string());
                got.insert(root.unwrap_or_default(), n.parse::<usize>().unwrap_or(usize::MAX));
            }
        }
        let none = counts.iter().all(|n| *n == 0) && s.code != Some(0);
        let same = want.iter().all(|(k, v)| got.get(k) == Some(v) || *v == 0 && !got.contains_key(k)) && got.keys().all(|k| want.contains_key(k));
        if !none && (s.code != Some(0) || !same) {
            run.violation(format!("show-suites: suites of one name with {counts:?} tests, filter {:?}", f.map(|x| x.0)), format!("should list {want:?}, lists {got:?}\n{}", show(&s)));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    run.bound("show-suites for three suites of the same name in different places, with 0 to 3 tests each and 4 filters");
    run.bound(format!("{} sets of files in nested and sibling suites x {} lists of inputs x {} pairs of filters, given before, after or between the inputs or in the environment: show-tests, show-suites, run and the default command", run.pick(64, 256), inputs.len(), pairs.len()));
}
