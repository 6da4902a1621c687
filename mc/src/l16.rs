//! L16: what `show-suites` and `show-tests` say about a suite and its tests is what a run uses.
//! Configurations are enumerated; the listing is compared with what was configured, and with what
//! the commands of a test see when the same suites are run.
use crate::fw::*;
use crate::proc::{litcheck, Call};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// A suite: its name, and one choice for each of its settings
#[derive(Clone, Copy, PartialEq, Debug)]
struct Choice {
    name: usize,
    work: usize,
    source: usize,
    format: usize,
    local: usize,
    features: usize,
    subs: usize,
    env: usize,
}
const NAMES: [&str; 5] = ["s", "two words", "a::b", "é", "x.y-z_1"];
const WORKS: usize = 6;
const SOURCES: usize = 4;
/// text, name
const FORMATS: [(&str, &str); 7] = [
    ("", "shtest"),
    ("[format.shtest]\n", "shtest"),
    ("[format.sh]\n", "shtest"),
    ("[format.shtest]\nshell = \"bash\"\npipefail = false\n", "shtest"),
    ("format.shtest = { shell = \"sh\" }\n", "shtest"),
    ("[format.executable]\n", "executable"),
    ("[format.exe]\nunsupported = []\n", "executable"),
];
/// of `sub` and `sub/deep`
const LOCALS: [[Option<(&str, &str)>; 2]; 6] = [
    [None, None],
    [Some(("[format.executable]\n", "executable")), None],
    [Some(("[format.shtest]\n", "shtest")), None],
    [None, Some(("[format.executable]\n", "executable"))],
    [Some(("[format.executable]\n", "executable")), Some(("[format.sh]\n", "shtest"))],
    [Some(("env.K = \"local\"\navailable_features = [\"local\"]\n[substitutions]\n\"%k\" = \"local\"\n", "")), None],
];
const FEATURES: [&[&str]; 6] = [&[], &["a"], &["b-c", "a"], &["a", "a", "d=1"], &["native", "z"], &["system-linux", "é"]];
const SUBS: [&[(&str, &str)]; 7] = [
    &[],
    &[("%k", "v")],
    &[("%k", "")],
    &[("%k", "1"), ("OTHER", "two words")],
    &[("%\\{k\\}", "x: y"), ("%z", "50%"), ("%é", "é")],
    &[("%z", "z"), ("%k", "k"), ("%a", "a")],
    &[("%\\{pathsep\\}", "own")],
];
const ENVS: [&[(&str, &str)]; 6] = [&[], &[("K", "v")], &[("K", "")], &[("LONGER_NAME", "two: words"), ("K", "1")], &[("Z", "z"), ("K", "é"), ("A", "a=b")], &[("HOME", "/nowhere"), ("X_Y", "%k")]];

#[derive(Default, Debug, Clone, PartialEq)]
struct Shown {
    name: String,
    tests: String,
    source: String,
    exec: String,
    format: String,
    features: Vec<String>,
    subs: Vec<(String, String)>,
    env: Vec<(String, String)>,
}

/// Reads the output of `show-suites`
fn read(out: &str) -> Result<Vec<Shown>, String> {
    let mut v: Vec<Shown> = vec![];
    let mut part = "";
    for (n, l) in out.lines().enumerate() {
        let bad = || format!("line {} is not understood: {l:?}", n + 1);
        if n == 0 {
            if l != "-- Test Suites --" {
                return Err(bad());
            }
            continue;
        }
        if let Some(x) = l.strip_prefix("  * ") {
            let (name, tests) = x.rsplit_once(" - ").ok_or_else(bad)?;
            v.push(Shown { name: name.into(), tests: tests.into(), ..Default::default() });
            part = "";
            continue;
        }
        let s = v.last_mut().ok_or_else(bad)?;
        if let Some(x) = l.strip_prefix("        - ") {
            let pair = || x.split_once(": ").map(|(k, v)| (k.trim_end().to_string(), v.to_string())).ok_or_else(bad);
            match part {
                "Available Features" => s.features.push(x.into()),
                "Available Substitutions" => s.subs.push(pair()?),
                "Environment Variables" => s.env.push(pair()?),
                _ => return Err(bad()),
            }
            continue;
        }
        let (k, x) = l.strip_prefix("    ").and_then(|l| l.split_once(':')).ok_or_else(bad)?;
        match k.trim_end() {
            "Source Root" => s.source = x.trim_start().into(),
            "Exec Root" => s.exec = x.trim_start().into(),
            "Test Format" => s.format = x.trim_start().into(),
            p @ ("Available Features" | "Available Substitutions" | "Environment Variables") if x.is_empty() => part = match p {
                "Available Features" => "Available Features",
                "Available Substitutions" => "Available Substitutions",
                _ => "Environment Variables",
            },
            _ => return Err(bad()),
        }
    }
    Ok(v)
}

/// What was configured, and what the files are for
struct Suite {
    want: Shown,
    temp: bool,
    tests: BTreeMap<String, &'static str>,
    formats: [&'static str; 3],
}

fn quote(s: &str) -> String {
    format!("'{s}'")
}

/// Writes the suite into `dir`/`place`
fn write(dir: &Path, place: &str, c: &Choice, base: &Shown, log: &Path) -> Suite {
    let top = dir.join(place);
    let d = |p: &str| std::fs::create_dir_all(top.join(p)).unwrap();
    d("w/in");
    let mut text = format!("name = {:?}\npatterns = [\"*.t\"]\n", NAMES[c.name]);
    let (work, exec) = match c.work {
        0 => (None, ""),
        1 => (Some(".".into()), "."),
        2 => (Some("w".into()), "w"),
        3 => (Some("./w/../w/in/".into()), "w/in"),
        4 => (Some(top.join("w").display().to_string()), "w"),
        _ => (Some("..".into()), ".."),
    };
    if let Some(w) = &work {
        text += &format!("working_dir = {}\n", quote(w));
    }
    let (source, root) = match c.source {
        0 => (None, "."),
        1 => (Some("src".to_string()), "src"),
        2 => (Some("./src/../src/".into()), "src"),
        _ => (Some(top.join("src").display().to_string()), "src"),
    };
    if let Some(s) = &source {
        text += &format!("source_dir = {}\n", quote(s));
    }
    let fs = FEATURES[c.features];
    if !fs.is_empty() {
        text += &format!("available_features = {fs:?}\n");
    }
    let (before, after) = if FORMATS[c.format].0.starts_with("format.") { (FORMATS[c.format].0, "") } else { ("", FORMATS[c.format].0) };
    text += before;
    text += after;
    if !SUBS[c.subs].is_empty() {
        text += "[substitutions]\n";
        for (k, v) in SUBS[c.subs] {
            text += &format!("{} = {}\n", quote(k), quote(v));
        }
    }
    if !ENVS[c.env].is_empty() {
        text += "[env]\n";
        for (k, v) in ENVS[c.env] {
            text += &format!("{} = {}\n", quote(k), quote(v));
        }
    }
    std::fs::write(top.join("lit.suite.toml"), text).unwrap();
    let src = top.join(root);
    std::fs::create_dir_all(src.join("sub/deep")).unwrap();
    let mut formats = [FORMATS[c.format].1; 3];
    for (i, p) in ["sub", "sub/deep"].iter().enumerate() {
        formats[i + 1] = formats[i];
        if let Some((t, f)) = LOCALS[c.local][i] {
            std::fs::write(src.join(p).join("lit.local.toml"), t).unwrap();
            if !f.is_empty() {
                formats[i + 1] = f;
            }
        }
    }
    let mut probe = format!("RUN: printf '%%s\\n' \"cwd=$PWD\" >> {log}\n", log = log.display());
    for (k, _) in ENVS[c.env] {
        probe += &format!("RUN: printf '%%s\\n' \"env={k}=$(printenv {k})\" >> {}\n", log.display());
    }
    for (k, v) in &base.subs {
        // those with a capture are uses of tools, which are judged elsewhere
        if !k.contains('(') && !SUBS[c.subs].iter().any(|s| s.0 == k) {
            probe += &format!("RUN: echo '.{}={v}=.' >> {}\n", k.replace('\\', ""), log.display());
        }
    }
    for (k, _) in SUBS[c.subs] {
        probe += &format!("RUN: echo '.{}=.' >> {}\n", k.replace('\\', ""), log.display());
    }
    let mut tests = BTreeMap::new();
    for (i, p) in ["x.t", "sub/y.t", "sub/deep/z.t"].iter().enumerate() {
        std::fs::write(src.join(p), if i == 0 { probe.as_str() } else { "RUN: true\n" }).unwrap();
        tests.insert(format!("{}::{p}", NAMES[c.name]), formats[i]);
    }
    for (i, f) in FEATURES.iter().flat_map(|f| f.iter()).collect::<BTreeSet<_>>().into_iter().enumerate() {
        // a name that a condition can contain
        if f.is_ascii() {
            let p = format!("f{i}.t");
            std::fs::write(src.join(&p), format!("REQUIRES: {f}\nRUN: echo feature={f} >> {}\n", log.display())).unwrap();
            tests.insert(format!("{}::{p}", NAMES[c.name]), formats[0]);
        }
    }
    let canon = |p: &Path| std::fs::canonicalize(p).unwrap().display().to_string();
    let mut features: Vec<String> = base.features.iter().cloned().chain(fs.iter().map(|f| f.to_string())).collect();
    features.sort();
    features.dedup();
    let mut subs: BTreeMap<String, String> = base.subs.iter().cloned().collect();
    subs.extend(SUBS[c.subs].iter().map(|(k, v)| (k.to_string(), v.to_string())));
    let mut env: Vec<(String, String)> = ENVS[c.env].iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    env.sort();
    let want = Shown {
        name: NAMES[c.name].into(),
        tests: format!("{} tests", tests.len()),
        source: canon(&src),
        exec: if work.is_some() { canon(&top.join(exec)) } else { String::new() },
        format: FORMATS[c.format].1.into(),
        features,
        subs: subs.into_iter().collect(),
        env,
    };
    Suite { want, temp: work.is_none(), tests, formats }
}

fn case(run: &Run, dir: &Path, choices: &[Choice], base: &Shown) {
    let fresh = |n: &str| {
        let p = dir.join(n);
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir(&p).unwrap();
        p
    };
    let (top, tmp, log) = (fresh("t"), fresh("tmp"), dir.join("log"));
    let _ = std::fs::remove_file(&log);
    let places = ["one", "two"];
    let suites: Vec<Suite> = choices.iter().zip(places).map(|(c, p)| write(&top, p, c, base, &log)).collect();
    let key = format!("{choices:?}");
    let call = |a: &[&str]| {
        let args: Vec<&str> = ["lit"].iter().chain(a).copied().chain(places[..choices.len()].iter().copied()).collect();
        let mut c = Call::new(&top, &args);
        c.env = vec![("TMPDIR".into(), tmp.display().to_string())];
        c.run_bin(&litcheck())
    };
    let mut shown = vec![];
    run.count(1, 3, 1);
    // the suites
    {
        let o = call(&["show-suites"]);
        let fail = |what: String| run.violation(format!("show-suites {key}"), format!("{what}\n{}{}", o.stdout(), o.stderr()));
        if o.code != Some(0) {
            return fail(o.status());
        }
        let got = match read(&o.stdout()) {
            Ok(g) => g,
            Err(e) => return fail(e),
        };
        if got.len() != suites.len() {
            return fail(format!("{} suites", got.len()));
        }
        for s in &suites {
            let same: Vec<&Shown> = got.iter().filter(|g| g.source == s.want.source).collect();
            let [g] = same[..] else { return fail(format!("no suite, or several, with the source root {}", s.want.source)) };
            let mut g = g.clone();
            let original = g.clone();
            g.features.sort();
            g.subs.sort();
            g.env.sort();
            if s.temp {
                if Path::new(&g.exec).parent() != Some(&tmp) {
                    return fail(format!("the exec root {:?} is not a directory for temporary files", g.exec));
                }
                g.exec.clear();
            }
            if g != s.want {
                return fail(format!("shown:      {g:?}\nconfigured: {:?}", s.want));
            }
            shown.push(original);
        }
    }
    // the tests
    {
        let o = call(&["show-tests"]);
        let fail = |what: String| run.violation(format!("show-tests {key}"), format!("{what}\n{}{}", o.stdout(), o.stderr()));
        if o.code != Some(0) {
            return fail(o.status());
        }
        let text = o.stdout();
        let mut got: Vec<&str> = text.lines().skip(1).collect();
        let mut want: Vec<String> = suites.iter().flat_map(|s| s.tests.iter().map(|(n, f)| format!("  {n} (format={f})"))).collect();
        got.sort();
        want.sort();
        if got != want || !text.starts_with("-- Available Tests --\n") {
            return fail(format!("configured: {want:#?}"));
        }
    }
    // what the tests of the first suite find; an executable test would need other files
    if suites.iter().all(|s| s.formats.iter().all(|f| *f == "shtest")) {
        let o = call(&["run", "-j1"]);
        run.count(0, 1, 0);
        run.outcome("run");
        let seen = std::fs::read_to_string(&log).unwrap_or_default();
        let fail = |what: String| run.violation(format!("run {key}"), format!("{what}\nshown: {shown:?}\nseen by the tests:\n{seen}\n{}{}", o.stdout(), o.stderr()));
        if o.code != Some(0) {
            return fail(o.status());
        }
        let mut want: Vec<String> = vec![];
        let mut cwds = vec![];
        for (s, g) in suites.iter().zip(&shown) {
            if !s.temp {
                cwds.push(format!("cwd={}", g.exec));
            }
            want.extend(g.env.iter().map(|(k, v)| format!("env={k}={v}")));
            for (k, v) in &g.subs {
                if k.contains('(') {
                    continue;
                }
                let own = base.subs.iter().find(|b| b.0 == *k).filter(|b| b.1 == *v);
                want.push(match own {
                    Some(b) => format!(".{v}={}=.", b.1),
                    None => format!(".{v}=."),
                });
            }
            want.extend(g.features.iter().filter(|f| f.is_ascii() && FEATURES.iter().any(|x| x.contains(&f.as_str()))).map(|f| format!("feature={f}")));
        }
        let mut got: Vec<String> = seen.lines().map(str::to_string).collect();
        let temps = suites.iter().filter(|s| s.temp).count();
        got.retain(|l| match l.strip_prefix("cwd=") {
            Some(p) => {
                if let Some(i) = cwds.iter().position(|c| c == l) {
                    cwds.remove(i);
                    false
                } else {
                    Path::new(p).parent() != Some(&tmp)
                }
            }
            None => true,
        });
        if !cwds.is_empty() || seen.lines().filter(|l| l.starts_with("cwd=")).count() != suites.len() {
            return fail(format!("the tests did not run in the exec roots shown: {cwds:?} ({temps} temporary)"));
        }
        got.sort();
        want.sort();
        if got != want {
            return fail(format!("by what is shown, the tests would have seen {want:#?}"));
        }
    }
    if std::fs::read_dir(&tmp).unwrap().next().is_some() {
        run.violation(format!("left {key}"), "temporary directories of the suites are left behind".to_string());
    }
}

pub fn check(run: &Run) {
    let dims = [NAMES.len(), WORKS, SOURCES, FORMATS.len(), LOCALS.len(), FEATURES.len(), SUBS.len(), ENVS.len()];
    let make = |v: &[usize]| Choice { name: v[0], work: v[1], source: v[2], format: v[3], local: v[4], features: v[5], subs: v[6], env: v[7] };
    // what is there without any configuration is the business of L01 and L04
    let base = {
        let sc = Scratch::new("l16-base");
        std::fs::create_dir(sc.path().join("s")).unwrap();
        std::fs::write(sc.path().join("s/lit.suite.toml"), "name = \"s\"\npatterns = [\"*.t\"]\nworking_dir = \".\"\n").unwrap();
        let o = Call::new(sc.path(), &["lit", "show-suites", "s"]).run_bin(&litcheck());
        match read(&o.stdout()) {
            Ok(v) if v.len() == 1 && v[0].name == "s" => v[0].clone(),
            other => {
                run.violation("show-suites of a plain suite", format!("{other:?}\n{}{}", o.stdout(), o.stderr()));
                return;
            }
        }
    };
    for f in ["native", "system-linux"] {
        if !base.features.iter().any(|b| b == f) {
            run.violation("features of a plain suite", format!("{f} is missing: {:?}", base.features));
        }
    }
    // every choice of up to `depth` settings, the others at their first or last choice
    let mut cases: Vec<Vec<Choice>> = vec![];
    let depth = if run.thorough() { 3 } else { 2 };
    let mut single: Vec<Vec<usize>> = vec![];
    for rest in [0, 1] {
        let start: Vec<usize> = if rest == 0 { vec![0; 8] } else { vec![1, 2, 1, 1, 0, 2, 3, 3] };
        let mut level = vec![start.clone()];
        for n in 0..depth {
            let mut next: BTreeSet<Vec<usize>> = BTreeSet::new();
            for v in &level {
                for (k, d) in dims.iter().enumerate() {
                    for c in 0..*d {
                        let mut w = v.clone();
                        w[k] = c;
                        next.insert(w);
                    }
                }
            }
            level = next.into_iter().collect();
            if n == 0 {
                single.extend(level.iter().cloned());
            }
        }
        cases.extend(level.iter().map(|v| vec![make(v)]));
    }
    let n1 = cases.len();
    single.sort();
    single.dedup();
    for (i, a) in single.iter().enumerate() {
        for (j, b) in single.iter().enumerate() {
            if run.thorough() || (i + j) % 5 == 0 {
                cases.push(vec![make(a), make(b)]);
            }
        }
    }
    let dirs: Vec<Scratch> = (0..64).map(|i| Scratch::new(&format!("l16-{i}"))).collect();
    let free = std::sync::Mutex::new((0..dirs.len()).collect::<Vec<_>>());
    par_for(run, cases.len(), |i| {
        let d = free.lock().unwrap().pop().unwrap();
        let dir = std::fs::canonicalize(dirs[d].path()).unwrap();
        case(run, &dir, &cases[i], &base);
        free.lock().unwrap().push(d);
    });
    run.bound(format!("{n1} suites: every choice of {depth} of 8 settings (name, working and source directories, format, formats of directories, features, substitutions, environment), from two sets of the others; {} pairs of suites, each deviating in one setting", cases.len() - n1));
    run.assume("the order in which suites, features, substitutions and variables are shown is not judged");
}
