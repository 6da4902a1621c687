//! L06: the effective configuration of each test.
//!
//! Every bounded placement of local configuration files in a tree with two suites is written to
//! disk, discovered through the real registry from every input of a list, and the configuration
//! each test ends up with is compared with one computed along its chain of directories.
use crate::fw::*;
use crate::l05::{Forest, glob};
use lit::{Config, DefaultTestSuiteRegistry, TestFormat, TestConfig, TestSuiteRegistry, TestSuiteRegistryExt};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

/// One configuration as written (and, merged, as it takes effect)
#[derive(Clone, Debug, Default, PartialEq)]
struct Conf {
    env: BTreeMap<String, String>,
    subs: BTreeMap<String, String>,
    features: BTreeSet<String>,
    patterns: Vec<String>,
    exclude: Vec<String>,
    /// as toml; "" is not given
    format: String,
}
impl Conf {
    fn toml(&self) -> String {
        let mut s = String::new();
        if !self.patterns.is_empty() {
            s += &format!("patterns = {:?}\n", self.patterns);
        }
        if !self.exclude.is_empty() {
            s += &format!("exclude = {:?}\n", self.exclude);
        }
        if !self.features.is_empty() {
            s += &format!("available_features = {:?}\n", self.features.iter().collect::<Vec<_>>());
        }
        if !self.format.is_empty() {
            s += &format!("format = {}\n", self.format);
        }
        for (name, m) in [("env", &self.env), ("substitutions", &self.subs)] {
            if !m.is_empty() {
                s += &format!("[{name}]\n");
                for (k, v) in m {
                    s += &format!("'{k}' = '{v}'\n");
                }
            }
        }
        s
    }
    /// `inner` in a directory where `self` applies
    fn with(&self, inner: &Conf) -> Conf {
        let mut c = self.clone();
        c.env.extend(inner.env.clone());
        c.subs.extend(inner.subs.clone());
        c.features.extend(inner.features.clone());
        if !inner.patterns.is_empty() {
            c.patterns = inner.patterns.clone();
        }
        if !inner.exclude.is_empty() {
            c.exclude = inner.exclude.clone();
        }
        if !inner.format.is_empty() {
            c.format = inner.format.clone();
        }
        c
    }
}
fn map(kv: &[(&str, &str)]) -> BTreeMap<String, String> {
    kv.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}
fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
const PATHSEP: &str = r"%\{pathsep\}";

/// What a local configuration may say; `d` makes the values specific to its directory.
const MENU: usize = 7;
fn menu(k: usize, d: &str) -> Option<Conf> {
    let c = Conf::default();
    Some(match k {
        0 => return None,
        1 => Conf { env: map(&[("K", d)]), subs: map(&[("%k", d)]), features: [format!("f-{d}")].into(), ..c },
        2 => Conf { env: map(&[("L", d), ("K", "")]), patterns: strs(&["*y.t", "*x.t"]), ..c },
        3 => Conf { exclude: strs(&["*y.t"]), format: "{ executable = {} }".into(), ..c },
        4 => Conf { subs: map(&[(PATHSEP, d), ("%k", ""), ("%k2", d)]), format: format!("{{ shtest = {{ shell = \"sh-{d}\" }} }}"), ..c },
        5 => c,
        _ => Conf { patterns: strs(&["*.u"]), exclude: strs(&["*x.u"]), features: ["f".to_string(), format!("g-{d}")].into(), ..c },
    })
}
fn suite_conf(k: usize) -> Conf {
    let c = Conf { patterns: strs(&["*.t"]), ..Conf::default() };
    match k {
        0 => c,
        1 => Conf { env: map(&[("K", "suite"), ("S", "1")]), subs: map(&[("%k", "suite"), ("%s", "1")]), features: ["suite".to_string(), "f".into()].into(), ..c },
        _ => Conf { exclude: strs(&["*/y.t"]), subs: map(&[(PATHSEP, "suite")]), format: "{ shtest = { shell = \"sh-suite\" } }".into(), ..c },
    }
}

const DIRS: [&str; 6] = ["", "a", "a/b", "s", "n", "n/c"];
const FILES: [&str; 4] = ["x.t", "y.t", "x.u", "z.u"];

#[derive(Clone, PartialEq, Debug)]
struct Seen {
    conf: Conf,
    format: String,
}

struct Case<'a> {
    /// menu item per directory
    local: [usize; 6],
    suite: usize,
    nested: Option<usize>,
    source: &'a str,
}
fn local_name(d: &str) -> String {
    format!("{}lit.local.toml", if d.is_empty() { String::new() } else { format!("{d}/") })
}
fn under(p: &str, dir: &str) -> bool {
    dir.is_empty() || p == dir || p.strip_prefix(dir).is_some_and(|r| r.starts_with('/'))
}
fn tag(d: &str) -> String {
    if d.is_empty() { "root".into() } else { d.replace('/', "-") }
}

impl Case<'_> {
    fn write(&self, dir: &Path) {
        for (k, d) in DIRS.iter().enumerate() {
            let p = dir.join(local_name(d));
            match menu(self.local[k], &tag(d)) {
                Some(c) => std::fs::write(p, c.toml()).unwrap(),
                None => drop(std::fs::remove_file(p)),
            }
        }
        let src = if self.source.is_empty() { String::new() } else { format!("source_dir = \"{}\"\n", self.source) };
        std::fs::write(dir.join("lit.suite.toml"), format!("name = \"r\"\nworking_dir = \".\"\n{src}{}", suite_conf(self.suite).toml())).unwrap();
        let n = dir.join("n/lit.suite.toml");
        match self.nested {
            Some(k) => std::fs::write(n, format!("name = \"n\"\nworking_dir = \".\"\n{}", suite_conf(k).toml())).unwrap(),
            None => drop(std::fs::remove_file(n)),
        }
    }
    /// The configuration of every test selected, by file.
    fn model(&self, inputs: &[&str], defaults: &Conf) -> BTreeMap<String, Seen> {
        let mut out = BTreeMap::new();
        for (k, d) in DIRS.iter().enumerate() {
            let (suite, root) = match self.nested {
                Some(n) if under(d, "n") => (n, "n"),
                _ => (self.suite, self.source),
            };
            if !under(d, root) {
                continue;
            }
            let mut conf = defaults.with(&suite_conf(suite));
            for (j, e) in DIRS.iter().enumerate().take(k + 1) {
                if under(d, e) && under(e, root) {
                    if let Some(c) = menu(self.local[j], &tag(e)) {
                        conf = conf.with(&c);
                    }
                }
            }
            let format = if conf.format.is_empty() { "Default".into() } else { conf.format.clone() };
            for f in FILES {
                let p = if d.is_empty() { f.to_string() } else { format!("{d}/{f}") };
                let r = p[root.len()..].trim_start_matches('/');
                if conf.patterns.iter().any(|g| glob(g, r)) && !conf.exclude.iter().any(|g| glob(g, r)) && inputs.iter().any(|i| under(&p, i)) {
                    out.insert(p, Seen { conf: conf.clone(), format: format.clone() });
                }
            }
        }
        out
    }
    fn real(&self, dir: &Path, inputs: &[&str], cfg: &mut Config) -> Result<BTreeMap<String, Seen>, String> {
        cfg.options.tests = inputs.iter().map(|i| dir.join(i).to_str().unwrap().into()).collect();
        let mut reg = DefaultTestSuiteRegistry::default();
        reg.load(cfg).map_err(|e| format!("error: {e:?}"))?;
        let mut out = BTreeMap::new();
        for t in reg.tests() {
            let f = t.source_path().strip_prefix(dir).unwrap().to_str().unwrap().to_string();
            if out.insert(f.clone(), seen(&t.config)).is_some() {
                return Err(format!("{f} is found twice"));
            }
        }
        Ok(out)
    }
}
fn seen(t: &TestConfig) -> Seen {
    let pats = |p: &litcheck::fs::PatternSet| {
        let mut v: Vec<String> = p.iter().map(|x| x.as_str().to_string()).collect();
        v.sort();
        v
    };
    Seen {
        conf: Conf {
            env: t.env.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
            subs: t.substitutions.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
            features: t.available_features.iter().map(|f| f.to_string()).collect(),
            patterns: pats(&t.patterns),
            exclude: pats(&t.exclude),
            format: String::new(),
        },
        format: format!("{} {:?}", t.format.name(), t.format).replace(['\n', ' '], ""),
    }
}
/// The model's view in the terms of `seen`
fn normal(mut s: Seen) -> Seen {
    s.conf.patterns.sort();
    s.conf.exclude.sort();
    let f = std::mem::take(&mut s.conf.format);
    thread_local!(static CACHE: std::cell::RefCell<BTreeMap<String, String>> = const { std::cell::RefCell::new(BTreeMap::new()) });
    s.format = CACHE.with(|c| {
        c.borrow_mut()
            .entry(f.clone())
            .or_insert_with(|| {
                let mut t = TestConfig::default();
                if !f.is_empty() {
                    t.format = crate::litx::format(&format!("format = {f}"));
                }
                seen(&t).format
            })
            .clone()
    });
    s
}

pub fn check(run: &Run) {
    let forest = Forest::new("l06");
    let all_inputs: Vec<Vec<&str>> = vec![
        vec![""], vec!["a"], vec!["a/b"], vec!["a/x.t"], vec!["s"], vec!["n/c"], vec!["a/b/x.t", "a"], vec!["a", "a/b"], vec!["s", "a/x.t"], vec!["n", ""],
        vec!["x.t", "a/b/x.u", "s/x.t"], vec!["a/b/y.t"], vec!["s/y.t", "a/b"], vec!["n/c/x.t", "n/x.t"], vec!["n/x.t", "x.t"], vec!["a/b", "s", "n/c", "a"],
    ];
    let make = |group: &str| -> PathBuf {
        let dir = forest.dir(group);
        if !dir.join("n/c/x.t").exists() {
            for d in DIRS {
                std::fs::create_dir_all(dir.join(d)).unwrap();
                for f in FILES {
                    std::fs::write(dir.join(d).join(f), "RUN: true\n").unwrap();
                }
            }
        }
        dir
    };
    // what every suite has to begin with
    let defaults = {
        let dir = make("d");
        std::fs::write(dir.join("lit.suite.toml"), "name = \"d\"\nworking_dir = \".\"\n").unwrap();
        let s = lit::TestSuite::parse(dir.join("lit.suite.toml"), &Config::default()).expect("suite");
        seen(&s.config).conf
    };
    for (what, ok) in [
        ("defaults: native and target features", ["native", &format!("host={}", Config::default().host()), &format!("target={}", Config::default().target())].iter().all(|f| defaults.features.contains(*f))),
        ("defaults: path separators", defaults.subs.get(PATHSEP).map(|s| s.as_str()) == Some(":") && defaults.subs.get(r"%\{fs-sep\}").map(|s| s.as_str()) == Some("/")),
        ("defaults: env", defaults.env.is_empty()),
    ] {
        run.count(1, 1, 1);
        if !ok {
            run.violation(what, format!("{defaults:?}"));
        }
    }

    let try_case = |c: &Case, dir: &Path, inputs: &[&str], cfg: &mut Config| {
        let want: BTreeMap<String, Seen> = c.model(inputs, &defaults).into_iter().map(|(k, v)| (k, normal(v))).collect();
        let got = guard(|| c.real(dir, inputs, cfg)).unwrap_or_else(|p| Err(format!("panics: {p}")));
        run.count(1, want.len() as u64, 1);
        if got.as_ref() == Ok(&want) {
            return;
        }
        let mut e = format!("inputs {inputs:?}\n");
        match &got {
            Err(x) => e += x,
            Ok(got) => {
                for (f, w) in &want {
                    match got.get(f) {
                        None => e += &format!("{f}: not selected\n"),
                        Some(g) if g != w => e += &format!("{f}:\n  should have {w:?}\n  has {g:?}\n"),
                        _ => (),
                    }
                }
                for f in got.keys().filter(|f| !want.contains_key(*f)) {
                    e += &format!("{f}: selected, should not be\n");
                }
            }
        }
        for (k, d) in DIRS.iter().enumerate() {
            if let Some(m) = menu(c.local[k], &tag(d)) {
                e += &format!("{}:\n{}", local_name(d), m.toml());
            }
        }
        e += &format!("lit.suite.toml:\n{}\nn/lit.suite.toml: {:?}\n", suite_conf(c.suite).toml(), c.nested.map(|k| suite_conf(k).toml()));
        run.violation(format!("local {:?} suite {} nested {:?} source {:?} inputs {inputs:?}", c.local, c.suite, c.nested, c.source), e);
    };

    // every assignment, searching everything
    let n = MENU.pow(6);
    let chunk = 343;
    par_for(run, n / chunk, |i| {
        let dir = make("a");
        let mut cfg = Config::default();
        for j in i * chunk..(i + 1) * chunk {
            let mut local = [0; 6];
            let mut k = j;
            for l in &mut local {
                *l = k % MENU;
                k /= MENU;
            }
            // the suites differ as the assignments do
            let c = Case { local, suite: j % 3, nested: (local[4] + local[5] > 0 || j % 2 == 0).then_some((j / 3) % 3), source: "" };
            c.write(&dir);
            try_case(&c, &dir, &[""], &mut cfg);
            if run.tier == Tier::Thorough {
                for inputs in &all_inputs[1..] {
                    try_case(&c, &dir, inputs, &mut cfg);
                }
            }
        }
    });
    run.bound(format!("all {n} assignments of {MENU} local configurations to 6 directories of two suites, the whole searched{}", if run.tier == Tier::Thorough { ", and each of 15 other lists of inputs" } else { "" }));

    // fewer contents, every list of inputs, every suite configuration
    let few = [[0, 1, 4], [0, 2, 6], [0, 3, 1]];
    let few = &few[..run.pick(2, 3)];
    let n = 729;
    par_for(run, n * few.len(), |i| {
        let dir = make("b");
        let mut cfg = Config::default();
        let menu = few[i / n];
        let mut k = i % n;
        let mut local = [0; 6];
        for l in &mut local {
            *l = menu[k % 3];
            k /= 3;
        }
        for (suite, nested, source) in [(0, None, ""), (1, Some(1), ""), (2, Some(0), ""), (1, None, "a"), (2, Some(2), "a"), (1, None, "n")] {
            let c = Case { local, suite, nested, source };
            c.write(&dir);
            for inputs in &all_inputs {
                if !source.is_empty() && inputs.iter().any(|i| i.is_empty()) {
                    // the whole suite is its source directory, the other suite is not in it
                    let c2: Vec<&str> = vec![source];
                    try_case(&c, &dir, &c2, &mut cfg);
                    continue;
                }
                try_case(&c, &dir, inputs, &mut cfg);
            }
        }
    });
    run.bound(format!("{} assignments of 3 local configurations to 6 directories x 6 pairs of suite configurations and source directories x {} lists of inputs", n * few.len(), all_inputs.len()));

    // targets
    let mut k = 0;
    for t in ["x86_64-unknown-linux-gnu", "aarch64-apple-darwin", "x86_64-apple-darwin", "i686-unknown-linux-gnu", "armv7-unknown-linux-gnueabihf", "wasm32-unknown-unknown", "riscv64gc-unknown-linux-gnu", "x86_64-pc-windows-msvc"] {
        let dir = make("t");
        let c = Case { local: [1, 0, 1, 0, 0, 1], suite: 1, nested: Some(0), source: "" };
        c.write(&dir);
        let mut cfg = Config::default();
        cfg.options.target = Some(t.parse().unwrap());
        let native = cfg.host() == cfg.target();
        for inputs in &all_inputs {
            k += 1;
            run.count(1, 1, 1);
            match c.real(&dir, inputs, &mut cfg) {
                Err(e) => run.violation(format!("target {t} inputs {inputs:?}"), e),
                Ok(m) => {
                    for (f, s) in m {
                        let targets: Vec<&String> = s.conf.features.iter().filter(|f| f.starts_with("target=")).collect();
                        if targets != [&format!("target={t}")] || s.conf.features.contains("native") != native {
                            run.violation(format!("target {t} inputs {inputs:?} test {f}"), format!("{:?}", s.conf.features));
                        }
                    }
                }
            }
        }
    }
    run.bound(format!("{k} searches with 8 targets"));
    // what each target adds, exactly
    let host = Config::default().host().to_string();
    for (t, extra) in [
        ("x86_64-unknown-linux-gnu", &["target-x86_64", "x86_64-linux"][..]),
        ("x86_64-unknown-linux-musl", &["target-x86_64", "x86_64-linux"]),
        ("x86_64-apple-darwin", &["target-x86_64", "x86_64-apple", "system-linker-mach-o"]),
        ("x86_64-pc-windows-msvc", &["target-x86_64"]),
        ("x86_64-unknown-freebsd", &["target-x86_64"]),
        ("i686-unknown-linux-gnu", &["target-x86"]),
        ("i386-unknown-linux-gnu", &["target-x86"]),
        ("aarch64-apple-darwin", &["target-aarch64", "system-linker-mach-o"]),
        ("aarch64-unknown-linux-gnu", &["target-aarch64"]),
        ("aarch64-apple-ios", &["target-aarch64"]),
        ("armv7-unknown-linux-gnueabihf", &["target-arm"]),
        ("arm-unknown-linux-gnueabi", &["target-arm"]),
        ("wasm32-unknown-unknown", &["target-wasm32"]),
        ("wasm64-unknown-unknown", &["target-wasm64"]),
        ("riscv64gc-unknown-linux-gnu", &["target-riscv64gc"]),
        ("s390x-unknown-linux-gnu", &["target-s390x"]),
        ("powerpc64le-unknown-linux-gnu", &["target-powerpc64le"]),
    ] {
        let dir = make("f");
        std::fs::write(dir.join("lit.suite.toml"), "name = \"f\"\nworking_dir = \".\"\n").unwrap();
        let mut cfg = Config::default();
        cfg.options.target = Some(t.parse().unwrap());
        run.count(1, 1, 1);
        let s = lit::TestSuite::parse(dir.join("lit.suite.toml"), &cfg).expect("suite");
        let got: BTreeSet<String> = seen(&s.config).conf.features.iter().cloned().collect();
        let mut want: BTreeSet<String> = extra.iter().map(|x| x.to_string()).collect();
        want.extend(["system-linux".to_string(), format!("host={host}"), format!("target={t}")]);
        if t == host {
            want.insert("native".into());
        }
        if got != want {
            run.violation(format!("features of target {t}"), format!("expected {want:?}\ngot      {got:?}"));
        }
    }
    run.bound("the exact features of 17 targets");
    run.outcome("configurations");
}
