//! L05: which tests are discovered for which inputs.
//!
//! Directory trees are written to a scratch directory; the real suite registry loads every
//! bounded sequence of inputs; what it discovers is compared with a model that knows the
//! directories and files, where the suite configurations are and what they say.
use crate::fw::*;
use lit::{Config, DefaultTestSuiteRegistry, TestSuiteRegistry, TestSuiteRegistryExt};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

/// A suite configuration file, in directory `at` (relative to the root of the tree).
#[derive(Clone, Debug)]
pub struct SuiteAt {
    pub at: String,
    pub name: String,
    /// as written; "" is not given
    pub source_dir: String,
    pub patterns: Vec<String>,
    pub exclude: Vec<String>,
}
impl SuiteAt {
    pub fn new(at: &str, name: &str, patterns: &[&str]) -> Self {
        SuiteAt { at: at.into(), name: name.into(), source_dir: String::new(), patterns: patterns.iter().map(|s| s.to_string()).collect(), exclude: vec![] }
    }
    /// relative to the root of the tree
    pub fn source(&self) -> String {
        join(&self.at, &self.source_dir)
    }
    fn toml(&self) -> String {
        let mut s = format!("name = \"{}\"\npatterns = {:?}\nworking_dir = \".\"\n", self.name, self.patterns);
        if !self.source_dir.is_empty() {
            s += &format!("source_dir = \"{}\"\n", self.source_dir);
        }
        if !self.exclude.is_empty() {
            s += &format!("exclude = {:?}\n", self.exclude);
        }
        s
    }
}
fn join(a: &str, b: &str) -> String {
    if a.is_empty() {
        b.into()
    } else if b.is_empty() {
        a.into()
    } else {
        format!("{a}/{b}")
    }
}
fn under(p: &str, dir: &str) -> bool {
    dir.is_empty() || p == dir || p.strip_prefix(dir).is_some_and(|r| r.starts_with('/'))
}
/// `p`, which is under `dir`, relative to it
fn rel<'a>(p: &'a str, dir: &str) -> &'a str {
    p[dir.len()..].trim_start_matches('/')
}
fn parent(p: &str) -> &str {
    p.rsplit_once('/').map_or("", |x| x.0)
}

/// Does a glob match? `*` and `?` match any character, `**` whole components.
pub fn glob(p: &str, s: &str) -> bool {
    if let Some(p) = p.strip_prefix("**/") {
        return glob(p, s) || s.char_indices().any(|(i, c)| c == '/' && glob(p, &s[i + 1..]));
    }
    let Some(c) = p.chars().next() else { return s.is_empty() };
    let p2 = &p[c.len_utf8()..];
    let mut r = s.chars();
    match c {
        '*' => (0..=s.len()).any(|i| s.is_char_boundary(i) && glob(p2, &s[i..])),
        '?' => r.next().is_some() && glob(p2, r.as_str()),
        '[' => {
            let (set, p2) = p2.split_once(']').unwrap();
            let (neg, set) = set.strip_prefix('!').map_or((false, set), |s| (true, s));
            let set: Vec<char> = set.chars().collect();
            let inside = |d: char| match set[..] {
                [a, '-', b] => (a..=b).contains(&d),
                _ => set.contains(&d),
            };
            r.next().is_some_and(|d| inside(d) != neg) && glob(p2, r.as_str())
        }
        _ => r.next() == Some(c) && glob(p2, r.as_str()),
    }
}

/// A tree on disk, private to the worker thread.
pub struct Tree {
    pub dir: PathBuf,
    files: Vec<String>,
    dirs: Vec<String>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Found {
    /// the directory of the configuration of the suite
    pub suite: String,
    pub name: String,
    /// the file, relative to the root of the tree
    pub file: String,
}

impl Tree {
    pub fn new(dir: PathBuf, files: &[&str], dirs: &[&str]) -> Self {
        for d in dirs {
            std::fs::create_dir_all(dir.join(d)).unwrap();
        }
        for f in files {
            std::fs::write(dir.join(f), "RUN: true\n").unwrap();
        }
        Tree { dir, files: files.iter().map(|s| s.to_string()).collect(), dirs: dirs.iter().map(|s| s.to_string()).collect() }
    }
    pub fn configure(&self, suites: &[SuiteAt]) {
        for d in &self.dirs {
            let _ = std::fs::remove_file(self.dir.join(d).join("lit.suite.toml"));
        }
        for s in suites {
            std::fs::write(self.dir.join(&s.at).join("lit.suite.toml"), s.toml()).unwrap();
        }
    }
    pub fn is_dir(&self, p: &str) -> bool {
        self.dirs.iter().any(|d| d == p)
    }

    /// The suite which an input belongs to.
    fn suite_of<'a>(&self, suites: &'a [SuiteAt], p: &str) -> Option<&'a SuiteAt> {
        let dir = if self.is_dir(p) { p } else { parent(p) };
        let mut a = dir;
        loop {
            if let Some(s) = suites.iter().find(|s| s.at == a)
                && (a == p || under(dir, &s.source()))
            {
                return Some(s);
            }
            if a.is_empty() {
                return None;
            }
            a = parent(a);
        }
    }
    fn is_test(&self, s: &SuiteAt, f: &str) -> bool {
        let name = f.rsplit('/').next().unwrap();
        let r = rel(f, &s.source());
        !name.starts_with('.') && s.patterns.iter().any(|p| glob(p, r)) && !s.exclude.iter().any(|p| glob(p, r))
    }
    fn select(&self, suites: &[SuiteAt], input: &str, out: &mut BTreeSet<Found>) {
        let Some(s) = self.suite_of(suites, input) else { return };
        let src = s.source();
        // a suite is selected as a whole by the directory of its configuration
        let start = if under(input, &src) { input } else { &src };
        let mut found = |f: &str| {
            if self.is_test(s, f) {
                out.insert(Found { suite: s.at.clone(), name: format!("{}::{}", s.name, rel(f, &src)), file: f.into() });
            }
        };
        if !self.is_dir(start) {
            found(start);
            return;
        }
        // not what belongs to suites nested in it
        let nested: Vec<&SuiteAt> = suites.iter().filter(|n| n.at != start && n.at != src && under(&n.at, start)).collect();
        for f in &self.files {
            if under(f, start) && !nested.iter().any(|n| under(f, &n.at)) {
                found(f);
            }
        }
        // which are selected too
        for n in nested {
            self.select(suites, &n.at, out);
        }
    }
    pub fn model(&self, suites: &[SuiteAt], inputs: &[&str]) -> Vec<Found> {
        let mut out = BTreeSet::new();
        for i in inputs {
            self.select(suites, i, &mut out);
        }
        out.into_iter().collect()
    }
    fn rel_to_tree(&self, p: &Path) -> String {
        p.strip_prefix(&self.dir).map_or_else(|_| p.display().to_string(), |r| r.to_str().unwrap().to_string())
    }
    /// What the real registry discovers; `inputs` as given on the command line.
    pub fn real(&self, inputs: Vec<String>) -> Result<Vec<Found>, String> {
        let cfg = Config::new(inputs);
        let mut reg = DefaultTestSuiteRegistry::default();
        reg.load(&cfg).map_err(|e| format!("error: {e:?}"))?;
        let listed: Vec<Found> = reg
            .tests()
            .map(|t| Found { suite: self.rel_to_tree(t.suite.path.as_ref().unwrap().parent().unwrap()), name: t.name().into(), file: self.rel_to_tree(t.source_path()) })
            .collect();
        let (n, by_suite): (_, usize) = (reg.num_tests(), reg.suites().map(|s| reg.size_of_suite(&s.id())).sum());
        if n != listed.len() || by_suite != n {
            return Err(format!("{} tests are listed, but num_tests() is {n} and the sizes of the suites add up to {by_suite}", listed.len()));
        }
        let taken: Vec<String> = reg.into_iter().map(|t| t.name().to_string()).collect();
        if taken != listed.iter().map(|f| f.name.clone()).collect::<Vec<_>>() {
            return Err(format!("the tests handed out are not those listed: {taken:?}"));
        }
        // whether a configuration file which matches the patterns is a test is not determined
        let mut listed = listed;
        listed.retain(|f| !f.file.ends_with("lit.suite.toml"));
        listed.sort();
        Ok(listed)
    }
}
/// A scratch directory as the working directory of the process, with a tree per worker thread.
pub struct Forest {
    pub base: Scratch,
    old: PathBuf,
}
impl Forest {
    pub fn new(tag: &str) -> Self {
        let base = Scratch::new(tag);
        let old = std::env::current_dir().unwrap();
        std::env::set_current_dir(base.path()).unwrap();
        Forest { base, old }
    }
    /// A directory for the current thread, made the first time.
    pub fn dir(&self, group: &str) -> PathBuf {
        let id = format!("{:?}", std::thread::current().id());
        let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
        let p = std::fs::canonicalize(self.base.path()).unwrap().join(format!("{group}{id}"));
        std::fs::create_dir_all(&p).unwrap();
        p
    }
}
impl Drop for Forest {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.old);
    }
}

const DIRS: [&str; 6] = ["", "a", "a/b", "n", "a/d.t", "a/b/c"];
const FILES: [&str; 15] =
    ["x.t", "y.t", "z.u", ".h.t", "t", "a/x.t", "a/y.t", "a/z.u", "a/.h.t", "a/d.t/x.t", "a/b/x.t", "a/b/z.u", "a/b/c/x.t", "n/x.t", "n/z.u"];
const INPUTS: [&str; 11] = ["", "a", "a/b", "n", "x.t", "a/x.t", "a/b/x.t", "n/x.t", "a/z.u", "a/.h.t", "a/d.t"];

fn compare(run: &Run, tree: &Tree, suites: &[SuiteAt], inputs: &[&str], spelled: Vec<String>, what: &str) {
    let want = tree.model(suites, inputs);
    let got = guard(|| tree.real(spelled.clone())).unwrap_or_else(|p| Err(format!("panics: {p}")));
    run.count(1, 1 + inputs.len() as u64, 1);
    if got.as_ref() == Ok(&want) {
        return;
    }
    let show = |v: &[Found]| v.iter().map(|f| format!("  {} (suite in {:?}, file {})\n", f.name, f.suite, f.file)).collect::<String>();
    let tomls = suites.iter().map(|s| format!("{}lit.suite.toml:\n{}", join(&s.at, "").to_string() + if s.at.is_empty() { "" } else { "/" }, s.toml())).collect::<String>();
    let got = match got {
        Ok(v) => show(&v),
        Err(e) => format!("  {e}\n"),
    };
    let short: Vec<String> = suites
        .iter()
        .map(|s| format!("{}{}{}", if s.at.is_empty() { "." } else { &s.at }, if s.source_dir.is_empty() { "".into() } else { format!("->{}", s.source_dir) }, if what.contains("pattern") { format!(" {:?} -{:?}", s.patterns, s.exclude) } else { String::new() }))
        .collect();
    run.violation(
        format!("{what}: suites [{}], inputs {inputs:?}", short.join(", ")),
        format!("should select\n{}selects\n{got}\nfiles {FILES:?}\ninputs as given {spelled:?}\n{tomls}", show(&want)),
    );
}

pub fn check(run: &Run) {
    let forest = Forest::new("l05");
    let abs = |t: &Tree, i: &str| t.dir.join(i).to_str().unwrap().to_string();

    // A: where the suites are, and which inputs are given in which order
    let at = ["", "a", "a/b", "n"];
    let mut shapes: Vec<Vec<SuiteAt>> = vec![];
    for mask in 0..16 {
        for src in ["", "a", "a/b", "./n/../a"] {
            for same_name in [false, true] {
                let mut v: Vec<SuiteAt> = vec![];
                for (k, d) in at.iter().enumerate() {
                    if mask >> k & 1 == 1 {
                        v.push(SuiteAt::new(d, &if same_name { "s".into() } else { format!("s{k}") }, &["*.t"]));
                    }
                }
                let spelled = src;
                let src = src.trim_start_matches("./n/../");
                if !src.is_empty() {
                    // the source directory of the outermost suite, which must not be another suite's
                    let chain = [src, parent(src)];
                    if mask & 1 == 0 || v.iter().any(|s| !s.at.is_empty() && chain.contains(&s.at.as_str())) || same_name || (spelled != src && mask != 1) {
                        continue;
                    }
                    v[0].source_dir = src.into();
                } else if same_name && mask != 15 && mask != 5 {
                    continue;
                }
                shapes.push(v);
            }
        }
    }
    let seqs = sequences(&INPUTS, 1, run.pick(3, 4));
    let chunk = 64;
    let chunks = seqs.len().div_ceil(chunk);
    par_for(run, shapes.len() * chunks, |i| {
        let suites = &shapes[i / chunks];
        let tree = Tree::new(forest.dir("a"), &FILES, &DIRS);
        tree.configure(suites);
        for inputs in seqs.iter().skip(i % chunks * chunk).take(chunk) {
            compare(run, &tree, suites, inputs, inputs.iter().map(|i| abs(&tree, i)).collect(), "discovery");
        }
    });
    run.outcome("shapes");
    run.bound(format!("{} placements of suites over 4 directories (with 4 source directories of the outermost) x {} sequences of up to {} inputs", shapes.len(), seqs.len(), run.pick(3, 4)));

    // B: patterns and exclusions
    let pats: Vec<Vec<&str>> = vec![
        vec!["*.t"], vec!["x.t"], vec!["a/*.t"], vec!["*/x.t"], vec!["*.t", "*.u"], vec!["[xy].t"], vec!["?.t"], vec!["**/x.t"], vec!["*"], vec!["[!x].t"],
        vec!["a/b/*"], vec!["t"], vec!["[w-y].t"], vec!["a/?.t"], vec!["*.T"],
    ];
    let excl: Vec<Vec<&str>> = vec![vec![], vec!["x.t"], vec!["*x.t"], vec!["a/*"], vec!["*.u"], vec!["y.t", "a/b/*"], vec!["*"], vec!["b/*"], vec!["**/b/*"]];
    let nested: [Option<(&str, &str)>; 4] = [None, Some(("n", "*.u")), Some(("a/b", "*.t")), Some(("a", "b/*"))];
    let pairs = sequences(&["", "a", "a/b", "n", "x.t", "a/x.t", "a/b/z.u", "n/z.u"], 1, run.pick(1, 2));
    let forms = pats.len() * excl.len() * nested.len();
    par_for(run, forms, |i| {
        let (p, e, n) = (&pats[i % pats.len()], &excl[i / pats.len() % excl.len()], nested[i / pats.len() / excl.len()]);
        for src in ["", "a"] {
            let mut root = SuiteAt::new("", "r", p);
            root.exclude = e.iter().map(|s| s.to_string()).collect();
            root.source_dir = src.into();
            let mut suites = vec![root];
            if let Some((at, p)) = n {
                if src == "a" && at == "a" {
                    continue;
                }
                suites.push(SuiteAt::new(at, "n", &[p]));
            }
            let tree = Tree::new(forest.dir("b"), &FILES, &DIRS);
            tree.configure(&suites);
            for inputs in &pairs {
                compare(run, &tree, &suites, inputs, inputs.iter().map(|i| abs(&tree, i)).collect(), "patterns");
            }
        }
    });
    run.bound(format!("{} pattern sets x {} exclusion sets x {} nested suites x 2 source directories x {} inputs", pats.len(), excl.len(), nested.len(), pairs.len()));

    // C: the same input spelled differently
    par_for(run, shapes.len(), |i| {
        let suites = &shapes[i];
        let tree = Tree::new(forest.dir("c"), &FILES, &DIRS);
        tree.configure(suites);
        let short = tree.dir.strip_prefix(forest.base.path().canonicalize().unwrap()).unwrap().to_str().unwrap().to_string();
        let link = tree.dir.parent().unwrap().join(format!("link-{short}"));
        let _ = std::fs::remove_file(&link);
        std::os::unix::fs::symlink(&tree.dir, &link).unwrap();
        for a in INPUTS {
            let rel = join(&short, a);
            let mut forms = vec![rel.clone(), format!("./{rel}"), format!("{short}/a/../{a}"), format!("{short}//./{a}"), format!("link-{short}/{a}"), format!("{short}/a/b/../../{a}")];
            if tree.is_dir(a) {
                forms.push(format!("{rel}/"));
                forms.push(format!("{rel}/."));
            }
            for f in &forms {
                compare(run, &tree, suites, &[a], vec![f.clone()], "spelling");
                // the same path twice
                compare(run, &tree, suites, &[a, a], vec![f.clone(), abs(&tree, a)], "spelling");
                compare(run, &tree, suites, &[a, "a/x.t"], vec![f.clone(), abs(&tree, "a/x.t")], "spelling");
            }
        }
    });
    run.bound("every input as a relative path, with . and .., a trailing slash and through a symbolic link, alone and with another");

    // D: selection by name
    let names = ["s::x.t", "s::a/x.t", "s::a/b/x.t", "t::x.t", "t::y.t", "xs::a/y.t"];
    type Test = fn(&str) -> bool;
    let filters: [(&str, Test); 12] = [
        ("x", |n| n.contains('x')),
        ("^x", |n| n.starts_with('x')),
        ("^s::", |n| n.starts_with("s::")),
        ("s::", |n| n.contains("s::")),
        ("x\\.t$", |n| n.ends_with("x.t")),
        ("^t::x\\.t$", |n| n == "t::x.t"),
        ("/", |n| n.contains('/')),
        ("", |_| true),
        ("^$", |n| n.is_empty()),
        ("S::", |n| n.contains("S::")),
        ("(?i)S::X", |n| n.to_lowercase().contains("s::x")),
        ("x|y", |n| n.contains('x') || n.contains('y')),
    ];
    for f in 0..=filters.len() {
        for o in 0..=filters.len() {
            let mut cfg = Config::default();
            cfg.options.filter = filters.get(f).map(|x| regex::Regex::new(x.0).unwrap());
            cfg.options.filter_out = filters.get(o).map(|x| regex::Regex::new(x.0).unwrap());
            for n in names {
                let want = filters.get(f).is_none_or(|x| x.1(n)) && !filters.get(o).is_some_and(|x| x.1(n));
                run.count(1, 1, 1);
                if cfg.is_selected(n) != want {
                    run.violation(
                        format!("filter {:?} filter-out {:?} on {n}", filters.get(f).map(|x| x.0), filters.get(o).map(|x| x.0)),
                        format!("should be {}", if want { "selected" } else { "excluded" }),
                    );
                }
            }
        }
    }
    run.bound("12 filters x 12 filters-out (each also absent) x 6 names");

    // F: what is neither a file nor a directory, or leads to one
    // (place, what it leads to or "fifo" or "socket", the tests there)
    let special: [(&str, &str, &[&str]); 16] = [
        ("l.t", "a/x.t", &["l.t"]),
        ("a/l.t", "x.t", &["a/l.t"]),
        ("a/b/l.t", "../../n/z.u", &["a/b/l.t"]),
        ("n/.l.t", "x.t", &[]),
        ("ld", "n", &["ld/x.t"]),
        ("a/ld", "../n", &["a/ld/x.t"]),
        ("n/d.t", "../a/b", &["n/d.t/x.t", "n/d.t/c/x.t"]),
        ("nowhere.t", "nope", &[]),
        ("a/.#x.t", "user@host.1234", &[]),
        ("a/b/nowhere", "../nope", &[]),
        ("a/self.t", "self.t", &[]),
        ("a/here", ".", &[]),
        ("a/b/up", "..", &[]),
        ("n/pair.t", "riap.t", &[]),
        ("fifo.t", "fifo", &[]),
        ("a/socket.t", "socket", &[]),
    ];
    let sets: Vec<Vec<usize>> = sequences(&(0..special.len()).collect::<Vec<_>>(), 0, run.pick(2, 3)).into_iter().filter(|s| s.windows(2).all(|w| w[0] < w[1])).collect();
    par_for(run, sets.len(), |i| {
        let mut tree = Tree::new(forest.dir("f"), &FILES, &DIRS);
        let made: Vec<_> = sets[i].iter().map(|k| special[*k]).collect();
        for (p, to, tests) in &made {
            let p = tree.dir.join(p);
            match *to {
                "fifo" => {
                    let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
                    assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0);
                }
                "socket" => drop(std::os::unix::net::UnixListener::bind(&p).unwrap()),
                to => std::os::unix::fs::symlink(to, &p).unwrap(),
            }
            if p.ends_with("pair.t") {
                std::os::unix::fs::symlink("pair.t", p.with_file_name("riap.t")).unwrap();
            }
            tree.files.extend(tests.iter().map(|t| t.to_string()));
        }
        for suites in [vec![SuiteAt::new("", "s", &["*.t"])], vec![SuiteAt::new("a", "s", &["*.t"])], vec![SuiteAt::new("", "s", &["*"])]] {
            // a link to a directory of another suite is not determined
            let suites: Vec<SuiteAt> = suites;
            if suites[0].patterns[0] == "*" && made.iter().any(|x| x.2.is_empty() || x.2[0] != x.0) && !made.iter().all(|x| x.2.is_empty()) {
                continue;
            }
            tree.configure(&suites);
            for inputs in [&[""][..], &["a"], &["n"], &["a", "n"], &["n", ""], &["x.t"], &["a/x.t", "a/b"]] {
                // a link upwards out of what is searched is not a loop
                if inputs.contains(&"a/b") && made.iter().any(|m| m.0 == "a/b/up") || inputs == ["n"] && made.iter().any(|m| m.0 == "n/d.t") && made.iter().any(|m| m.0 == "a/b/up") {
                    continue;
                }
                // a link that is followed shows what is linked from there, too
                let through: Vec<_> = made.iter().filter(|m| m.2.len() > 1 || m.2.iter().any(|t| *t != m.0)).collect();
                if made.len() > 1 && !through.is_empty() {
                    continue;
                }
                compare(run, &tree, &suites, inputs, inputs.iter().map(|i| abs(&tree, i)).collect(), &format!("special files {:?}", made.iter().map(|m| (m.0, m.1)).collect::<Vec<_>>()));
            }
        }
        for (p, _, _) in &made {
            let _ = std::fs::remove_file(tree.dir.join(p));
            if *p == "n/pair.t" {
                let _ = std::fs::remove_file(tree.dir.join("n/riap.t"));
            }
        }
    });
    run.bound(format!("{} sets of up to {} of {} links to files, directories, nowhere, themselves and upwards, pipes and sockets", sets.len(), run.pick(2, 3), special.len()));

    // E: no patterns at all: "By default all text files found [...] are considered valid tests, unless prefixed with `.`"
    let tree = Tree::new(forest.dir("e"), &FILES, &DIRS);
    let s = SuiteAt::new("", "r", &["*"]);
    tree.configure(std::slice::from_ref(&s));
    std::fs::write(tree.dir.join("lit.suite.toml"), "name = \"r\"\nworking_dir = \".\"\n").unwrap();
    let want: BTreeMap<String, ()> = tree.model(&[s], &[""]).into_iter().map(|f| (f.file, ())).collect();
    let got = tree.real(vec![abs(&tree, "")]);
    run.count(1, 1, 1);
    match got {
        Ok(v) => {
            let v: BTreeMap<String, ()> = v.into_iter().map(|f| (f.file, ())).collect();
            if v != want {
                run.violation("no patterns given", format!("should select {:?}, selects {:?}", want.keys(), v.keys()));
            }
        }
        Err(e) => run.violation("no patterns given", e),
    }
    // a path which does not exist, or lies outside the working directory, is an error
    for bad in [abs(&tree, "nope.t"), "nope".to_string(), "/".to_string()] {
        run.count(1, 1, 1);
        if let Ok(v) = tree.real(vec![bad.clone()]) {
            run.violation(format!("input {}", if bad == "/" { "/" } else { "nope" }), format!("is accepted: {v:?}"));
        }
    }
    run.assume("not judged: hidden directories, symbolic links within a suite, suites whose source directory contains or lies within that of another suite which is not nested in it");
}
