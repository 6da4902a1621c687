//! Driving the real test formats in process: one private suite per worker thread.
use crate::fw::Scratch;
use lit::config::{FeatureSet, SubstitutionSet};
use lit::format::SelectedTestFormat;
use lit::{Config, Test, TestConfig, TestFormat, TestResult, TestSuite};
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub struct Bench {
    pub dir: Scratch,
    pub suite: Arc<TestSuite>,
}
thread_local! {
    static BENCH: RefCell<Option<std::rc::Rc<Bench>>> = const { RefCell::new(None) };
}

impl Bench {
    pub fn new() -> Self {
        let dir = Scratch::new("lit");
        std::fs::create_dir(dir.path().join("w")).unwrap();
        std::fs::write(dir.path().join("lit.suite.toml"), "name = \"s\"\npatterns = [\"*\"]\nworking_dir = \"w\"\n").unwrap();
        let suite = TestSuite::parse(dir.path().join("lit.suite.toml"), &Config::default()).expect("suite");
        Bench { dir, suite }
    }
    /// The bench of the current worker thread.
    pub fn mine() -> std::rc::Rc<Bench> {
        BENCH.with(|b| b.borrow_mut().get_or_insert_with(|| std::rc::Rc::new(Bench::new())).clone())
    }
    pub fn path(&self, p: &str) -> PathBuf {
        self.dir.path().join(p)
    }
    /// A file that the commands of a test append to, emptied.
    pub fn log(&self) -> PathBuf {
        let p = self.path("w/log");
        let _ = std::fs::remove_file(&p);
        p
    }
    /// Write the test file and execute it the way the runner does.
    pub fn run(&self, name: &str, content: &[u8], tc: TestConfig, cfg: &Config) -> TestResult {
        let p = self.path(name);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).unwrap();
        }
        std::fs::write(&p, content).unwrap();
        self.run_existing(name, tc, cfg, false)
    }
    pub fn run_existing(&self, name: &str, tc: TestConfig, cfg: &Config, xfail_not: bool) -> TestResult {
        let tc = Arc::new(tc);
        let mut t = Test::new(Path::new(name).to_path_buf(), self.suite.clone(), tc.clone());
        t.xfail_not = xfail_not;
        match tc.format.execute(&t, cfg) {
            Ok(r) => r,
            Err(e) => panic!("execute returned an error, which aborts the whole run: {e}"),
        }
    }
}

pub fn config(features: &[&str], env: &[(&str, String)], subs: &[(&str, &str)]) -> TestConfig {
    let mut tc = TestConfig::default();
    tc.available_features = FeatureSet::new(features.iter().map(|s| s.to_string()));
    for (k, v) in env {
        tc.env.insert(k.to_string().into(), v.clone().into());
    }
    tc.substitutions = SubstitutionSet::new(subs.iter().map(|(k, v)| (k.to_string(), v.to_string())));
    tc
}

/// `[format.*]` as it would be given in a configuration file
pub fn format(toml: &str) -> SelectedTestFormat {
    #[derive(serde::Deserialize)]
    struct F {
        format: SelectedTestFormat,
    }
    toml::from_str::<F>(toml).expect("format").format
}

/// Like `git status`: the paths below `dir`, for checking that nothing is left behind.
pub fn listing(dir: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}
