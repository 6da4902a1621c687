//! C01: the path prefix tree agrees with a plain map of paths.
//!
//! Every insertion history up to a bounded depth over a closed universe of overlapping paths is
//! replayed on the real tree; after the last insertion every query is compared with a
//! `BTreeMap<path, value>` model (all prefixes are themselves histories, so every intermediate
//! state is checked too).
use crate::fw::*;
use litcheck::fs::PathPrefixTree;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

struct Universe {
    name: &'static str,
    /// spellings used for insertion (second: is a directory on disk / may be an ancestor)
    paths: Vec<String>,
    /// extra paths only queried
    queries: Vec<String>,
    depth: usize,
}

/// `is_dir(p)`: can `p` be an ancestor? On a virtual path: only if the model has seen a
/// descendant; a path whose type is unknown and has no descendants is a leaf, and a leaf is
/// never anyone's ancestor - trivially so, since an ancestor query for a descendant of a leaf
/// asks about a path "below a file".
fn model_nearest<'m>(m: &'m BTreeMap<String, u32>, q: &str, real_dirs: &[String]) -> Option<(&'m String, u32)> {
    let mut cur = Path::new(q);
    while let Some(p) = cur.parent() {
        let ps = p.to_str().unwrap();
        if let Some((k, v)) = m.get_key_value(ps) {
            // the entry must be a directory: real directory, or a virtual one with descendants
            let has_desc = m.keys().any(|o| o != k && Path::new(o).starts_with(p));
            if has_desc || real_dirs.iter().any(|d| d == ps) {
                return Some((k, *v));
            }
        }
        cur = p;
    }
    None
}

fn lex(paths: &mut [String]) {
    paths.sort_by(|a, b| Path::new(a).cmp(Path::new(b)));
}

pub fn check(run: &Run) {
    // real on-disk universe, in a scratch dir
    let scratch = Scratch::new("c01");
    let base = scratch.path().to_str().unwrap().to_string();
    for d in ["a", "a/b", "a/b/c", "ab", "a/d"] {
        std::fs::create_dir_all(scratch.path().join(d)).unwrap();
    }
    for f in ["a/f", "a/b/f", "ab/f", "a/b/c/g"] {
        std::fs::write(scratch.path().join(f), "").unwrap();
    }
    let real_dirs: Vec<String> =
        ["", "/a", "/a/b", "/a/b/c", "/ab", "/a/d"].iter().map(|d| format!("{base}{d}")).collect();

    let v = |xs: &[&str]| xs.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let r = |xs: &[&str]| xs.iter().map(|s| format!("{base}/{s}")).collect::<Vec<_>>();
    let us = vec![
        Universe {
            name: "virtual",
            paths: v(&[
                "/zz/a", "/zz/a/b", "/zz/a/b/c", "/zz/a/b/d", "/zz/ab", "/zz/a/c/e", "/zz/b",
                "/zz/a/b/c/d", "/zz",
            ]),
            queries: v(&["/zz/a/b/c/d/e", "/zz/x", "/zz/a/x/y", "/yy", "/zz/a/bb", "/zz/abc", "/zz/a/c"]),
            depth: run.pick(5, 6),
        },
        Universe {
            name: "virtual-spelled",
            paths: v(&["/zz/a/./b", "/zz/a/x/../b", "/zz/./a", "/zz/a/b/c", "/zz/a/q/../b/c", "/zz/b/../a"]),
            queries: v(&["/zz/a/b", "/zz/a", "/zz/a/x", "/zz/b"]),
            depth: run.pick(5, 6),
        },
        Universe {
            name: "on-disk",
            paths: r(&["a", "a/b", "a/b/c", "ab", "a/d", "a/f", "a/b/f", "ab/f", "a/b/c/g"]),
            queries: r(&["a/b/c/missing", "a/d/missing", "missing", "", "a/b/../d"]),
            depth: run.pick(4, 5),
        },
    ];
    for u in &us {
        run.bound(format!(
            "universe {}: all insertion sequences of length 0..={} over {} paths, {} queried paths after each",
            u.name, u.depth, u.paths.len(), u.paths.len() + u.queries.len()
        ));
        let hists = sequences(&(0..u.paths.len()).collect::<Vec<_>>(), 0, u.depth);
        par_for(run, hists.len(), |i| one(run, u, &hists[i], &real_dirs));
        run.sample(format!("universe {}: last history {:?}", u.name,
            hists.last().unwrap().iter().map(|i| &u.paths[*i]).collect::<Vec<_>>()));
    }
    run.assume("on-disk universe lives in a scratch directory and does not change during a run");
}

fn one(run: &Run, u: &Universe, h: &[usize], real_dirs: &[String]) {
    let show = || format!("universe={} inserts={:?}", u.name, h.iter().map(|i| &u.paths[*i]).collect::<Vec<_>>());
    let mut m: BTreeMap<String, u32> = BTreeMap::new();
    let mut t = PathPrefixTree::<u32>::new();
    for (step, &i) in h.iter().enumerate() {
        let val = 100 + step as u32;
        let p = &u.paths[i];
        match guard(|| t.try_insert(p, val)) {
            Ok(Ok(())) => {
                m.insert(norm(p), val);
            }
            Ok(Err(e)) => {
                run.violation(format!("insert-err {}", show()), format!("insert {p} failed: {e}\n{}", show()));
                return;
            }
            Err(e) => {
                run.violation(format!("insert-panic {}", show()), format!("insert {p} panicked: {e}\n{}", show()));
                return;
            }
        }
    }
    run.count(1, 1, 1);
    let bad = |what: String| run.violation(format!("{what} {}", show()), format!("{what}\n{}\nmodel: {m:?}", show()));
    let mut n = 0;
    for q in u.paths.iter().chain(u.queries.iter()) {
        let nq = norm(q);
        n += 3;
        let got = guard(|| (t.get(q).copied(), t.contains(q), t.nearest_ancestor(q).map(|e| (e.path.clone(), *e.data))));
        match got {
            Err(e) => bad(format!("query {q} panicked: {e}")),
            Ok((g, c, na)) => {
                if g != m.get(&nq).copied() {
                    bad(format!("get({q}) = {g:?}, expected {:?}", m.get(&nq)));
                }
                if c != m.contains_key(&nq) {
                    bad(format!("contains({q}) = {c}"));
                }
                let want = model_nearest(&m, &nq, real_dirs).map(|(k, v)| (PathBuf::from(k), v));
                if na != want {
                    bad(format!("nearest_ancestor({q}) = {na:?}, expected {want:?}"));
                }
            }
        }
        // subtree iteration (the entry itself, if inserted, comes first)
        n += 1;
        let got = guard(|| {
            t.children(&nq, None).map(|e| (e.path, *e.data)).collect::<Vec<_>>()
        });
        let mut keys: Vec<String> = m.keys().filter(|k| Path::new(k).starts_with(&nq)).cloned().collect();
        lex(&mut keys);
        let want: Vec<(PathBuf, u32)> = keys.iter().map(|k| (PathBuf::from(k), m[k])).collect();
        match got {
            Err(e) => bad(format!("children({q}) panicked: {e}")),
            Ok(g) if g != want => bad(format!("children({q}) = {g:?}, expected {want:?}")),
            _ => {}
        }
    }
    // files(): every entry that is not known to be a directory
    let got = guard(|| t.files().map(|e| (e.path, *e.data)).collect::<Vec<_>>());
    let mut keys: Vec<String> = m
        .keys()
        .filter(|k| !real_dirs.contains(k) && !m.keys().any(|o| o != *k && Path::new(o).starts_with(k)))
        .cloned()
        .collect();
    lex(&mut keys);
    let want: Vec<(PathBuf, u32)> = keys.iter().map(|k| (PathBuf::from(k), m[k])).collect();
    match got {
        Err(e) => bad(format!("files() panicked: {e}")),
        Ok(g) if g != want => bad(format!("files() = {g:?}, expected {want:?}")),
        _ => {}
    }
    let got = guard(|| t.iter().map(|e| (e.path, *e.data)).collect::<Vec<_>>());
    let mut keys: Vec<String> = m.keys().cloned().collect();
    lex(&mut keys);
    let want: Vec<(PathBuf, u32)> = keys.iter().map(|k| (PathBuf::from(k), m[k])).collect();
    match got {
        Err(e) => bad(format!("iter() panicked: {e}")),
        Ok(g) if g != want => bad(format!("iter() = {g:?}, expected {want:?}")),
        _ => {}
    }
    n += 1;
    run.count(0, n, 0);
}
