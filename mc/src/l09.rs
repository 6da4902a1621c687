//! L09: the ordered test list against a plain vector.
//!
//! Every bounded history of list operations, every bounded history of cursor operations, every
//! way of consuming an iterator or drain from its two ends, and every tree of splits of a drain
//! is executed on the real `TestList`; the state after it is compared with a `Vec`.
use crate::fw::*;
use lit::test::{TestConfig, TestList};
use lit::{Config, Test, TestSuite};
use rayon::iter::plumbing::{Producer, UnindexedProducer};
use rayon::prelude::*;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

struct Ctx {
    suite: Arc<TestSuite>,
    cfg: Arc<TestConfig>,
    /// names, made once
    names: Vec<String>,
}

/// One history: makes tests in order and knows their numbers.
struct Maker<'a> {
    ctx: &'a Ctx,
    n: usize,
}
impl Maker<'_> {
    fn one(&mut self) -> (usize, Arc<Test>) {
        let n = self.n;
        self.n += 1;
        (n, Arc::new(Test::new(self.ctx.names[n].as_str().into(), self.ctx.suite.clone(), self.ctx.cfg.clone())))
    }
    fn list(&mut self, k: usize) -> (Vec<usize>, TestList) {
        let mut l = TestList::default();
        let mut v = vec![];
        for _ in 0..k {
            let (n, t) = self.one();
            v.push(n);
            l.push_back(t);
        }
        (v, l)
    }
}
fn id(t: &Test) -> usize {
    t.path.to_str().unwrap()[1..].parse().unwrap()
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, a sequence has {want:?}")) }
}

/// The defects of the list recorded in known-findings.txt, each of which can be part of the oracle:
/// what fails against a plain sequence is a known finding if it is exactly what a set of these
/// predicts, and a violation otherwise.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Known {
    /// `back_mut` gives the cursor the position of the first element
    back: bool,
    /// splicing counts as one element
    splice: bool,
    /// `next_back` of an iterator starts at the first element
    rev: bool,
    /// `split_at(i)` leaves i + 1 elements on the left
    split: bool,
}
const EXACT: Known = Known { back: false, splice: false, rev: false, split: false };
const KEYS: [&str; 4] = ["back_mut: position", "splice_after, splice_before: position", "iter().rev(): start", "Drain::split_at: left part"];
impl Known {
    fn subsets() -> Vec<Known> {
        let mut v: Vec<Known> = (0..16u32).map(|m| Known { back: m & 1 > 0, splice: m & 2 > 0, rev: m & 4 > 0, split: m & 8 > 0 }).collect();
        v.sort_by_key(|k| k.keys().count());
        v
    }
    fn keys(self) -> impl Iterator<Item = &'static str> {
        [self.back, self.splice, self.rev, self.split].into_iter().zip(KEYS).filter(|x| x.0).map(|x| x.1)
    }
}
/// The oracle predicted that the operation panics, and it did.
const PREDICTED: &str = "\0predicted panic";
fn predicted<R>(what: &str, f: impl FnOnce() -> R) -> Result<(), String> {
    match guard(f) {
        Ok(_) => Err(format!("{what}: no panic, although a known defect implies one")),
        Err(_) => Err(PREDICTED.into()),
    }
}

/// Everything observable about a list without consuming it; `len` is the length it should report.
fn same(l: &TestList, want: &[usize], len: usize, k: Known, deep: bool) -> Result<(), String> {
    let n = want.len();
    eq("len", l.len(), len)?;
    eq("is_empty", l.is_empty(), want.is_empty())?;
    let m = n.min(len);
    eq("iter", l.iter().take(64).map(|t| id(&t)).collect::<Vec<_>>(), want[..m].to_vec())?;
    let mut back: Vec<usize> = want.iter().rev().copied().collect();
    back.truncate(m);
    if k.rev {
        back = want[..m.min(1)].to_vec();
    }
    eq("iter().rev()", l.iter().rev().take(64).map(|t| id(&t)).collect::<Vec<_>>(), back)?;
    eq("front", l.front().get().map(id), want.first().copied())?;
    eq("back", l.back().get().map(id), want.last().copied())?;
    if deep {
        // every way to take its elements from the two ends, one more than there are
        for mask in 0..1u32 << (n + 1) {
            let mut it = l.iter();
            let mut left = len;
            // the cursors; n is past the ends
            let (mut a, mut b) = (0, n.saturating_sub(1));
            for s in 0..=n {
                eq("ExactSizeIterator::len", it.len(), left)?;
                let front = mask >> s & 1 == 0;
                let c = if front || k.rev { &mut a } else { &mut b };
                let exp = (left > 0).then(|| want.get(*c).copied()).flatten();
                if left > 0 {
                    *c = match front {
                        true => if *c == n { 0 } else { *c + 1 },
                        false => if *c == n { n.saturating_sub(1) } else { c.checked_sub(1).unwrap_or(n) },
                    };
                    left -= 1;
                }
                let got = if front { it.next() } else { it.next_back() };
                eq(
                    &format!("step {s} of iterating with ends {:0w$b} (from the right; 0: front, 1: back)", mask, w = n + 1),
                    got.map(|t| id(&t)),
                    exp,
                )?;
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum COp {
    Next,
    Prev,
    Remove,
    After,
    Before,
    Split,
    SpliceAfter(usize),
    SpliceBefore(usize),
}
use COp::*;

/// A history of cursor operations on a list of `init` tests.
fn cursor_history(ctx: &Ctx, kn: Known, init: usize, from_back: bool, ops: &[COp]) -> Result<(), String> {
    let mut m = Maker { ctx, n: 0 };
    let (mut v, mut l) = m.list(init);
    // index of the element the cursor is on; v.len() is "past the ends"
    let mut at = if from_back { init.saturating_sub(1) } else { 0 };
    // the length and position recorded, which differ from the real ones only after a known defect
    let mut len = init;
    let mut pos = if kn.back { 0 } else { at };
    let mut pieces: Vec<(Vec<usize>, usize, TestList)> = vec![];
    {
        let mut c = if from_back { l.back_mut() } else { l.front_mut() };
        for (k, op) in ops.iter().enumerate() {
            let null = at == v.len();
            match *op {
                Next => {
                    if pos == len && !null {
                        return predicted("move_next", || c.move_next());
                    }
                    c.move_next();
                    pos = if pos == len { 0 } else { pos + 1 };
                    at = if null { 0 } else { at + 1 };
                }
                Prev => {
                    if pos == len && !null {
                        return predicted("move_prev", || c.move_prev());
                    }
                    c.move_prev();
                    pos = if pos == len { len.saturating_sub(1) } else { pos.checked_sub(1).unwrap_or(len) };
                    at = if null { v.len().saturating_sub(1) } else if at == 0 { v.len() } else { at - 1 };
                }
                Remove => {
                    if !null && len == 0 {
                        return predicted("remove", || c.remove());
                    }
                    len -= !null as usize;
                    let want = (!null).then(|| v.remove(at));
                    eq(&format!("remove at step {k}"), c.remove().map(|t| id(&t)), want)?;
                }
                After => {
                    let (n, t) = m.one();
                    c.insert_after(t);
                    pos += (pos == len) as usize;
                    len += 1;
                    if null {
                        v.insert(0, n);
                        at = v.len();
                    } else {
                        v.insert(at + 1, n);
                    }
                }
                Before => {
                    let (n, t) = m.one();
                    c.insert_before(t);
                    pos += 1;
                    len += 1;
                    v.insert(at, n);
                    at += 1;
                }
                Split => {
                    if pos > len && len > 0 {
                        return predicted("split_after", || c.split_after());
                    }
                    let p = c.split_after();
                    let (tail, tail_len) = if len == 0 {
                        (vec![], 0)
                    } else {
                        let tail = if null { std::mem::take(&mut v) } else { v.split_off(at + 1) };
                        if null {
                            at = 0;
                        }
                        let all = len;
                        len = if pos == len { 0 } else { pos + 1 };
                        if len == 0 {
                            pos = 0;
                        }
                        (tail, all - len)
                    };
                    pieces.push((tail, tail_len, p));
                }
                SpliceAfter(n) => {
                    let (w, p) = m.list(n);
                    c.splice_after(p);
                    if pos == len {
                        pos += if kn.splice { 1 } else { n };
                    }
                    len += n;
                    if null {
                        v.splice(0..0, w);
                        at = v.len();
                    } else {
                        v.splice(at + 1..at + 1, w);
                    }
                }
                SpliceBefore(n) => {
                    let (w, p) = m.list(n);
                    c.splice_before(p);
                    pos += if kn.splice { 1 } else { n };
                    len += n;
                    v.splice(at..at, w);
                    at += n;
                }
            }
            eq(&format!("cursor element after step {k}"), c.get().map(id), v.get(at).copied())?;
            eq(&format!("is_null after step {k}"), c.is_null(), at == v.len())?;
        }
    }
    same(&l, &v, len, kn, ops.len() <= 2)?;
    for (w, n, p) in &pieces {
        same(p, w, *n, kn, false).map_err(|e| format!("split-off part: {e}"))?;
    }
    // the pieces put back together
    for (w, n, p) in pieces {
        v.extend(w);
        len += n;
        l.append(p);
    }
    same(&l, &v, len, kn, false).map_err(|e| format!("after re-appending the split-off parts: {e}"))?;
    if len < v.len() {
        return predicted("into_iter", || Iterator::count(l.into_iter()));
    }
    eq("into_iter", Iterator::map(l.into_iter(), |t| id(&t)).collect::<Vec<_>>(), v)
}

#[derive(Clone, Copy, Debug)]
enum LOp {
    Push,
    PopFront,
    PopBack,
    Append(usize),
    Clear,
    /// insert at the head through a cursor
    InsertHead,
    /// insert at the tail through a cursor
    InsertTail,
    /// cut in the middle and swap the halves
    Rotate,
}

fn list_history(ctx: &Ctx, kn: Known, ops: &[LOp]) -> Result<(), String> {
    let mut m = Maker { ctx, n: 0 };
    let (mut v, mut l) = (Vec::<usize>::new(), TestList::default());
    for (k, op) in ops.iter().enumerate() {
        match *op {
            LOp::Push => {
                let (n, t) = m.one();
                v.push(n);
                l.push_back(t);
            }
            LOp::PopFront => {
                let want = (!v.is_empty()).then(|| v.remove(0));
                eq(&format!("pop_front at step {k}"), l.pop_front().map(|t| id(&t)), want)?;
            }
            LOp::PopBack => eq(&format!("pop_back at step {k}"), l.pop_back().map(|t| id(&t)), v.pop())?,
            LOp::Append(n) => {
                let (w, p) = m.list(n);
                v.extend(w);
                l.append(p);
            }
            LOp::Clear => {
                v.clear();
                l.clear();
            }
            LOp::InsertHead => {
                let (n, t) = m.one();
                l.front_mut().insert_before(t);
                v.insert(0, n);
            }
            LOp::InsertTail => {
                let (n, t) = m.one();
                l.back_mut().insert_after(t);
                v.push(n);
            }
            LOp::Rotate => {
                if v.len() >= 2 {
                    let mid = v.len() / 2;
                    let mut c = l.front_mut();
                    for _ in 1..mid {
                        c.move_next();
                    }
                    let mut tail = c.split_after();
                    let head = std::mem::take(&mut l);
                    tail.append(head);
                    l = tail;
                    v.rotate_left(mid);
                }
            }
        }
        eq(&format!("len after step {k}"), l.len(), v.len())?;
    }
    same(&l, &v, v.len(), kn, v.len() <= 3)
}

/// Consume a drain in every pattern of ends.
fn drain_ends(ctx: &Ctx, n: usize, mask: u32) -> Result<(), String> {
    let mut m = Maker { ctx, n: 0 };
    let (v, l) = m.list(n);
    let mut d = l.into_iter();
    let (mut a, mut b) = (0, n);
    for k in 0..=n {
        eq("ExactSizeIterator::len of drain", ExactSizeIterator::len(&d), b - a)?;
        let (got, exp) = if mask >> k & 1 == 0 {
            let e = (a < b).then(|| v[a]);
            a += (a < b) as usize;
            (d.next(), e)
        } else {
            let e = (a < b).then(|| v[b - 1]);
            b -= (a < b) as usize;
            (d.next_back(), e)
        };
        eq(&format!("drain step {k}"), got.map(|t| id(&t)), exp)?;
    }
    Ok(())
}

/// Split a drain along a tree of cut positions: `cuts[i]` cuts the i-th leaf made so far.
fn drain_splits(ctx: &Ctx, kn: Known, n: usize, cuts: &[(usize, usize)]) -> Result<(), String> {
    let mut m = Maker { ctx, n: 0 };
    let (v, l) = m.list(n);
    let mut leaves = vec![(v, l.into_iter())];
    for &(leaf, pos) in cuts {
        let (v, d) = leaves.remove(leaf);
        if kn.split && !v.is_empty() && pos >= v.len() {
            return predicted("split_at", || d.split_at(pos));
        }
        let (a, b) = d.split_at(pos);
        let pos = if !kn.split { pos } else if v.is_empty() { 0 } else { pos + 1 };
        eq("length of the left half", ExactSizeIterator::len(&a), pos)?;
        eq("length of the right half", ExactSizeIterator::len(&b), v.len() - pos)?;
        leaves.insert(leaf, (v[..pos].to_vec(), a));
        leaves.insert(leaf + 1, (v[pos..].to_vec(), b));
    }
    for (v, d) in leaves {
        eq("elements of a part", Iterator::map(Producer::into_iter(d), |t| id(&t)).collect::<Vec<_>>(), v)?;
    }
    Ok(())
}
/// All trees of at most `depth` successive cuts of `n` elements.
fn cut_trees(n: usize, depth: usize) -> Vec<Vec<(usize, usize)>> {
    fn go(sizes: &[usize], depth: usize, cur: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
        out.push(cur.clone());
        if depth == 0 {
            return;
        }
        for leaf in 0..sizes.len() {
            for pos in 0..=sizes[leaf] {
                let mut s = sizes.to_vec();
                s[leaf] = pos;
                s.insert(leaf + 1, sizes[leaf] - pos);
                cur.push((leaf, pos));
                go(&s, depth - 1, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(&[n], depth, &mut vec![], &mut out);
    out
}

/// The unindexed split, recursively, as far as `levels`.
fn unindexed(ctx: &Ctx, n: usize, levels: usize) -> Result<(), String> {
    fn go(d: lit_drain::D, levels: usize, out: &mut Vec<usize>) -> Result<(), String> {
        if levels == 0 {
            out.extend(Iterator::map(d, |t| id(&t)));
            return Ok(());
        }
        let n = ExactSizeIterator::len(&d);
        let (a, b) = UnindexedProducer::split(d);
        let got = ExactSizeIterator::len(&a) + b.as_ref().map_or(0, ExactSizeIterator::len);
        eq("total length after an unindexed split", got, n)?;
        go(a, levels - 1, out)?;
        if let Some(b) = b {
            go(b, levels - 1, out)?;
        }
        Ok(())
    }
    let mut m = Maker { ctx, n: 0 };
    let (v, l) = m.list(n);
    let mut out = vec![];
    go(l.into_iter(), levels, &mut out)?;
    eq("elements after unindexed splits", out, v)
}
mod lit_drain {
    pub type D = <lit::test::TestList as IntoIterator>::IntoIter;
}

/// Parallel iteration (the schedule is rayon's; what must not depend on it is compared).
fn parallel(ctx: &Ctx, n: usize, min: usize) -> Result<(), String> {
    let mk = || {
        let mut m = Maker { ctx, n: 0 };
        m.list(n)
    };
    let (v, l) = mk();
    let sum = AtomicU64::new(0);
    l.into_iter().par_bridge().for_each(|t| {
        sum.fetch_add(1 << id(&t), Relaxed);
    });
    eq("par_bridge visits", sum.into_inner(), (1u64 << n) - 1)?;
    let (_, l) = mk();
    eq("par_iter len", IndexedParallelIterator::len(&l.into_par_iter()), n)?;
    let (_, l) = mk();
    let got: Vec<usize> = l.into_par_iter().with_min_len(min).with_max_len(min).map(|t| id(&t)).collect();
    eq("par_iter collect", got, v.clone())?;
    let (_, l) = mk();
    let got: Vec<(usize, usize)> = l.into_par_iter().with_max_len(min).enumerate().map(|(i, t)| (i, id(&t))).collect();
    eq("par_iter enumerate", got, v.iter().copied().enumerate().collect())?;
    let (_, l) = mk();
    let got: Vec<usize> = l.into_par_iter().with_max_len(min).rev().map(|t| id(&t)).collect();
    eq("par_iter rev", got, v.iter().rev().copied().collect())
}

pub fn check(run: &Run) {
    let scratch = Scratch::new("l09");
    let p = scratch.path().join("lit.suite.toml");
    std::fs::write(&p, "name = \"s\"\nworking_dir = \".\"\n").unwrap();
    let suite = TestSuite::parse(&p, &Config::default()).expect("suite");
    let ctx = Ctx { suite, cfg: Arc::new(TestConfig::default()), names: (0..64).map(|n| format!("t{n}")).collect() };
    let ctx = &ctx;

    let totals = std::sync::Mutex::new(std::collections::BTreeMap::<&'static str, u64>::new());
    let subsets = Known::subsets();
    let found: [AtomicU64; 4] = Default::default();
    let last = AtomicU64::new(0);
    let judge = |family: &'static str, key: &dyn Fn() -> String, f: &dyn Fn(Known) -> Result<(), String>| {
        let try_one = |k: Known| match case(family, "", || guard(|| f(k))) {
            Ok(Ok(())) => None,
            Ok(Err(e)) if e == PREDICTED => None,
            Ok(Err(e)) => Some(e),
            Err(p) => Some(format!("panics: {p}")),
        };
        let Some(e) = try_one(EXACT) else { return };
        // the least set of known defects which explains it, trying the one which did last time first
        let hint = last.load(Relaxed) as usize;
        let of = |k: Known| k.keys().count();
        let mut hit = (try_one(subsets[hint]).is_none()).then_some(hint);
        if hit.is_none_or(|h| of(subsets[h]) > 1) {
            let bound = hit.map_or(5, |h| of(subsets[h]));
            if let Some(h) = (1..subsets.len()).take_while(|&h| of(subsets[h]) < bound).find(|&h| h != hint && try_one(subsets[h]).is_none()) {
                hit = Some(h);
            }
        }
        match hit {
            None => run.violation(format!("{family}: {}", key()), e),
            Some(h) => {
                last.store(h as u64, Relaxed);
                for k in subsets[h].keys() {
                    let i = KEYS.iter().position(|x| *x == k).unwrap();
                    if found[i].fetch_add(1, Relaxed) == 0 {
                        run.violation(k, format!("{family}: {}: {e}", key()));
                    }
                }
            }
        }
    };
    let go = |family: &'static str, n: usize, name: &(dyn Fn(usize) -> String + Sync), f: &(dyn Fn(Known, usize) -> Result<(), String> + Sync)| {
        let steps = AtomicU64::new(0);
        par_for(run, n, |i| {
            judge(family, &|| name(i), &|k| f(k, i));
            steps.fetch_add(1, Relaxed);
        });
        let k = steps.load(Relaxed);
        run.count(k, k, k);
        *totals.lock().unwrap().entry(family).or_insert(0) += k;
    };

    // cursor histories
    let ops = [Next, Prev, Remove, After, Before, Split, SpliceAfter(0), SpliceAfter(2), SpliceBefore(0), SpliceBefore(1), SpliceBefore(2)];
    let hs = sequences(&ops, 0, run.pick(4, 6));
    let inits: Vec<(usize, bool)> = (0..=3).flat_map(|n| [(n, false), (n, true)]).collect();
    let key = |i: usize| {
        let (n, b) = inits[i % inits.len()];
        format!("{n} tests, from the {}, {:?}", if b { "back" } else { "front" }, hs[i / inits.len()])
    };
    go("cursor history", hs.len() * inits.len(), &key, &|k, i| {
        let (n, b) = inits[i % inits.len()];
        cursor_history(ctx, k, n, b, &hs[i / inits.len()])
    });
    // deeper, with the operations that only move and cut
    let ops = [Next, Prev, Remove, Split, Before];
    let hs2 = sequences(&ops, 5, run.pick(7, 8));
    let key = |i: usize| {
        let (n, b) = inits[i % inits.len()];
        format!("{n} tests, from the {}, {:?}", if b { "back" } else { "front" }, hs2[i / inits.len()])
    };
    go("longer cursor history", hs2.len() * inits.len(), &key, &|k, i| {
        let (n, b) = inits[i % inits.len()];
        cursor_history(ctx, k, n, b, &hs2[i / inits.len()])
    });

    // list histories
    let lops = [LOp::Push, LOp::PopFront, LOp::PopBack, LOp::Append(0), LOp::Append(1), LOp::Append(2), LOp::Clear, LOp::InsertHead, LOp::InsertTail, LOp::Rotate];
    let lh = sequences(&lops, 0, run.pick(6, 7));
    go("list history", lh.len(), &|i| format!("{:?}", lh[i]), &|k, i| list_history(ctx, k, &lh[i]));

    // iterators and drains
    for n in 0..=run.pick(8, 12) {
        go("drain ends", 1 << (n + 1), &|i| format!("{n} tests, ends {i:b}"), &|_, i| {
            drain_ends(ctx, n, i as u32)
        });
        let mut m = Maker { ctx, n: 0 };
        let (v, l) = m.list(n.min(10));
        judge("iterator ends", &|| format!("{n} tests"), &|k| same(&l, &v, v.len(), k, true));
    }
    for n in 0..=run.pick(6, 8) {
        let trees = cut_trees(n, 3);
        go("drain splits", trees.len(), &|i| format!("{n} tests, cuts (leaf, position) {:?}", trees[i]), &|k, i| drain_splits(ctx, k, n, &trees[i]));
    }
    for n in 0..=run.pick(17, 40) {
        go("unindexed splits", 7, &|i| format!("{n} tests, {i} levels"), &|_, i| unindexed(ctx, n, i));
    }
    let known_split = found[3].load(Relaxed) > 0;
    for threads in 1..=3 {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        for n in 0..=run.pick(12, 33) {
            for min in [1, 2, 3, 5] {
                let r = pool.install(|| guard(|| parallel(ctx, n, min)));
                let e = match r {
                    Ok(Ok(())) => continue,
                    // the consequences depend on which parts rayon happens to cut
                    Ok(Err(e)) if known_split && !e.starts_with("par_bridge") => continue,
                    Err(_) if known_split => continue,
                    Ok(Err(e)) => e,
                    Err(p) => format!("panics: {p}"),
                };
                run.violation(format!("parallel iteration: {n} tests, {threads} threads, pieces of {min}"), e);
            }
        }
    }
    for (f, k) in totals.lock().unwrap().iter() {
        run.bound(format!("{f}: {k}"));
    }
    run.bound(format!("cursor histories on lists of 0..=3 tests to depth {}, with the moving and cutting operations to depth {}; list histories to depth {}; every tree of up to 3 cuts of up to {} tests", run.pick(4, 6), run.pick(7, 8), run.pick(6, 7), run.pick(6, 8)));
    run.assume("the order in which rayon runs the parts of a drain is rayon's business: every tree of cuts is enumerated, the schedules are not");
    run.outcome("sequences equal");
}
