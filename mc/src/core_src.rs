//! C02 (positions <-> line/column), C03 (incremental edits).
use crate::fw::*;
use litcheck::diagnostics::*;
use litcheck::range::Range;
use std::collections::BTreeMap;
use std::sync::Arc;

/// Independent line table: byte ranges of the lines (terminator included).
fn lines(t: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut s = 0;
    for (i, c) in t.char_indices() {
        if c == '\n' {
            v.push((s, i + 1));
            s = i + 1;
        }
    }
    v.push((s, t.len()));
    v
}

pub fn c02(run: &Run) {
    let alpha = ["a", "\n", "\r", "é", "\u{1F600}"];
    let max = run.pick(7, 8);
    run.bound(format!("all texts of length 0..={max} characters over {alpha:?}; all byte positions, lines 0..=n+2, columns 0..=longest+3"));
    let texts = strings(&alpha, max);
    let uri = || FileName::Virtual("t".into());
    par_for(run, texts.len(), |i| {
        let t = &texts[i];
        let bad = |w: String| run.violation(format!("{w} text={t:?}"), format!("{w}\ntext = {t:?}"));
        let mgr = DefaultSourceManager::default();
        let f = mgr.load(SourceLanguage::Unknown, uri(), t.clone());
        let c = f.content();
        let ls = lines(t);
        let mut n = 0u64;
        if c.line_count() != ls.len() || f.line_count() != ls.len() {
            bad(format!("line_count = {}, expected {}", c.line_count(), ls.len()));
        }
        if c.last_line_index().to_usize() != ls.len() - 1 {
            bad(format!("last_line_index = {}", c.last_line_index().to_usize()));
        }
        for l in 0..ls.len() + 2 {
            n += 2;
            let want = ls.get(l).copied();
            let li = LineIndex(l as u32);
            let got = c.line_range(li).map(|r| (r.start.to_usize(), r.end.to_usize()));
            if got != want {
                bad(format!("line_range({l}) = {got:?}, expected {want:?}"));
            }
            if c.line_start(li).map(|b| b.to_usize()) != want.map(|w| w.0) {
                bad(format!("line_start({l}) wrong"));
            }
            let nchars = want.map(|(s, e)| t[s..e].chars().count());
            let chars: Vec<usize> = want
                .map(|(s, e)| t[s..e].char_indices().map(|(o, _)| s + o).chain([e]).collect())
                .unwrap_or_default();
            for col in 0..nchars.unwrap_or(0) + 3 {
                n += 1;
                let want = chars.get(col).copied();
                match guard(|| c.line_column_to_offset(li, ColumnIndex(col as u32)).map(|b| b.to_usize())) {
                    Ok(got) if got == want => {}
                    got => bad(format!("line_column_to_offset({l},{col}) = {got:?}, expected {want:?}")),
                }
                // one-based flavour, through the manager and by name
                let loc = FileLineCol::new(uri(), LineNumber::new(l as u32 + 1).unwrap(), ColumnNumber::new(col as u32 + 1).unwrap());
                let want = want.map(|o| SourceSpan::at(f.id(), o as u32));
                match guard(|| mgr.file_line_col_to_span(loc.clone())) {
                    Ok(got) if got == want => {}
                    got => bad(format!("file_line_col_to_span({l},{col}) = {got:?}, expected {want:?}")),
                }
            }
        }
        for b in 0..=t.len() + 2 {
            n += 2;
            if b <= t.len() {
                let want = ls.iter().rposition(|(s, _)| *s <= b).unwrap();
                let got = c.line_index(ByteIndex(b as u32)).to_usize();
                if got != want {
                    bad(format!("line_index({b}) = {got}, expected {want}"));
                }
            }
            let want = (b <= t.len() && t.is_char_boundary(b)).then(|| {
                let l = ls.iter().rposition(|(s, _)| *s <= b).unwrap();
                (l + 1, t[ls[l].0..b].chars().count() + 1)
            });
            let got = guard(|| c.location(ByteIndex(b as u32)).map(|l| (l.line.to_usize(), l.column.to_usize())));
            if got != Ok(want) {
                bad(format!("location({b}) = {got:?}, expected {want:?}"));
            }
            let got = guard(|| mgr.file_line_col(SourceSpan::at(f.id(), b as u32)).ok());
            match (&got, want) {
                (Ok(Some(g)), Some((l, col))) if g.line.to_usize() == l && g.column.to_usize() == col && g.uri == uri() => {
                    // round trip
                    if mgr.file_line_col_to_span(g.clone()) != Some(SourceSpan::at(f.id(), b as u32)) {
                        bad(format!("round trip of byte {b} failed"));
                    }
                }
                (Ok(None), None) => {}
                _ => bad(format!("file_line_col({b}) = {got:?}, expected {want:?}")),
            }
        }
        // spans: slices and rendering context
        let lc = ls.len();
        for s in 0..=t.len() {
            for e in s..=t.len() + 1 {
                n += 1;
                let want = t.get(s..e);
                if c.source_slice(Range::new(s, e)) != want || f.source_slice(Range::new(s, e)) != want {
                    bad(format!("source_slice({s},{e}) wrong"));
                }
                if c.byte_slice(Range::new(ByteIndex(s as u32), ByteIndex(e as u32))) != t.as_bytes().get(s..e) {
                    bad(format!("byte_slice({s},{e}) wrong"));
                }
                let sp = SourceSpan::new(f.id(), Range::new(s as u32, e as u32));
                let got = guard(|| mgr.source_slice(sp).ok().map(|r| r.as_str().to_string()));
                if got.as_ref().map(|g| g.as_deref()) != Ok(want) {
                    bad(format!("manager.source_slice({s},{e}) = {got:?}, expected {want:?}"));
                }
                if want.is_none() || e > t.len() {
                    continue;
                }
                let loc = guard(|| mgr.location(sp).ok().and_then(|l| mgr.location_to_span(l)));
                if loc != Ok(Some(sp)) {
                    bad(format!("location round trip of {s}..{e} = {loc:?}"));
                }
                // rendering: k lines of context on each side
                for k in 0..=1usize {
                    let ms: miette::SourceSpan = (s, e - s).into();
                    let got = guard(|| {
                        miette::SourceCode::read_span(&*f, &ms, k, k)
                            .map(|c| (c.span().offset(), c.data().to_vec(), c.line(), c.column()))
                            .map_err(|e| format!("{e:?}"))
                    });
                    let (l0, l1) = (
                        ls.iter().rposition(|(x, _)| *x <= s).unwrap(),
                        ls.iter().rposition(|(x, _)| *x <= e).unwrap(),
                    );
                    let (ws, we) = if k == 0 {
                        (s, e)
                    } else {
                        (ls[l0.saturating_sub(k)].0, ls.get(l1 + k).map(|x| x.1).unwrap_or(t.len()))
                    };
                    let wl = if k == 0 { l0 } else { l0.saturating_sub(k) };
                    let wc = if k == 0 { t[ls[l0].0..s].chars().count() } else { 0 };
                    let want = (ws, t.as_bytes()[ws..we].to_vec(), wl, wc);
                    if got != Ok(Ok(want.clone())) {
                        bad(format!("read_span({s}..{e}, ctx {k}) = {got:?}, expected {want:?}"));
                    }
                }
            }
        }
        let _ = lc;
        run.count(1, n, 1);
    });
    run.sample(format!("{:?}", texts.last().unwrap()));
    c02_scale(run);
    // spans
    let m = run.pick(5u32, 7);
    let id = SourceId::new_unchecked(3);
    for a in 0..=m {
        for b in a..=m {
            let s = SourceSpan::new(id, Range::new(a, b));
            let bad = |w: &str| run.violation(format!("span {w} {a}..{b}"), format!("span {w} for {a}..{b}"));
            if s.start().to_u32() != a || s.end().to_u32() != b || s.len() != (b - a) as usize || s.is_empty() != (a == b) {
                bad("accessors");
            }
            if s.source_id() != id {
                bad("source_id");
            }
            if s.into_range() != Range::new(a, b) || s.into_slice_index() != Range::new(a as usize, b as usize) {
                bad("into_range");
            }
            run.count(1, 5, 1);
        }
    }
    run.assume("columns count characters (Unicode scalar values), lines end at LF only, as documented");
}

/// Texts larger than any small integer type counts: every position, line and column within 2 of a
/// power of two, of the ends, and of the line boundaries next to those.
fn c02_scale(run: &Run) {
    let n = run.pick(70_000usize, 200_000);
    let shapes: Vec<(&str, String)> = vec![
        ("empty lines", "\n".repeat(n)),
        ("short lines", (0..n).map(|i| if i % 3 == 0 { "ab\n" } else { "é\n" }).collect()),
        ("one long line", "é".to_string() + &"a".repeat(n)),
        ("one long line of wide characters", "é\u{1F600}".repeat(n / 2)),
        ("long lines", (["a".repeat(n), "é".repeat(n), "b".repeat(n)]).join("\n")),
        ("CRLF lines", "x\r\n".repeat(n)),
    ];
    run.bound(format!("{} texts of {n} lines or of lines of {n} characters: every position, line and column within 2 of a power of two or of an end", shapes.len()));
    let near = |max: usize| {
        let mut v: Vec<usize> = (0..32).flat_map(|k| { let p = 1usize << k; p.saturating_sub(2)..=p + 2 }).chain(max.saturating_sub(2)..=max + 2).chain([0]).filter(|x| *x <= max + 2).collect();
        v.sort();
        v.dedup();
        v
    };
    par_for(run, shapes.len(), |i| {
        let (name, t) = &shapes[i];
        let bad = |w: String| run.violation(format!("{w} in {name}"), format!("{w}\ntext = {name} ({} bytes)", t.len()));
        let mgr = DefaultSourceManager::default();
        let uri = || FileName::Virtual("t".into());
        let f = mgr.load(SourceLanguage::Unknown, uri(), t.clone());
        let c = f.content();
        let ls = lines(t);
        let mut n = 1u64;
        if c.line_count() != ls.len() || c.last_line_index().to_usize() != ls.len() - 1 || f.as_str() != t {
            bad(format!("{} lines, expected {}", c.line_count(), ls.len()));
        }
        for l in near(ls.len()) {
            n += 1;
            let want = ls.get(l).copied();
            let li = LineIndex(l as u32);
            let got = guard(|| c.line_range(li).map(|r| (r.start.to_usize(), r.end.to_usize())));
            if got != Ok(want) {
                bad(format!("line_range({l}) = {got:?}, expected {want:?}"));
            }
            let Some((s, e)) = want else { continue };
            let chars: Vec<usize> = t[s..e].char_indices().map(|(o, _)| s + o).chain([e]).collect();
            for col in near(chars.len()) {
                n += 1;
                let want = chars.get(col).copied();
                let got = guard(|| c.line_column_to_offset(li, ColumnIndex(col as u32)).map(|b| b.to_usize()));
                if got != Ok(want) {
                    bad(format!("line_column_to_offset({l},{col}) = {got:?}, expected {want:?}"));
                }
                let loc = FileLineCol::new(uri(), LineNumber::new(l as u32 + 1).unwrap(), ColumnNumber::new(col as u32 + 1).unwrap());
                let want = want.map(|o| SourceSpan::at(f.id(), o as u32));
                let got = guard(|| mgr.file_line_col_to_span(loc.clone()));
                if got != Ok(want) {
                    bad(format!("file_line_col_to_span({l},{col}) = {got:?}, expected {want:?}"));
                }
            }
        }
        let mut ps = near(t.len());
        ps.extend(near(ls.len()).into_iter().filter_map(|l| ls.get(l)).flat_map(|(s, e)| [*s, *e]));
        for b in ps {
            n += 1;
            let ok = b <= t.len() && t.is_char_boundary(b);
            let want = ok.then(|| {
                let l = ls.partition_point(|(s, _)| *s <= b) - 1;
                (l + 1, t[ls[l].0..b].chars().count() + 1)
            });
            let got = guard(|| c.location(ByteIndex(b as u32)).map(|l| (l.line.to_usize(), l.column.to_usize())));
            if got != Ok(want) {
                bad(format!("location({b}) = {got:?}, expected {want:?}"));
            }
            let got = guard(|| mgr.file_line_col(SourceSpan::at(f.id(), b as u32)).ok().and_then(|l| mgr.file_line_col_to_span(l)));
            if got != Ok(ok.then(|| SourceSpan::at(f.id(), b as u32))) {
                bad(format!("round trip of byte {b} = {got:?}"));
            }
            if ok {
                let sp = SourceSpan::new(f.id(), Range::new(b as u32, t.len() as u32));
                let got = guard(|| mgr.location(sp).ok().and_then(|l| mgr.location_to_span(l)) == Some(sp) && mgr.source_slice(sp).is_ok_and(|r| r.as_str() == &t[b..]));
                if got != Ok(true) {
                    bad(format!("location round trip or slice of {b}.. = {got:?}"));
                }
            }
        }
        run.count(1, n, 1);
    });
}

#[derive(Clone, Debug)]
struct Edit {
    s: (u32, u32),
    e: (u32, u32),
    text: &'static str,
}

/// Apply with the model: positions are (line, char); None if out of range.
fn model_off(t: &str, (l, c): (u32, u32)) -> Option<usize> {
    let (s, e) = *lines(t).get(l as usize)?;
    t[s..e].char_indices().map(|(o, _)| s + o).chain([e]).nth(c as usize)
}

pub fn c03(run: &Run) {
    let alpha = ["a", "\n", "é"];
    let repl = ["", "x", "é", "\n", "y\nz", "\n\n", "é\n\u{10348}"];
    let (len1, len2) = run.pick((6, 4), (7, 5));
    run.bound(format!("single edits: all texts of length 0..={len1} over {alpha:?}, all selections, replacement texts {repl:?}"));
    run.bound(format!("edit pairs: all texts of length 0..={len2}, all pairs of edits"));
    let texts = strings(&alpha, len1);
    par_for(run, texts.len(), |i| {
        let t = &texts[i];
        let depth = if t.chars().count() <= len2 { 2 } else { 1 };
        let f = SourceContent::new("", FileName::Virtual("t".into()), t.clone());
        edits(run, &f, t.clone(), &mut vec![], depth, &repl);
    });
    run.assume("a position past the line terminator denotes the start of the following line and is excluded (the terminator belongs to its line)");
}

fn positions(t: &str) -> Vec<(u32, u32)> {
    let mut v = vec![];
    for (l, (s, e)) in lines(t).iter().enumerate() {
        let body = t[*s..*e].trim_end_matches('\n');
        for c in 0..=body.chars().count() {
            v.push((l as u32, c as u32));
        }
    }
    v
}

fn edits(run: &Run, f: &SourceContent, t: String, hist: &mut Vec<Edit>, depth: usize, repl: &[&'static str]) {
    if depth == 0 || run.done() {
        return;
    }
    let ps = positions(&t);
    for (i, &s) in ps.iter().enumerate() {
        for &e in &ps[i..] {
            for &text in repl {
                hist.push(Edit { s, e, text });
                let (a, b) = (model_off(&t, s).unwrap(), model_off(&t, e).unwrap());
                let mut want = t.clone();
                want.replace_range(a..b, text);
                let mut g = f.clone();
                let bad = |w: String| {
                    run.violation(format!("{w} {t:?} {hist:?}"), format!("{w}\nfinal-step text = {t:?}\nedits (all) = {hist:?}"))
                };
                run.count(1, 1, 1);
                let sel = Selection::new(Position::new(s.0, s.1), Position::new(e.0, e.1));
                if g.select(sel) != Some(&t[a..b]) {
                    bad(format!("select = {:?}", g.select(sel)));
                }
                match guard(|| g.update(text.to_string(), Some(sel), hist.len() as i32)) {
                    Ok(Ok(())) => {
                        let fresh = SourceContent::new("", FileName::Virtual("t".into()), want.clone());
                        let tab = |c: &SourceContent| (0..c.line_count()).map(|l| c.line_start(LineIndex(l as u32)).unwrap().to_usize()).collect::<Vec<_>>();
                        if g.as_str() != want {
                            bad(format!("text = {:?}, expected {want:?}", g.as_str()));
                        } else if tab(&g) != tab(&fresh) || tab(&g) != lines(&want).iter().map(|l| l.0).collect::<Vec<_>>() {
                            bad(format!("line table = {:?}, expected {:?}", tab(&g), tab(&fresh)));
                        } else if g.version() != hist.len() as i32 {
                            bad("version not updated".into());
                        } else {
                            edits(run, &g, want, hist, depth - 1, repl);
                        }
                    }
                    r => bad(format!("update = {r:?}")),
                }
                hist.pop();
            }
        }
    }
    // out-of-range selections are rejected and leave the content alone
    let n = lines(&t).len() as u32;
    for s in [(n, 0), (0, 99), (n + 1, 3)] {
        let mut g = f.clone();
        let sel = Selection::new(Position::new(0, 0), Position::new(s.0, s.1));
        run.count(0, 1, 0);
        match guard(|| g.update("zz".into(), Some(sel), 7).is_err()) {
            Ok(true) if g.as_str() == t && g.version() == f.version() => {}
            r => run.violation(format!("oob {t:?} {s:?}"), format!("out-of-range edit at {s:?} of {t:?}: {r:?}, text now {:?}", g.as_str())),
        }
    }
    // whole-document replacement
    for text in repl {
        let mut g = f.clone();
        let _ = g.update(text.to_string(), None, 3);
        run.count(0, 1, 0);
        if g.as_str() != *text || g.line_count() != lines(text).len() {
            run.violation(format!("full {t:?} {text:?}"), format!("full replacement of {t:?} by {text:?} gave {:?} with {} lines", g.as_str(), g.line_count()));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C04, sequential part

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Load(usize, usize),
    LoadArg(usize),
    Update(usize, usize),
    CopyInto(usize, usize),
    Hold(usize),
}

const NAMES: [&str; 2] = ["n0", "n1"];
const CONTENTS: [&str; 3] = ["x", "y\nz", ""];

pub fn c04_seq(run: &Run) {
    let mut ops = vec![];
    for n in 0..2 {
        for c in 0..3 {
            ops.push(Op::Load(n, c));
        }
    }
    for c in 0..2 {
        ops.push(Op::LoadArg(c));
    }
    for f in 0..3 {
        ops.push(Op::Update(f, 1));
        ops.push(Op::Update(f, 2));
        ops.push(Op::Hold(f));
    }
    ops.push(Op::CopyInto(0, 0));
    ops.push(Op::CopyInto(1, 2));
    let d = run.pick(4, 6);
    run.bound(format!("sequential: all operation sequences of length 0..={d} over {} operations (load, argument load, update of the k-th file, copy from another manager, holding a handle)", ops.len()));
    let hs = sequences(&ops, 0, d);
    par_for(run, hs.len(), |i| c04_one(run, &hs[i]));
    run.sample(format!("{:?}", hs[hs.len() / 2]));
    c04_scale(run);
}

/// More files than any small integer type counts, of both groups, with lookups of every one.
fn c04_scale(run: &Run) {
    let n = run.pick(70_000usize, 300_000);
    run.bound(format!("scale: {n} files and {n} arguments in one manager, every one looked up by identity and by name, in the manager and in a clone"));
    let mgr = DefaultSourceManager::default();
    let name = |g: usize, i: usize| FileName::from(format!("{}{i}", ["f", "arg"][g]));
    let load = |m: &DefaultSourceManager, g: usize, i: usize, t: String| match g {
        0 => m.load(SourceLanguage::Unknown, name(g, i), t),
        _ => m.load_argument(Box::leak(format!("arg{i}").into_boxed_str()), t),
    };
    let text = |g: usize, i: usize| format!("{g} {i}");
    let mut ids = vec![];
    for i in 0..n {
        for g in 0..2 {
            let f = load(&mgr, g, i, text(g, i));
            ids.push((g, i, f.id()));
        }
    }
    let copy = mgr.clone();
    for (what, m) in [("manager", &mgr), ("clone", &copy)] {
        let mut seen = std::collections::BTreeSet::new();
        for (g, i, id) in &ids {
            let got = guard(|| m.get(*id).ok().map(|f| (f.id() == *id, f.as_str().to_string())));
            let byname = guard(|| m.find(&name(*g, *i)));
            if !seen.insert(*id) || id.is_cli_argument() != (*g == 1) || got != Ok(Some((true, text(*g, *i)))) || byname != Ok(Some(*id)) {
                run.violation(format!("scale {what} {g} {i}"), format!("{what} of {n} files and arguments: number {i} of group {g} ({id:?}) gives {got:?}, by name {byname:?}, expected {:?}", text(*g, *i)));
                break;
            }
            run.count(0, 2, 0);
        }
        // reloading any of them gives the same file
        for (g, i, id) in ids.iter().rev().step_by(997) {
            let f = load(m, *g, *i, text(*g, *i));
            if f.id() != *id {
                run.violation(format!("scale reload {what} {g} {i}"), format!("{what}: reloading number {i} of group {g} gave {:?}, was {id:?}", f.id()));
            }
        }
    }
    run.count(1, 0, 1);
}

fn c04_one(run: &Run, h: &[Op]) {
    let mgr = DefaultSourceManager::default();
    let other = DefaultSourceManager::default();
    // model: id -> (name, content); latest id by name; held handles keep their content
    let mut files: BTreeMap<SourceId, (String, String)> = BTreeMap::new();
    let mut order: Vec<SourceId> = vec![];
    let mut latest: BTreeMap<String, SourceId> = BTreeMap::new();
    let mut held: Vec<(SourceFileRef, String)> = vec![];
    let bad = |w: String| run.violation(format!("{w} {h:?}"), format!("{w}\nhistory = {h:?}"));
    let fname = |n: &str| FileName::from(n.to_string());
    for op in h {
        let mut loaded = None;
        match op {
            Op::Load(n, c) => {
                let f = mgr.load(SourceLanguage::Unknown, fname(NAMES[*n]), CONTENTS[*c].into());
                loaded = Some((NAMES[*n].to_string(), CONTENTS[*c].to_string(), f));
            }
            Op::LoadArg(c) => {
                let f = mgr.load_argument("arg", CONTENTS[*c].into());
                if !f.id().is_cli_argument() {
                    bad("argument source does not identify as an argument".into());
                }
                loaded = Some(("arg".to_string(), CONTENTS[*c].to_string(), f));
            }
            Op::CopyInto(n, c) => {
                let o = other.load(SourceLanguage::Unknown, fname(NAMES[*n]), CONTENTS[*c].into());
                let f = mgr.copy_into(&o);
                if !mgr.is_manager_of(&f) || mgr.is_manager_of(&o) {
                    bad("is_manager_of wrong after copy_into".into());
                }
                let again = mgr.copy_into(&f);
                if !Arc::ptr_eq(&again, &f) {
                    bad("copy_into of an own file is not the identity".into());
                }
                loaded = Some((NAMES[*n].to_string(), CONTENTS[*c].to_string(), f));
            }
            Op::Update(k, c) => {
                let Some(id) = order.get(*k).copied() else {
                    match guard(|| mgr.update(SourceId::file(77), "q".into(), None, 1).is_err()) {
                        Ok(true) => {}
                        r => bad(format!("update of an unknown identity: {r:?}")),
                    }
                    continue;
                };
                let text = format!("u{}", CONTENTS[*c]);
                match guard(|| mgr.update(id, text.clone(), None, 9).is_ok()) {
                    Ok(true) => {}
                    r => bad(format!("update failed: {r:?}")),
                }
                files.get_mut(&id).unwrap().1 = text;
            }
            Op::Hold(k) => {
                if let Some(id) = order.get(*k) {
                    held.push((mgr.source(*id).unwrap(), files[id].1.clone()));
                }
            }
        }
        if let Some((name, content, f)) = loaded {
            if f.as_str() != content || f.uri() != &fname(&name) && name != "arg" {
                bad(format!("loaded file has content {:?} name {:?}", f.as_str(), f.uri()));
            }
            let same = latest.get(&name).filter(|id| files[id].1 == content).copied();
            match same {
                Some(id) if id != f.id() => bad(format!("reloading identical content gave a new identity {:?} != {id:?}", f.id())),
                None if files.contains_key(&f.id()) => bad(format!("identity {:?} handed out twice for different sources", f.id())),
                _ => {}
            }
            if same.is_none() {
                order.push(f.id());
            }
            latest.insert(name.clone(), f.id());
            files.insert(f.id(), (name, content));
        }
        // every identity resolves to its own content
        for (id, (name, content)) in &files {
            match guard(|| mgr.get(*id)) {
                Ok(Ok(f)) if f.as_str() == content && f.id() == *id && f.uri().as_str() == name => {}
                r => bad(format!("get({id:?}) = {r:?}, expected {name:?} {content:?}")),
            }
            match guard(|| mgr.source(*id).map(|s| s.as_str().to_string()).ok()) {
                Ok(Some(s)) if s == *content => {}
                r => bad(format!("source({id:?}) = {r:?}, expected {content:?}")),
            }
            if !content.is_empty() {
                let sp = SourceSpan::new(*id, Range::new(0u32, 1u32));
                match guard(|| mgr.source_slice(sp).map(|s| s.as_str().to_string()).ok()) {
                    Ok(Some(s)) if s == content[..1] => {}
                    r => bad(format!("source_slice = {r:?}, expected {:?}", &content[..1])),
                }
                match guard(|| mgr.file_line_col(sp).ok()) {
                    Ok(Some(l)) if l.uri.as_str() == name && l.line.to_u32() == 1 && l.column.to_u32() == 1 => {}
                    r => bad(format!("file_line_col = {r:?}, expected {name:?} 1:1")),
                }
            }
        }
        for name in ["n0", "n1", "arg", "nope"] {
            let want = latest.get(name).copied();
            let got = mgr.find(&fname(name));
            let got2 = mgr.get_by_uri(&fname(name)).map(|f| f.id());
            if got != want || got2 != want {
                bad(format!("find({name}) = {got:?} / {got2:?}, expected {want:?}"));
            }
        }
        for (r, want) in &held {
            if r.as_str() != want {
                bad(format!("a held handle changed: {:?}, expected {want:?}", r.as_str()));
            }
        }
        // a clone knows the same files, and what happens to it does not reach the original
        let copy = mgr.clone();
        let before: Vec<_> = files.keys().copied().collect();
        for (id, (name, content)) in &files {
            match guard(|| copy.get(*id)) {
                Ok(Ok(f)) if f.as_str() == content && f.id() == *id && f.uri().as_str() == name => {}
                r => bad(format!("clone: get({id:?}) = {r:?}, expected {name:?} {content:?}")),
            }
            // the span of the whole file, by name, when this is the latest of its name
            if latest.get(name) == Some(id) {
                for at in [0, content.len()] {
                    let sp = SourceSpan::new(*id, Range::new(at as u32, content.len() as u32));
                    let got = guard(|| mgr.location(sp).ok().and_then(|l| mgr.location_to_span(l)));
                    if got != Ok(Some(sp)) {
                        bad(format!("location of {at}.. of {id:?} and back = {got:?}"));
                    }
                }
            }
        }
        for name in ["n0", "n1", "arg", "nope"] {
            if copy.find(&fname(name)) != latest.get(name).copied() {
                bad(format!("clone: find({name}) = {:?}", copy.find(&fname(name))));
            }
        }
        for id in &before {
            let _ = guard(|| copy.update(*id, "other".into(), None, 3));
            if mgr.get(*id).map(|f| f.as_str() != files[id].1).unwrap_or(true) {
                bad(format!("updating {id:?} in a clone changed the original"));
            }
        }
        for id in [SourceId::file(50), SourceId::argument(50), SourceId::UNKNOWN] {
            if !matches!(guard(|| mgr.get(id).is_err()), Ok(true)) {
                bad(format!("get({id:?}) of an identity never handed out did not fail"));
            }
        }
        run.count(0, files.len() as u64 * 4 + 8, 0);
    }
    run.count(1, 0, 1);
}
