//! C06 (ranges, newline searches) and C07 (input loading, globbing, file search).
use crate::fw::*;
use litcheck::Input;
use litcheck::range::*;
use litcheck::text::*;
use std::collections::BTreeSet;
use std::ops::Bound;
use std::path::Path;

fn ranges_of<T>(run: &Run, name: &str, vals: &[T], to: impl Fn(T) -> u128 + Sync)
where
    T: NumericRangeBound + std::fmt::Debug + std::panic::RefUnwindSafe,
{
    for &s in vals {
        for &e in vals {
            let bad = |w: String| run.violation(format!("{name} {w} {s:?}..{e:?}"), format!("{name}: {w} for {s:?}..{e:?}"));
            let r = guard(|| Range::new(s, e));
            run.count(1, 1, 1);
            if s > e {
                if r.is_ok() {
                    bad("inverted range accepted".into());
                }
                continue;
            }
            let Ok(r) = r else {
                bad("valid range rejected".into());
                continue;
            };
            let (a, b) = (to(s), to(e));
            if to(r.len()) != b - a || r.is_empty() != (a == b) {
                bad(format!("len/is_empty = {:?}/{}", r.len(), r.is_empty()));
            }
            let o: core::ops::Range<T> = r.into();
            if o.start != s || o.end != e || Range::from(s..e) != r || r.into_range() != (s..e) {
                bad("conversion".into());
            }
            for &x in vals {
                run.count(0, 1, 0);
                if r.contains(&x) != (a <= to(x) && to(x) < b) {
                    bad(format!("contains({x:?}) = {}", r.contains(&x)));
                }
                // shrink_front saturates
                let mut q = r;
                match guard(move || { q.shrink_front(x); q }) {
                    Ok(q) if to(q.start) == (a.saturating_add(to(x))).min(b) && q.end == e => {}
                    g => bad(format!("shrink_front({x:?}) = {g:?}")),
                }
                let mut q = r;
                match (guard(move || { q.truncate(x); q }), to(x) <= b - a) {
                    (Ok(q), true) if q.start == s && to(q.end) == a + to(x) => {}
                    (Err(_), false) => {}
                    (g, _) => bad(format!("truncate({x:?}) = {g:?}")),
                }
            }
            // every sequence of pops from both ends, up to depth 4
            for n in 0..=4usize {
                for bits in 0..1u32 << n {
                    let (mut q, mut m) = (r, (a, b));
                    for k in 0..n {
                        let front = bits >> k & 1 == 0;
                        let want = if m.0 == m.1 {
                            None
                        } else if front {
                            m.0 += 1;
                            Some(m.0 - 1)
                        } else {
                            m.1 -= 1;
                            Some(m.1)
                        };
                        let got = guard(move || { let x = if front { q.pop_front() } else { q.pop_back() }; (x, q) });
                        run.count(0, 1, 0);
                        match got {
                            Ok((x, nq)) if x.map(&to) == want && (to(nq.start), to(nq.end)) == m => q = nq,
                            g => {
                                bad(format!("pops {bits:b}/{n} step {k} = {g:?}, expected {want:?} leaving {m:?}"));
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
    // ordering is lexicographic
    for &s in vals { for &e in vals { for &s2 in vals { for &e2 in vals {
        if s <= e && s2 <= e2 {
            run.count(0, 1, 0);
            let (x, y) = (Range::new(s, e), Range::new(s2, e2));
            if x.cmp(&y) != (s, e).cmp(&(s2, e2)) || x.partial_cmp(&y) != Some((s, e).cmp(&(s2, e2))) || (x == y) != ((s, e) == (s2, e2)) {
                run.violation(format!("{name} ordering {x:?} {y:?}"), format!("ordering of {x:?} and {y:?}"));
            }
        }
    }}}}
}

pub fn c06(run: &Run) {
    let small: Vec<u64> = (0..=run.pick(6u64, 9)).collect();
    let usz: Vec<usize> = small.iter().map(|&x| x as usize).chain([usize::MAX - 1, usize::MAX]).collect();
    ranges_of(run, "usize", &usz, |x| x as u128);
    let u8s: Vec<u8> = small.iter().map(|&x| x as u8).chain([254, 255]).collect();
    ranges_of(run, "u8", &u8s, |x| x as u128);
    let u32s: Vec<u32> = small.iter().map(|&x| x as u32).chain([u32::MAX - 1, u32::MAX]).collect();
    ranges_of(run, "u32", &u32s, |x| x as u128);
    let u64s: Vec<u64> = small.iter().copied().chain([u64::MAX - 1, u64::MAX]).collect();
    ranges_of(run, "u64", &u64s, |x| x as u128);
    let u16s: Vec<u16> = small.iter().map(|&x| x as u16).chain([u16::MAX - 1, u16::MAX]).collect();
    ranges_of(run, "u16", &u16s, |x| x as u128);
    run.bound(format!("ranges: all start/end/argument values in 0..={} plus the two largest values of the type, for u8, u16, u32, u64, usize; all pop sequences of length <= 4", small.len() - 1));
    // resolution of bounds
    let m = run.pick(5usize, 8);
    let mk = |k: usize, i: usize| match k {
        0 => Bound::Included(i),
        1 => Bound::Excluded(i),
        _ => Bound::Unbounded,
    };
    for al in 0..=m { for ah in al..=m { for ks in 0..3 { for ke in 0..3 { for s in 0..=m { for e in 0..=m {
        let (bs, be) = (mk(ks, s), mk(ke, e));
        let allowed = Range::new(al, ah);
        let ws = match bs { Bound::Included(i) => i, Bound::Excluded(i) => i + 1, _ => al };
        let we = match be { Bound::Included(i) => i + 1, Bound::Excluded(i) => i, _ => ah };
        let want = if ws <= we && ws >= al && we <= ah { Ok(Range::new(ws, we)) } else { Err(ws..we) };
        run.count(1, 2, 1);
        match guard(|| range_from_bounds((bs, be), allowed)) {
            Ok(g) if g == want => {}
            g => run.violation(format!("range_from_bounds {bs:?} {be:?} {allowed:?}"), format!("range_from_bounds({bs:?}, {be:?}, {allowed:?}) = {g:?}, expected {want:?}")),
        }
        if ws <= we {
            match guard(|| range_from_bounds_with_defaults((bs, be), al, ah)) {
                Ok(g) if g == Range::new(ws, we) => {}
                g => run.violation(format!("with_defaults {bs:?} {be:?} {allowed:?}"), format!("range_from_bounds_with_defaults({bs:?}, {be:?}, {al}, {ah}) = {g:?}, expected {ws}..{we}")),
            }
        }
    }}}}}}
    run.bound(format!("bound resolution: all bounds and allowed ranges over 0..={m}"));
    // newline searches
    let max = run.pick(8, 9);
    let bufs = strings(&["a", "\n", "\r"], max);
    run.bound(format!("newline searches: all buffers of length 0..={max} over a, LF, CR; every offset and sub-range"));
    par_for(run, bufs.len(), |i| {
        let b = bufs[i].as_bytes();
        let n = b.len();
        let ty = |nl: &Newline| match nl.ty { LineEnding::Lf => 'L', LineEnding::Crlf => 'C', LineEnding::None => 'N' };
        let describe = |lf: Option<usize>, none: usize| match lf {
            None => (none, 'N', none),
            Some(p) if p > 0 && b[p - 1] == b'\r' => (p - 1, 'C', p + 1),
            Some(p) => (p, 'L', p + 1),
        };
        let cmp = |w: String, g: Result<Newline, String>, want: (usize, char, usize)| {
            let ok = matches!(&g, Ok(nl) if nl.offset() == want.0 && nl.offset == want.0 && ty(nl) == want.1 && nl.next_line_start() == want.2 && nl.is_crlf() == (want.1 == 'C'));
            if !ok {
                run.violation(format!("{w} {b:?}"), format!("{w} of {:?} = {g:?}, expected (offset, kind, next line) {want:?}", bufs[i]));
            }
        };
        let mut c = 2;
        for o in 0..=n {
            c += 2;
            let want = describe((o..n).find(|&p| b[p] == b'\n'), n);
            cmp(format!("next_from({o})"), guard(|| Newline::next_from(b, o)), want);
            let want = describe((0..o).rev().find(|&p| b[p] == b'\n'), 0);
            cmp(format!("prev_from({o})"), guard(|| Newline::prev_from(b, o)), want);
            for e in o..=n {
                c += 4;
                let r = Range::new(o, e);
                let crlf = |p: &usize| b[*p] == b'\r' && *p + 1 < e && b[*p + 1] == b'\n';
                let w = [
                    (o..e).find(|&p| b[p] == b'\n'),
                    (o..e).find(crlf),
                    (o..e).rev().find(|&p| b[p] == b'\n'),
                    (o..e).rev().find(crlf),
                ];
                let g = guard(|| [find_next_lf_or_eof(b, r), find_next_crlf_or_eof(b, r), find_prev_lf_or_eof(b, r), find_prev_crlf_or_eof(b, r)]);
                if g != Ok(w) {
                    run.violation(format!("find {o}..{e} {b:?}"), format!("find next lf/crlf, prev lf/crlf in {:?}[{o}..{e}] = {g:?}, expected {w:?}", bufs[i]));
                }
            }
        }
        cmp("next".into(), guard(|| Newline::next(b)), describe((0..n).find(|&p| b[p] == b'\n'), n));
        cmp("prev".into(), guard(|| Newline::prev(b)), describe((0..n).rev().find(|&p| b[p] == b'\n'), 0));
        run.count(1, c, 1);
    });
    // character boundaries
    for t in strings(&["a", "é", "€", "\u{1F600}"], run.pick(4, 5)) {
        for o in 0..=t.len() + 2 {
            run.count(0, 1, 0);
            if is_char_boundary(t.as_bytes(), o) != t.is_char_boundary(o) {
                run.violation(format!("is_char_boundary {t:?} {o}"), format!("is_char_boundary({t:?}, {o})"));
            }
        }
        run.count(1, 0, 1);
    }
    run.assume("a newline search that finds a LF preceded by CR reports the CR as the start of the terminator, even when the search started between the two");
}

// ------------------------------------------------------------------------------------------ C07

/// What non-strict reading must produce: CRLF and LF both become LF, and the final line's
/// terminator is not part of the text.
fn relaxed(t: &str) -> String {
    let mut s = t.replace("\r\n", "\n");
    if s.ends_with('\n') {
        s.pop();
    }
    s
}

/// Independent glob semantics for `*`, `?`, `[..]`-free patterns (names without '/').
fn glob_match(p: &[u8], s: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'*') => (0..=s.len()).any(|k| glob_match(&p[1..], &s[k..])),
        Some(b'?') => !s.is_empty() && glob_match(&p[1..], &s[1..]),
        Some(c) => s.first() == Some(c) && glob_match(&p[1..], &s[1..]),
    }
}

pub fn child_read(strict: bool) -> ! {
    let r = Input::from(Path::new("-")).read_to_string(strict);
    match r {
        Ok(s) => {
            use std::io::Write;
            std::io::stdout().write_all(s.as_bytes()).unwrap();
            std::process::exit(0)
        }
        Err(_) => std::process::exit(3),
    }
}

pub fn c07(run: &Run) {
    let sc = Scratch::new("c07");
    let dir = sc.path();
    let alpha = ["a", "\n", "\r", "é"];
    let max = run.pick(5, 7);
    let mut texts = strings(&alpha, max);
    let tails = strings(&["\r", "\n", "a"], 4);
    for pad in 8187..=8194usize {
        for t in &tails {
            texts.push(format!("{}{}", "p".repeat(pad), t));
            if pad % 4 == 0 {
                texts.push(format!("{}{}", "pp\r\n".repeat(pad / 4), t));
            }
        }
    }
    run.bound(format!("texts: all of length 0..={max} over {alpha:?}, and every tail of length <= 4 over CR, LF, a placed across the 8 KiB read-buffer boundary"));
    par_for(run, texts.len(), |i| {
        let t = &texts[i];
        let f = dir.join(format!("f{i}.mir"));
        std::fs::write(&f, t).unwrap();
        let input = Input::from(f.as_path());
        for strict in [true, false] {
            let want = if strict { t.clone() } else { relaxed(t) };
            let short = if t.len() > 100 { format!("..({} bytes)..{:?}", t.len(), &t[t.len() - 8..]) } else { format!("{t:?}") };
            match guard(|| input.read_to_string(strict).map_err(|e| e.to_string())) {
                Ok(Ok(s)) if s == want => {}
                g => run.violation(format!("read strict={strict} {short}"), format!("read_to_string(strict={strict}) of {short} = {g:?}, expected {want:?}").chars().take(2000).collect::<String>()),
            }
            let mgr = litcheck::diagnostics::DefaultSourceManager::default();
            match guard(|| input.into_source(strict, &mgr).map_err(|e| e.to_string())) {
                Ok(Ok(s)) if s.as_str() == want && s.uri().as_str() == f.to_str().unwrap() => {}
                g => run.violation(format!("into_source strict={strict} {short}"), format!("into_source(strict={strict}) of {short} = {g:?}").chars().take(2000).collect::<String>()),
            }
        }
        let _ = std::fs::remove_file(&f);
        run.count(1, 4, 1);
    });
    // standard input
    let texts = strings(&["a", "\n", "\r"], run.pick(4, 5));
    run.bound(format!("standard input: all texts of length 0..={} over a, LF, CR", run.pick(4, 5)));
    let me = std::env::current_exe().unwrap();
    par_for(run, texts.len() * 2, |k| {
        let (t, strict) = (&texts[k / 2], k % 2 == 0);
        use std::io::Write;
        let mut ch = std::process::Command::new(&me)
            .args(["--read-stdin", if strict { "strict" } else { "lax" }])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()
            .unwrap();
        ch.stdin.take().unwrap().write_all(t.as_bytes()).unwrap();
        let out = ch.wait_with_output().unwrap();
        let want = if strict { t.clone() } else { relaxed(t) };
        if !out.status.success() || out.stdout != want.as_bytes() {
            run.violation(format!("stdin strict={strict} {t:?}"), format!("reading {t:?} from standard input (strict={strict}) gave {:?} {:?}, expected {want:?}", out.status, String::from_utf8_lossy(&out.stdout)));
        }
        run.count(1, 1, 1);
    });
    // errors: directories, missing files, invalid UTF-8
    let bin = dir.join("bin");
    std::fs::write(&bin, [b'a', 0xff, b'\n']).unwrap();
    for (what, p) in [("directory", dir.to_path_buf()), ("missing file", dir.join("nope")), ("missing relative file", "nope/nope".into()), ("non-UTF-8 file", bin.clone())] {
        for strict in [true, false] {
            run.count(1, 1, 1);
            match guard(|| Input::from(p.as_path()).read_to_string(strict).map_err(|_| ())) {
                Ok(Err(())) => {}
                g => run.violation(format!("{what} {strict}"), format!("reading a {what} (strict={strict}) gave {g:?}, expected an error")),
            }
        }
    }
    // glob / file types over every small directory layout
    let names = ["a.txt", "b.txt", "a.md", ".h.txt", "txt", "sub/a.txt", "sub/c.md", "sub/deep/b.txt", "x.txt/y.md"];
    let pats = ["*.txt", "*", "a.*", "?.txt", "sub/*", "*/a.txt", "**/*.md", "zzz"];
    run.bound(format!("globbing: every subset of {} file names in up to 3 directory levels, patterns {pats:?}, file type sets", names.len()));
    let tysets: [&[&str]; 5] = [&["txt"], &["md"], &["txt", "md"], &[], &["zip", "h"]];
    par_for(run, 1 << names.len(), |mask| {
        let d = dir.join(format!("g[{mask}]"));
        std::fs::create_dir_all(&d).unwrap();
        let present: Vec<&str> = names.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, n)| *n).collect();
        for n in &present {
            let p = d.join(n);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, "").unwrap();
        }
        let input = Input::from(d.as_path());
        let rel = |v: Vec<Input>| -> Vec<String> {
            let mut v: Vec<String> = v.iter().map(|i| i.path().strip_prefix(&d).map(|p| p.display().to_string()).unwrap_or_else(|_| format!("OUTSIDE {}", i.path().display()))).collect();
            v.sort();
            v
        };
        for p in pats {
            // `*` crosses directory separators in this dialect; `**/` matches any number of directories
            let want: Vec<String> = {
                let mut v: Vec<String> = present.iter().filter(|n| {
                    if let Some(r) = p.strip_prefix("**/") {
                        let mut segs: &str = n;
                        loop {
                            if glob_match(r.as_bytes(), segs.as_bytes()) { break true; }
                            match segs.split_once('/') { Some((_, t)) => segs = t, None => break false }
                        }
                    } else {
                        glob_match(p.as_bytes(), n.as_bytes())
                    }
                }).map(|s| s.to_string()).collect();
                v.sort();
                v
            };
            let got = guard(|| input.glob(p).map(&rel).map_err(|e| e.to_string()));
            run.count(0, 1, 0);
            if got != Ok(Ok(want.clone())) {
                run.violation(format!("glob {p} {present:?}"), format!("glob({p:?}) over {present:?} = {got:?}, expected {want:?}"));
            }
        }
        for tys in tysets {
            let tyv: Vec<String> = tys.iter().map(|s| s.to_string()).collect();
            let mut want: Vec<String> = present.iter().filter(|n| {
                let base = n.rsplit('/').next().unwrap();
                matches!(base.rfind('.'), Some(k) if k > 0 && tys.contains(&&base[k + 1..]))
            }).map(|s| s.to_string()).collect();
            want.sort();
            let got = guard(|| input.get_file_types(&tyv).map(&rel).map_err(|e| e.to_string()));
            run.count(0, 1, 0);
            if got != Ok(Ok(want.clone())) {
                run.violation(format!("types {tys:?} {present:?}"), format!("get_file_types({tys:?}) over {present:?} = {got:?}, expected {want:?}"));
            }
        }
        for recursive in [true, false] {
            let mut want: Vec<String> = present.iter().filter(|n| n.ends_with(".txt") && (recursive || !n.contains('/'))).map(|s| s.to_string()).collect();
            want.sort();
            let got = guard(|| {
                let mut v: Vec<String> = litcheck::fs::search_directory(&d, recursive, |e| e.path().extension().is_some_and(|x| x == "txt") || e.path().file_name().is_some_and(|x| x == ".txt"))
                    .map(|e| e.unwrap().path().strip_prefix(&d).unwrap().display().to_string())
                    .collect();
                v.sort();
                v
            });
            run.count(0, 1, 0);
            if got != Ok(want.clone()) {
                run.violation(format!("search {recursive} {present:?}"), format!("search_directory(recursive={recursive}, *.txt) over {present:?} = {got:?}, expected {want:?}"));
            }
        }
        let _ = std::fs::remove_dir_all(&d);
        run.count(1, 0, 1);
    });
    // pattern sets against an independent matcher
    let pats = strings(&["a", "b", "*", "?"], 3);
    let subj = strings(&["a", "b", "."], 3);
    let ok: Vec<&String> = pats.iter().filter(|p| !p.contains("**")).collect();
    run.bound("pattern sets: all pairs of glob patterns of length <= 3 over a, b, *, ? (without **) against all names of length <= 3");
    par_for(run, ok.len(), |i| {
        for j in i..ok.len() {
            let set: litcheck::fs::PatternSet = [ok[i].parse().unwrap(), ok[j].parse::<litcheck::fs::Pattern>().unwrap()].into_iter().collect();
            for s in &subj {
                let want = glob_match(ok[i].as_bytes(), s.as_bytes()) || glob_match(ok[j].as_bytes(), s.as_bytes());
                if set.matches(s) != want || set.matches_path(Path::new(s)) != want {
                    run.violation(format!("patternset {} {} {s}", ok[i], ok[j]), format!("pattern set {{{}, {}}} against {s:?}: {} / {}, expected {want}", ok[i], ok[j], set.matches(s), set.matches_path(Path::new(s))));
                }
            }
            let distinct: BTreeSet<&String> = [ok[i], ok[j]].into();
            if set.is_empty() || set.iter().count() != distinct.len() {
                run.violation(format!("patternset size {} {}", ok[i], ok[j]), "wrong number of patterns");
            }
            run.count(1, subj.len() as u64 * 2, 1);
        }
    });
}
