//! The enumerations behind the FileCheck properties: families of check files crossed with all
//! inputs of a bounded size.
use crate::fc::*;
use crate::fcm::*;
use crate::fw::*;

pub struct Suite {
    pub tag: &'static str,
    pub files: Vec<Vec<Ck>>,
    pub inputs: Vec<String>,
    pub opts: Vec<Opt>,
    pub spans: bool,
    /// The input is given with CRLF line endings.
    pub crlf: bool,
}

pub fn re(k: Kind, r: &str) -> Ck {
    Ck::new(k, vec![Part::Re(r.into())])
}
pub fn lit(k: Kind, s: &str) -> Ck {
    Ck::lit(k, s)
}
pub fn parts(k: Kind, p: &[Part]) -> Ck {
    Ck::new(k, p.to_vec())
}
pub fn l(s: &str) -> Part {
    Part::Lit(s.into())
}
pub fn r(s: &str) -> Part {
    Part::Re(s.into())
}
pub fn d(n: &str, x: &str) -> Part {
    Part::Def(n.into(), x.into())
}
pub fn u(n: &str) -> Part {
    Part::Use(n.into())
}
pub fn num(f: Option<NumFmt>, def: Option<&str>, e: Option<Ex>) -> Part {
    Part::Num { fmt: f, def: def.map(Into::into), expr: e }
}
pub fn v(n: &str) -> Ex {
    Ex::Var(n.into())
}
pub fn b(o: char, x: Ex, y: Ex) -> Ex {
    Ex::Bin(o, Box::new(x), Box::new(y))
}
pub fn f(conv: char, prec: u32, alt: bool) -> NumFmt {
    NumFmt { conv, prec, alt }
}
/// Check files whose first positive check may come first.
fn seqs(items: &[Ck], lo: usize, hi: usize) -> Vec<Vec<Ck>> {
    sequences(items, lo, hi)
        .into_iter()
        .filter(|f| {
            !matches!(f.iter().find(|c| c.kind != Not).unwrap_or(&f[0]).kind, Next | Empty | Same)
        })
        .collect()
}
/// All sequences of up to `max` of the items that have both of the first two.
fn mixes(items: &[Vec<Part>], max: usize) -> Vec<Vec<Part>> {
    let mut out = vec![];
    for len in 2..=max {
        for mut c in 0..items.len().pow(len as u32) {
            let mut q = vec![];
            for _ in 0..len {
                q.push(c % items.len());
                c /= items.len();
            }
            if q.contains(&0) && q.contains(&1) {
                out.push(q.iter().flat_map(|&i| items[i].clone()).collect());
            }
        }
    }
    out
}
fn s(tag: &'static str, files: Vec<Vec<Ck>>, inputs: Vec<String>) -> Suite {
    Suite { tag, files, inputs, opts: vec![Opt::default()], spans: true, crlf: false }
}

pub fn suites(id: &str, deep: bool) -> Vec<Suite> {
    let n = |q: usize, t: usize| if deep { t } else { q };
    let abn = |k: usize| strings(&["a", "b", "\n"], k);
    let lines = |k: usize| inputs(&["", "a", "b", "ab", "ba"], k);
    match id {
        "F01" => {
            let lits = [lit(Plain, "a"), lit(Plain, "b"), lit(Plain, "ab"), lit(Plain, "aa"), lit(Plain, "ba")];
            let res = [lit(Plain, "a"), re(Plain, "a+"), re(Plain, "b|ab"), re(Plain, "[ab]$"), re(Plain, "^a"), parts(Plain, &[l("a"), r("b*")]), parts(Plain, &[r("a*"), l("b")])];
            let nothing = [lit(Plain, "a"), lit(Plain, "b"), re(Plain, "a*"), re(Plain, "^"), re(Plain, "$"), re(Plain, "^$"), parts(Plain, &[r("b*"), r("a?")])];
            vec![
                s("literals", sequences(&lits, 1, n(4, 5)), abn(n(6, 7))),
                s("regexes", sequences(&res, 1, n(3, 4)), abn(n(6, 7))),
                s("empty matches", sequences(&nothing, 1, n(4, 5)), abn(n(5, 6))),
            ]
        }
        "F02" => {
            let items = [lit(Plain, "a"), lit(Plain, "b"), lit(Next, "a"), lit(Next, "b"), lit(Same, "a"), lit(Same, "b"), lit(Empty, "")];
            let mix = [lit(Plain, "a"), re(Plain, "b$"), re(Next, "^a"), re(Next, "b*"), re(Same, "$"), parts(Same, &[l("a"), r("b?")]), lit(Empty, ""), re(Same, "[ab]")];
            vec![
                s("literals", seqs(&items, 1, n(4, 5)), abn(n(6, 7))),
                s("regexes", seqs(&mix, 1, n(3, 4)), abn(n(6, 7))),
                s("lines", seqs(&items, 1, n(3, 4)), inputs(&["", "a", "b", "ab"], n(4, 6))),
            ]
        }
        "F03" => {
            let items = [lit(Plain, "a"), lit(Plain, "b"), lit(Not, "a"), lit(Not, "ab"), lit(Next, "b"), lit(Same, "b"), lit(Empty, "")];
            let nothing = [lit(Plain, "a"), re(Plain, "b*"), re(Plain, "$"), re(Next, "^"), re(Same, "a?"), lit(Empty, ""), re(Not, "$"), re(Not, "^$"), lit(Not, "b"), re(Not, "a*b")];
            let mix = [lit(Plain, "a"), lit(Next, "b"), lit(Not, "b"), re(Not, "a+b"), re(Not, "^b"), parts(Not, &[l("a"), r("$")]), lit(Dag, "a"), lit(Label, "b"), lit(Count(2), "a")];
            vec![
                s("literals", seqs(&items, 1, n(4, 5)), abn(n(6, 6))),
                s("regexes", seqs(&mix, 1, n(4, 4)), abn(n(5, 6))),
                s("lines", seqs(&items, 1, n(4, 5)), lines(n(3, 4))),
                s("empty matches", seqs(&nothing, 1, n(4, 4)), lines(n(2, 3))),
            ]
        }
        "F04" => {
            let lits = [lit(Dag, "a"), lit(Dag, "b"), lit(Dag, "ab"), lit(Dag, "c"), lit(Plain, "a"), lit(Plain, "b"), lit(Not, "b")];
            let res = [re(Dag, "a+"), lit(Dag, "b"), parts(Dag, &[l("a"), r("b")]), parts(Dag, &[r("[ab]"), l("a")]), lit(Plain, "a"), re(Plain, "b|ab"), lit(Not, "a"), re(Not, "b+"), parts(Not, &[r("b"), l("a")])];
            let nothing = [lit(Plain, "a"), re(Plain, "b*"), re(Plain, "$"), re(Dag, "a*"), re(Dag, "$"), lit(Dag, "b"), re(Not, "^$"), re(Next, "^")];
            let near = [lit(Dag, "a"), lit(Dag, "b"), lit(Next, "a"), lit(Same, "b"), lit(Empty, ""), lit(Label, "c"), lit(Count(2), "a"), lit(Plain, "b")];
            let vars = [parts(Plain, &[l("a"), d("X", ".*")]), parts(Plain, &[u("X")]), parts(Dag, &[l("a"), d("X", "b*")]), parts(Dag, &[u("X")]), parts(Dag, &[l("b"), u("X")]), lit(Dag, "a")];
            vec![
                s("literals", seqs(&lits, 1, n(4, 5)), strings(&["a", "b", "c", "\n"], n(4, 5))),
                s("regexes", seqs(&res, 1, 4), lines(n(2, 3))),
                s("neighbours", seqs(&near, 2, n(4, 4)), inputs(&["", "a", "b", "c", "ba"], n(3, 4))),
                s("variables", seqs(&vars, 1, n(3, 4)), lines(n(3, 3))),
                s("empty matches", seqs(&nothing, 1, n(4, 4)), lines(n(2, 3))),
            ]
        }
        "F05" => {
            let items = [lit(Plain, "a"), lit(Plain, "b"), lit(Label, "L"), lit(Not, "a"), lit(Dag, "a"), lit(Next, "b"), lit(Empty, "")];
            let nothing = [lit(Plain, "a"), re(Plain, "b*"), re(Plain, "$"), re(Label, "^"), re(Label, "$"), re(Label, "a*b"), re(Label, "^$"), lit(Empty, ""), lit(Not, "b")];
            let two = [lit(Plain, "a"), lit(Label, "L"), lit(Label, "M"), re(Label, "^M$"), lit(Not, "b"), lit(Same, "b"), lit(Count(2), "a")];
            let with = |v: Vec<Vec<Ck>>| v.into_iter().filter(|f| f.iter().any(|c| c.kind == Label)).collect::<Vec<_>>();
            let mut scope = vec![];
            let vars = [parts(Plain, &[d("X", "[ab]")]), parts(Plain, &[u("X")]), parts(Plain, &[d("$X", "[ab]")]), parts(Plain, &[u("$X")]), lit(Label, "L"), parts(Not, &[u("X")])];
            for sc in [false, true] {
                let mut x = s("scoped variables", with(seqs(&vars, 2, n(4, 5))), inputs(&["a", "b", "L"], n(4, 5)));
                x.opts = vec![Opt { scope: sc, ..Opt::default() }];
                scope.push(x);
            }
            let mut all = vec![
                s("blocks", with(seqs(&items, 1, n(4, 5))), inputs(&["", "a", "b", "L"], n(4, 5))),
                s("two labels", with(seqs(&two, 1, n(4, 4))), inputs(&["a", "b", "L", "M", "ab"], n(4, 5))),
                s("same line", with(seqs(&items, 1, n(3, 4))), inputs(&["", "aL", "La", "b", "L"], n(3, 4))),
                s("empty matches", with(seqs(&nothing, 1, n(4, 4))), inputs(&["", "a", "b", "ab"], n(3, 4))),
            ];
            all.append(&mut scope);
            all
        }
        "F06" => {
            let mut items = vec![lit(Plain, "a"), lit(Plain, "b"), lit(Not, "b"), lit(Next, "a"), lit(Same, "a"), lit(Dag, "b"), lit(Empty, "")];
            for k in 1..=n(3, 4) as u32 {
                items.push(lit(Count(k), "a"));
            }
            items.push(re(Count(2), "a|b"));
            items.push(re(Count(2), "^a"));
            items.push(parts(Count(2), &[l("a"), d("X", "b*")]));
            let with = |v: Vec<Vec<Ck>>| v.into_iter().filter(|f| f.iter().any(|c| matches!(c.kind, Count(_)))).collect::<Vec<_>>();
            let nothing = [lit(Plain, "a"), re(Plain, "$"), re(Count(2), "a*"), re(Count(2), "$"), re(Count(3), "^"), re(Count(2), "b?"), re(Next, "^a?"), lit(Not, "b"), lit(Empty, "")];
            vec![s("counts", with(seqs(&items, 1, n(3, 4))), abn(n(6, 7))), s("empty matches", with(seqs(&nothing, 1, n(3, 4))), abn(n(5, 6)))]
        }
        "F07" => {
            let items = [parts(Plain, &[l("a"), d("X", ".*")]), parts(Plain, &[u("X")]), parts(Plain, &[l("a"), u("X")]), parts(Not, &[u("X")]), lit(Plain, "b"), parts(Next, &[u("X")]), parts(Same, &[d("Y", "b")]), parts(Same, &[u("Y")])];
            let line = [parts(Plain, &[d("X", "[ab]"), u("X")]), parts(Plain, &[d("X", "a"), l("b"), u("X")]), parts(Plain, &[u("X"), d("Y", "[ab]")]), parts(Plain, &[d("Y", "b+"), d("X", "a?")]), parts(Plain, &[u("Y"), u("X")]), parts(Plain, &[l("a"), u("X"), l("b")]), parts(Not, &[l("b"), u("Y")]), lit(Label, "b")];
            let mut out = vec![];
            for scope in [false, true] {
                let mut files = seqs(&line, 1, n(3, 3));
                if scope {
                    // whether a command-line variable outlives a label is not specified
                    files.retain(|f| f.iter().all(|c| c.kind != Label));
                }
                let mut defs = s("command-line variables", files, abn(n(5, 6)));
                defs.opts = ["a", "ab", ""].iter().map(|x| Opt { scope, defs: vec![("X".into(), Val::S(x.to_string()))], ..Opt::default() }).collect();
                out.push(defs);
            }
            out.push(s("captures", seqs(&items, 1, 4), lines(n(3, 3))));
            let again = [parts(Plain, &[l("="), d("X", "[ab]")]), parts(Plain, &[l("="), d("$X", "[ab]")]), parts(Plain, &[l("<"), u("X")]), parts(Plain, &[l("<"), u("$X")]), parts(Same, &[d("$X", "[ab]"), l("<"), u("$X")]), lit(Label, "L")];
            for scope in [false, true] {
                let mut x = s("redefinition", seqs(&again, 2, 4), strings(&["=a", "=b", "<a", "<b", "\nL\n"], n(4, 5)));
                x.opts = vec![Opt { scope, ..Opt::default() }];
                out.push(x);
            }
            // (that "$X" falls back to the value given for "X" is not specified)
            let defined = |f: &Vec<Ck>| {
                let uses = |c: &Ck| c.parts.iter().any(|p| matches!(p, Part::Use(v) if v == "$X"));
                let defs = |c: &Ck| c.parts.iter().any(|p| matches!(p, Part::Def(v, _) if v == "$X"));
                (0..f.len()).all(|i| !uses(&f[i]) || f[..=i].iter().any(|c| defs(c)))
            };
            let mut x = s("redefinition, with a value given", seqs(&again, 2, n(3, 4)).into_iter().filter(defined).collect(), strings(&["=a", "=b", "<a", "<b", "\nL\n"], n(4, 5)));
            x.opts = ["a", "b"].iter().map(|v| Opt { defs: vec![("X".into(), Val::S(v.to_string()))], ..Opt::default() }).collect();
            out.push(x);
            out.push(s("same line", seqs(&line, 1, n(3, 4)), abn(n(5, 6))));
            // values are text, whatever a regular expression would make of them
            let meta = [parts(Plain, &[l("="), d("X", ".+"), l(";")]), parts(Plain, &[u("X")]), parts(Plain, &[l("b"), u("X"), l("b")]), parts(Plain, &[r("[a.]"), u("X")]), parts(Next, &[u("X")]), parts(Not, &[u("X")]), parts(Dag, &[u("X")])];
            let mut files = seqs(&meta, 2, 3);
            files.retain(|f| f[0].parts.len() == 3);
            let mut ins = vec![];
            let chars: &[&str] = if deep { &["a", ".", "*", "|", "(", "["] } else { &["a", ".", "*", "("] };
            for x in strings(chars, 2) {
                for t in strings(chars, n(2, 2)) {
                    ins.push(format!("={x};{t}"));
                    ins.push(format!("={x};\nb{t}b"));
                    ins.push(format!("={x};\n{t}{x}"));
                }
            }
            out.push(s("metacharacters", files, ins));
            // definitions and uses in every kind of check
            let kinds = [
                parts(Plain, &[l("="), d("X", "[ab]")]),
                parts(Plain, &[u("X")]),
                parts(Not, &[u("X")]),
                parts(Not, &[l("="), d("X", "[ab]"), u("X")]),
                parts(Dag, &[u("X")]),
                parts(Dag, &[d("X", "[ab]"), l("1")]),
                parts(Dag, &[l("="), d("Y", "[ab]")]),
                parts(Plain, &[u("Y"), l("1")]),
                parts(Not, &[u("Y")]),
                parts(Count(2), &[u("X")]),
                parts(Count(2), &[d("X", "[ab]"), l("1")]),
                parts(Next, &[u("X")]),
                parts(Same, &[d("X", "[ab]")]),
                lit(Label, "L"),
            ];
            let mut ins = inputs(&["=a", "=b", "a1", "b1", "=aa1", "L"], 4);
            if !deep {
                let mut k = 0;
                ins.retain(|_| {
                    k += 1;
                    k % 4 == 1
                });
            }
            out.push(s("every kind", seqs(&kinds, 2, n(3, 4)), ins));
            // what a failed attempt to match captured is forgotten
            let (mut files, mut ins) = (vec![], vec![]);
            for q in mixes(&[vec![u("X")], vec![d("X", "[ab]")], vec![l(",")]], 4) {
                // (defining a variable twice between two uses is an error)
                if q.iter().filter(|p| !matches!(p, Part::Lit(_))).collect::<Vec<_>>().windows(2).any(|w| matches!((w[0], w[1]), (Part::Def(..), Part::Def(..)))) {
                    continue;
                }
                for k in [Plain, Not, Dag, Count(2)] {
                    files.push(vec![parts(Plain, &[l("="), d("X", "[ab]")]), parts(k, &q)]);
                    files.push(vec![parts(Plain, &[l("="), d("X", "[ab]")]), parts(k, &q), parts(Plain, &[l(">"), u("X")])]);
                }
            }
            for t in strings(&["a", "b", ","], n(5, 7)) {
                for tail in ["", ">a", ">b"] {
                    ins.push(format!("=a{t}{tail}"));
                }
            }
            out.push(s("attempts", files, ins));
            // several captures around a use, some of them of nothing
            let (mut files, mut ins) = (vec![], vec![]);
            for (y, z) in [("a*", "b?"), ("(a)?b", "a|b|"), ("[ab]", "b*")] {
                for q in mixes(&[vec![l(","), u("X")], vec![d("Y", y)], vec![d("Z", z)], vec![l(",")]], n(3, 4)) {
                    let has = |v: &str| q.iter().any(|p| matches!(p, Part::Def(n, _) if n == v));
                    let again = |v: &str| q.iter().filter(|p| matches!(p, Part::Def(n, _) if n == v)).count() > 1;
                    if again("Y") || again("Z") {
                        continue;
                    }
                    let mut q = q.clone();
                    q.push(l(";"));
                    let first = vec![parts(Plain, &[l("="), d("X", "[ab]")]), parts(Plain, &q)];
                    let mut uses = vec![l(">"), u("Y")];
                    if has("Z") {
                        uses.extend([l("/"), u("Z")]);
                    }
                    uses.push(l("<"));
                    files.push(first.iter().cloned().chain([parts(Plain, &uses)]).collect());
                    files.push(first);
                }
            }
            for t in strings(&["a", "b", ","], n(4, 5)) {
                for tail in ["", ">a<", "></<", ">a/b<", ">b/<", ">b/b<"] {
                    ins.push(format!("=a{t};{tail}"));
                }
            }
            out.push(s("captures around a use", files, ins));
            // exclusions of values which the checks after them replace, among others
            for g in [false, true] {
                let x = if g { "$X" } else { "X" };
                let y = if g { "$Y" } else { "Y" };
                let firsts = [vec![l("="), d(x, "[ab]")], vec![l("="), d(x, "[ab]"), d(y, "[ab]")]];
                let nots = [vec![u(x)], vec![l("<"), u(x)], vec![u(x), d("Z", "[ab]")]];
                let after = [vec![l(">"), d(x, "[ab]")], vec![l(">"), d(y, "[ab]"), d("Z", "[ab]"), d(x, "[ab]")], vec![l(">"), d("Z", "[ab]"), d(x, "[ab]"), d("W", "[ab]")], vec![l(">"), d("Z", "[ab]")]];
                let mut files = vec![];
                for a in &firsts {
                    for n1 in &nots {
                        for c in &after {
                            for k in [Plain, Dag] {
                                files.push(vec![parts(Plain, a), parts(Not, n1), parts(k, c)]);
                                for e in &after {
                                    files.push(vec![parts(Plain, a), parts(Not, n1), parts(k, c), parts(k, e)]);
                                }
                                files.push(vec![parts(Plain, a), parts(Not, n1), parts(k, c), parts(Not, n1), parts(Plain, &after[0])]);
                            }
                        }
                    }
                }
                let mut ins = vec![];
                for between in strings(&["a", "b", "<a"], 2) {
                    for t in ["a", "b", "aab", "bba", "aba", "abb"] {
                        ins.push(format!("=aa\n{between}\n>{t}"));
                        for z in ["a", "b", "<b\n>a", "<a\n>b", "bab"] {
                            ins.push(format!("=ab\n{between}\n>{t}\n>{z}"));
                        }
                    }
                }
                out.push(s("replaced after an exclusion", files, ins));
            }
            out.push(s("backtracking", vec![vec![parts(Plain, &[l("="), d("X", ".+"), l(";")]), parts(Plain, &[r("a?"), u("X")])]], ["=a;a", "=a;aa", "=b;ab", "=a;b"].map(String::from).to_vec()));
            for (n1, x) in [".", "a*", "(", "[a]", "\\", "^"].iter().enumerate() {
                let mut t = s("command-line metacharacters", seqs(&[parts(Plain, &[u("X")]), parts(Plain, &[l("a"), u("X")]), parts(Not, &[u("X")])], 1, 2), strings(&["a", ".", "*", "(", "[", "]", "\\", "^"], 4));
                t.opts = vec![Opt { defs: vec![("X".into(), Val::S(x.to_string()))], icase: n1 % 2 == 1, ..Opt::default() }];
                out.push(t);
            }
            out
        }
        "F08" => {
            let one = |e: Ex| vec![parts(Plain, &[l("<"), num(None, None, Some(e)), l(">")])];
            let ops: Vec<Ex> = vec![Ex::Int(0), Ex::Int(2), Ex::Int(7), Ex::Hex(10), v("N"), v("M"), Ex::Line];
            let mut exprs = ops.clone();
            for x in &ops {
                for y in &ops {
                    for o in ['+', '-'] {
                        exprs.push(b(o, x.clone(), y.clone()));
                    }
                    for g in ["add", "sub", "mul", "div", "min", "max"] {
                        exprs.push(Ex::Call(g, Box::new(x.clone()), Box::new(y.clone())));
                    }
                }
            }
            let mut three = vec![];
            let small = [Ex::Int(1), Ex::Int(5), v("N")];
            for x in &small {
                for y in &small {
                    for z in &small {
                        for o in ['+', '-'] {
                            for p in ['+', '-'] {
                                three.push(b(p, b(o, x.clone(), y.clone()), z.clone()));
                                three.push(b(o, x.clone(), Ex::Paren(Box::new(b(p, y.clone(), z.clone())))));
                            }
                            three.push(b(o, Ex::Call("mul", Box::new(x.clone()), Box::new(y.clone())), z.clone()));
                            three.push(Ex::Call("max", Box::new(b(o, x.clone(), y.clone())), Box::new(z.clone())));
                        }
                    }
                }
            }
            let nums: Vec<String> = (-16..=70).map(|x: i32| format!("<{x}>")).chain(["<>".into(), "<00>".into(), "<02>".into(), "<0x2>".into(), "<a>".into()]).collect();
            let d3 = |n: i128, m: i128| Opt { defs: vec![("N".into(), Val::N(n, NumFmt::U)), ("M".into(), Val::N(m, NumFmt::U))], ..Opt::default() };
            let o2 = vec![d3(3, 0), d3(10, 4)];
            let mut a = s("expressions", exprs.into_iter().map(one).collect(), nums.clone());
            a.opts = o2.clone();
            let mut t = s("nested", three.into_iter().map(one).collect(), nums);
            t.opts = o2;
            // values on both sides of zero
            let d = f('d', 0, false);
            let ops = [v("N"), v("M"), Ex::Int(2), Ex::Int(7), Ex::Paren(Box::new(b('-', Ex::Int(2), Ex::Int(5))))];
            let mut exprs = vec![];
            for x in &ops {
                for y in &ops {
                    for g in ["add", "sub", "mul", "div", "min", "max"] {
                        let e = Ex::Call(g, Box::new(x.clone()), Box::new(y.clone()));
                        exprs.push(Ex::Call("div", Box::new(e.clone()), Box::new(Ex::Int(3))));
                        exprs.push(b('-', Ex::Int(1), e.clone()));
                        exprs.push(e);
                    }
                }
            }
            let signed = |x: Ex| vec![parts(Plain, &[l("<"), num(Some(d), None, Some(x)), l(">")])];
            let mut neg = s("signed", exprs.into_iter().map(signed).collect(), (-55..=55).map(|x: i32| format!("<{x}>")).collect());
            neg.opts = [(-7, 2), (7, -2), (-7, -2), (-1, 0)].map(|(n, m)| Opt { defs: vec![("N".into(), Val::N(n, d)), ("M".into(), Val::N(m, d))], ..Opt::default() }).to_vec();
            // captured, then used
            let cap = vec![
                parts(Plain, &[l("<"), num(None, Some("N"), None), l(">")]),
                parts(Plain, &[l("<"), num(None, None, Some(b('+', v("N"), Ex::Int(1)))), l(">")]),
                parts(Plain, &[l("<"), num(None, Some("N"), Some(b('+', v("N"), Ex::Int(1)))), l(">")]),
                parts(Plain, &[l("<"), num(None, Some("M"), Some(b('-', v("N"), Ex::Int(1)))), l(">")]),
                parts(Plain, &[l("<"), num(None, None, Some(b('+', v("N"), v("M")))), l(">")]),
                parts(Next, &[l("<"), num(None, None, Some(Ex::Line)), l(">")]),
                parts(Not, &[l("<"), num(None, None, Some(v("N"))), l(">")]),
            ];
            let around = |p: Part| vec![l("<"), p, l(">")];
            let (mut files, mut ins) = (vec![], vec![]);
            for q in mixes(&[around(num(None, None, Some(b('+', v("N"), Ex::Int(1))))), around(num(None, Some("N"), None)), vec![l(",")]], 4) {
                // (defining a variable twice between two uses is an error)
                if q.iter().filter(|p| !matches!(p, Part::Lit(_))).collect::<Vec<_>>().windows(2).any(|w| matches!((w[0], w[1]), (Part::Num { def: Some(_), .. }, Part::Num { def: Some(_), .. }))) {
                    continue;
                }
                for k in [Plain, Not, Dag] {
                    let first = parts(Plain, &[l("="), num(None, Some("N"), None), l(";")]);
                    files.push(vec![first.clone(), parts(k, &q)]);
                    files.push(vec![first, parts(k, &q), parts(Plain, &[l("("), num(None, None, Some(v("N"))), l(")")])]);
                }
            }
            for t in strings(&["<1>", "<2>", "<3>", ","], n(4, 5)) {
                for tail in ["", "(1)", "(2)"] {
                    ins.push(format!("=1;{t}{tail}"));
                }
            }
            let attempts = s("attempts", files, ins);
            // several numbers in one pattern, each compared with something
            let mut files = vec![];
            let eqs = [Ex::Int(1), v("A"), b('+', v("A"), Ex::Int(1))];
            for e in &eqs {
                files.push(vec![parts(Plain, &[l("<"), num(None, Some("A"), None), l("><"), num(None, Some("B"), Some(e.clone())), l(">")])]);
                for g in &eqs {
                    let mut q = vec![l("<"), num(None, Some("A"), None), l("><"), num(None, Some("B"), Some(e.clone())), l("><"), num(None, Some("C"), Some(g.clone())), l(">")];
                    files.push(vec![parts(Plain, &q)]);
                    q.extend([l("("), num(None, None, Some(v("C"))), l(")")]);
                    files.push(vec![parts(Plain, &q)]);
                    files.push(vec![parts(Plain, &q[..7]), parts(Plain, &[l("("), num(None, None, Some(b('-', v("C"), v("A")))), l(")"), num(None, None, Some(v("B")))])]);
                }
            }
            let several = s("several", files, strings(&["<1>", "<2>", "(1)", "(2)", "(0)", "1"], n(5, 6)));
            let mut out = vec![a, t, neg, s("captured", seqs(&cap, 1, n(3, 4)), inputs(&["<0>", "<1>", "<2>", "<3>", "<1><2>"], n(3, 4))), attempts, several];
            let glob = [
                parts(Plain, &[l("<"), num(None, Some("$N"), None), l(">")]),
                parts(Plain, &[l("<"), num(None, Some("N"), None), l(">")]),
                parts(Plain, &[l("<"), num(None, None, Some(b('+', v("$N"), Ex::Int(1)))), l(">")]),
                parts(Plain, &[l("<"), num(None, None, Some(b('+', v("N"), Ex::Int(1)))), l(">")]),
                parts(Plain, &[l("<"), num(None, Some("$N"), Some(b('+', v("$N"), v("N")))), l(">")]),
                lit(Label, "L"),
            ];
            for scope in [false, true] {
                let mut x = s("global numbers", seqs(&glob, 2, n(4, 4)), inputs(&["<1>", "<2>", "<3>", "L"], n(4, 5)));
                x.opts = vec![Opt { scope, ..Opt::default() }];
                out.push(x);
            }
            out
        }
        "F09" => {
            let fs = [f('u', 0, false), f('d', 0, false), f('x', 0, false), f('X', 0, false), f('u', 2, false), f('d', 3, false), f('x', 2, false), f('X', 2, false), f('x', 0, true), f('X', 0, true), f('x', 2, true)];
            let pieces = ["0", "1", "9", "a", "A", "-", "x", "g"];
            let mut cap = vec![];
            let mut use_ = vec![];
            for &g in &fs {
                cap.push(vec![parts(Plain, &[num(Some(g), Some("N"), None)])]);
                cap.push(vec![parts(Plain, &[num(Some(g), None, None)])]);
                cap.push(vec![parts(Plain, &[l("g"), num(Some(g), Some("N"), None), l("g")])]);
                for h in std::iter::once(None).chain(fs.iter().map(|x| Some(*x))) {
                    use_.push(vec![
                        parts(Plain, &[l("<"), num(Some(g), Some("N"), None), l(">")]),
                        parts(Plain, &[l("<"), num(h, None, Some(v("N"))), l(">")]),
                    ]);
                    use_.push(vec![
                        parts(Plain, &[l("<"), num(Some(g), Some("N"), None), l(">")]),
                        parts(Plain, &[l("<"), num(h, None, Some(b('-', v("N"), Ex::Int(2)))), l(">")]),
                    ]);
                    use_.push(vec![
                        parts(Plain, &[l("<"), num(Some(g), Some("N"), None), l(">"), num(h, None, Some(b('+', v("N"), Ex::Int(1))))]),
                    ]);
                }
            }
            let forms = ["0", "1", "01", "001", "9", "09", "009", "10", "010", "a", "A", "0a", "0A", "00A", "-1", "-01", "-001", "0x1", "0xa", "0xA", "0x01", "0x0A", "11", "b", "2", "-2", "18446744073709551616", "18446744073709551615", "ffffffffffffffffffffffffffffffff"];
            let mut io = vec![];
            for x in forms {
                for y in forms {
                    io.push(format!("<{x}><{y}>"));
                    io.push(format!("<{x}>{y}"));
                }
            }
            // numbers of every length up to that of the largest value
            let mut long = vec![];
            let mut gs = fs.to_vec();
            gs.extend([f('u', 12, false), f('d', 20, false), f('x', 17, false), f('X', 20, false), f('x', 18, true)]);
            for &g in &gs {
                let n1 = num(Some(g), Some("N"), None);
                long.push(vec![parts(Plain, &[l("<"), n1.clone(), l(">")])]);
                long.push(vec![parts(Plain, &[l("<"), num(Some(g), None, None), l(">")])]);
                long.push(vec![parts(Plain, &[l("<"), n1.clone(), l("><"), num(None, None, Some(v("N"))), l(">")])]);
                for &h in &gs[..if deep { gs.len() } else { 4 }] {
                    long.push(vec![parts(Plain, &[l("<"), n1.clone(), l(">")]), parts(Plain, &[l("<"), num(Some(h), None, Some(v("N"))), l(">")])]);
                }
            }
            let mut ls = vec![];
            for k in 1..=31usize {
                for (a, z) in [("1", "0"), ("7", "7"), ("0", "5"), ("-1", "3"), ("0x1", "0"), ("b", "f"), ("A", "0"), ("00", "0")] {
                    let x = format!("{a}{}", z.repeat(k - 1));
                    for y in [x.clone(), x.trim_start_matches('0').to_string(), format!("{x}0"), x[..x.len() - 1].to_string()] {
                        ls.push(format!("<{x}><{y}>"));
                    }
                    for h in [x.strip_prefix("0x").unwrap_or(&x)] {
                        if let Ok(v) = i128::from_str_radix(h, 16) {
                            ls.push(format!("<{x}><{v}>"));
                        }
                        if let Ok(v) = h.parse::<i128>() {
                            if v >= 0 {
                                ls.push(format!("<{x}><{v:x}>"));
                                ls.push(format!("<{x}><{v:X}>"));
                            }
                            ls.push(format!("<{x}><{v:020}>"));
                        }
                    }
                }
            }
            vec![s("capture", cap, strings(&pieces, n(4, 5))), s("use", use_, io), s("lengths", long, ls), {
                // expressions over variables of different formats
                let fs = [f('u', 0, false), f('u', 2, false), f('u', 3, false), f('d', 0, false), f('d', 2, false), f('d', 3, false), f('x', 0, false), f('x', 2, false), f('x', 0, true), f('x', 3, true), f('X', 0, false), f('X', 2, false)];
                let mut two = vec![];
                for &g in &fs {
                    for &h in &fs {
                        if (g.conv == 'x' && h.conv == 'X') || (g.conv == 'X' && h.conv == 'x') {
                            continue;
                        }
                        for e in [b('+', v("N"), v("M")), b('-', v("N"), v("M")), Ex::Call("max", Box::new(v("N")), Box::new(v("M"))), b('+', b('+', v("N"), Ex::Int(1)), v("M")), b('-', b('+', v("N"), v("M")), v("N"))] {
                            for x in [None, Some(f('u', 0, false)), Some(f('d', 2, false)), Some(f('x', 3, true))] {
                                two.push(vec![parts(Plain, &[l("<"), num(Some(g), Some("N"), None), l("><"), num(Some(h), Some("M"), None), l("><"), num(x, None, Some(e.clone())), l(">")])]);
                            }
                        }
                    }
                }
                let mut ins = vec![];
                for (n1, m1) in [("3", "4"), ("003", "004"), ("012", "002"), ("0x003", "0x004"), ("4", "0x3"), ("0x3", "4"), ("-3", "4"), ("004", "-003")] {
                    for x in ["7", "07", "007", "0x7", "0x007", "1", "-1", "01", "-01", "001", "-001", "4", "04", "004", "0x4", "0x004", "8", "08", "008", "0x008", "14", "014", "E", "00E", "e", "00e", "10", "010", "A", "0A", "00a", "15", "F", "00F", "-7", "-07", "-007", "12", "012", "-3", "-03", "2", "02", "002", "-2", "3", "03", "003", "0x3", "0x003", "-003", "0x00a", "0x00e", "0x00f", "0x012", "C", "0C", "00c", "0x00c"] {
                        ins.push(format!("<{n1}><{m1}><{x}>"));
                    }
                }
                s("two variables", two, ins)
            }]
        }
        "F10" => {
            let mut all = vec![];
            for kind in [Plain, Next, Same, Not, Dag, Label, Count(2)] {
                let base = [lit(kind, "a"), lit(kind, "a b"), lit(kind, "a  B"), lit(kind, "  b"), lit(kind, "a\tb"), re(kind, "A|b"), re(kind, " +b"), parts(kind, &[l("B"), d("X", "[ ]*"), l("a")]), parts(kind, &[l(" "), r("a"), l("  b")]), parts(kind, &[l(" "), d("Y", "a|b"), l("\t"), num(None, None, Some(Ex::Line))]), parts(kind, &[l("a "), r("[bB]+")]), parts(kind, &[r("a"), l(" b")]), parts(kind, &[l("b"), r("$")])];
                let files: Vec<Vec<Ck>> = base
                    .iter()
                    .flat_map(|c| {
                        let mut v = vec![];
                        if matches!(kind, Next | Same) {
                            v.push(vec![lit(Plain, "x"), c.clone()]);
                        } else {
                            v.push(vec![c.clone()]);
                            v.push(vec![c.clone(), lit(Plain, "x")]);
                        }
                        if kind == Dag {
                            v.push(vec![c.clone(), lit(Dag, "b a")]);
                            v.push(vec![c.clone(), re(Dag, "B a")]);
                        }
                        v
                    })
                    .collect();
                let ins: Vec<String> = strings(&["a", "b", "B", " ", "\t", "1"], n(4, 5))
                    .into_iter()
                    .flat_map(|t| match kind {
                        Next => vec![format!("x\n{t}")],
                        Same => vec![format!("x{t}"), format!("x {t}")],
                        _ => vec![t.clone(), format!("{t}x")],
                    })
                    .collect();
                let mut x = s("options", files, ins);
                x.opts = vec![];
                for m in 0..4 {
                    x.opts.push(Opt { strict_ws: m & 1 > 0, icase: m & 2 > 0, ..Opt::default() });
                }
                all.push(x);
            }
            // values of variables
            let uses = [parts(Plain, &[l("="), d("X", "[ab ]+"), l(";")]), parts(Plain, &[u("X")]), parts(Plain, &[l("b"), u("X")]), parts(Next, &[u("X"), l("A")]), parts(Same, &[u("X")]), parts(Not, &[u("X")]), parts(Dag, &[u("X"), r("b?")]), parts(Plain, &[l("="), d("X", "[ab]"), u("X")]), parts(Count(2), &[u("X")])];
            let mut files = seqs(&uses, 1, n(2, 3));
            files.retain(|f| f[0].parts.len() > 1 && matches!(f[0].parts[1], Part::Def(..)));
            let mut ins = vec![];
            for x in strings(&["a", "B", " ", "\t"], n(2, 3)) {
                for y in strings(&["a", "A", "b", "B", " ", "\t"], n(3, 4)) {
                    ins.push(format!("={x};{y}"));
                    ins.push(format!("={x};\n{y}\n"));
                }
            }
            let hex = [parts(Plain, &[l("="), num(Some(f('x', 0, false)), Some("N"), None), l(";"), num(None, None, Some(v("N"))), l("r")]), parts(Plain, &[l("="), num(Some(f('X', 0, false)), Some("N"), None), l(";"), num(None, None, Some(v("N"))), l("r")])];
            let hex = (seqs(&hex, 1, 1), ["=a;ar", "=a;aR", "=1;1R", "=A;AR", "=A;Ar", "=1;1r"].map(String::from).to_vec());
            // the same with the format given where the value is used
            let again = [('x', 'x'), ('x', 'X'), ('u', 'x'), ('u', 'X'), ('d', 'x')].map(|(x, y)| vec![parts(Plain, &[l("="), num(Some(f(x, 0, false)), Some("N"), None), l(";"), num(Some(f(y, 0, false)), None, Some(v("N"))), l("r")])]);
            let again = (again.to_vec(), ["=a;ar", "=a;aR", "=a;AR", "=10;ar", "=10;AR", "=10;Ar", "=1;1R", "=1;1r"].map(String::from).to_vec());
            for (files, ins) in [(files, ins), hex, again] {
                let mut x = s("variables", files, ins);
                x.opts = (0..4).map(|m| Opt { strict_ws: m & 1 > 0, icase: m & 2 > 0, ..Opt::default() }).collect();
                all.push(x);
            }
            let mut x = s(
                "full lines",
                vec![vec![lit(Plain, "a")], vec![lit(Plain, "x"), lit(Next, "a")], vec![lit(Not, "a")]],
                ["a", "a\n", "b\na", "ab", "ba", "x\na", "x\nab", "xa", "b"].map(String::from).to_vec(),
            );
            x.opts = vec![Opt { full_lines: true, ..Opt::default() }];
            all.push(x);
            all
        }
        "F12" => {
            let ps = [l("a"), l("."), l("a*"), l("[b]"), l("{a}"), l("\\"), l("(+)"), l("^"), l("a$"), r("."), r("a|b"), r("[.]"), r("\\."), r("a?b"), r("(a)(b)"), r("^"), r("$")];
            let mut files: Vec<Vec<Ck>> = vec![];
            for q in sequences(&ps, 1, n(2, 3)) {
                // adjacent literal parts are one literal
                if q.windows(2).any(|w| matches!((&w[0], &w[1]), (Part::Lit(_), Part::Lit(_)))) {
                    continue;
                }
                files.push(vec![parts(Plain, &q)]);
            }
            let ins = strings(&["a", "b", ".", "*", "[", "\n"], n(4, 4));
            let meta = strings(&["a", "b", "]", "[", "{", "}", "\\", "(", "+", ")", "^", "$"], 3);
            let mut all = vec![s("parts", files.clone(), ins), s("metacharacters", files, meta)];
            // every character, next to pattern elements of every kind
            let odd = ["\0", "\u{1}", "\u{b}", "\u{c}", "\u{1b}", "\u{7f}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{301}", "\u{85}", "é", "ß", "漢", "😀"];
            let chars: Vec<String> = (0x20..0x7fu8).map(|c| (c as char).to_string()).chain(odd.map(String::from)).collect();
            let mut ins = vec![];
            for c in &chars {
                for t in ["a{}b", "a{}bc", "ab{}", "{}ab", "a{}{}b", "aa{}b", "a{}bb1", "a{}\nb", "b\na{}b\na{}b"] {
                    ins.push(t.replace("{}", c));
                }
            }
            ins.push("ab".into());
            for c in &chars {
                let t = &format!("a{c}b");
                // the characters a faulty comparison would confuse it with
                let near: Vec<String> = c.chars().flat_map(|c| [c as u32 ^ 0x20, c as u32 ^ 0x80, c as u32 | 0x40]).filter_map(char::from_u32).filter(|d| c.is_ascii() || d.to_lowercase().to_string() != c.to_lowercase()).map(|c| format!("a{c}b\naa{c}{c}bb1")).collect();
                // at the edge of a pattern blanks are not part of it; whether a form feed is one
                // of them is left open
                let bracket = "[]{} \u{c}".contains(&**c);
                let mut files: Vec<Vec<Ck>> = [Plain, Count(2), Label, Not, Dag].into_iter().map(|k| vec![lit(k, t)]).collect();
                files.push(vec![lit(Plain, "b"), lit(Next, t), lit(Next, t)]);
                files.push(vec![Ck { literal: true, ..lit(Plain, t) }]);
                if c != "\u{c}" {
                    files.push(vec![lit(Plain, "a"), lit(Same, &format!("{c}b"))]);
                    files.push(vec![lit(Plain, "a"), Ck { literal: true, ..lit(Same, &format!("{c}b")) }]);
                }
                files.push(vec![lit(Dag, t), lit(Dag, "b")]);
                files.push(vec![lit(Dag, t), re(Dag, "b$")]);
                files.push(vec![lit(Not, t), lit(Not, "bb"), lit(Plain, "c")]);
                files.push(vec![lit(Not, t), re(Not, "b1"), lit(Plain, "c")]);
                files.push(vec![parts(Plain, &[l(t), r("b|c")])]);
                if c != " " && c != "\u{c}" {
                    files.extend([Plain, Count(2), Label, Not, Dag].map(|k| vec![lit(k, c)]));
                    files.push(vec![lit(Plain, "a"), lit(Next, c)]);
                    files.push(vec![lit(Dag, c), lit(Dag, "b")]);
                    files.push(vec![lit(Dag, c), lit(Dag, c)]);
                    files.push(vec![lit(Dag, c), re(Dag, "a")]);
                    files.push(vec![lit(Not, c), lit(Not, "bb")]);
                }
                if !bracket {
                    files.push(vec![parts(Plain, &[r("a+"), l(c), r("b")])]);
                    files.push(vec![parts(Plain, &[d("X", "a+"), l(c), r("b"), d("Y", "b|c")])]);
                    files.push(vec![parts(Plain, &[d("X", "a+"), l(c)]), parts(Plain, &[l(c), r("b+"), num(None, Some("N"), None)])]);
                }
                if !bracket && c.parse::<u32>().is_err() {
                    files.push(vec![parts(Plain, &[l("b"), l("b"), num(None, None, Some(Ex::Line))]), lit(Plain, c)]);
                }
                let mut x = s("characters", files, ins.iter().filter(|i| i.contains(&**c) || i.starts_with("ab") || i.starts_with("a b") || i.starts_with("a\u{2028}b")).chain(&near).cloned().collect());
                x.opts = vec![Opt::default(), Opt { strict_ws: true, ..Opt::default() }, Opt { icase: true, ..Opt::default() }];
                all.push(x);
            }
            // patterns of nothing but blanks
            let blanks = [" ", "  ", "\t", " \t"];
            let mut pats: Vec<Ck> = blanks.iter().map(|t| re(Plain, t)).collect();
            pats.extend([re(Plain, "[ ]"), re(Plain, " +"), parts(Plain, &[d("X", " ")]), parts(Plain, &[d("X", " "), r(" "), d("Y", " ?")]), parts(Plain, &[r(" "), l(" "), r(" ")]), parts(Plain, &[r("b"), l(" "), r(" ")]), parts(Plain, &[r("a?"), l("  ")])]);
            let lits: Vec<Ck> = [" ", "  ", "\t"].iter().map(|t| Ck { literal: true, ..lit(Plain, t) }).collect();
            for (strict, pats) in [(false, pats.clone()), (true, pats.into_iter().chain(lits).collect())] {
                let mut files: Vec<Vec<Ck>> = vec![];
                for c in &pats {
                    let k = |k: Kind| Ck { kind: k, ..c.clone() };
                    files.extend([Plain, Not, Dag, Label, Count(2)].map(|x| vec![k(x)]));
                    files.extend([Next, Same].map(|x| vec![lit(Plain, "a"), k(x)]));
                    for e in [lit(Plain, "b"), re(Plain, "b|a"), re(Plain, " b"), lit(Plain, "a b")] {
                        for x in [Dag, Not] {
                            files.push(vec![k(x), Ck { kind: x, ..e.clone() }]);
                            files.push(vec![Ck { kind: x, ..e.clone() }, k(x)]);
                        }
                    }
                }
                let mut x = s("blanks", files, strings(&["a", "b", " ", "\t", "\n"], n(4, 6)));
                x.opts = vec![Opt { strict_ws: strict, ..Opt::default() }];
                all.push(x);
            }
            // text that is literal altogether
            let mut texts = strings(&["a", "{{", "}}", "[[", "]]", "#", "\\", ".", ":"], n(3, 4));
            texts.retain(|t| !t.is_empty());
            for t in texts {
                let files = [Plain, Not, Dag, Label, Count(1)].into_iter().map(|k| vec![Ck { literal: true, ..lit(k, &t) }]).chain([vec![lit(Plain, "x"), Ck { literal: true, ..lit(Next, &t) }, Ck { literal: true, ..lit(Same, &t) }], vec![Ck { literal: true, ..lit(Dag, &t) }, lit(Dag, "a")]]).collect();
                let ins = vec![t.clone(), t[1..].to_string(), format!("x\n{t}{t}"), format!("x\n{t}a{t}"), "a".into(), "aa".into(), t.replace('.', "a"), t.replace("{{", "").replace("}}", ""), t.replace("[[", "").replace("]]", "")];
                all.push(s("literal texts", files, ins));
            }
            all
        }
        "F14" => {
            let items = [lit(Plain, "a"), lit(Plain, "b"), lit(Next, "a"), lit(Same, "b"), lit(Dag, "a"), lit(Dag, "c"), lit(Count(2), "a"), lit(Label, "L"), lit(Not, "b"), lit(Empty, "")];
            let mut x = s("implicit", seqs(&items, 1, n(3, 3)), inputs(&["", "a", "b", "ab", "L", "c"], n(3, 4)));
            // implicit patterns around every kind of pattern element
            let mut z = vec![];
            for id in ["F01", "F02", "F03", "F04", "F05", "F06"] {
                for mut c in cross(id, false) {
                    c.tag = "parts of every kind";
                    c.opts = [&["b"][..], &["[0-9]+a", "bb"]].iter().map(|p| Opt { implicit: p.iter().map(|s| s.to_string()).collect(), ..Opt::default() }).collect();
                    let mut k = 0;
                    let step = n(13, 1);
                    c.inputs.retain(|_| {
                        k += 1;
                        k % step == 0
                    });
                    z.push(c);
                }
            }
            let mut y = s("characters", seqs(&items, 1, n(2, 3)), strings(&["a", "b", "c", "\n"], n(5, 5)));
            for t in [&mut x, &mut y] {
                t.opts = [&["b"][..], &["a"], &["ab"], &["a", "c"]].iter().map(|p| Opt { implicit: p.iter().map(|s| s.to_string()).collect(), ..Opt::default() }).collect();
            }
            z.insert(0, x);
            z.insert(1, y);
            z
        }
        _ => unreachable!("{id}"),
    }
}

fn cat2(a: &[Part], b: &[Part]) -> Vec<Part> {
    [a, b].concat()
}

/// Check files and inputs that grow with `k`, for every `k` of a range: whatever is counted,
/// indexed or buffered must not depend on how much of it there is.
fn scale(id: &str, k: usize) -> Vec<Suite> {
    let li = |i: usize| format!("n{i};");
    let up = |a: usize, b: usize| (a..b).map(li).collect::<Vec<_>>();
    let join = |v: &[String]| v.join("\n");
    let each = |kind: Kind, a: usize, b: usize| (a..b).map(|i| lit(kind, &li(i))).collect::<Vec<_>>();
    let swap = |mut v: Vec<String>, i: usize, j: usize| {
        v.swap(i, j);
        v
    };
    let without = |mut v: Vec<String>, i: usize| {
        v.remove(i);
        v
    };
    let rev = |mut v: Vec<Ck>| {
        v.reverse();
        v
    };
    let cat = |v: &[&[Ck]]| v.concat();
    let last = k.saturating_sub(2);
    let mut perturbed = vec![join(&up(0, k)), join(&up(0, k - 1)), join(&up(1, k)), join(&up(0, k + 1)), join(&swap(up(0, k), last, k - 1)), join(&swap(up(0, k), 0, k / 2)), join(&without(up(0, k), k / 2)), up(0, k).concat(), up(0, k).join("\n\n"), up(0, k).join("zz\nzz")];
    perturbed.push(format!("{}\n\n{}", join(&up(0, k - 1)), li(k - 1)));
    let pad = |c: &str, n: usize| c.repeat(n);
    match id {
        "F01" => {
            let long = pad("ab", k);
            let lens = [pad("x", k), pad("x", k + 1), pad("x", k - 1), format!("{}y", pad("x", k - 1)), format!("y{}", pad("x", k - 1)), format!("{0}y{0}y{0}x", pad("x", k - 1)), format!("{}\n{}", pad("x", k - 1), pad("x", k))].to_vec();
            vec![
                s("many", vec![each(Plain, 0, k)], perturbed),
                s("long literals", vec![vec![lit(Plain, &pad("x", k))], vec![parts(Plain, &[l(&pad("x", k)), r("$")])], vec![parts(Plain, &[r("^"), l(&pad("x", k))])], vec![lit(Plain, &pad("x", k)), lit(Plain, "x")]], lens),
                s("far away", vec![vec![lit(Plain, "ba"), lit(Plain, "c")], vec![re(Plain, "b|c"), lit(Plain, "c")], vec![re(Plain, "c$"), re(Plain, "^c")], vec![parts(Plain, &[l("b"), r("c?")]), parts(Plain, &[r("."), l("c")])]], [format!("{}b", pad("a", k)), format!("{}ba{}c", pad("a", k), pad("b", k)), format!("{}c\nc", pad("\n", k)), format!("{}bc", pad("é", k)), format!("{long}c"), format!("{}c{}\ncb\nc", pad("d", k), pad("d", k))].to_vec()),
            ]
        }
        "F02" => {
            let chain = |kind: Kind| cat(&[&each(Plain, 0, 1), &each(kind, 1, k)]);
            let mut ins = perturbed;
            ins.push(up(0, k).join("zz"));
            ins.push(format!("{}\n{}", up(0, k - 1).join("zz"), li(k - 1)));
            vec![
                s("many", vec![chain(Next), chain(Same)], ins),
                s("many empty lines", vec![cat(&[&[lit(Plain, "a")], &vec![lit(Empty, ""); k], &[lit(Next, "b")]]), vec![lit(Plain, "a"), lit(Empty, ""), lit(Plain, "b"), lit(Next, "b")]], [k, k + 1, k + 2].iter().map(|n| format!("a{}b\nb", pad("\n", *n))).collect()),
                s("far away", vec![vec![lit(Plain, "a"), lit(Same, "b")], vec![lit(Plain, "a"), lit(Next, "b"), re(Same, "$")], vec![lit(Plain, "a"), re(Next, "^c")]], [format!("a{}b", pad("c", k)), format!("a{}\n{}b", pad("c", k), pad("c", k)), format!("a\n{}b\n", pad("é", k)), format!("{}a\ncb", pad("\n", k)), format!("a{}c\nb", pad("\n", k))].to_vec()),
            ]
        }
        "F03" => {
            let nots = |f: &[Ck], g: &[Ck]| cat(&[f, &each(Not, 0, k), g]);
            let a = [lit(Plain, "aa")];
            let z = [lit(Plain, "zz")];
            let ins: Vec<String> = [String::new(), li(0), li(k - 1), li(k / 2), li(k), pad("b", k)].iter().flat_map(|m| [format!("aa\n{m}\nzz"), format!("{m}\naa\nzz"), format!("aa\nzz\n{m}"), format!("aa{m}zz")]).collect();
            // with regular expressions and variables, which take other ways of searching
            let mixed = |v: &[Part]| cat(&[&[parts(Plain, &[d("V", "aa")])], &(0..k).map(|i| parts(Not, &cat2(&[l(&li(i))], if i % 3 == 1 { &[] } else { v }))).collect::<Vec<_>>(), &z]);
            let others: Vec<String> = [0, 1, k / 4, k / 2, k / 2 + 1, k.saturating_sub(2), k - 1, k].iter().flat_map(|i| [format!("aa\nn{i};aa\nzz"), format!("aa\nn{i};ab\nzz")]).collect();
            let far: Vec<String> = vec![format!("aa{}zz", pad("b", k)), format!("aa{}czz", pad("b", k)), format!("aa{}cd{}zz", pad("\n", k), pad("b", k)), format!("aa{}zz{}cd", pad("b", k), pad("b", k))];
            vec![
                s("many", vec![nots(&a, &z), nots(&[], &z), nots(&a, &[]), nots(&[], &[])], ins),
                s("many of other kinds", vec![mixed(&[u("V")]), mixed(&[r("[ab]a")]), mixed(&[r("a"), u("V")])], others),
                s("far away", vec![cat(&[&a, &[lit(Not, "cd")], &z]), cat(&[&a, &[re(Not, "cd|bc")], &z]), cat(&[&a, &z, &[lit(Not, "cd")]])], far),
                s("alternating", vec![(0..k).flat_map(|i| [lit(Not, "q"), lit(Plain, &li(i))]).collect()], {
                    let mut v = perturbed;
                    v.push(format!("q{}", join(&up(0, k))));
                    v.push(format!("{}q{}", join(&up(0, k - 1)), li(k - 1)));
                    v.push(format!("{}q", join(&up(0, k))));
                    v
                }),
            ]
        }
        "F04" => {
            let mut ins = perturbed;
            ins.push(join(&up(0, k).into_iter().rev().collect::<Vec<_>>()));
            let all = each(Dag, 0, k);
            let half = cat(&[&each(Dag, 0, k / 2), &[lit(Plain, &li(k / 2))], &each(Dag, k / 2 + 1, k)]);
            vec![
                s("many", vec![all.clone(), rev(all.clone()), half, cat(&[&all, &[lit(Plain, "zz")]]), cat(&[&all, &[lit(Not, "zz")]]), all.iter().enumerate().map(|(i, c)| if i % 2 == 0 { c.clone() } else { parts(Dag, &[l(&li(i)), r("z?")]) }).collect()], ins),
                s("many with a variable", {
                    let dags = |v: &[Part], z: &[Ck]| cat(&[&[parts(Plain, &[d("V", "aa")])], &(0..k).map(|i| parts(Dag, &cat2(&[l(&li(i))], if i % 3 == 1 { &[] } else { v }))).collect::<Vec<_>>(), z]);
                    vec![dags(&[u("V")], &[]), dags(&[u("V")], &[lit(Plain, "zz")]), dags(&[u("V")], &[lit(Not, "zz"), lit(Plain, "y")]), dags(&[r("a"), u("V")], &[])]
                }, {
                    let text = |v: Vec<String>, with: &str, t: &str| format!("aa\n{}\n{t}", v.iter().map(|x| format!("{x}{with}")).collect::<Vec<_>>().join("\n"));
                    let rev = |mut v: Vec<String>| { v.reverse(); v };
                    vec![text(up(0, k), "aa", "zz"), text(rev(up(0, k)), "aa", "y"), text(rev(up(0, k)), "aaa", "zz"), text(without(up(0, k), k - 1), "aa", "zz"), text(without(up(0, k), k / 2), "aa", "zz"), text(up(0, k), "ab", "zz"), format!("{}\nn{}", text(rev(up(0, k - 1)), "aa", "zz"), k - 1)]
                }),
                s("alike", vec![vec![lit(Dag, "ab"); k], cat(&[&vec![lit(Dag, "ab"); k], &[lit(Plain, "ab")]])], [k - 1, k, k + 1].iter().flat_map(|n| [pad("ab", *n), pad("ab\n", *n), pad("aab", *n)]).collect()),
            ]
        }
        "F05" => {
            let mut f: Vec<Ck> = vec![];
            let mut g: Vec<Ck> = vec![];
            let mut t: Vec<String> = vec![];
            for i in 0..k {
                f.extend([lit(Label, &format!("L{i};")), lit(Plain, "a")]);
                g.extend([lit(Label, &format!("L{i};")), lit(Not, "b"), lit(Dag, "a")]);
                t.extend([format!("L{i};"), "a".into()]);
            }
            let mut ins = vec![join(&t)];
            for j in [0, k / 2, k - 1] {
                let mut v = t.clone();
                v[2 * j + 1] = "b".into();
                ins.push(join(&v));
                v[2 * j + 1] = "ab".into();
                ins.push(join(&v));
                v[2 * j] = "c".into();
                ins.push(join(&v));
                v = t.clone();
                v.swap(2 * j, 2 * j + 1);
                ins.push(join(&v));
                v = t.clone();
                v.insert(2 * j + 1, pad("c\n", k));
                ins.push(join(&v));
            }
            vec![s("many", vec![f, g, each(Label, 0, k)], { ins.append(&mut perturbed); ins })]
        }
        "F06" => {
            let c = |n: usize| lit(Count(n as u32), "a");
            let ins: Vec<String> = [k - 1, k, k + 1, 2 * k, 2 * k + 1].iter().flat_map(|n| [pad("a", *n), pad("a\n", *n), pad("ba", *n), format!("{}b", pad("a", *n)), format!("b\n{}b", pad("a\n", *n))]).collect();
            let mut v = vec![
                s("large", vec![vec![c(k)], vec![c(k), lit(Plain, "b")], vec![c(k), c(k)], vec![lit(Plain, "b"), c(k), lit(Next, "b")], vec![lit(Not, "b"), c(k)], vec![c(k), lit(Not, "a")], vec![c(k), lit(Not, "b")], vec![re(Count(k as u32), "a|b")], vec![re(Count(k as u32), "^a")], vec![parts(Count(k as u32), &[l("a"), d("X", "$")]), parts(Plain, &[u("X"), l("b")])]], ins),
                s("many", vec![(0..k).map(|i| lit(Count(2), &li(i))).collect(), (0..k).map(|i| lit(Count(1), &li(i))).collect()], { let mut v = perturbed.clone(); v.extend(perturbed.iter().map(|t| t.replace(';', "; ").replace("n", "n"))); v.push((0..k).map(|i| li(i).repeat(2)).collect()); v.push((0..k).map(|i| format!("{0}\n{0}\n", li(i))).collect()); v.push((0..k).map(|i| li(i).repeat(if i + 1 == k { 1 } else { 2 })).collect()); v }),
            ];
            if k > 255 {
                // the largest count there is
                v.remove(0);
            }
            v
        }
        "F07" => {
            let name = |i: usize| format!("V{i}");
            let mut f: Vec<Ck> = (0..k).map(|i| parts(Plain, &[l(&format!("n{i}=")), d(&name(i), "[a-z]+"), l(";")])).collect();
            let mut g = f.clone();
            let mut used = vec![];
            for i in 0..k {
                used.push(u(&name(i)));
                used.push(l(","));
            }
            f.push(parts(Plain, &used));
            g.extend((0..k).rev().map(|i| parts(Next, &[l("<"), u(&name(i)), l(">")])));
            let val = |i: usize| ["a", "bc", "ab", "z"][i % 4];
            let defs: String = (0..k).map(|i| format!("n{i}={};\n", val(i))).collect();
            let one = |bad: usize| (0..k).map(|i| if i == bad { "q," .into() } else { format!("{},", val(i)) }).collect::<String>();
            let other = |bad: usize| (0..k).rev().map(|i| if i == bad { "<q>\n".into() } else { format!("<{}>\n", val(i)) }).collect::<String>();
            let mut ins = vec![];
            for bad in [k, 0, k / 2, k - 1] {
                ins.push(format!("{defs}{}", one(bad)));
                ins.push(format!("{defs}{}", other(bad)));
            }
            // one pattern with many captures, and long values
            let mut h: Vec<Part> = vec![];
            for i in 0..k {
                h.extend([l("="), d(&name(i), "[a-z]+")]);
            }
            h.push(l(";"));
            let many = vec![vec![parts(Plain, &h), parts(Plain, &used)]];
            let vals: String = (0..k).map(|i| format!("={}", val(i))).collect();
            let ins2 = [k, 0, k / 2, k - 1].iter().map(|b| format!("{vals};\n{}", one(*b))).collect();
            let long = vec![vec![parts(Plain, &[l("="), d("X", "[ab]+"), l(";")]), parts(Plain, &[l("<"), u("X"), l(">")])]];
            let ins3 = [pad("a", k), pad("a", k - 1), pad("a", k + 1), format!("{}b", pad("a", k - 1)), format!("b{}", pad("a", k - 1))].iter().map(|v| format!("={};\n<{v}>", pad("a", k))).collect();
            vec![s("many", vec![f, g], ins), s("many in one pattern", many, ins2), s("long", long, ins3)]
        }
        "F08" => {
            let mut e = Ex::Int(1);
            let mut m = v("N");
            for i in 1..k {
                e = b(if i % 3 == 2 { '-' } else { '+' }, e, Ex::Int(1 + (i % 5) as i128));
                m = b('+', m, v("N"));
            }
            let p = |x: Ex| vec![parts(Plain, &[l("<"), num(None, None, Some(x)), l(">")])];
            let mut line = vec![lit(Plain, "x")];
            line.extend(vec![lit(Not, "q"); k]);
            line.push(parts(Plain, &[l("<"), num(None, None, Some(Ex::Line)), l(">")]));
            let mut seq = vec![parts(Plain, &[l("<"), num(None, Some("N"), None), l(">")])];
            for _ in 1..k {
                seq.push(parts(Plain, &[l("<"), num(None, Some("N"), Some(b('+', v("N"), Ex::Int(1)))), l(">")]));
            }
            let k1 = k as i64;
            let mut a = s("long", vec![p(e), p(m), line], (-k1..=4 * k1 + 3).map(|x| format!("x<{x}>")).collect());
            a.opts = vec![Opt { defs: vec![("N".into(), Val::N(3, NumFmt::U))], ..Opt::default() }];
            let run = |from: i64, n: i64| (from..from + n).map(|x| format!("<{x}>\n")).collect::<String>();
            vec![a, s("many", vec![seq], vec![run(0, k1), run(7, k1), run(95, k1), run(0, k1 - 1), run(0, k1 / 2) + &run(k1 / 2 + 1, k1)])]
        }
        "F10" => {
            let mut x = s("long", vec![vec![lit(Plain, &format!("a{}b", pad(" ", k)))], vec![lit(Plain, &format!("a{}b", pad("\t", k)))], vec![lit(Plain, &pad("aB", k))]], [pad(" ", k), pad("\t", k), pad(" ", k + 1), pad(" ", k - 1), format!("{}\t", pad(" ", k - 1)), format!("\t{}", pad(" ", k - 1))].iter().map(|w| format!("a{w}b")).chain([pad("aB", k), pad("Ab", k), pad("ab", k - 1)]).collect());
            x.opts = (0..4).map(|m| Opt { strict_ws: m & 1 > 0, icase: m & 2 > 0, ..Opt::default() }).collect();
            vec![x]
        }
        "F12" => {
            let mut q = vec![];
            for i in 0..k {
                q.push(l(&li(i)));
                q.push(r(["a*", "[.]", "b|c", "()x?"][i % 4]));
            }
            let t: Vec<String> = (0..k).map(|i| format!("{}{}", li(i), ["aa", ".", "c", ""][i % 4])).collect();
            let bad = |j: usize| {
                let mut v = t.clone();
                v[j] = "*".into();
                v.concat()
            };
            vec![s("many", vec![vec![parts(Plain, &q)]], vec![t.concat(), bad(0), bad(k - 1), bad(k / 2), t[..k - 1].concat(), format!("{}{}", t.concat(), t.concat())])]
        }
        "F14" => {
            let a = [lit(Plain, "aa"), lit(Plain, "zz")];
            let mut x = s("many", vec![a.to_vec(), each(Plain, 0, k), cat(&[&a[..1], &vec![lit(Next, "b"); k]])], [String::new(), "i0;".into(), format!("i{};", k - 1), format!("i{};", k / 2), format!("i{k};")].iter().flat_map(|m| [format!("aa\n{m}\nzz"), format!("aa\nzz\n{m}"), format!("{m}aazz"), format!("{}{m}", join(&up(0, k))), format!("aa{}{m}", pad("\nb", k))]).collect());
            x.opts = vec![Opt { implicit: (0..k).map(|i| format!("i{i};")).collect(), ..Opt::default() }];
            vec![x]
        }
        _ => vec![],
    }
}

/// The same families, as far as they consist of literals, on inputs with CRLF line endings.
fn crlf(id: &str, deep: bool) -> Vec<Suite> {
    let mut v = vec![];
    for mut x in suites(id, deep) {
        x.files.retain(|f| f.iter().all(|c| c.parts.iter().all(|p| matches!(p, Part::Lit(_)))));
        x.inputs.retain(|t| t.contains('\n'));
        x.crlf = true;
        for o in &mut x.opts {
            o.strict_ws = true;
        }
        if !x.files.is_empty() && !x.inputs.is_empty() {
            v.push(x);
        }
    }
    v
}

/// Every kind of check with every kind of pattern element, next to checks that define what it
/// uses or use what it defines.
pub fn cross(id: &str, deep: bool) -> Vec<Suite> {
    let kinds: &[Kind] = match id {
        "F01" => &[Plain],
        "F02" => &[Next, Same],
        "F03" => &[Not],
        "F04" => &[Dag],
        "F05" => &[Label],
        "F06" if deep => &[Count(1), Count(2), Count(3)],
        "F06" => &[Count(2)],
        _ => return vec![],
    };
    let plus = |n: &str, k: i128| num(None, None, Some(b('+', v(n), Ex::Int(k))));
    let mut pats: Vec<Vec<Part>> = vec![
        vec![l("a")],
        vec![r("a|b")],
        vec![r("[0-9]"), l(",")],
        vec![num(None, None, None)],
        vec![num(None, None, None), r("a?")],
        vec![num(None, None, Some(Ex::Line))],
        vec![num(None, None, Some(Ex::Int(2)))],
        vec![num(None, None, Some(b('-', Ex::Line, Ex::Int(1))))],
    ];
    if id != "F05" {
        pats.extend([
            vec![d("X", "a|b")],
            vec![u("X")],
            vec![d("X", "a|b"), u("X")],
            vec![u("X"), r("a|b")],
            vec![r("[0-9]"), u("X")],
            vec![plus("N", 0)],
            vec![plus("N", 1)],
            vec![r("a|b"), plus("N", 1)],
            vec![num(None, Some("N"), None)],
            vec![num(Some(f('d', 0, false)), Some("N"), None), l("a")],
            vec![num(None, Some("N"), Some(b('+', v("N"), Ex::Int(1))))],
            vec![num(None, Some("M"), Some(b('+', v("N"), Ex::Int(1))))],
            vec![num(None, Some("N"), None), l(","), plus("N", 1)],
            vec![u("X"), plus("N", 1)],
            vec![d("X", "a|b"), num(None, Some("N"), None)],
            vec![num(Some(f('x', 2, false)), None, Some(v("N")))],
        ]);
    }
    let before: Vec<Vec<Ck>> = vec![
        vec![],
        vec![parts(Plain, &[d("X", "a|b")])],
        vec![parts(Plain, &[num(None, Some("N"), None)])],
        vec![parts(Plain, &[d("X", "a|b"), num(None, Some("N"), None)])],
    ];
    let after: Vec<Vec<Ck>> = vec![
        vec![],
        vec![lit(Plain, "b")],
        vec![parts(Plain, &[u("X")])],
        vec![parts(Plain, &[plus("N", 0)])],
        vec![lit(Not, "a")],
        vec![lit(Dag, "b")],
    ];
    let mut out = vec![];
    for &k in kinds {
        let mut files = vec![];
        for x in &before {
            if matches!(k, Next | Same) && x.is_empty() {
                continue;
            }
            for (i, p) in pats.iter().enumerate() {
                for y in &after {
                    let c = parts(k, p);
                    let mut w = x.clone();
                    w.push(c.clone());
                    w.extend(y.clone());
                    files.push(w);
                }
                for q in &pats[..if deep { pats.len() } else { 0 }] {
                    if q != &pats[i] || k != Same {
                        let mut w = x.clone();
                        w.extend([parts(k, p), parts(k, q)]);
                        files.push(w);
                    }
                }
                // twice the same
                let mut w = x.clone();
                w.extend([parts(k, p), parts(k, p)]);
                files.push(w);
            }
        }
        let lo = 4;
        let mut ins = strings(&["a", "b", "1", "2", "\n"], lo);
        ins.extend(strings(&["1", "2", ",", "a"], lo).into_iter().map(|x| format!("{x}\nb")));
        for q in sequences(&["a", "b", "1", "2", "01", "a1", "1,2"], 3, lo) {
            ins.push(q.join("\n"));
        }
        // Whether a definition with a constraint may match a part of a longer number is not
        // specified: those get inputs in which numbers stand alone.
        let constrained = |w: &Vec<Ck>| w.iter().any(|c| c.parts.iter().any(|p| matches!(p, Part::Num { def: Some(_), expr: Some(_), .. })));
        let (alone, files): (Vec<_>, Vec<_>) = files.into_iter().partition(constrained);
        let mut sep = strings(&["a", "b", "1 ", "2 ", "\n"], lo);
        for q in sequences(&["a", "b", "1", "2", "a1", "1,2"], 3, lo) {
            sep.push(q.join("\n"));
        }
        for (files, ins) in [(files, ins), (alone, sep)] {
            if files.is_empty() {
                continue;
            }
            let mut x = s("parts of every kind", files, ins);
            x.spans = false;
            out.push(x);
        }
    }
    out
}

fn ks(deep: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=if deep { 140 } else { 36 }).collect();
    v.extend(if deep { &[199, 255, 256, 257, 300][..] } else { &[63, 64, 65, 100, 128] });
    v
}

pub fn check(run: &Run, id: &str) {
    let deep = run.tier == Tier::Thorough;
    let mut all = suites(id, deep);
    if matches!(id, "F01" | "F02" | "F03" | "F04" | "F05" | "F06") {
        let mut c = crlf(id, deep);
        if !deep {
            for x in &mut c {
                // every second, by length
                let mut k = 0;
                x.inputs.retain(|_| {
                    k += 1;
                    k % 2 == 0
                });
            }
        }
        all.append(&mut c);
    }
    all.append(&mut cross(id, deep));
    let mut sizes = ks(deep);
    if id == "F04" {
        sizes.retain(|k| *k <= 100);
    }
    let mut n = 0;
    for k in &sizes {
        for x in scale(id, *k) {
            for o in &x.opts {
                sweep(run, x.tag, &x.files, &x.inputs, o, x.spans, x.crlf);
                n += x.files.len() * x.inputs.len();
            }
        }
    }
    if n > 0 {
        run.bound(format!("growing check files and inputs: {n} pairs for the sizes {sizes:?}"));
    }
    for x in all {
        for o in &x.opts {
            sweep(run, x.tag, &x.files, &x.inputs, o, x.spans, x.crlf);
        }
        run.bound(format!("{}{}: {} check files x {} inputs x {} option sets", x.tag, if x.crlf { ", CRLF" } else { "" }, x.files.len(), x.inputs.len(), x.opts.len()));
    }
}

pub fn explore(run: &Run) {
    let which = std::env::var("FC_EXPLORE").unwrap_or_default();
    for id in which.split(',') {
        if let Some(id) = id.strip_suffix("scale") {
            for k in ks(run.tier == Tier::Thorough) {
                for x in scale(id, k) {
                    for o in &x.opts {
                        let t = std::time::Instant::now();
                        
                        sweep(run, x.tag, &x.files, &x.inputs, o, x.spans, x.crlf);
                        println!("   {:.2}s", t.elapsed().as_secs_f64());
                    }
                }
            }
            continue;
        }
        if let Some(id) = id.strip_suffix("cross") {
            for x in cross(id, run.tier == Tier::Thorough) {
                let total = x.files.len() * x.inputs.len();
                println!("## {id} {}: {} files x {} inputs = {total}", x.tag, x.files.len(), x.inputs.len());
                let t = std::time::Instant::now();
                sweep(run, x.tag, &x.files, &x.inputs, &x.opts[0], x.spans, x.crlf);
                println!("   {:.1}s", t.elapsed().as_secs_f64());
            }
            continue;
        }
        let (id, c) = id.strip_suffix("crlf").map_or((id, false), |i| (i, true));
        for x in if c { crlf(id, run.tier == Tier::Thorough) } else { suites(id, run.tier == Tier::Thorough) } {
            let total = x.files.len() * x.inputs.len() * x.opts.len();
            println!("## {id} {}: {} files x {} inputs x {} opts = {total}", x.tag, x.files.len(), x.inputs.len(), x.opts.len());
            for o in &x.opts {
                let t = std::time::Instant::now();
                sweep(run, x.tag, &x.files, &x.inputs, o, x.spans, x.crlf);
                println!("   {:.1}s", t.elapsed().as_secs_f64());
            }
        }
    }
}
