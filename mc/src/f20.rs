//! F20: definitions on the command line. Every text of a definition over the alphabets, and lists
//! of definitions, against a reader written from the documented form
//! `NAME=VALUE` and `#[FORMAT,]NAME=EXPRESSION`.
use crate::fc::{self, Real};
use crate::fcm::NumFmt;
use crate::fw::*;
use crate::proc::Call;
use filecheck::{Config, expr::CliVariable};
use std::collections::BTreeMap;

/// What is known about the format of a number.
#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    /// of literals
    None,
    /// of a variable defined without one
    Default,
    Is(NumFmt),
}

/// Why there is no value.
#[derive(Clone, Copy, Debug, PartialEq)]
enum No {
    /// the definition is not well-formed
    Malformed,
    /// it has no value: to be rejected when it is made or used
    Value,
    /// what it means is not specified
    Open,
}

#[derive(Clone, Debug, PartialEq)]
enum V {
    S(String),
    N(i128, F),
    /// cannot be used
    Bad,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Num(Option<i128>),
    P(char),
}

fn tokens(s: &str) -> Result<Vec<T>, No> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let start = i;
        match c[i] {
            ' ' | '\t' => {
                i += 1;
                continue;
            }
            x if x == '_' || x.is_ascii_alphabetic() => {
                while i < c.len() && (c[i] == '_' || c[i].is_ascii_alphanumeric()) {
                    i += 1;
                }
                out.push(T::Id(c[start..i].iter().collect()));
            }
            x if x.is_ascii_digit() => {
                let radix = match c.get(i + 1) {
                    Some('x') if x == '0' && c.get(i + 2).is_some_and(|c| c.is_ascii_hexdigit()) => 16,
                    Some('b') if x == '0' && c.get(i + 2).is_some_and(|c| c.is_digit(2)) => 2,
                    _ => 10,
                };
                let from = if radix == 10 { i } else { i + 2 };
                i = from;
                while i < c.len() && c[i].is_digit(radix) {
                    i += 1;
                }
                out.push(T::Num(i128::from_str_radix(&c[from..i].iter().collect::<String>(), radix).ok()));
            }
            x if "()#%,.+-=$@:".contains(x) => {
                i += 1;
                if x == '=' && c.get(i) == Some(&'=') {
                    return Err(No::Malformed);
                }
                out.push(T::P(x));
            }
            _ => return Err(No::Malformed),
        }
    }
    Ok(out)
}

type Num = Result<(i128, F), No>;

struct Reader<'a> {
    t: Vec<T>,
    i: usize,
    defs: &'a BTreeMap<String, V>,
}

const FUNS: [&str; 6] = ["add", "sub", "mul", "div", "min", "max"];

impl Reader<'_> {
    fn eat(&mut self, c: char) -> bool {
        let ok = self.t.get(self.i) == Some(&T::P(c));
        self.i += ok as usize;
        ok
    }
    fn need(&mut self, c: char) -> Result<(), No> {
        self.eat(c).then_some(()).ok_or(No::Malformed)
    }
    fn name(&mut self) -> Result<String, No> {
        let Some(T::Id(n)) = self.t.get(self.i).cloned() else {
            return Err(if matches!(self.t.get(self.i), Some(T::P('$'))) { No::Open } else { No::Malformed });
        };
        self.i += 1;
        // (whether the name of a function can be that of a variable)
        if FUNS.contains(&n.as_str()) { Err(No::Open) } else { Ok(n) }
    }
    /// Malformed takes precedence over a value that does not exist: the inner result is the value.
    fn expr(&mut self) -> Result<Num, No> {
        let mut v = self.term()?;
        loop {
            let op = if self.eat('+') {
                '+'
            } else if self.eat('-') {
                '-'
            } else {
                return Ok(v);
            };
            let w = self.term()?;
            v = apply(op, v, w);
        }
    }
    fn term(&mut self) -> Result<Num, No> {
        if self.eat('(') {
            let v = self.expr()?;
            self.need(')')?;
            return Ok(v);
        }
        let neg = self.eat('-');
        match self.t.get(self.i).cloned() {
            Some(T::Num(n)) => {
                self.i += 1;
                let n = n.ok_or(No::Open)?;
                Ok(Ok((if neg { -n } else { n }, F::None)))
            }
            _ if neg => Err(No::Malformed),
            Some(T::Id(n)) if self.t.get(self.i + 1) == Some(&T::P('(')) => {
                self.i += 2;
                let a = self.expr()?;
                let mut args = vec![a];
                while self.eat(',') {
                    args.push(self.expr()?);
                }
                self.need(')')?;
                if !FUNS.contains(&n.as_str()) || args.len() != 2 {
                    return Err(No::Malformed);
                }
                let b = args.pop().unwrap();
                let a = args.pop().unwrap();
                Ok(apply(n.chars().next().map(|c| if n == "min" { '<' } else if n == "max" { '>' } else { c }).unwrap(), a, b))
            }
            Some(T::Id(_)) => {
                let n = self.name()?;
                Ok(match self.defs.get(&n) {
                    Some(V::N(v, F::None)) => Ok((*v, F::Default)),
                    Some(V::N(v, f)) => Ok((*v, *f)),
                    _ => Err(No::Value),
                })
            }
            Some(T::P('@' | '$')) => Err(No::Open),
            _ => Err(No::Malformed),
        }
    }
}

fn apply(op: char, a: Num, b: Num) -> Num {
    let ((a, f), (b, g)) = (a?, b?);
    let f = match (f, g) {
        (F::None, x) | (x, F::None) => x,
        (F::Default, F::Default) => F::Default,
        // (whether a variable without a format is one of unsigned format)
        (F::Default, _) | (_, F::Default) => return Err(No::Open),
        (F::Is(h), F::Is(g)) if (h.conv, h.alt) == (g.conv, g.alt) && (h.prec == g.prec || h.prec == 0 || g.prec == 0) => F::Is(NumFmt { prec: h.prec.max(g.prec), ..h }),
        // (upper and lower case hexadecimal)
        (F::Is(h), F::Is(g)) if h.conv.eq_ignore_ascii_case(&g.conv) => return Err(No::Open),
        _ => return Err(No::Value),
    };
    let v = match op {
        '+' | 'a' => a.checked_add(b),
        '-' | 's' => a.checked_sub(b),
        'm' => a.checked_mul(b),
        'd' => a.checked_div(b),
        '<' => Some(a.min(b)),
        _ => Some(a.max(b)),
    };
    Ok((v.ok_or(No::Value)?, f))
}

/// What a definition defines.
fn read(text: &str, defs: &BTreeMap<String, V>) -> Result<(String, V), No> {
    let Some(rest) = text.strip_prefix('#') else {
        let (n, v) = text.split_once('=').ok_or(No::Malformed)?;
        if n.starts_with('$') {
            return Err(No::Open);
        }
        let ok = n.chars().next().is_some_and(|c| c == '_' || c.is_ascii_alphabetic()) && n.chars().all(|c| c == '_' || c.is_ascii_alphanumeric());
        return if ok { Ok((n.to_string(), V::S(v.to_string()))) } else { Err(No::Malformed) };
    };
    let mut r = Reader { t: tokens(rest)?, i: 0, defs };
    let mut fmt = None;
    if r.eat('%') {
        let alt = r.eat('#');
        let mut prec = 0;
        if r.eat('.') {
            let Some(T::Num(Some(n))) = r.t.get(r.i) else { return Err(No::Malformed) };
            prec = *n;
            r.i += 1;
        }
        let conv = match r.t.get(r.i) {
            Some(T::Id(c)) if ["u", "d", "x", "X"].contains(&c.as_str()) => c.chars().next().unwrap(),
            Some(T::Id(_)) => return Err(No::Malformed),
            // (whether it can be left out)
            _ => return Err(No::Open),
        };
        r.i += 1;
        r.need(',')?;
        if !(0..=255).contains(&prec) {
            return Err(No::Malformed);
        }
        if alt && "ud".contains(conv) {
            return Err(No::Open);
        }
        fmt = Some(NumFmt { conv, prec: prec as u32, alt });
    }
    let n = r.name()?;
    r.need('=')?;
    let v = r.expr()?;
    if r.i < r.t.len() {
        return Err(No::Malformed);
    }
    let v = match (v, fmt) {
        // (an explicit format resolves conflicts)
        (Err(_), Some(_)) => return Err(No::Open),
        (Err(No::Open), _) => return Err(No::Open),
        (Err(_), None) => V::Bad,
        (Ok((v, _)), Some(f)) => V::N(v, F::Is(f)),
        (Ok((v, f)), None) => V::N(v, f),
    };
    Ok((n, v))
}

const FORMATS: [NumFmt; 7] = [
    NumFmt { conv: 'u', prec: 0, alt: false },
    NumFmt { conv: 'd', prec: 0, alt: false },
    NumFmt { conv: 'x', prec: 0, alt: false },
    NumFmt { conv: 'X', prec: 0, alt: false },
    NumFmt { conv: 'u', prec: 4, alt: false },
    NumFmt { conv: 'x', prec: 4, alt: false },
    NumFmt { conv: 'x', prec: 0, alt: true },
];

/// All ways to write numbers near a value, but for those which differ in the case of letters.
fn written(v: i128, f: Option<NumFmt>) -> Vec<String> {
    let mut out = vec![];
    for d in [0, 1, -1] {
        for v in [v.saturating_add(d), v.saturating_add(d).saturating_neg()] {
            for g in FORMATS {
                if g.conv == 'X' && f.is_none_or(|f| f.conv != 'X') || g.conv == 'x' && f.is_some_and(|f| f.conv == 'X') {
                    continue;
                }
                out.extend(g.render(v));
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

struct Case<'a> {
    texts: &'a [String],
    name: &'a str,
}

/// Makes the definitions one after the other, and then uses the last name.
fn one(run: &Run, c: &Case) {
    let mut defs = BTreeMap::new();
    let key = |what: &str| format!("{what}: {}", c.texts.iter().map(|t| format!("-D {t:?}")).collect::<Vec<_>>().join(" "));
    let mut vars: Vec<CliVariable> = vec![];
    for t in c.texts {
        let want = read(t, &defs);
        let got = match guard(|| t.parse::<CliVariable>()) {
            Ok(g) => g,
            Err(p) => return run.violation(key("panic"), p),
        };
        match (want, got) {
            (Err(No::Open), _) => return run.outcome("not specified"),
            (Err(No::Malformed), Err(_)) => return run.outcome("malformed"),
            (Err(No::Malformed), Ok(v)) => return run.violation(key("a malformed definition is accepted"), format!("{v:?}")),
            (Ok((_, V::Bad)), Err(_)) => return run.outcome("refused: without a value"),
            (Ok(w), Err(e)) => return run.violation(key("a definition is refused"), format!("should be {w:?}: {e}")),
            (Ok((n, v)), Ok(x)) => {
                if x.name().into_inner().as_str() != n {
                    return run.violation(key("another name is defined"), format!("{x:?}"));
                }
                defs.insert(n, v);
                vars.push(x);
            }
            (Err(No::Value), _) => unreachable!(),
        }
    }
    let mut config = Config::default();
    config.options.variables = vars;
    config.options.strict_whitespace = true;
    let name = c.name;
    let mut uses: Vec<(String, Option<String>, Vec<String>)> = vec![];
    match defs.get(name) {
        Some(V::S(s)) => {
            let near: Vec<String> = [s.as_str(), s.trim(), &s.replace('\\', ""), &s.replace('=', ""), &s.to_uppercase(), &format!("{s}x"), &format!("{s}{s}"), "", "x"].iter().map(|s| s.to_string()).collect();
            uses.push((format!("<[[{name}]]>"), Some(format!("<{s}>")), near));
        }
        Some(V::N(v, f)) => {
            let fmt = match f {
                F::Is(f) => *f,
                _ => NumFmt::U,
            };
            uses.push((format!("<[[#{name}]]>"), fmt.render(*v).map(|s| format!("<{s}>")), written(*v, Some(fmt))));
            if let Some(w) = v.checked_add(1) {
                uses.push((format!("<[[#{name}+1]]>"), fmt.render(w).map(|s| format!("<{s}>")), written(w, Some(fmt))));
            }
            uses.push((format!("<[[#%.2d,{name}]]>"), NumFmt { conv: 'd', prec: 2, alt: false }.render(*v).map(|s| format!("<{s}>")), written(*v, None)));
        }
        // used before it is defined, or without a value
        Some(V::Bad) | None => uses.push((format!("<[[#{name}]]>"), None, vec!["".into(), "0".into(), "1".into(), name.into()])),
    }
    run.count(uses.len() as u64, uses.len() as u64, 1);
    for (pattern, want, near) in uses {
        let text = format!("CHECK: {pattern}\n");
        // the right one comes last
        let mut lines: Vec<String> = near.iter().map(|s| format!("<{s}>")).filter(|s| Some(s) != want.as_ref() && !s.contains('\n')).collect();
        lines.extend(want.clone());
        let input = lines.join("\n") + "\n";
        let expect = want.as_ref().map(|w| {
            let end = input.len() - 1;
            (end - w.len(), end)
        });
        fc::with_checks(&config, &text, false, |f| {
            let ok = match (f(&input), expect) {
                (Real::Accept(v), Some(e)) => v == [e],
                (Real::Reject, None) => true,
                _ => false,
            };
            if !ok {
                run.violation(key(&format!("{pattern} does not match {want:?} alone")), format!("input: {input:?}\nresult: {:?}\ndefinitions: {defs:?}", f(&input)));
            }
        });
        run.outcome(if want.is_some() { "used" } else { "without a value" });
    }
}

pub fn check(run: &Run) {
    let s = |t: &str| t.to_string();
    // expressions
    let toks = ["1", "0x1F", "20", "-", "+", "(", ")", "M", "max(", ","];
    let max = run.pick(5, 6);
    let exprs = strings(&toks, max);
    let before: Vec<Vec<String>> = vec![vec![s("#M=7")], vec![s("#%x,M=30")], vec![]];
    for (k, b) in before.iter().enumerate() {
        let all: Vec<&String> = exprs.iter().filter(|e| k == 0 || e.contains('M')).collect();
        par_for(run, all.len(), |i| {
            let mut texts = b.clone();
            texts.push(format!("#N={}", all[i]));
            one(run, &Case { texts: &texts, name: "N" });
        });
        run.bound(format!("{} expressions of up to {max} of {} fragments, after {b:?}", all.len(), toks.len()));
    }
    // functions, sizes, blanks
    let mut terms: Vec<String> = ["0", "1", "-1", "7", "-20", "0x1f", "-0xA", "0b101", "007", "0xff", "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105727", "M", "K", "(M)", "- 3", "(-3)", "M-1", "K - M", "3-2-1", "3-(2-1)", "- 3 - 2", "0x", "0b2", "08", "1_0", "1.5", "é", "1 2", "'1'", "U"].iter().map(|t| s(t)).collect();
    let base: Vec<String> = if run.thorough() { terms[..16].to_vec() } else { ["0", "-20", "0x1f", "7", "M", "K", "- 3"].map(String::from).to_vec() };
    for f in ["add", "sub", "mul", "div", "min", "max", "pow", "addx"] {
        for a in &base {
            terms.push(format!("{f}({a})"));
            for b in &base {
                terms.push(format!("{f}({a},{b})"));
                terms.push(format!("{f}( {a} , {b} ) - 1"));
            }
        }
        terms.push(format!("{f}()"));
        terms.push(format!("{f}(1,2,3)"));
        terms.push(format!("{f} (1,2)"));
        terms.push(format!("2-{f}(1,{f}(2,3))"));
    }
    let formats: Vec<String> = ["", "%u,", "%d,", "%x,", "%X,", "%.4u,", "%.4x,", "%.3X,", "%.4d,", "%#x,", "%#.4x,", "%.0u,", "%.300u,", "%s,", "%ux,", "%u", "%.x,", "%.-1u,", ",", "u,", "% x , ", "%U,", "% .2 d ,"].iter().map(|t| s(t)).collect();
    for (k, b) in [vec![s("#M=7"), s("#K=12")], vec![s("#%x,M=10"), s("#%x,K=0x2b")], vec![s("#%.3d,M=-7"), s("#%d,K=12")], vec![s("#%u,M=7"), s("#%x,K=12")], vec![s("U=5"), s("M=7"), s("K=k")]].into_iter().enumerate() {
        let n = terms.len() * formats.len();
        par_for(run, n, |i| {
            let (t, f) = (&terms[i / formats.len()], &formats[i % formats.len()]);
            for (x, y) in [("", ""), (" ", " ")] {
                let mut texts = b.clone();
                texts.push(format!("#{x}{f}N{y}={x}{t}{y}"));
                one(run, &Case { texts: &texts, name: "N" });
            }
        });
        if k == 0 {
            run.bound(format!("{} expressions with each of {} formats, with and without blanks, after each of 5 lists of definitions", terms.len(), formats.len()));
        }
    }
    // names
    let names = strings(&["N", "a", "_", "1", "-", ".", " ", "é", "@", "#", "%", "[", "="], run.pick(3, 4));
    par_for(run, names.len(), |i| {
        let n = &names[i];
        for t in [format!("{n}=v"), format!("#{n}=7"), format!("#%x,{n}=12"), n.clone(), format!("#{n}")] {
            let name = read(&t, &BTreeMap::new()).map_or("N".into(), |x| x.0);
            one(run, &Case { texts: &[t], name: &name });
        }
    });
    run.bound(format!("{} texts as names, of text and of numbers", names.len()));
    // values
    let values = strings(&["a", "B", "=", " ", "\t", "#", "[", "]]", "{{", "}", "\\", ".", "*", "$", "é", "'", "\"", "%", "-", "1"], run.pick(3, 4));
    par_for(run, values.len(), |i| one(run, &Case { texts: &[format!("X={}", values[i])], name: "X" }));
    run.bound(format!("{} values of text", values.len()));
    // lists
    let pool: Vec<String> = ["X=a", "X=b", "X=", "#X=3", "#X=X+1", "#%x,X=10", "#Y=X+10", "#%X,Y=X", "Y=X", "#Y=Y-1", "#X=Y", "Z=z", "#%d,X=0-X"].iter().map(|t| s(t)).collect();
    let lists = sequences(&pool, 1, run.pick(4, 5));
    par_for(run, lists.len(), |i| {
        for n in ["X", "Y"] {
            one(run, &Case { texts: &lists[i], name: n });
        }
    });
    run.bound(format!("{} lists of up to {} of {} definitions", lists.len(), run.pick(4, 5), pool.len()));
    // the command
    let d = Scratch::new("f20");
    let texts: Vec<String> = formats.iter().flat_map(|f| ["1", "3-2", "0x1F", "-5", "(", "foo(1,2)", "M", ""].map(|e| format!("#{f}N={e}"))).chain(["N=1", "N", "", "=1", "1=1", "N = 1", "N==1", "#", "#=", "#N", "é=1"].map(String::from)).collect();
    let ways = 4;
    par_for(run, texts.len(), |i| {
        let t = &texts[i];
        let want = read(t, &BTreeMap::new());
        let dir = d.path().join(i.to_string());
        std::fs::create_dir(&dir).unwrap();
        std::fs::write(dir.join("c"), "CHECK: a\n").unwrap();
        for w in 0..ways {
            // (an option without its value)
            if t.is_empty() && w == 0 {
                continue;
            }
            let (a, env): (Vec<String>, _) = match w {
                0 => (vec![format!("-D{t}")], None),
                1 => (vec!["-D".into(), t.clone()], None),
                2 => (vec![format!("--define={t}")], None),
                _ => (vec![], Some(format!("-D '{t}'"))),
            };
            let mut args: Vec<&str> = vec!["filecheck", "c"];
            args.extend(a.iter().map(String::as_str));
            let mut c = Call::new(&dir, &args);
            c.stdin = Some(b"a\n");
            c.env.extend(env.map(|e| ("FILECHECK_OPTS".to_string(), e)));
            // "-D=1" means "-D 1"
            let want = if w == 0 && t.starts_with('=') { Err(No::Open) } else { want.clone() };
            let out = c.run();
            run.count(1, 1, 1);
            let ok = match want {
                Err(No::Open) | Ok((_, V::Bad)) => matches!(out.code, Some(0..=2)),
                Err(_) => out.code.is_some_and(|c| c != 0 && c != 101),
                Ok(_) => out.code == Some(0),
            };
            if !ok {
                run.violation(format!("the command: way {w} of defining {t:?}"), format!("should be {want:?}\n{:?} {}", out.code, out.stderr()));
            }
        }
    });
    run.bound(format!("{} definitions, given to the command in each of {ways} ways", texts.len()));
    run.assume("whether a variable defined without a format counts as unsigned beside one with a format, names with $ or of functions, and when a definition in terms of an undefined variable is rejected, are not specified");
}
