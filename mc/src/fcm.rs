//! Reference model of FileCheck, written from its documentation: a structured check file is
//! evaluated directly over the text, with a backtracking matcher of its own. It shares no code
//! with the implementation.
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Plain,
    Next,
    Same,
    Not,
    Dag,
    Label,
    Empty,
    Count(u32),
}
pub use Kind::*;

/// A piece of a pattern.
#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    /// literal text
    Lit(String),
    /// `{{re}}`
    Re(String),
    /// `[[NAME:re]]`
    Def(String, String),
    /// `[[NAME]]`
    Use(String),
    /// `[[#fmt, NAME:]]` / `[[#fmt, NAME: == expr]]` / `[[#fmt, expr]]`
    Num { fmt: Option<NumFmt>, def: Option<String>, expr: Option<Ex> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct NumFmt {
    /// one of u d x X
    pub conv: char,
    pub prec: u32,
    pub alt: bool,
}
impl Opt {
    /// The options that differ from the defaults.
    pub fn text(&self) -> String {
        let mut v = vec![];
        for (on, n) in [
            (self.strict_ws, "strict-whitespace"),
            (self.full_lines, "match-full-lines"),
            (self.icase, "ignore-case"),
            (self.scope, "enable-var-scope"),
            (self.allow_empty, "allow-empty"),
        ] {
            if on {
                v.push(n.to_string());
            }
        }
        v.extend(self.implicit.iter().map(|p| format!("implicit-check-not={p}")));
        v.extend(self.defs.iter().map(|(n, x)| match x {
            Val::S(s) => format!("D{n}={s}"),
            Val::N(x, f) => format!("D#{},{n}={x}", f.text()),
        }));
        if v.is_empty() { String::new() } else { format!(" with {}", v.join(" ")) }
    }
}
impl NumFmt {
    pub const U: NumFmt = NumFmt { conv: 'u', prec: 0, alt: false };
    pub fn text(&self) -> String {
        let mut s = String::from("%");
        if self.alt {
            s.push('#');
        }
        if self.prec > 0 {
            s.push_str(&format!(".{}", self.prec));
        }
        s.push(self.conv);
        s
    }
    /// the textual form of a value; None when the format cannot represent it
    pub fn render(&self, v: i128) -> Option<String> {
        let neg = v < 0;
        if neg && self.conv != 'd' {
            return None;
        }
        let m = v.unsigned_abs();
        let d = match self.conv {
            'x' => format!("{m:x}"),
            'X' => format!("{m:X}"),
            _ => format!("{m}"),
        };
        let d = format!("{}{}", "0".repeat((self.prec as usize).saturating_sub(d.len())), d);
        Some(format!(
            "{}{}{}",
            if neg { "-" } else { "" },
            if self.alt { "0x" } else { "" },
            d
        ))
    }
}

/// Numeric expressions.
#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    Int(i128),
    Hex(i128),
    Var(String),
    Line,
    Bin(char, Box<Ex>, Box<Ex>),
    Call(&'static str, Box<Ex>, Box<Ex>),
    Paren(Box<Ex>),
}
impl Ex {
    pub fn text(&self) -> String {
        match self {
            Ex::Int(i) => i.to_string(),
            Ex::Hex(i) => format!("0x{i:x}"),
            Ex::Var(v) => v.clone(),
            Ex::Line => "@LINE".into(),
            Ex::Bin(o, a, b) => format!("{} {o} {}", a.text(), b.text()),
            Ex::Call(f, a, b) => format!("{f}({}, {})", a.text(), b.text()),
            Ex::Paren(e) => format!("({})", e.text()),
        }
    }
    /// Err: cannot be evaluated (undefined variable, division by zero, overflow)
    pub fn eval(&self, get: &dyn Fn(&str) -> Option<i128>, line: i128) -> Result<i128, ()> {
        match self {
            Ex::Int(i) | Ex::Hex(i) => Ok(*i),
            Ex::Var(v) => get(v).ok_or(()),
            Ex::Line => Ok(line),
            Ex::Paren(e) => e.eval(get, line),
            Ex::Bin(o, a, b) => {
                let (a, b) = (a.eval(get, line)?, b.eval(get, line)?);
                if *o == '+' { a.checked_add(b) } else { a.checked_sub(b) }.ok_or(())
            }
            Ex::Call(f, a, b) => {
                let (a, b) = (a.eval(get, line)?, b.eval(get, line)?);
                match *f {
                    "add" => a.checked_add(b),
                    "sub" => a.checked_sub(b),
                    "mul" => a.checked_mul(b),
                    "div" => a.checked_div(b),
                    "min" => Some(a.min(b)),
                    "max" => Some(a.max(b)),
                    _ => unreachable!(),
                }
                .ok_or(())
            }
        }
    }
    /// the format implied by the variables used, if any
    fn vars<'a>(&'a self, out: &mut Vec<&'a str>) {
        match self {
            Ex::Var(v) => out.push(v),
            Ex::Bin(_, a, b) | Ex::Call(_, a, b) => {
                a.vars(out);
                b.vars(out);
            }
            Ex::Paren(e) => e.vars(out),
            _ => {}
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ck {
    pub kind: Kind,
    pub literal: bool,
    pub parts: Vec<Part>,
}
impl Ck {
    pub fn new(kind: Kind, parts: Vec<Part>) -> Ck {
        Ck { kind, literal: false, parts }
    }
    pub fn lit(kind: Kind, s: &str) -> Ck {
        Ck::new(kind, if kind == Empty { vec![] } else { vec![Part::Lit(s.into())] })
    }
    pub fn directive(&self) -> String {
        let m = if self.literal { "{LITERAL}" } else { "" };
        let k = match self.kind {
            Plain => String::new(),
            Next => "-NEXT".into(),
            Same => "-SAME".into(),
            Not => "-NOT".into(),
            Dag => "-DAG".into(),
            Label => "-LABEL".into(),
            Empty => "-EMPTY".into(),
            Count(n) => format!("-COUNT-{n}"),
        };
        format!("CHECK{k}{m}:")
    }
    pub fn defines(&self) -> bool {
        self.parts.iter().any(|p| matches!(p, Part::Def(..) | Part::Num { def: Some(_), .. }))
    }
    pub fn pattern_text(&self) -> String {
        self.parts.iter().map(part_text).collect()
    }
}
pub fn part_text(p: &Part) -> String {
    match p {
        Part::Lit(s) => s.clone(),
        Part::Re(r) => format!("{{{{{r}}}}}"),
        Part::Def(n, r) => format!("[[{n}:{r}]]"),
        Part::Use(n) => format!("[[{n}]]"),
        Part::Num { fmt, def, expr } => {
            let mut s = String::from("[[#");
            if let Some(f) = fmt {
                s.push_str(&f.text());
                s.push(',');
                if def.is_some() || expr.is_some() {
                    s.push(' ');
                }
            }
            if let Some(d) = def {
                s.push_str(d);
                s.push(':');
            }
            if let Some(e) = expr {
                if def.is_some() {
                    s.push_str(" == ");
                }
                s.push_str(&e.text());
            }
            s.push_str("]]");
            s
        }
    }
}
/// The check file: one directive per line.
pub fn render(checks: &[Ck]) -> String {
    let mut s = String::new();
    for c in checks {
        s.push_str(&c.directive());
        if !c.parts.is_empty() {
            s.push(' ');
            s.push_str(&c.pattern_text());
        }
        s.push('\n');
    }
    s
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Opt {
    pub strict_ws: bool,
    pub full_lines: bool,
    pub icase: bool,
    pub scope: bool,
    pub allow_empty: bool,
    pub implicit: Vec<String>,
    pub defs: Vec<(String, Val)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    S(String),
    N(i128, NumFmt),
}
pub type Env = BTreeMap<String, Val>;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// spans of the matches in file order
    Accept(Vec<(usize, usize)>),
    Reject(&'static str),
    /// several matchings of an unordered group are possible: only soundness is checked
    Ambiguous,
}

// ---------------------------------------------------------------- regular expressions

#[derive(Clone, Debug)]
pub enum R {
    Set(Vec<(u8, u8)>, bool),
    Cat(Vec<R>),
    Alt(Vec<R>),
    Rep(Box<R>, usize, usize),
    Bol,
    Eol,
}

/// Parse the small regular-expression language the enumerations use.
pub fn parse_re(s: &str) -> R {
    let b = s.as_bytes();
    let mut i = 0;
    let r = alt(b, &mut i);
    assert_eq!(i, b.len(), "model regex {s:?}");
    r
}
fn alt(b: &[u8], i: &mut usize) -> R {
    let mut v = vec![cat(b, i)];
    while *i < b.len() && b[*i] == b'|' {
        *i += 1;
        v.push(cat(b, i));
    }
    if v.len() == 1 { v.pop().unwrap() } else { R::Alt(v) }
}
fn cat(b: &[u8], i: &mut usize) -> R {
    let mut v = vec![];
    while *i < b.len() && b[*i] != b'|' && b[*i] != b')' {
        let mut a = atom(b, i);
        while *i < b.len() {
            a = match b[*i] {
                b'*' => R::Rep(Box::new(a), 0, usize::MAX),
                b'+' => R::Rep(Box::new(a), 1, usize::MAX),
                b'?' => R::Rep(Box::new(a), 0, 1),
                _ => break,
            };
            *i += 1;
        }
        v.push(a);
    }
    R::Cat(v)
}
fn atom(b: &[u8], i: &mut usize) -> R {
    let c = b[*i];
    *i += 1;
    match c {
        b'(' => {
            let r = alt(b, i);
            assert_eq!(b[*i], b')');
            *i += 1;
            r
        }
        b'.' => R::Set(vec![(b'\n', b'\n')], true),
        b'^' => R::Bol,
        b'$' => R::Eol,
        b'[' => {
            let neg = b[*i] == b'^';
            if neg {
                *i += 1;
            }
            let mut set = vec![];
            while b[*i] != b']' {
                let lo = b[*i];
                *i += 1;
                if b[*i] == b'-' && b[*i + 1] != b']' {
                    set.push((lo, b[*i + 1]));
                    *i += 2;
                } else {
                    set.push((lo, lo));
                }
            }
            *i += 1;
            if neg {
                set.push((b'\n', b'\n'));
            }
            R::Set(set, neg)
        }
        b'\\' => {
            let c = b[*i];
            *i += 1;
            R::Set(vec![(c, c)], false)
        }
        c => R::Set(vec![(c, c)], false),
    }
}

/// Elements of a compiled pattern.
#[derive(Clone, Debug)]
enum El {
    Byte(u8),
    /// a space or a tab
    Ws,
    Rx(R),
    DefS(String, R),
    UseS(String),
    DefN(String, NumFmt),
    /// capture constrained to equal an already known text
    Fixed(String, Option<(String, i128, NumFmt)>),
    AnyNum(NumFmt),
    /// an expression over numbers captured earlier in the same pattern
    Late(Ex, Option<NumFmt>, Env, i128, Option<String>),
    Bol(bool),
    Eol(bool),
}

struct M<'a> {
    t: &'a [u8],
    end: usize,
    icase: bool,
}
fn eqc(a: u8, b: u8, ic: bool) -> bool {
    if ic { a.eq_ignore_ascii_case(&b) } else { a == b }
}
impl M<'_> {
    fn rx(&self, r: &R, i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
        match r {
            R::Set(set, neg) => {
                if i >= self.end {
                    return false;
                }
                let c = self.t[i];
                let inn = |c: u8| set.iter().any(|&(l, h)| l <= c && c <= h);
                let hit = inn(c)
                    || (self.icase && (inn(c.to_ascii_lowercase()) || inn(c.to_ascii_uppercase())));
                (hit != *neg) && k(i + 1)
            }
            R::Bol => (i == 0 || self.t[i - 1] == b'\n') && k(i),
            R::Eol => (i == self.t.len() || self.t[i] == b'\n') && k(i),
            R::Cat(v) => self.cat(v, i, k),
            R::Alt(v) => v.iter().any(|r| self.rx(r, i, k)),
            R::Rep(r, lo, hi) => self.rep(r, *lo, *hi, i, k),
        }
    }
    fn cat(&self, v: &[R], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
        match v.split_first() {
            None => k(i),
            Some((r, rest)) => self.rx(r, i, &mut |j| self.cat(rest, j, k)),
        }
    }
    fn rep(&self, r: &R, lo: usize, hi: usize, i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
        if hi > 0
            && self.rx(r, i, &mut |j| {
                j > i && self.rep(r, lo.saturating_sub(1), hi.saturating_sub(1), j, k)
            })
        {
            return true;
        }
        lo == 0 && k(i)
    }
    fn els(
        &self,
        v: &[El],
        i: usize,
        caps: &mut Vec<(String, Val)>,
        out: &mut Option<(usize, Vec<(String, Val)>)>,
    ) -> bool {
        let Some((e, rest)) = v.split_first() else {
            *out = Some((i, caps.clone()));
            return true;
        };
        match e {
            El::Byte(b) => {
                i < self.end && eqc(self.t[i], *b, self.icase) && self.els(rest, i + 1, caps, out)
            }
            El::Ws => {
                i < self.end
                    && (self.t[i] == b' ' || self.t[i] == b'\t')
                    && self.els(rest, i + 1, caps, out)
            }
            El::Rx(r) => {
                let caps = std::cell::RefCell::new(caps);
                let out = std::cell::RefCell::new(out);
                self.rx(r, i, &mut |j| self.els(rest, j, *caps.borrow_mut(), *out.borrow_mut()))
            }
            El::DefS(n, r) => {
                let caps = std::cell::RefCell::new(caps);
                let out = std::cell::RefCell::new(out);
                self.rx(r, i, &mut |j| {
                    let s = String::from_utf8_lossy(&self.t[i..j]).into_owned();
                    let mut c = caps.borrow_mut();
                    c.push((n.clone(), Val::S(s)));
                    let ok = self.els(rest, j, *c, *out.borrow_mut());
                    c.pop();
                    ok
                })
            }
            El::UseS(n) => {
                let Some((_, Val::S(s))) = caps.iter().rev().find(|c| &c.0 == n).cloned() else {
                    return false;
                };
                self.text(&s, i).is_some_and(|j| self.els(rest, j, caps, out))
            }
            El::Fixed(s, def) => {
                let Some(j) = self.text(s, i) else { return false };
                if let Some((n, v, f)) = def {
                    caps.push((n.clone(), Val::N(*v, *f)));
                    let ok = self.els(rest, j, caps, out);
                    caps.pop();
                    ok
                } else {
                    self.els(rest, j, caps, out)
                }
            }
            El::Late(e, f, env, line, def) => {
                let mut env = env.clone();
                bind(&mut env, caps.clone());
                let Ok((text, x, f)) = number(e, *f, &env, *line) else { return false };
                let def = def.clone().map(|d| (d, x, f));
                let mut w = vec![El::Fixed(text, def)];
                w.extend_from_slice(rest);
                self.els(&w, i, caps, out)
            }
            El::AnyNum(f) => {
                for (j, _) in self.nums(*f, i) {
                    if self.els(rest, j, caps, out) {
                        return true;
                    }
                }
                false
            }
            El::DefN(n, f) => {
                for (j, v) in self.nums(*f, i) {
                    caps.push((n.clone(), Val::N(v, *f)));
                    let ok = self.els(rest, j, caps, out);
                    caps.pop();
                    if ok {
                        return true;
                    }
                }
                false
            }
            El::Bol(ws) => {
                let mut j = i;
                if *ws {
                    while j > 0 && (self.t[j - 1] == b' ' || self.t[j - 1] == b'\t') {
                        j -= 1;
                    }
                }
                (j == 0 || self.t[j - 1] == b'\n') && self.els(rest, i, caps, out)
            }
            El::Eol(ws) => {
                let mut j = i;
                if *ws {
                    while j < self.t.len() && (self.t[j] == b' ' || self.t[j] == b'\t') {
                        j += 1;
                    }
                }
                (j == self.t.len() || self.t[j] == b'\n') && self.els(rest, i, caps, out)
            }
        }
    }
    fn text(&self, s: &str, i: usize) -> Option<usize> {
        let b = s.as_bytes();
        (i + b.len() <= self.end && b.iter().zip(&self.t[i..]).all(|(x, y)| eqc(*x, *y, self.icase)))
            .then_some(i + b.len())
    }
    /// well-formed numbers of format `f` starting at `i`, longest first
    fn nums(&self, f: NumFmt, i: usize) -> Vec<(usize, i128)> {
        let mut j = i;
        let mut neg = false;
        if f.conv == 'd' && j < self.end && self.t[j] == b'-' {
            neg = true;
            j += 1;
        }
        if f.alt {
            if j + 2 <= self.end && &self.t[j..j + 2] == b"0x" {
                j += 2;
            } else {
                return vec![];
            }
        }
        let ok = |c: u8| match f.conv {
            // either case: only %X restricts it
            'x' => c.is_ascii_hexdigit(),
            'X' => c.is_ascii_digit() || (b'A'..=b'F').contains(&c),
            _ => c.is_ascii_digit(),
        };
        let st = j;
        let radix = if matches!(f.conv, 'x' | 'X') { 16 } else { 10 };
        let mut v = vec![];
        while j < self.end && ok(self.t[j]) {
            j += 1;
            let d = std::str::from_utf8(&self.t[st..j]).unwrap();
            let n = d.len();
            if n < f.prec as usize {
                continue;
            }
            if let Ok(x) = i128::from_str_radix(d, radix) {
                v.push((j, if neg { -x } else { x }));
            }
        }
        v.reverse();
        v
    }
}

const AMBIGUOUS: &str = "(unspecified)";

impl Found {
    fn shape(&self) -> u8 {
        match self {
            Found::At(..) => 0,
            Found::No => 1,
            Found::Bad => 2,
        }
    }
}

/// Outcome of searching one pattern.
enum Found {
    At(usize, usize, Vec<(String, Val)>),
    No,
    /// the pattern cannot be evaluated (undefined variable, division by zero...)
    Bad,
}

fn compile(c: &Ck, o: &Opt, env: &Env, line: i128) -> Result<Vec<El>, ()> {
    let mut v = vec![];
    let full = o.full_lines && !matches!(c.kind, Not);
    if full {
        v.push(El::Bol(!o.strict_ws));
    }
    let n = c.parts.len();
    let mut local: Vec<String> = vec![];
    // check files are canonicalised as inputs are
    let rx = |r: &str| if o.strict_ws { parse_re(r) } else { parse_re(&r.replace('\t', " ")) };
    for (pi, p) in c.parts.iter().enumerate() {
        match p {
            Part::Lit(s) => {
                let mut s = s.as_str();
                if !o.strict_ws {
                    if pi == 0 {
                        s = s.trim_start_matches([' ', '\t']);
                    }
                    if pi + 1 == n {
                        s = s.trim_end_matches([' ', '\t']);
                    }
                }
                let b = s.as_bytes();
                let mut i = 0;
                while i < b.len() {
                    if !o.strict_ws && (b[i] == b' ' || b[i] == b'\t') {
                        v.push(El::Ws);
                        i += 1;
                    } else {
                        v.push(El::Byte(b[i]));
                        i += 1;
                    }
                }
            }
            Part::Re(r) => v.push(El::Rx(rx(r))),
            Part::Def(n, r) => {
                v.push(El::DefS(n.clone(), rx(r)));
                local.push(n.clone());
            }
            Part::Use(n) => {
                if local.contains(n) {
                    v.push(El::UseS(n.clone()));
                } else {
                    match env.get(n) {
                        Some(Val::S(s)) => v.push(El::Fixed(s.clone(), None)),
                        Some(Val::N(x, f)) => {
                            v.push(El::Fixed(f.render(*x).ok_or(())?, None))
                        }
                        None => return Err(()),
                    }
                }
            }
            Part::Num { fmt, def, expr } => {
                let Some(e) = expr else {
                    let f = fmt.unwrap_or(NumFmt::U);
                    v.push(match def {
                        Some(d) => El::DefN(d.clone(), f),
                        None => El::AnyNum(f),
                    });
                    local.extend(def.clone());
                    continue;
                };
                let mut vars = vec![];
                e.vars(&mut vars);
                if vars.iter().any(|n| local.iter().any(|m| m == n)) {
                    v.push(El::Late(e.clone(), *fmt, env.clone(), line, def.clone()));
                    local.extend(def.clone());
                    continue;
                }
                local.extend(def.clone());
                let (s, x, f) = number(e, *fmt, env, line)?;
                v.push(El::Fixed(s, def.clone().map(|d| (d, x, f))));
            }
        }
    }
    if full {
        v.push(El::Eol(!o.strict_ws));
    }
    Ok(v)
}

/// Text, value and format of a numeric expression.
fn number(e: &Ex, fmt: Option<NumFmt>, env: &Env, line: i128) -> Result<(String, i128, NumFmt), ()> {
    let get = |n: &str| match env.get(n) {
        Some(Val::N(x, _)) => Some(*x),
        _ => None,
    };
    let x = e.eval(&get, line)?;
    let mut vars = vec![];
    e.vars(&mut vars);
    let mut f = fmt;
    if f.is_none() {
        for n in &vars {
            if let Some(Val::N(_, g)) = env.get(*n) {
                match f {
                    None => f = Some(*g),
                    // the same, or one of them leaves the number of digits open
                    Some(h) if (h.conv, h.alt) == (g.conv, g.alt) && (h.prec == g.prec || h.prec == 0 || g.prec == 0) => f = Some(NumFmt { prec: h.prec.max(g.prec), ..h }),
                    // conflicting implicit formats are an error
                    Some(_) => return Err(()),
                }
            }
        }
    }
    let f = f.unwrap_or(NumFmt::U);
    Ok((f.render(x).ok_or(())?, x, f))
}

fn search(c: &Ck, o: &Opt, env: &Env, line: usize, t: &[u8], from: usize, end: usize) -> Found {
    let Ok(els) = compile(c, o, env, line as i128 + 1) else { return Found::Bad };
    search_els(&els, o, t, from, end)
}
fn search_els(els: &[El], o: &Opt, t: &[u8], from: usize, end: usize) -> Found {
    let m = M { t, end, icase: o.icase };
    for s in from..=end {
        let mut out = None;
        if m.els(els, s, &mut vec![], &mut out) {
            let (e, caps) = out.unwrap();
            return Found::At(s, e, caps);
        }
    }
    Found::No
}
/// Does `c` match exactly the text between `s` and `e`?
pub fn matches_exactly(c: &Ck, o: &Opt, env: &Env, line: usize, t: &[u8], s: usize, e: usize) -> bool {
    let Ok(els) = compile(c, o, env, line as i128 + 1) else { return false };
    let m = M { t: &t[..e], end: e, icase: o.icase };
    let mut out = None;
    m.els(&els, s, &mut vec![], &mut out) && out.unwrap().0 == e
}

/// Is the text between `s` and `e` what one of the implicit patterns matches?
pub fn implicit(o: &Opt, input: &str, s: usize, e: usize) -> bool {
    let m = M { t: &input.as_bytes()[..e], end: e, icase: o.icase };
    o.implicit.iter().any(|p| {
        let mut out = None;
        m.els(&[El::Rx(parse_re(p))], s, &mut vec![], &mut out) && out.unwrap().0 == e
    })
}
/// Does `c`, which uses no variables, match anywhere between `s` and `e`?
pub fn occurs(c: &Ck, o: &Opt, line: usize, input: &str, s: usize, e: usize) -> bool {
    matches!(search(c, o, &Default::default(), line, input.as_bytes(), s, e), Found::At(..))
}

fn bind(env: &mut Env, caps: Vec<(String, Val)>) {
    for (n, v) in caps {
        env.insert(n, v);
    }
}
fn newlines(t: &[u8], a: usize, b: usize) -> usize {
    t[a..b].iter().filter(|&&c| c == b'\n').count()
}

/// `%x` captures digits of either case; in which case its value must later appear is not specified.
fn hex_case_unspecified(checks: &[Ck], t: &[u8]) -> bool {
    let parts = || checks.iter().flat_map(|c| &c.parts);
    let x = |f: &Option<NumFmt>| f.is_some_and(|f| f.conv == 'x');
    t.iter().any(|c| (b'A'..=b'F').contains(c))
        && parts().any(|p| match p {
            Part::Num { fmt, expr: Some(_), .. } => {
                x(fmt) || fmt.is_none() && parts().any(|p| matches!(p, Part::Num { fmt, .. } if x(fmt)))
            }
            _ => false,
        })
}

/// Evaluate a structured check file over `input`.
///
/// Blocks: the text of a label's own line belongs to no other block; a block runs from the end of
/// its label's line to the end of the line before the next label.
/// The check (or group of unordered checks, by its first and last) that decides a rejection, and
/// the text which it finds but must not.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Why {
    pub what: &'static str,
    pub first: usize,
    pub last: usize,
    pub at: Option<(usize, usize)>,
    /// how often a counted pattern was found
    pub found: usize,
    /// where a pattern that is not found could have been
    pub region: Option<(usize, usize)>,
}
fn why(what: &'static str, check: usize) -> Why {
    Why { what, first: check, last: check, at: None, found: 0, region: None }
}

pub fn eval(checks: &[Ck], o: &Opt, input: &str) -> Verdict {
    eval_why(checks, o, input).0
}

pub fn eval_why(checks: &[Ck], o: &Opt, input: &str) -> (Verdict, Option<Why>) {
    let (v, r) = eval_all(checks, o, input);
    (v, r.map(|r| r.why))
}

/// What is known about a rejection.
pub struct Rejection {
    pub why: Why,
    /// the matches of every check which certainly matches (where that is specified)
    pub matched: Option<Vec<Vec<(usize, usize)>>>,
    /// how many blocks fail
    pub failed: usize,
}

pub fn eval_all(checks: &[Ck], o: &Opt, input: &str) -> (Verdict, Option<Rejection>) {
    let rejected = |why: Why| (Verdict::Reject(why.what), Some(Rejection { why, matched: None, failed: 1 }));
    // horizontal whitespace is canonical unless strict
    let text = if o.strict_ws { input.to_string() } else { input.replace('\t', " ") };
    let t = text.as_bytes();
    if t.is_empty() && !o.allow_empty {
        return (Verdict::Reject("empty input"), None);
    }
    if hex_case_unspecified(checks, t) {
        return (Verdict::Ambiguous, None);
    }
    let mut env: Env = o.defs.iter().cloned().collect();
    // partition
    let mut blocks: Vec<(usize, usize, usize, usize)> = vec![]; // start, end, first, last (checks)
    let mut spans: Vec<Vec<(usize, usize)>> = vec![vec![]; checks.len()];
    let (mut start, mut first, mut pos) = (0, 0, 0);
    for (i, c) in checks.iter().enumerate() {
        if c.kind != Label {
            continue;
        }
        match search(c, o, &env, i, t, pos, t.len()) {
            // the language of labels has no variables
            // (a number without a name or expression is neither definition nor use)
            _ if c.parts.iter().any(|p| !matches!(p, Part::Lit(_) | Part::Re(_) | Part::Num { def: None, expr: None, .. })) => {
                return rejected(why("label with a variable", i));
            }
            Found::At(s, e, _) => {
                spans[i].push((s, e));
                let bol = t[..s].iter().rposition(|&b| b == b'\n').unwrap_or(0);
                blocks.push((start, bol, first, i));
                let eol = t[s..].iter().position(|&b| b == b'\n').map_or(t.len(), |p| s + p);
                start = eol;
                pos = eol;
                first = i + 1;
            }
            Found::No => {
                let why = Why { region: Some((pos, t.len())), ..why("label not found", i) };
                return (Verdict::Reject(why.what), Some(Rejection { why, matched: Some(spans), failed: 1 }));
            }
            Found::Bad => return rejected(why("label cannot be evaluated", i)),
        }
    }
    blocks.push((start, t.len(), first, checks.len()));
    let mut ambiguous = false;
    let mut reject = None;
    let mut failed = 0;
    for (bi, &(start, end, first, last)) in blocks.iter().enumerate() {
        if o.scope && bi > 0 {
            env.retain(|n, _| n.starts_with('$'));
        }
        match block(checks, o, t, start, end.max(start), first, last, &mut env, &mut spans) {
            Ok(a) => ambiguous |= a,
            Err(e) => {
                failed += 1;
                if e.first < checks.len() && matches!(checks[e.first].kind, Dag | Count(_)) {
                    spans[e.first..=e.last].iter_mut().for_each(Vec::clear);
                }
                reject.get_or_insert(e);
            }
        }
    }
    if reject.is_some_and(|w| w.what == AMBIGUOUS) {
        return (Verdict::Ambiguous, None);
    }
    if let Some(why) = reject {
        return (Verdict::Reject(why.what), Some(Rejection { why, matched: (!ambiguous).then_some(spans), failed }));
    }
    if ambiguous {
        return (Verdict::Ambiguous, None);
    }
    (Verdict::Accept(spans.into_iter().flatten().collect()), None)
}

#[allow(clippy::too_many_arguments)]
fn block(
    checks: &[Ck],
    o: &Opt,
    t: &[u8],
    start: usize,
    end: usize,
    first: usize,
    last: usize,
    env: &mut Env,
    spans: &mut [Vec<(usize, usize)>],
) -> Result<bool, Why> {
    let mut cur = start;
    let mut nots: Vec<usize> = vec![];
    let mut ambiguous = false;
    let mut i = first;
    let excluded = |nots: &mut Vec<usize>, env: &Env, before: &Env, a: usize, b: usize| -> Result<(), Why> {
        // whether the check that closes the region has already bound its variables when the
        // excluded patterns are evaluated is not specified
        if nots.iter().any(|&n| {
            search(&checks[n], o, env, n, t, a, b.max(a)).shape()
                != search(&checks[n], o, before, n, t, a, b.max(a)).shape()
        }) {
            return Err(why(AMBIGUOUS, first));
        }
        for n in nots.drain(..) {
            match search(&checks[n], o, env, n, t, a, b.max(a)) {
                Found::At(s, e, _) => return Err(Why { at: Some((s, e)), ..why("excluded pattern found", n) }),
                // whether a later definition supplies a variable that has no value yet is
                // not specified
                Found::Bad if checks[n..last].iter().any(Ck::defines) => return Err(why(AMBIGUOUS, first)),
                // ... nor whether a pattern is evaluated whose first part does not occur
                Found::Bad if checks[n].parts.len() > 1 => return Err(why(AMBIGUOUS, first)),
                Found::Bad => return Err(why("excluded pattern cannot be evaluated", n)),
                Found::No => {}
            }
        }
        if !o.implicit.is_empty() {
            for p in &o.implicit {
                let els = [El::Rx(parse_re(p))];
                if let Found::At(s, e, _) = search_els(&els, o, t, a, b.max(a)) {
                    return Err(Why { at: Some((s, e)), ..why("implicitly excluded pattern found", usize::MAX) });
                }
            }
        }
        Ok(())
    };
    let group = |j: usize| (j..last).take_while(|k| checks[*k].kind == Dag).last().unwrap_or(j);
    while i < last {
        let c = &checks[i];
        let before = env.clone();
        match c.kind {
            Label => unreachable!(),
            Not => {
                nots.push(i);
                i += 1;
            }
            Dag => {
                let mut j = i;
                let mut taken: Vec<(usize, usize)> = vec![];
                let mut occ: Vec<Vec<(usize, usize)>> = vec![];
                let envs = env.clone();
                while j < last && checks[j].kind == Dag {
                    // every occurrence of this pattern in the region, for the ambiguity test
                    let mut all = vec![];
                    for s in cur..=end {
                        if let Found::At(a, b, _) = search(&checks[j], o, env, j, t, s, end) {
                            if !all.contains(&(a, b)) {
                                all.push((a, b));
                            }
                        }
                    }
                    let hit = |x: (usize, usize), y: (usize, usize)| x.0 < y.1 && y.0 < x.1;
                    if occ.iter().flatten().any(|&x| all.iter().any(|&y| hit(x, y))) {
                        ambiguous = true;
                    }
                    occ.push(all);
                    let mut p = cur;
                    loop {
                        match search(&checks[j], o, env, j, t, p, end) {
                            Found::At(s, e, caps) => {
                                if let Some(x) = taken.iter().find(|x| hit(**x, (s, e))) {
                                    p = x.1;
                                    continue;
                                }
                                taken.push((s, e));
                                spans[j].push((s, e));
                                bind(env, caps);
                                break;
                            }
                            Found::No => {
                                if ambiguous {
                                    *env = envs;
                                    return Ok(true);
                                }
                                return Err(Why { last: group(j), region: Some((cur, end)), ..why("unordered pattern not found", i) });
                            }
                            Found::Bad => return Err(Why { last: group(j), ..why("unordered pattern cannot be evaluated", i) }),
                        }
                    }
                    j += 1;
                }
                let lo = taken.iter().map(|x| x.0).min().unwrap();
                let hi = taken.iter().map(|x| x.1).max().unwrap();
                if ambiguous {
                    return Ok(true);
                }
                excluded(&mut nots, env, &before, cur, lo)?;
                taken.sort();
                for g in taken.windows(2) {
                    excluded(&mut vec![], env, env, g[0].1, g[1].0)?;
                }
                cur = hi;
                i = j;
            }
            Plain | Count(_) => {
                let n = if let Count(n) = c.kind { n } else { 1 };
                let mut p = cur;
                for k in 0..n {
                    match search(c, o, env, i, t, p, end) {
                        Found::At(s, e, caps) => {
                            bind(env, caps);
                            if k == 0 {
                                excluded(&mut nots, env, &before, cur, s)?;
                            } else if !o.implicit.is_empty() {
                                excluded(&mut nots, env, &before, p, s)?;
                            }
                            spans[i].push((s, e));
                            p = e;
                        }
                        Found::No => return Err(Why { found: k as usize, region: Some((p, end)), ..why("pattern not found", i) }),
                        Found::Bad => return Err(why("pattern cannot be evaluated", i)),
                    }
                }
                cur = p;
                i += 1;
            }
            Next | Same => {
                let (a, b) = if c.kind == Next {
                    match t[cur..end].iter().position(|&b| b == b'\n') {
                        None => return Err(why("no next line", i)),
                        Some(p) => {
                            let a = cur + p + 1;
                            let b = t[a..].iter().position(|&b| b == b'\n').map_or(t.len(), |p| a + p);
                            (a, b.min(end).max(a))
                        }
                    }
                } else {
                    let b = t[cur..].iter().position(|&b| b == b'\n').map_or(t.len(), |p| cur + p);
                    (cur, b.min(end))
                };
                match search(c, o, env, i, t, a, b) {
                    // whether a line follows a final newline is not specified
                    Found::At(s, _, _) if c.kind == Next && s == t.len() && s == a => {
                        return Err(why(AMBIGUOUS, i));
                    }
                    Found::At(s, e, caps) => {
                        bind(env, caps);
                        excluded(&mut nots, env, &before, cur, s)?;
                        spans[i].push((s, e));
                        cur = e;
                    }
                    Found::No => return Err(Why { region: Some((a, b)), ..why("pattern not on the required line", i) }),
                    Found::Bad => return Err(why("pattern cannot be evaluated", i)),
                }
                i += 1;
            }
            Empty => {
                match t[cur..end].iter().position(|&b| b == b'\n') {
                    Some(p) => {
                        let a = cur + p + 1;
                        if a <= end && (a == t.len() || t[a] == b'\n') {
                            excluded(&mut nots, env, &before, cur, a)?;
                            spans[i].push((a, a));
                            cur = a;
                        } else {
                            return Err(why("next line not empty", i));
                        }
                    }
                    None => return Err(why("no next line", i)),
                }
                i += 1;
            }
        }
    }
    excluded(&mut nots, env, env, cur, end)?;
    Ok(ambiguous)
}
