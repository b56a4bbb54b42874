//! Independent model of a line: tokens plus the plain history of attachments.
use layered_clauses::ClauseKeyword;
use layered_nlp::*;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct A(pub u8);
#[derive(Clone, Debug, PartialEq)]
pub struct B(pub u8);
/// every custom token carries one, so that every token has a one-token attribute
#[derive(Clone, Debug, PartialEq)]
pub struct Mk;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Tag(TextTag),
    Ch(char),
    A(A),
    B(B),
    Mk(Mk),
    Kw(ClauseKeyword),
}
impl V {
    pub fn any(&self) -> AnyAttribute {
        match self.clone() {
            V::Tag(x) => AnyAttribute::new(x),
            V::Ch(x) => AnyAttribute::new(x),
            V::A(x) => AnyAttribute::new(x),
            V::B(x) => AnyAttribute::new(x),
            V::Mk(x) => AnyAttribute::new(x),
            V::Kw(x) => AnyAttribute::new(x),
        }
    }
}
pub trait Kind: Clone + Debug + PartialEq + 'static + Send + Sync {
    fn pick(v: &V) -> Option<Self>;
    fn put(self) -> V;
}
macro_rules! kind {
    ($t:ty, $v:ident) => {
        impl Kind for $t {
            fn pick(v: &V) -> Option<Self> {
                match v {
                    V::$v(x) => Some(x.clone()),
                    _ => None,
                }
            }
            fn put(self) -> V {
                V::$v(self)
            }
        }
    };
}
kind!(TextTag, Tag);
kind!(char, Ch);
kind!(A, A);
kind!(B, B);
kind!(Mk, Mk);
kind!(ClauseKeyword, Kw);

#[derive(Clone, Debug, PartialEq)]
pub enum In {
    Text(String, Vec<V>),
    Custom(usize, Vec<V>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Size {
    Utf8,
    Utf16,
    Chars,
    Const(usize),
    Weird,
}
impl Size {
    pub fn of(self, s: &str) -> usize {
        match self {
            Size::Utf8 => s.len(),
            Size::Utf16 => s.encode_utf16().count(),
            Size::Chars => s.chars().count(),
            Size::Const(n) => n,
            Size::Weird => s.chars().map(|c| (c as usize) % 7).sum(),
        }
    }
}
/// one resolver run: attachments of one type
#[derive(Clone, Debug, PartialEq)]
pub enum Round {
    A(Vec<(usize, usize, A)>),
    B(Vec<(usize, usize, B)>),
    Tag(Vec<(usize, usize, TextTag)>),
    Ch(Vec<(usize, usize, char)>),
    Kw(Vec<(usize, usize, ClauseKeyword)>),
}
/// everything needed to rebuild a line
#[derive(Clone, Debug, PartialEq)]
pub struct World {
    pub inputs: Vec<In>,
    pub size: Size,
    /// spans are taken modulo the number of tokens
    pub rounds: Vec<Round>,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub toks: Vec<Option<String>>,
    /// token spans of the inputs
    pub input_spans: Vec<(usize, usize)>,
    pub pos: Vec<(usize, usize)>,
    pub hist: Vec<(usize, usize, V)>,
}

pub fn tag_of(s: &str) -> TextTag {
    let cs: Vec<char> = s.chars().collect();
    if cs.iter().all(|c| ('0'..='9').contains(c)) {
        return TextTag::NATN;
    }
    if cs.iter().all(|c| c.is_whitespace()) {
        return TextTag::SPACE;
    }
    if cs.len() == 1 && ",.!;:?'\"".contains(cs[0]) {
        return TextTag::PUNC;
    }
    if cs[0].is_alphabetic() && cs[1..].iter().all(|c| c.is_alphabetic() || "'-–".contains(*c)) {
        return TextTag::WORD;
    }
    TextTag::SYMB
}

impl Model {
    pub fn n(&self) -> usize {
        self.toks.len()
    }
    pub fn spans<T: Kind>(&self) -> Vec<((usize, usize), Vec<T>)> {
        let mut r: Vec<((usize, usize), Vec<T>)> = vec![];
        for (a, b, v) in &self.hist {
            if let Some(x) = T::pick(v) {
                match r.iter_mut().find(|e| e.0 == (*a, *b)) {
                    Some(e) => e.1.push(x),
                    None => r.push(((*a, *b), vec![x])),
                }
            }
        }
        r
    }
    pub fn text(&self, a: usize, b: usize) -> String {
        self.toks[a..=b].iter().map(|t| t.as_deref().unwrap_or("")).collect()
    }
    pub fn query<T: Kind>(&self) -> Vec<((usize, usize), String, Vec<T>)> {
        self.spans::<T>()
            .into_iter()
            .map(|((a, b), v)| ((a, b), self.text(a, b), v))
            .collect()
    }
}
pub fn real_query<T: Kind>(l: &LLLine) -> Vec<((usize, usize), String, Vec<T>)> {
    l.query::<T>()
        .into_iter()
        .map(|(r, s, v)| (r, s, v.into_iter().cloned().collect()))
        .collect()
}

/// numbers out of the Debug form of a selection or an assignment
pub fn bounds<T: Debug>(s: &T) -> Option<(usize, usize)> {
    let d = format!("{:?}", s);
    let get = |k: &str| -> Option<usize> {
        let p = d.find(k)? + k.len();
        d[p..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
    };
    Some((get("start_idx: ")?, get("end_idx: ")?))
}

pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

fn one() -> x::AnyOf2Matcher<x::Attr<Mk>, x::Attr<TextTag>> {
    x::any_of((x::attr::<Mk>(), x::attr::<TextTag>()))
}

/// the selection of tokens a..=b, built in whichever way of three works
pub fn mk_sel(whole: &LLSelection, n: usize, a: usize, b: usize) -> Option<LLSelection> {
    let want = Some((a, b));
    if bounds(whole) == want {
        return Some(whole.clone());
    }
    let trims = || -> Option<LLSelection> {
        let mut s = whole.clone();
        for _ in 0..a {
            s = s.trim_start(&one())?;
        }
        for _ in b + 1..n {
            s = s.trim_end(&one())?;
        }
        Some(s)
    };
    let single = |i: usize| -> Option<LLSelection> {
        let found = whole.find_by(&one());
        let r = found.iter().map(|x| x.0.clone()).find(|s| bounds(s) == Some((i, i)));
        r
    };
    let extend = || -> Option<LLSelection> {
        let mut s = single(a)?;
        for k in a + 1..=b {
            let m = s.match_forwards(&one());
            let t = m.iter().map(|x| x.0.clone()).find(|s| bounds(s) == Some((a, k)))?;
            drop(m);
            s = t;
        }
        Some(s)
    };
    let cut = || -> Option<LLSelection> {
        let mut s = whole.clone();
        if b + 1 < n {
            let [l, _] = s.split_with(&single(b + 1)?);
            s = l?;
        }
        if a > 0 {
            let [_, r] = s.split_with(&single(a - 1)?);
            s = r?;
        }
        Some(s)
    };
    for f in [&trims as &dyn Fn() -> Option<LLSelection>, &extend, &cut] {
        if let Ok(Some(s)) = quiet(|| f()) {
            if bounds(&s) == want {
                return Some(s);
            }
        }
    }
    None
}

/// attaches the given spans; remembers what it was given
pub struct Attach<T> {
    pub n: usize,
    pub what: Vec<(usize, usize, T)>,
    pub log: std::cell::RefCell<Vec<Option<(usize, usize)>>>,
    pub failed: std::cell::Cell<bool>,
    pub via_finish_with: bool,
}
impl<T: Kind> Attach<T> {
    pub fn new(n: usize, what: Vec<(usize, usize, T)>, via_finish_with: bool) -> Self {
        Attach { n, what, log: Default::default(), failed: Default::default(), via_finish_with }
    }
}
impl<T: Kind> Resolver for Attach<T> {
    type Attr = T;
    fn go(&self, selection: LLSelection) -> Vec<LLCursorAssignment<T>> {
        self.log.borrow_mut().push(bounds(&selection));
        let mut v = vec![];
        for (a, b, x) in &self.what {
            match mk_sel(&selection, self.n, *a, *b) {
                Some(s) => v.push((s, x.clone())),
                None => {
                    self.failed.set(true);
                    return vec![];
                }
            }
        }
        if self.via_finish_with {
            v.finish_with(|x| x)
        } else {
            v.into_iter().map(|(s, x)| s.finish_with_attr(x)).collect()
        }
    }
}

#[derive(Debug)]
pub enum BuildError {
    /// the line could not be built the way the properties say
    Wrong(String),
    /// a selection needed for the set-up could not be made
    Skip,
}

pub fn input_tokens(inputs: &[In]) -> Vec<InputToken> {
    inputs
        .iter()
        .enumerate()
        .map(|(k, i)| match i {
            In::Text(s, v) => {
                if k % 2 == 0 {
                    InputToken::text(s.clone(), v.iter().map(|x| x.any()).collect())
                } else {
                    let mut t = InputToken::text(s.clone(), vec![]);
                    for x in v {
                        add(&mut t, x);
                    }
                    t
                }
            }
            In::Custom(n, v) => {
                if k % 2 == 0 {
                    InputToken::custom(*n, v.iter().map(|x| x.any()).collect())
                } else {
                    let mut t = InputToken::custom(*n, vec![]);
                    for x in v {
                        add(&mut t, x);
                    }
                    t
                }
            }
        })
        .collect()
}
fn add(t: &mut InputToken, v: &V) {
    match v.clone() {
        V::Tag(x) => t.add_attr(x),
        V::Ch(x) => t.add_attr(x),
        V::A(x) => t.add_attr(x),
        V::B(x) => t.add_attr(x),
        V::Mk(x) => t.add_attr(x),
        V::Kw(x) => t.add_attr(x),
    }
}

/// the line before any resolver, and its model
pub fn build_base(w: &World) -> Result<(LLLine, Model), BuildError> {
    let size = w.size;
    let line = quiet(|| create_line_from_input_tokens(input_tokens(&w.inputs), |s| size.of(s)))
        .map_err(|e| BuildError::Wrong(format!("building the line panicked: {}", e)))?;
    let toks: Vec<Option<String>> = line
        .ll_tokens()
        .iter()
        .map(|t| match t.get_token() {
            LToken::Text(s, _) => Some(s.clone()),
            LToken::Value => None,
        })
        .collect();
    // which tokens belong to which input
    let mut input_spans = vec![];
    let mut k = 0;
    for i in &w.inputs {
        let from = k;
        match i {
            In::Text(s, _) => {
                let mut got = String::new();
                while got.len() < s.len() {
                    match toks.get(k) {
                        Some(Some(t)) if !t.is_empty() => got.push_str(t),
                        o => return Err(BuildError::Wrong(format!("text {:?} became {:?}, then {:?}", s, got, o))),
                    }
                    k += 1;
                }
                if &got != s {
                    return Err(BuildError::Wrong(format!("text {:?} became {:?}", s, got)));
                }
            }
            In::Custom(..) => {
                if toks.get(k) != Some(&None) {
                    return Err(BuildError::Wrong(format!("custom token became {:?}", toks.get(k))));
                }
                k += 1;
            }
        }
        input_spans.push((from, k - 1));
    }
    if k != toks.len() {
        return Err(BuildError::Wrong(format!("{} tokens expected, {} made", k, toks.len())));
    }
    let mut pos = vec![];
    let mut at = 0;
    for (j, t) in toks.iter().enumerate() {
        let sz = match t {
            Some(s) => w.size.of(s),
            None => {
                let i = input_spans.iter().position(|s| s.0 == j).unwrap();
                match &w.inputs[i] {
                    In::Custom(n, _) => *n,
                    _ => unreachable!(),
                }
            }
        };
        pos.push((at, at + sz));
        at += sz;
    }
    let mut hist = vec![];
    for (j, t) in toks.iter().enumerate() {
        if let Some(s) = t {
            let mut cs = s.chars();
            if let (Some(c), None) = (cs.next(), cs.next()) {
                hist.push((j, j, V::Ch(c)));
            }
            hist.push((j, j, V::Tag(tag_of(s))));
        }
    }
    for (i, s) in w.inputs.iter().zip(&input_spans) {
        let v = match i {
            In::Text(_, v) => v,
            In::Custom(_, v) => v,
        };
        for x in v {
            hist.push((s.0, s.1, x.clone()));
        }
    }
    Ok((line, Model { toks, input_spans, pos, hist }))
}

fn spans_mod<T: Clone>(n: usize, v: &[(usize, usize, T)]) -> Vec<(usize, usize, T)> {
    v.iter()
        .map(|(a, b, x)| {
            let (a, b) = (a % n, b % n);
            (a.min(b), a.max(b), x.clone())
        })
        .collect()
}
pub fn run_round<T: Kind>(line: LLLine, m: &mut Model, v: &[(usize, usize, T)], fw: bool) -> Result<LLLine, BuildError> {
    let n = m.n();
    if n == 0 {
        return Ok(line);
    }
    let v = spans_mod(n, v);
    let r = Attach::new(n, v.clone(), fw);
    let line = quiet(|| line.run(&r)).map_err(|e| BuildError::Wrong(format!("running a resolver that attaches {:?} panicked: {}", v, e)))?;
    if r.failed.get() {
        return Err(BuildError::Skip);
    }
    let log = r.log.borrow().clone();
    if log == vec![None] {
        return Err(BuildError::Skip);
    }
    if log != vec![Some((0, n - 1))] {
        return Err(BuildError::Wrong(format!("the resolver was called with {:?}, expected one selection of tokens 0 to {}", log, n - 1)));
    }
    for (a, b, x) in v {
        m.hist.push((a, b, x.put()));
    }
    Ok(line)
}

pub fn build(w: &World) -> Result<(LLLine, Model), BuildError> {
    let (mut line, mut m) = build_base(w)?;
    for (i, r) in w.rounds.iter().enumerate() {
        let fw = i % 2 == 1;
        line = match r {
            Round::A(v) => run_round(line, &mut m, v, fw)?,
            Round::B(v) => run_round(line, &mut m, v, fw)?,
            Round::Tag(v) => run_round(line, &mut m, v, fw)?,
            Round::Ch(v) => run_round(line, &mut m, v, fw)?,
            Round::Kw(v) => run_round(line, &mut m, v, fw)?,
        };
    }
    Ok((line, m))
}

/// all selections of a line that can be made
/// all selections of a line of up to 20 tokens; single tokens and some others of a longer one
pub fn sel_bounds(n: usize) -> Vec<(usize, usize)> {
    if n <= 20 {
        return (0..n).flat_map(|a| (a..n).map(move |b| (a, b))).collect();
    }
    let step = 1 + n / 60;
    let mut v: Vec<(usize, usize)> = (0..n).step_by(step).map(|a| (a, a)).collect();
    v.extend((0..n).step_by(2 * step).map(|a| (a, n - 1)));
    v.extend((0..n).step_by(2 * step).map(|b| (0, b)));
    v.extend((0..n).step_by(step).map(|k| ((k * 7) % n, (k * 7) % n + (k * 5) % 9)).filter(|x| x.1 < n));
    v.push((n - 1, n - 1));
    v.sort();
    v.dedup();
    v
}
pub fn all_sels(line: &Rc<LLLine>, n: usize) -> Vec<((usize, usize), LLSelection)> {
    let mut r = vec![];
    if let Ok(Some(whole)) = quiet(|| LLSelection::from_line(line.clone())) {
        for (a, b) in sel_bounds(n) {
            if let Some(s) = mk_sel(&whole, n, a, b) {
                r.push(((a, b), s));
            }
        }
    }
    r
}
