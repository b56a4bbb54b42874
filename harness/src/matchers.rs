//! Matcher expressions: the real matcher next to an independent meaning of it.
use crate::model::*;
use layered_nlp::*;
use std::fmt::Debug;
use x::XMatch;

#[derive(Clone, Debug)]
pub enum E {
    A,
    B,
    Tag,
    Ch,
    Kw,
    EqA(u8),
    EqTag(TextTag),
    AnyA(Vec<u8>),
    AnyTag(Vec<TextTag>),
    AnyCh(Vec<char>),
    Text,
    Seq(Vec<E>),
    All(Vec<E>),
    Any(Vec<E>),
}

fn attr<T: Kind>(m: &Model, fwd: bool, i: usize) -> Vec<(T, usize)> {
    m.spans::<T>()
        .into_iter()
        .filter(|(s, _)| if fwd { s.0 == i } else { s.1 == i })
        .flat_map(|(s, v)| v.into_iter().map(move |x| (x, if fwd { s.1 } else { s.0 })))
        .collect()
}
fn one_of<T: Kind>(m: &Model, i: usize, set: &[T]) -> Vec<(String, usize)> {
    m.spans::<T>()
        .into_iter()
        .filter(|(s, _)| *s == (i, i))
        .flat_map(|(_, v)| v)
        .filter(|x| set.contains(x))
        .map(|x| (format!("{:?}", x), i))
        .collect()
}
fn show<T: Debug>(v: Vec<(T, usize)>) -> Vec<(String, usize)> {
    v.into_iter().map(|(x, i)| (format!("{:?}", x), i)).collect()
}
fn eqs<T: Kind>(v: Vec<(T, usize)>, x: &T) -> Vec<(String, usize)> {
    v.into_iter().filter(|y| &y.0 == x).map(|y| ("()".to_string(), y.1)).collect()
}

/// what a matcher matches from token i: printed result and the token it reaches
pub fn meaning(e: &E, m: &Model, fwd: bool, i: usize) -> Vec<(String, usize)> {
    match e {
        E::A => show(attr::<A>(m, fwd, i)),
        E::B => show(attr::<B>(m, fwd, i)),
        E::Tag => show(attr::<TextTag>(m, fwd, i)),
        E::Ch => show(attr::<char>(m, fwd, i)),
        E::Kw => show(attr::<layered_clauses::ClauseKeyword>(m, fwd, i)),
        E::EqA(k) => eqs(attr::<A>(m, fwd, i), &A(*k)),
        E::EqTag(t) => eqs(attr::<TextTag>(m, fwd, i), t),
        E::AnyA(v) => one_of(m, i, &v.iter().map(|k| A(*k)).collect::<Vec<_>>()),
        E::AnyTag(v) => one_of(m, i, v),
        E::AnyCh(v) => one_of(m, i, v),
        E::Text => m.toks[i].iter().map(|s| (format!("{:?}", s), i)).collect(),
        E::Seq(es) => {
            let mut acc: Vec<(Vec<String>, Option<usize>, usize)> = vec![(vec![], Some(i), i)];
            for e in es {
                let mut next = vec![];
                for (s, at, _) in acc {
                    if let Some(at) = at {
                        for (t, to) in meaning(e, m, fwd, at) {
                            let mut s = s.clone();
                            s.push(t);
                            let nx = if fwd { Some(to + 1).filter(|k| *k < m.n()) } else { to.checked_sub(1) };
                            next.push((s, nx, to));
                        }
                    }
                }
                acc = next;
            }
            acc.into_iter().map(|(s, _, to)| (format!("({})", s.join(", ")), to)).collect()
        }
        E::All(es) => {
            let mut acc: Vec<(Vec<String>, Option<usize>)> = vec![(vec![], None)];
            for e in es {
                let ms = meaning(e, m, fwd, i);
                let mut next = vec![];
                for (s, to) in acc {
                    for (t, to2) in &ms {
                        if to.is_none() || to == Some(*to2) {
                            let mut s = s.clone();
                            s.push(t.clone());
                            next.push((s, Some(*to2)));
                        }
                    }
                }
                acc = next;
            }
            acc.into_iter().map(|(s, to)| (format!("({})", s.join(", ")), to.unwrap())).collect()
        }
        E::Any(es) => {
            for (k, e) in es.iter().enumerate() {
                let ms = meaning(e, m, fwd, i);
                if !ms.is_empty() {
                    return ms.into_iter().map(|(s, to)| (format!("{}({})", ["A", "B", "C"][k], s), to)).collect();
                }
            }
            vec![]
        }
    }
}

pub type Found = Vec<(String, (usize, usize))>;
const BAD: (usize, usize) = (usize::MAX, usize::MAX);
pub fn bd(s: &LLSelection) -> (usize, usize) {
    bounds(s).unwrap_or(BAD)
}

/// the real operations with one matcher
pub trait Ops {
    fn find(&self, l: &LLLine) -> Found;
    fn find_by(&self, s: &LLSelection) -> Found;
    fn find_first_by(&self, s: &LLSelection) -> Option<(String, (usize, usize))>;
    fn find2(&self, s: &LLSelection) -> Found;
    fn split_by(&self, s: &LLSelection) -> Vec<LLSelection>;
    fn mf(&self, s: &LLSelection) -> Found;
    fn mb(&self, s: &LLSelection) -> Found;
    fn mff(&self, s: &LLSelection) -> Option<(String, (usize, usize))>;
    fn mfb(&self, s: &LLSelection) -> Option<(String, (usize, usize))>;
    fn trim(&self, s: &LLSelection, start: bool, end: bool) -> Option<LLSelection>;
    /// selections out of every operation, for walks
    fn sels(&self, s: &LLSelection) -> Vec<(&'static str, Vec<LLSelection>)>;
}
pub struct W<M>(pub M);
fn fnd<O: Debug>(v: Vec<(LLSelection, O)>) -> Found {
    v.into_iter().map(|(s, o)| (format!("{:?}", o), bd(&s))).collect()
}
fn fst<O: Debug>(v: Option<(LLSelection, O)>) -> Option<(String, (usize, usize))> {
    v.map(|(s, o)| (format!("{:?}", o), bd(&s)))
}
fn only<O>(v: Vec<(LLSelection, O)>) -> Vec<LLSelection> {
    v.into_iter().map(|x| x.0).collect()
}
impl<M> Ops for W<M>
where
    M: for<'l> XMatch<'l>,
    for<'l> <M as XMatch<'l>>::Out: Debug,
{
    fn find(&self, l: &LLLine) -> Found {
        l.find(&self.0).iter().map(|f| (format!("{:?}", f.attr()), f.range())).collect()
    }
    fn find_by(&self, s: &LLSelection) -> Found {
        fnd(s.find_by(&self.0))
    }
    fn find_first_by(&self, s: &LLSelection) -> Option<(String, (usize, usize))> {
        fst(s.find_first_by(&self.0))
    }
    fn find2(&self, s: &LLSelection) -> Found {
        fnd(s.find_by_forwards_and_backwards(&self.0))
    }
    fn split_by(&self, s: &LLSelection) -> Vec<LLSelection> {
        s.split_by(&self.0)
    }
    fn mf(&self, s: &LLSelection) -> Found {
        fnd(s.match_forwards(&self.0))
    }
    fn mb(&self, s: &LLSelection) -> Found {
        fnd(s.match_backwards(&self.0))
    }
    fn mff(&self, s: &LLSelection) -> Option<(String, (usize, usize))> {
        fst(s.match_first_forwards(&self.0))
    }
    fn mfb(&self, s: &LLSelection) -> Option<(String, (usize, usize))> {
        fst(s.match_first_backwards(&self.0))
    }
    fn trim(&self, s: &LLSelection, start: bool, end: bool) -> Option<LLSelection> {
        match (start, end) {
            (true, true) => s.trim(&self.0),
            (true, false) => s.trim_start(&self.0),
            (false, true) => s.trim_end(&self.0),
            _ => Some(s.clone()),
        }
    }
    fn sels(&self, s: &LLSelection) -> Vec<(&'static str, Vec<LLSelection>)> {
        vec![
            ("find_by", only(s.find_by(&self.0))),
            ("find_first_by", s.find_first_by(&self.0).into_iter().map(|x| x.0).collect()),
            ("find_by_forwards_and_backwards", only(s.find_by_forwards_and_backwards(&self.0))),
            ("split_by", s.split_by(&self.0)),
            ("match_forwards", only(s.match_forwards(&self.0))),
            ("match_backwards", only(s.match_backwards(&self.0))),
            ("match_first_forwards", s.match_first_forwards(&self.0).into_iter().map(|x| x.0).collect()),
            ("match_first_backwards", s.match_first_backwards(&self.0).into_iter().map(|x| x.0).collect()),
            ("trim", s.trim(&self.0).into_iter().collect()),
            ("trim_start", s.trim_start(&self.0).into_iter().collect()),
            ("trim_end", s.trim_end(&self.0).into_iter().collect()),
        ]
    }
}

fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}
fn leak_all<T: Clone>(x: &[T]) -> &'static [T] {
    Box::leak(x.to_vec().into_boxed_slice())
}

macro_rules! mm {
    (a) => { (x::attr::<A>(), E::A) };
    (b) => { (x::attr::<B>(), E::B) };
    (tag) => { (x::attr::<TextTag>(), E::Tag) };
    (ch) => { (x::attr::<char>(), E::Ch) };
    (text) => { (x::token_text(), E::Text) };
    (ws) => { (x::whitespace(), E::EqTag(TextTag::SPACE)) };
    (ea $k:literal) => { (x::attr_eq(leak(A($k))), E::EqA($k)) };
    (et $t:ident) => { (x::attr_eq(leak(TextTag::$t)), E::EqTag(TextTag::$t)) };
    (ha $($k:literal)*) => { (x::token_has_any(leak_all::<A>(&[$(A($k)),*])), E::AnyA(vec![$($k),*])) };
    (hc $($k:literal)*) => { (x::token_has_any(leak_all::<char>(&[$($k),*])), E::AnyCh(vec![$($k),*])) };
    (ht $($k:ident)*) => { (x::token_has_any(leak_all::<TextTag>(&[$(TextTag::$k),*])), E::AnyTag(vec![$(TextTag::$k),*])) };
    (seq $p:tt $q:tt) => {{ let (a, e) = mm! $p; let (b, f) = mm! $q; (x::seq((a, b)), E::Seq(vec![e, f])) }};
    (seq $p:tt $q:tt $r:tt) => {{ let (a, e) = mm! $p; let (b, f) = mm! $q; let (c, g) = mm! $r; (x::seq((a, b, c)), E::Seq(vec![e, f, g])) }};
    (all $p:tt $q:tt) => {{ let (a, e) = mm! $p; let (b, f) = mm! $q; (x::all((a, b)), E::All(vec![e, f])) }};
    (all $p:tt $q:tt $r:tt) => {{ let (a, e) = mm! $p; let (b, f) = mm! $q; let (c, g) = mm! $r; (x::all((a, b, c)), E::All(vec![e, f, g])) }};
    (any $p:tt $q:tt) => {{ let (a, e) = mm! $p; let (b, f) = mm! $q; (x::any_of((a, b)), E::Any(vec![e, f])) }};
    (any $p:tt $q:tt $r:tt) => {{ let (a, e) = mm! $p; let (b, f) = mm! $q; let (c, g) = mm! $r; (x::any_of((a, b, c)), E::Any(vec![e, f, g])) }};
}

pub type Mx = (Box<dyn Ops>, E);
fn w<M>((m, e): (M, E)) -> Mx
where
    M: for<'l> XMatch<'l> + 'static,
    for<'l> <M as XMatch<'l>>::Out: Debug,
{
    (Box::new(W(m)), e)
}

pub fn basic() -> Vec<Mx> {
    vec![
        w(mm!(a)),
        w(mm!(b)),
        w(mm!(tag)),
        w(mm!(ch)),
        w(mm!(text)),
        w(mm!(ws)),
        w(mm!(ea 0)),
        w(mm!(ea 1)),
        w(mm!(et NATN)),
        w(mm!(et WORD)),
        w(mm!(et PUNC)),
        w(mm!(ha 0)),
        w(mm!(ha 1 2)),
        w(mm!(ha 0 1 2 3 4 5)),
        w(mm!(ha)),
        w(mm!(hc ',' ' ' 'x')),
        w(mm!(ht SPACE PUNC)),
    ]
}
pub fn combined() -> Vec<Mx> {
    vec![
        w(mm!(seq (a) (b))),
        w(mm!(seq (a) (a))),
        w(mm!(seq (text) (a))),
        w(mm!(seq (a) (text) (b))),
        w(mm!(seq (a) (a) (a))),
        w(mm!(seq (tag) (ha 0 1 2) (tag))),
        w(mm!(all (a) (b))),
        w(mm!(all (a) (a))),
        w(mm!(all (et WORD) (text))),
        w(mm!(all (a) (b) (a))),
        w(mm!(all (a) (a) (b))),
        w(mm!(all (tag) (text) (a))),
        w(mm!(any (a) (b))),
        w(mm!(any (ea 1) (text))),
        w(mm!(any (b) (a) (ws))),
        w(mm!(any (ea 0) (ea 1) (b))),
        w(mm!(any (ea 3) (ha 4) (text))),
        w(mm!(seq (seq (a) (b)) (a))),
        w(mm!(seq (a) (seq (b) (a)))),
        w(mm!(seq (any (a) (text)) (b))),
        w(mm!(seq (b) (any (a) (text)))),
        w(mm!(seq (all (a) (b)) (text))),
        w(mm!(seq (text) (all (a) (b)) (any (b) (ws)))),
        w(mm!(all (seq (text) (text)) (a))),
        w(mm!(all (a) (seq (a) (b)))),
        w(mm!(all (seq (a) (a)) (seq (b) (b)))),
        w(mm!(all (any (a) (b)) (any (b) (a)))),
        w(mm!(any (seq (a) (b)) (seq (b) (a)))),
        w(mm!(any (all (a) (b)) (a) (b))),
        w(mm!(any (any (ea 0) (b)) (any (ea 1) (text)))),
        w(mm!(seq (seq (text) (text) (a)) (any (all (a) (b)) (text)))),
    ]
}
/// matchers for the selection operations: short, long, overlapping and failing ones
pub fn some() -> Vec<Mx> {
    vec![
        w(mm!(a)),
        w(mm!(b)),
        w(mm!(ea 0)),
        w(mm!(ea 1)),
        w(mm!(text)),
        w(mm!(ws)),
        w(mm!(ha 0 1)),
        w(mm!(seq (a) (b))),
        w(mm!(seq (text) (text))),
        w(mm!(any (a) (b))),
        w(mm!(any (seq (b) (text)) (a))),
        w(mm!(all (a) (b))),
        w(mm!(all (a) (text))),
    ]
}
