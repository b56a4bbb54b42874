//! One oracle per property. Each takes a world and says what went wrong, if anything.
use crate::matchers::*;
use crate::model::*;
use layered_nlp::*;
use std::fmt::Debug;
use std::rc::Rc;

pub type R = Result<u64, String>;
pub enum Bad {
    Skip,
    Fail(String),
}
fn setup(w: &World) -> Result<(LLLine, Model), Bad> {
    match build(w) {
        Ok(x) => Ok(x),
        Err(BuildError::Skip) => Err(Bad::Skip),
        Err(BuildError::Wrong(e)) => Err(Bad::Fail(e)),
    }
}
macro_rules! line {
    ($w:expr) => {
        match setup($w) {
            Ok(x) => x,
            Err(Bad::Skip) => return Ok(0),
            Err(Bad::Fail(e)) => return Err(e),
        }
    };
}
fn eq<T: PartialEq + Debug>(what: impl FnOnce() -> String, want: &T, got: &T) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{}: expected {:?}, got {:?}", what(), want, got))
    }
}
fn calm<T>(what: impl Fn() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    quiet(f).map_err(|e| format!("{} panicked: {}", what(), e))
}

// ------------------------------------------------------------------ lines
pub fn c01(w: &World) -> R {
    // build_base compares texts input by input, and rejects empty tokens
    match build_base(w) {
        Ok((line, m)) => {
            let all: String = w.inputs.iter().map(|i| match i { In::Text(s, _) => s.as_str(), _ => "" }).collect();
            let got: String = m.toks.iter().flatten().map(|s| s.as_str()).collect();
            eq(|| "text of the line".into(), &all, &got)?;
            if w.inputs.len() == 1 {
                if let In::Text(s, _) = &w.inputs[0] {
                    let l2 = calm(|| format!("create_line_from_string({:?})", s), || create_line_from_string(s))?;
                    let t2: Vec<Option<String>> = l2.ll_tokens().iter().map(|t| match t.get_token() { LToken::Text(s, _) => Some(s.clone()), LToken::Value => None }).collect();
                    let cat: String = t2.iter().flatten().map(|s| s.as_str()).collect();
                    eq(|| format!("text of create_line_from_string({:?})", s), s, &cat)?;
                    if t2.is_empty() || t2.iter().any(|t| t.as_deref().map_or(true, |t| t.is_empty())) {
                        return Err(format!("create_line_from_string({:?}) made tokens {:?}", s, t2));
                    }
                }
            }
            drop(line);
            Ok(1 + m.n() as u64)
        }
        Err(BuildError::Wrong(e)) => Err(e),
        Err(BuildError::Skip) => Ok(0),
    }
}
pub fn c02(w: &World) -> R {
    let (line, m) = line!(w);
    for (i, t) in line.ll_tokens().iter().enumerate() {
        let d = format!("{:?}", t);
        let get = |k: &str| -> Option<usize> {
            let p = d.find(k)? + k.len();
            d[p..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
        };
        if let (Some(a), Some(b)) = (get("pos_starts_at: "), get("pos_ends_at: ")) {
            eq(|| format!("position of token {}", i), &m.pos[i], &(a, b))?;
        }
    }
    let mut k = 0;
    for (ops, e) in basic().iter().take(5).chain(some().iter().skip(7)) {
        let want: Vec<(String, (usize, usize))> = (0..m.n())
            .flat_map(|i| meaning(e, &m, true, i).into_iter().map(move |(s, to)| (s, (i, to))))
            .map(|(s, (a, b))| (s, (m.pos[a].0, m.pos[b].1)))
            .collect();
        let got = calm(|| format!("LLLine::find({:?})", e), || ops.find(&line))?;
        eq(|| format!("positions of LLLine::find({:?})", e), &want, &got)?;
        k += want.len() as u64;
    }
    Ok(k)
}
pub fn c03(w: &World) -> R {
    // without attributes of the caller
    let mut w = w.clone();
    w.rounds.clear();
    for i in &mut w.inputs {
        match i {
            In::Text(_, a) => a.clear(),
            In::Custom(_, a) => a.clear(),
        }
    }
    let (line, m) = match build_base(&w) {
        Ok(x) => x,
        Err(BuildError::Wrong(e)) => return Err(e),
        Err(BuildError::Skip) => return Ok(0),
    };
    for t in line.ll_tokens() {
        if let LToken::Text(s, tag) = t.get_token() {
            eq(|| format!("tag of token {:?}", s), &tag_of(s), tag)?;
        }
    }
    let got = calm(|| "query::<TextTag>".into(), || real_query::<TextTag>(&line))?;
    eq(|| "query::<TextTag>".into(), &m.query::<TextTag>(), &got)?;
    let got = calm(|| "query::<char>".into(), || real_query::<char>(&line))?;
    eq(|| "query::<char>".into(), &m.query::<char>(), &got)?;
    Ok(m.n() as u64)
}
/// the texts of the tokens of a text
pub fn text_cut(s: &str) -> Vec<String> {
    use unicode_segmentation::UnicodeSegmentation;
    let kind = |c: char| if c.is_ascii_digit() { 0 } else if c.is_alphabetic() { 1 } else { 2 };
    let mut out: Vec<String> = vec![];
    for w in s.split_word_bounds() {
        if !w.starts_with(|c: char| c.is_ascii_digit()) {
            out.push(w.to_string());
            continue;
        }
        let mut last = 2;
        for c in w.chars() {
            if kind(c) != 2 && kind(c) == last {
                out.last_mut().unwrap().push(c);
            } else {
                out.push(c.to_string());
            }
            last = kind(c);
        }
    }
    out
}
pub fn c21(w: &World) -> R {
    let texts = |l: &LLLine| -> Vec<String> { l.ll_tokens().iter().map(|t| match t.get_token() { LToken::Text(s, _) => s.clone(), LToken::Value => String::new() }).collect() };
    let want: Vec<String> = w.inputs.iter().flat_map(|i| match i { In::Text(s, _) => text_cut(s), In::Custom(..) => vec![String::new()] }).collect();
    let size = w.size;
    let line = calm(|| "create_line_from_input_tokens".into(), || create_line_from_input_tokens(input_tokens(&w.inputs), |s| size.of(s)))?;
    eq(|| "texts of the tokens".into(), &want, &texts(&line))?;
    if let [In::Text(s, _)] = &w.inputs[..] {
        let l2 = calm(|| format!("create_line_from_string({:?})", s), || create_line_from_string(s))?;
        eq(|| format!("texts of the tokens of create_line_from_string({:?})", s), &want, &texts(&l2))?;
    }
    Ok(want.len() as u64)
}
fn queries(line: &LLLine, m: &Model) -> R {
    fn q<T: Kind>(line: &LLLine, m: &Model) -> R {
        let n = std::any::type_name::<T>();
        let got = calm(|| format!("query::<{}>", n), || real_query::<T>(line))?;
        eq(|| format!("query::<{}>", n), &m.query::<T>(), &got)?;
        Ok(got.len() as u64)
    }
    let k = q::<A>(line, m)? + q::<B>(line, m)? + q::<Mk>(line, m)? + q::<TextTag>(line, m)? + q::<char>(line, m)?;
    let got = calm(|| "query::<u64>".into(), || line.query::<u64>().len())?;
    eq(|| "query of a type never attached".into(), &0, &got)?;
    Ok(k)
}
pub fn c04(w: &World) -> R {
    let (line, m) = line!(w);
    queries(&line, &m)
}
pub fn c05(w: &World) -> R {
    let (mut line, mut m) = match build_base(w) {
        Ok(x) => x,
        Err(BuildError::Wrong(e)) => return Err(e),
        Err(BuildError::Skip) => return Ok(0),
    };
    let toks = |l: &LLLine| -> Vec<String> { l.ll_tokens().iter().map(|t| format!("{:?}", t)).collect() };
    let before = toks(&line);
    let mut k = 1;
    for (i, r) in w.rounds.iter().enumerate() {
        if m.n() == 0 {
            let a = Attach::new(0, Vec::<(usize, usize, A)>::new(), false);
            line = calm(|| "run on an empty line".into(), || line.run(&a))?;
            eq(|| "calls of the resolver on an empty line".into(), &0, &a.log.borrow().len())?;
            eq(|| "tokens after run".into(), &before, &toks(&line))?;
            continue;
        }
        let fw = i % 2 == 1;
        let res = match r {
            Round::A(v) => run_round(line, &mut m, v, fw),
            Round::B(v) => run_round(line, &mut m, v, fw),
            Round::Tag(v) => run_round(line, &mut m, v, fw),
            Round::Ch(v) => run_round(line, &mut m, v, fw),
            Round::Kw(v) => run_round(line, &mut m, v, fw),
        };
        line = match res {
            Ok(l) => l,
            Err(BuildError::Wrong(e)) => return Err(e),
            Err(BuildError::Skip) => return Ok(0),
        };
        eq(|| "tokens after run".into(), &before, &toks(&line))?;
        k += queries(&line, &m).map_err(|e| format!("after running {:?}: {}", r, e))?;
    }
    // matchers see what was added, whichever way they look
    Ok(k + at_each(w, &attrs_only())?)
}
pub fn c20(w: &World) -> R {
    let (line, m) = match build_base(w) {
        Ok(x) => x,
        Err(BuildError::Wrong(e)) => return Err(e),
        Err(BuildError::Skip) => return Ok(0),
    };
    Ok(queries(&line, &m)? + at_each(w, &attrs_only())?)
}
pub fn c20_extract() -> R {
    use std::any::TypeId;
    fn rt<T: 'static + Debug + PartialEq + Clone + Send + Sync, U: 'static + Debug>(x: T) -> Result<(), String> {
        let n = std::any::type_name::<T>();
        let a = AnyAttribute::new(x.clone());
        eq(|| format!("type_id of AnyAttribute::new({:?})", x), &TypeId::of::<T>(), &a.type_id())?;
        let a = match calm(|| format!("extract::<{}> of a {}", std::any::type_name::<U>(), n), || a.extract::<U>())? {
            Ok(u) => return Err(format!("extract::<{}>() of {:?}: {} gave {:?}", std::any::type_name::<U>(), x, n, u)),
            Err(a) => a,
        };
        eq(|| format!("type_id of {:?} after a failed extract", x), &TypeId::of::<T>(), &a.type_id())?;
        // still attachable
        let b = match AnyAttribute::new(x.clone()).extract::<U>() {
            Ok(_) => return Err("extract of the wrong type".into()),
            Err(a) => a,
        };
        let l = calm(|| "attaching after a failed extract".into(), || create_line_from_input_tokens(vec![InputToken::text("x y".into(), vec![b])], |s| s.len()))?;
        let q = calm(|| "query".into(), || l.query::<T>().into_iter().map(|(r, s, v)| (r, s, v.into_iter().cloned().collect::<Vec<T>>())).collect::<Vec<_>>())?;
        let auto = TypeId::of::<T>() == TypeId::of::<char>() || TypeId::of::<T>() == TypeId::of::<TextTag>();
        if !auto {
            eq(|| format!("query after attaching {:?} whose extraction as another type failed", x), &vec![((0, 2), "x y".to_string(), vec![x.clone()])], &q)?;
        }
        match calm(|| format!("extract::<{}>", n), || a.extract::<T>())? {
            Ok(y) => eq(|| format!("extract::<{}>", n), &x, &y),
            Err(_) => Err(format!("extract::<{}>() of {:?} failed", n, x)),
        }
    }
    let mut k = 0;
    for v in [0u8, 1, 255] {
        rt::<u8, u16>(v)?;
        rt::<u8, Vec<u8>>(v)?;
        rt::<A, u8>(A(v))?;
        rt::<A, B>(A(v))?;
        rt::<Vec<A>, A>(vec![A(v); v as usize % 3])?;
        rt::<Option<u8>, u8>(Some(v))?;
        rt::<(u8, String), String>((v, v.to_string()))?;
        k += 7;
    }
    for s in ["", "x", "héllo"] {
        rt::<String, &'static str>(s.to_string())?;
        rt::<&'static str, String>(s)?;
        rt::<Box<String>, String>(Box::new(s.to_string()))?;
        k += 3;
    }
    rt::<(), u8>(())?;
    rt::<TextTag, char>(TextTag::NATN)?;
    rt::<char, u32>('x')?;
    rt::<f64, f32>(1.5)?;
    rt::<u128, u64>(u128::MAX)?;
    rt::<[u64; 9], u64>([7; 9])?;
    Ok(k + 6)
}

// ------------------------------------------------------------------ matching
struct Sels {
    line: Rc<LLLine>,
    v: Vec<((usize, usize), LLSelection)>,
}
fn sels(line: LLLine, n: usize) -> Sels {
    let line = Rc::new(line);
    let v = all_sels(&line, n);
    Sels { line, v }
}
fn at_each(w: &World, ms: &[Mx]) -> R {
    let (line, m) = line!(w);
    let n = m.n();
    let s = sels(line, n);
    let mut k = 0;
    for (ops, e) in ms {
        for ((a, b), sel) in &s.v {
            // forwards and backwards from one token
            if a == b {
                let i = *a;
                let f: Found = meaning(e, &m, true, i).into_iter().map(|(o, to)| (o, (i, to))).collect();
                let g: Found = meaning(e, &m, false, i).into_iter().map(|(o, to)| (o, (to, i))).collect();
                let got = calm(|| format!("find_by({:?}) in token {}", e, i), || ops.find_by(sel))?;
                eq(|| format!("matching {:?} forwards from token {}", e, i), &f, &got)?;
                let got = calm(|| format!("find_by_forwards_and_backwards({:?}) in token {}", e, i), || ops.find2(sel))?;
                let mut both = f.clone();
                both.extend(g.clone());
                eq(|| format!("matching {:?} forwards, then backwards from token {}", e, i), &both, &got)?;
                k += both.len() as u64;
            }
            // right after and right before a selection
            if b + 1 < n && a == b {
                let f: Found = meaning(e, &m, true, b + 1).into_iter().map(|(o, to)| (o, (*a, to))).collect();
                let got = calm(|| format!("match_forwards({:?}) after token {}", e, b), || ops.mf(sel))?;
                eq(|| format!("matching {:?} forwards from token {} (after the selection {}..={})", e, b + 1, a, b), &f, &got)?;
            }
            if *a > 0 && a == b {
                let f: Found = meaning(e, &m, false, a - 1).into_iter().map(|(o, to)| (o, (to, *b))).collect();
                let got = calm(|| format!("match_backwards({:?}) before token {}", e, a), || ops.mb(sel))?;
                eq(|| format!("matching {:?} backwards from token {} (before the selection {}..={})", e, a - 1, a, b), &f, &got)?;
            }
        }
        let f: Found = (0..n).flat_map(|i| meaning(e, &m, true, i).into_iter().map(move |(o, to)| (o, (i, to)))).map(|(o, (a, b))| (o, (m.pos[a].0, m.pos[b].1))).collect();
        let got = calm(|| format!("LLLine::find({:?})", e), || ops.find(&s.line))?;
        eq(|| format!("LLLine::find({:?})", e), &f, &got)?;
    }
    Ok(k)
}
/// the matchers that show what is attached where
fn attrs_only() -> Vec<Mx> {
    basic().into_iter().filter(|m| matches!(m.1, E::A | E::B | E::Tag | E::Ch | E::Kw)).collect()
}
pub fn c06(w: &World) -> R {
    at_each(w, &basic())
}
pub fn c07(w: &World) -> R {
    at_each(w, &combined())
}

// ------------------------------------------------------------------ selections
pub fn c08(w: &World) -> R {
    let (line, m) = line!(w);
    let n = m.n();
    let line = Rc::new(line);
    let whole = calm(|| "from_line".into(), || LLSelection::from_line(line.clone()))?;
    match &whole {
        None if n == 0 => return Ok(1),
        None => return Err("from_line gave no selection for a line with tokens".into()),
        Some(s) => {
            if n == 0 {
                return Err("from_line gave a selection for an empty line".into());
            }
            if bounds(s).is_none() {
                return Ok(0);
            }
            eq(|| "from_line".into(), &Some((0, n - 1)), &bounds(s))?;
        }
    }
    let v = all_sels(&line, n);
    let ms = some();
    let mut k = 0;
    let ok = |what: &dyn Fn() -> String, s: &LLSelection| -> Result<(), String> {
        match bounds(s) {
            Some((a, b)) if a <= b && b < n => Ok(()),
            Some((a, b)) => Err(format!("{} gave the selection {}..={} in a line of {} tokens", what(), a, b, n)),
            None => Ok(()),
        }
    };
    for ((a, b), s) in &v {
        for (ops, e) in &ms {
            let r = calm(|| format!("an operation with {:?} on the selection {}..={}", e, a, b), || ops.sels(s))?;
            for (op, out) in r {
                for t in &out {
                    ok(&|| format!("{}({:?}) on the selection {}..={}", op, e, a, b), t)?;
                    k += 1;
                }
            }
        }
        for t in calm(|| format!("after() of {}..={}", a, b), || s.after())? {
            ok(&|| format!("after() of {}..={}", a, b), &t)?;
        }
        for ((c, d), o) in &v {
            for t in calm(|| format!("split_with of {}..={} by {}..={}", a, b, c, d), || s.split_with(o))?.iter().flatten() {
                ok(&|| format!("split_with of {}..={} by {}..={}", a, b, c, d), t)?;
                k += 1;
            }
        }
    }
    Ok(k)
}
pub fn c09(w: &World) -> R {
    let (line, m) = line!(w);
    let n = m.n();
    let s = sels(line, n);
    let mut k = 0;
    for (ops, e) in some().iter().chain(combined().iter().take(4)) {
        for ((a, b), sel) in &s.v {
            let f: Found = (*a..=*b).flat_map(|i| meaning(e, &m, true, i).into_iter().map(move |(o, to)| (o, (i, to)))).collect();
            let what = |op: &str| format!("{}({:?}) in {}..={}", op, e, a, b);
            let got = calm(|| what("find_by"), || ops.find_by(sel))?;
            eq(|| what("find_by"), &f, &got)?;
            let got = calm(|| what("find_first_by"), || ops.find_first_by(sel))?;
            eq(|| what("find_first_by"), &f.first().cloned(), &got)?;
            let g: Found = (*a..=*b)
                .flat_map(|i| {
                    let mut v: Found = meaning(e, &m, true, i).into_iter().map(|(o, to)| (o, (i, to))).collect();
                    v.extend(meaning(e, &m, false, i).into_iter().map(|(o, to)| (o, (to, i))));
                    v
                })
                .collect();
            let got = calm(|| what("find_by_forwards_and_backwards"), || ops.find2(sel))?;
            eq(|| what("find_by_forwards_and_backwards"), &g, &got)?;
            k += f.len() as u64;
        }
        let f: Found = (0..n).flat_map(|i| meaning(e, &m, true, i).into_iter().map(move |(o, to)| (o, (i, to)))).map(|(o, (a, b))| (o, (m.pos[a].0, m.pos[b].1))).collect();
        let got = calm(|| format!("LLLine::find({:?})", e), || ops.find(&s.line))?;
        eq(|| format!("LLLine::find({:?})", e), &f, &got)?;
    }
    Ok(k)
}
/// same selection of the same line
fn same_sel(all: &[((usize, usize), LLSelection)], want: (usize, usize), got: &LLSelection) -> bool {
    bounds(got) == Some(want) && all.iter().find(|x| x.0 == want).map_or(true, |x| &x.1 == got)
}
fn opt_same(all: &[((usize, usize), LLSelection)], want: Option<(usize, usize)>, got: &Option<LLSelection>) -> bool {
    match (want, got) {
        (None, None) => true,
        (Some(w), Some(g)) => same_sel(all, w, g),
        _ => false,
    }
}
pub fn stretches(a: usize, b: usize, covered: impl Fn(usize) -> bool) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = vec![];
    let mut open = false;
    for i in a..=b {
        if covered(i) {
            open = false;
        } else if open {
            v.last_mut().unwrap().1 = i;
        } else {
            v.push((i, i));
            open = true;
        }
    }
    v
}
pub fn c10(w: &World) -> R {
    let (line, m) = line!(w);
    let n = m.n();
    let s = sels(line, n);
    let mut k = 0;
    for (ops, e) in some().iter().chain(combined().iter().take(6)) {
        for ((a, b), sel) in &s.v {
            let hits: Vec<(usize, usize)> = (*a..=*b).flat_map(|i| meaning(e, &m, true, i).into_iter().map(move |(_, to)| (i, to))).collect();
            let want = stretches(*a, *b, |i| hits.iter().any(|h| h.0 <= i && i <= h.1));
            let what = || format!("split_by({:?}) of {}..={}, where the matches are {:?}", e, a, b, hits);
            let got = calm(what, || ops.split_by(sel))?;
            if got.len() != want.len() || !got.iter().zip(&want).all(|(g, w)| same_sel(&s.v, *w, g)) {
                return Err(format!("{}: expected {:?}, got {:?}", what(), want, got));
            }
            k += hits.len() as u64;
        }
    }
    Ok(k)
}
pub fn c11(w: &World) -> R {
    let (line, m) = line!(w);
    let n = m.n();
    let s = sels(line, n);
    let mut k = 0;
    for (ops, e) in some().iter().chain(combined().iter().take(6)) {
        for ((a, b), sel) in &s.v {
            let f: Found = if b + 1 < n { meaning(e, &m, true, b + 1).into_iter().map(|(o, to)| (o, (*a, to))).collect() } else { vec![] };
            let g: Found = if *a > 0 { meaning(e, &m, false, a - 1).into_iter().map(|(o, to)| (o, (to, *b))).collect() } else { vec![] };
            let what = |op: &str| format!("{}({:?}) on {}..={} of {} tokens", op, e, a, b, n);
            eq(|| what("match_forwards"), &f, &calm(|| what("match_forwards"), || ops.mf(sel))?)?;
            eq(|| what("match_backwards"), &g, &calm(|| what("match_backwards"), || ops.mb(sel))?)?;
            eq(|| what("match_first_forwards"), &f.first().cloned(), &calm(|| what("match_first_forwards"), || ops.mff(sel))?)?;
            eq(|| what("match_first_backwards"), &g.first().cloned(), &calm(|| what("match_first_backwards"), || ops.mfb(sel))?)?;
            k += (f.len() + g.len()) as u64;
        }
    }
    Ok(k)
}
pub fn trim_want(e: &E, m: &Model, a: usize, b: usize, start: bool, end: bool) -> Option<(usize, usize)> {
    let lo = match meaning(e, m, true, a).first() {
        Some((_, to)) if start => to + 1,
        _ => a,
    } as isize;
    let hi = match meaning(e, m, false, b).first() {
        Some((_, to)) if end => *to as isize - 1,
        _ => b as isize,
    };
    if lo <= hi && hi >= a as isize {
        Some((lo as usize, hi as usize))
    } else {
        None
    }
}
pub fn c12(w: &World) -> R {
    let (line, m) = line!(w);
    let n = m.n();
    let s = sels(line, n);
    let mut k = 0;
    for (ops, e) in some().iter().chain(combined().iter().take(6)) {
        for ((a, b), sel) in &s.v {
            for (x, y, name) in [(true, true, "trim"), (true, false, "trim_start"), (false, true, "trim_end")] {
                let want = trim_want(e, &m, *a, *b, x, y);
                let what = || format!("{}({:?}) on {}..={} of {} tokens", name, e, a, b, n);
                let got = calm(what, || ops.trim(sel, x, y))?;
                if !opt_same(&s.v, want, &got) {
                    return Err(format!("{}: expected {:?}, got {:?}", what(), want, got));
                }
                if want != Some((*a, *b)) {
                    k += 1;
                }
            }
        }
    }
    Ok(k)
}
pub fn c13(w: &World) -> R {
    let (line, m) = line!(w);
    let n = m.n();
    let s = sels(line, n);
    if n > 0 && LLSelection::from_line(s.line.clone()).map_or(true, |x| bounds(&x).is_none()) {
        return Ok(0);
    }
    if let Some(ab) = sel_bounds(n).into_iter().find(|x| !s.v.iter().any(|y| y.0 == *x)) {
        return Err(format!("no way to make the selection {:?} of a line of {} tokens with trim, match_forwards or split_with", ab, n));
    }
    let mut k = 0;
    for ((a, b), sel) in &s.v {
        let want = if b + 1 < n { Some((b + 1, n - 1)) } else { None };
        let what = || format!("after() of {}..={} of {} tokens", a, b, n);
        let got = calm(what, || sel.after())?;
        if !opt_same(&s.v, want, &got) {
            return Err(format!("{}: expected {:?}, got {:?}", what(), want, got));
        }
        for ((c, d), o) in &s.v {
            let l: Vec<usize> = (*a..=*b).filter(|i| i < c).collect();
            let r: Vec<usize> = (*a..=*b).filter(|i| i > d).collect();
            let want = [l.first().map(|f| (*f, *l.last().unwrap())), r.first().map(|f| (*f, *r.last().unwrap()))];
            let what = || format!("split_with of {}..={} by {}..={} of {} tokens", a, b, c, d, n);
            let got = calm(what, || sel.split_with(o))?;
            if !opt_same(&s.v, want[0], &got[0]) || !opt_same(&s.v, want[1], &got[1]) {
                return Err(format!("{}: expected {:?}, got {:?}", what(), want, got));
            }
            k += 1;
        }
    }
    Ok(k)
}

// ------------------------------------------------------------------ display
/// selections are equal exactly when they select the same tokens of the same line
pub fn c22(w: &World) -> R {
    let (line, m) = line!(w);
    let (twin, _) = line!(w);
    let n = m.n();
    let s = sels(line, n);
    let t = sels(twin, n);
    let mut k = 0;
    for (ab, x) in &s.v {
        let same = |what: &str, y: &LLSelection, want: bool| -> Result<(), String> {
            let got = calm(|| format!("comparing with {}", what), || (x == y, y == x, x != y))?;
            if got != (want, want, !want) {
                return Err(format!("the selection {:?} of {} tokens and {}: expected {}, got {:?} (==, == the other way round, !=)", ab, n, what, if want { "equal" } else { "unequal" }, got));
            }
            Ok(())
        };
        same("its clone", &x.clone(), true)?;
        for (cd, y) in &s.v {
            same(&format!("{:?} of the same line", cd), y, ab == cd)?;
        }
        for (cd, y) in &t.v {
            same(&format!("{:?} of another line with the same content", cd), y, false)?;
        }
        k += 1 + s.v.len() as u64 + t.v.len() as u64;
    }
    Ok(k)
}

pub fn c14(w: &World) -> R {
    use unicode_width::UnicodeWidthStr;
    let (line, m) = line!(w);
    let mut top = String::new();
    let mut cols = vec![];
    for (i, t) in m.toks.iter().enumerate() {
        if i > 0 {
            top.push_str("  ");
        }
        let a = top.width();
        top.push_str(t.as_deref().unwrap_or("<>"));
        cols.push((a, top.width()));
    }
    fn rows<T: Kind>(m: &Model, cols: &[(usize, usize)], out: &mut String) -> u64 {
        rows_of(m.spans::<T>(), cols, out)
    }
    fn rows_of<T: Debug>(spans: Vec<((usize, usize), Vec<T>)>, cols: &[(usize, usize)], out: &mut String) -> u64 {
        let mut k = 0;
        for ((a, b), v) in spans {
            for x in v.iter().rev() {
                let (s, e) = (cols[a].0, cols[b].1);
                out.push('\n');
                out.push_str(&" ".repeat(s));
                out.push('╰');
                let wd = e.saturating_sub(s);
                if wd > 1 {
                    out.push_str(&"─".repeat(wd - 2));
                    out.push('╯');
                }
                out.push_str(&format!("{:?}", x));
                k += 1;
            }
        }
        k
    }
    let mut k = 1;
    for mode in 0..4 {
        let mut want = top.clone();
        let got = calm(|| "rendering the line".into(), || {
            let mut d = if mode == 0 { debug_line(&line) } else { LLLineDisplay::new(&line) };
            match mode {
                0 => {}
                1 => {
                    d.include::<A>();
                    d.include::<TextTag>();
                }
                2 => {
                    d = d.with::<B>().with::<A>().with::<u64>().with::<char>();
                }
                _ => {
                    d.include::<Mk>();
                    d = d.with::<B>();
                    d.include::<B>();
                }
            }
            d.to_string()
        })?;
        k += match mode {
            0 => 0,
            1 => rows::<A>(&m, &cols, &mut want) + rows::<TextTag>(&m, &cols, &mut want),
            2 => rows::<B>(&m, &cols, &mut want) + rows::<A>(&m, &cols, &mut want) + rows::<char>(&m, &cols, &mut want),
            _ => rows::<Mk>(&m, &cols, &mut want) + rows::<B>(&m, &cols, &mut want) + rows::<B>(&m, &cols, &mut want),
        };
        eq(|| "the rendered line".into(), &want, &got)?;
    }
    // attributes whose debug text is empty, wide or of several lines
    let spans = m.spans::<A>();
    if !spans.is_empty() {
        let odd = OddlyPrinted { what: spans.iter().map(|(ab, v)| (*ab, v.len())).collect(), n: m.n(), failed: Default::default() };
        let line = calm(|| "run".into(), || line.run(&odd))?;
        if !odd.failed.get() {
            let mut want = top.clone();
            k += rows_of(spans.iter().map(|(ab, v)| (*ab, (0..v.len()).map(|i| Odd(ab.0 + i)).collect())).collect(), &cols, &mut want);
            let got = calm(|| "rendering the line".into(), || LLLineDisplay::new(&line).with::<Odd>().to_string())?;
            eq(|| "the rendered line".into(), &want, &got)?;
        }
    }
    Ok(k)
}
#[derive(Clone)]
struct Odd(usize);
impl Debug for Odd {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(["", "日本", "{\n  x: 1,\n}", " ", "\u{301}e"][self.0 % 5])
    }
}
struct OddlyPrinted {
    what: Vec<((usize, usize), usize)>,
    n: usize,
    failed: std::cell::Cell<bool>,
}
impl Resolver for OddlyPrinted {
    type Attr = Odd;
    fn go(&self, selection: LLSelection) -> Vec<LLCursorAssignment<Odd>> {
        let mut v = vec![];
        for ((a, b), k) in &self.what {
            match mk_sel(&selection, self.n, *a, *b) {
                Some(s) => v.extend((0..*k).map(|i| s.finish_with_attr(Odd(a + i)))),
                None => self.failed.set(true),
            }
        }
        v
    }
}

// ------------------------------------------------------------------ resolvers
#[derive(Clone, Debug)]
pub struct AmountCase {
    pub w: World,
    /// None: English, Some(None): French
    pub conf: Option<Option<(Vec<char>, char)>>,
}
pub fn c15(c: &AmountCase) -> R {
    use layered_amount::{rust_decimal::Decimal, Amount, AmountResolver};
    let (line, m) = line!(&c.w);
    let (res, delims, dec) = match &c.conf {
        None => (AmountResolver::english(), vec![',', '\''], '.'),
        Some(None) => (AmountResolver::french(), vec![' ', '.', '\''], ','),
        Some(Some((d, p))) => (AmountResolver::new(d.clone(), *p), d.clone(), *p),
    };
    let line = calm(|| format!("AmountResolver {:?}", c.conf), || line.run(&res))?;
    let num = |i: usize| m.toks.get(i).and_then(|t| t.as_deref()).map_or(false, |t| t.chars().all(|c| c.is_ascii_digit()));
    let chr = |i: usize| -> Option<char> {
        let t = m.toks.get(i)?.as_deref()?;
        let mut cs = t.chars();
        match (cs.next(), cs.next()) {
            (Some(c), None) => Some(c),
            _ => None,
        }
    };
    let mut want: Vec<((usize, usize), String)> = vec![];
    let mut i = 0;
    while i < m.n() {
        if !num(i) {
            i += 1;
            continue;
        }
        let mut s = m.toks[i].clone().unwrap();
        let mut j = i;
        while chr(j + 1).map_or(false, |c| delims.contains(&c)) && num(j + 2) {
            s.push_str(m.toks[j + 2].as_deref().unwrap());
            j += 2;
        }
        if chr(j + 1) == Some(dec) && num(j + 2) {
            s.push('.');
            s.push_str(m.toks[j + 2].as_deref().unwrap());
            j += 2;
        }
        if let Ok(d) = s.parse::<Decimal>() {
            want.push(((i, j), d.to_string()));
        }
        i = j + 1;
    }
    let got: Vec<((usize, usize), String, Vec<String>)> = calm(|| "query::<Amount>".into(), || {
        line.query::<Amount>().into_iter().map(|(r, t, v)| (r, t, v.into_iter().map(|a| a.get_decimal().to_string()).collect())).collect()
    })?;
    let want: Vec<((usize, usize), String, Vec<String>)> = want.into_iter().map(|((a, b), s)| ((a, b), m.text(a, b), vec![s])).collect();
    eq(|| "amounts".into(), &want, &got)?;
    queries(&line, &m)?;
    Ok(want.len() as u64)
}

#[derive(Clone, Debug)]
pub struct KwCase {
    pub w: World,
    pub conf: [Vec<&'static str>; 3],
}
pub fn c16(c: &KwCase) -> R {
    use layered_clauses::{ClauseKeyword, ClauseKeywordResolver};
    let (line, m) = line!(&c.w);
    let line = calm(|| "ClauseKeywordResolver".into(), || line.run(&ClauseKeywordResolver::new(&c.conf[0], &c.conf[1], &c.conf[2])))?;
    let mut want = vec![];
    for (i, t) in m.toks.iter().enumerate() {
        if let Some(t) = t {
            let l = t.to_lowercase();
            let has = |k: usize| c.conf[k].iter().any(|x| *x == l);
            let kw = if has(0) { ClauseKeyword::ConditionStart } else if has(2) { ClauseKeyword::Then } else if has(1) { ClauseKeyword::And } else { continue };
            want.push(((i, i), t.clone(), vec![kw]));
        }
    }
    eq(|| "clause keywords".into(), &want, &calm(|| "query".into(), || real_query::<ClauseKeyword>(&line))?)?;
    queries(&line, &m)?;
    Ok(want.len() as u64)
}
pub fn c17(w: &World) -> R {
    use layered_clauses::{Clause, ClauseKeyword, ClauseResolver};
    let (line, m) = line!(w);
    let line = calm(|| "ClauseResolver".into(), || line.run(&ClauseResolver::default()))?;
    let n = m.n();
    let mut want: Vec<((usize, usize), String, Vec<Clause>)> = vec![];
    if n > 0 {
        let hits: Vec<(usize, usize)> = m
            .spans::<ClauseKeyword>()
            .into_iter()
            .map(|x| x.0)
            .chain(m.spans::<TextTag>().into_iter().filter(|x| x.1.contains(&TextTag::PUNC)).map(|x| x.0))
            .collect();
        let st = stretches(0, n - 1, |i| hits.iter().any(|h| h.0 <= i && i <= h.1));
        let ws = |i: usize| m.toks[i].as_deref().map_or(false, |t| t.chars().all(|c| c.is_whitespace()));
        let mut cond = false;
        for (a, b) in &st {
            let (mut lo, mut hi) = (*a as isize, *b as isize);
            if ws(*a) {
                lo += 1;
            }
            if ws(*b) {
                hi -= 1;
            }
            if lo > hi {
                continue;
            }
            let kw = if *a == 0 {
                None
            } else {
                m.spans::<ClauseKeyword>().into_iter().find(|x| x.0 .1 == a - 1).map(|x| x.1[0].clone())
            };
            let label = if kw == Some(ClauseKeyword::ConditionStart) {
                cond = true;
                Clause::Condition
            } else if st.len() == 1 {
                Clause::Independent
            } else if kw == Some(ClauseKeyword::Then) || cond {
                Clause::TrailingEffect
            } else {
                Clause::LeadingEffect
            };
            want.push(((lo as usize, hi as usize), m.text(lo as usize, hi as usize), vec![label]));
        }
    }
    let got: Vec<((usize, usize), String, Vec<Clause>)> = calm(|| "query".into(), || line.query::<Clause>().into_iter().map(|(r, s, v)| (r, s, v.into_iter().cloned().collect())).collect())?;
    eq(|| "clauses".into(), &want, &got)?;
    queries(&line, &m)?;
    Ok(want.len() as u64)
}
#[derive(Clone, Debug)]
pub struct TextCase {
    pub w: World,
    /// keys with their values; 0: exact, 1: case insensitive, 2: case insensitive from an array
    pub table: Vec<(&'static str, Vec<u8>)>,
    pub mode: u8,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Txt(pub u8);
pub fn c18(c: &TextCase) -> R {
    use std::collections::HashMap;
    let (line, m) = line!(&c.w);
    // one entry per key in maps
    let mut table: Vec<(&'static str, Vec<u8>)> = vec![];
    for (k, v) in &c.table {
        match table.iter_mut().find(|e| e.0 == *k) {
            Some(e) => e.1 = v.clone(),
            None => table.push((k, v.clone())),
        }
    }
    let map: HashMap<String, Vec<Txt>> = table.iter().map(|(k, v)| (k.to_string(), v.iter().map(|x| Txt(*x)).collect())).collect();
    let arr: Vec<(&'static str, Txt)> = c.table.iter().flat_map(|(k, v)| v.iter().map(move |x| (*k, Txt(*x)))).take(5).collect();
    let res = calm(|| "building the text lookup".into(), || match c.mode {
        0 => TextMatchAssignResolver::new(map.clone()),
        1 => TextMatchAssignResolver::new_case_insensitive(map.clone()),
        _ => {
            let mut a = arr.clone().into_iter();
            let mut nx = || a.next().unwrap();
            match arr.len() {
                0 => TextMatchAssignResolver::new_case_insensitive_str_arr::<0>([]),
                1 => TextMatchAssignResolver::new_case_insensitive_str_arr([nx()]),
                2 => TextMatchAssignResolver::new_case_insensitive_str_arr([nx(), nx()]),
                3 => TextMatchAssignResolver::new_case_insensitive_str_arr([nx(), nx(), nx()]),
                4 => TextMatchAssignResolver::new_case_insensitive_str_arr([nx(), nx(), nx(), nx()]),
                _ => TextMatchAssignResolver::new_case_insensitive_str_arr([nx(), nx(), nx(), nx(), nx()]),
            }
        }
    })?;
    let line = calm(|| "the text lookup".into(), || line.run(&res))?;
    let mut want: Vec<((usize, usize), String, Vec<u8>)> = vec![];
    for (i, t) in m.toks.iter().enumerate() {
        if let Some(t) = t {
            let l = t.to_lowercase();
            let v: Vec<u8> = match c.mode {
                0 => table.iter().filter(|(k, _)| k == t).flat_map(|(_, v)| v.clone()).collect(),
                1 => {
                    let hits: Vec<_> = table.iter().filter(|(k, _)| k.to_lowercase() == l).collect();
                    let mut v: Vec<u8> = hits.iter().flat_map(|(_, v)| v.clone()).collect();
                    if hits.len() > 1 {
                        v.sort();
                    }
                    v
                }
                _ => arr.iter().filter(|(k, _)| k.to_lowercase() == l).map(|(_, x)| x.0).collect(),
            };
            if !v.is_empty() {
                want.push(((i, i), t.clone(), v));
            }
        }
    }
    let got: Vec<((usize, usize), String, Vec<u8>)> = calm(|| "query".into(), || line.query::<Txt>().into_iter().map(|(r, s, v)| (r, s, v.into_iter().map(|x| x.0).collect())).collect())?;
    let got: Vec<_> = got
        .into_iter()
        .map(|(r, s, mut v): ((usize, usize), String, Vec<u8>)| {
            let l = s.to_lowercase();
            if c.mode == 1 && table.iter().filter(|(k, _)| k.to_lowercase() == l).count() > 1 {
                v.sort();
            }
            (r, s, v)
        })
        .collect();
    eq(|| "attributes of the lookup".into(), &want, &got)?;
    queries(&line, &m)?;
    Ok(want.len() as u64)
}
pub fn c19(w: &World) -> R {
    use layered_part_of_speech::{POSTagResolver, Tag};
    use wiktionary_part_of_speech_extract::ENGLISH_TAG_LOOKUP;
    let (line, m) = line!(w);
    let line = calm(|| "POSTagResolver".into(), || line.run(&POSTagResolver::default()))?;
    let mut want: Vec<((usize, usize), String, String)> = vec![];
    for (i, t) in m.toks.iter().enumerate() {
        if let Some(t) = t {
            if tag_of(t) == TextTag::WORD {
                let v: Vec<Tag> = match ENGLISH_TAG_LOOKUP.get(&t.to_lowercase()) {
                    Some(s) => s.tags().collect(),
                    None => vec![Tag::Noun],
                };
                if v.is_empty() {
                    return Err(format!("no tags for {:?}", t));
                }
                want.push(((i, i), t.clone(), format!("{:?}", v)));
            }
        }
    }
    let got: Vec<((usize, usize), String, String)> = calm(|| "query".into(), || line.query::<Tag>().into_iter().map(|(r, s, v)| (r, s, format!("{:?}", v))).collect())?;
    eq(|| "part-of-speech tags".into(), &want, &got)?;
    queries(&line, &m)?;
    Ok(want.len() as u64)
}
