//! Generators: all small lines, and random larger ones.
use crate::model::*;
use layered_clauses::ClauseKeyword;
use layered_nlp::TextTag;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

/// literals of the code under test that the code the harness was written for does not have
#[derive(Default, Debug)]
pub struct Dict {
    pub chars: Vec<char>,
    pub strs: Vec<&'static str>,
    pub ints: Vec<usize>,
}
static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}
/// one literal per line: `c HEX`, `i N` or `s HEX HEX ..` (the characters of a string)
pub fn load_dict(path: &str) {
    let mut d = Dict::default();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let mut it = l.split_whitespace();
        let k = it.next().unwrap_or("");
        let cs: Vec<char> = it.clone().filter_map(|h| u32::from_str_radix(h, 16).ok().and_then(char::from_u32)).collect();
        match k {
            "c" => d.chars.extend(cs),
            "s" if !cs.is_empty() => d.strs.push(Box::leak(cs.into_iter().collect::<String>().into_boxed_str())),
            "i" => d.ints.extend(it.next().and_then(|n| n.parse::<usize>().ok()).filter(|n| *n <= 100_000)),
            _ => {}
        }
    }
    let more: Vec<char> = d.ints.iter().filter(|n| **n > 31).filter_map(|n| char::from_u32(*n as u32)).collect();
    d.chars.extend(more);
    let _ = DICT.set(d);
}
impl Rng {
    /// a size: mostly small, sometimes around a number that occurs in the code
    pub fn size(&mut self, usual: usize, cap: usize) -> usize {
        let d = dict();
        let n = if !d.ints.is_empty() && self.chance(1, 2) {
            let n = self.pick(&d.ints);
            n.saturating_add(self.below(3)).saturating_sub(1)
        } else {
            1 + self.below(usual)
        };
        n.min(cap).max(1)
    }
    /// a piece of text around the literals of the code
    pub fn literal(&mut self) -> Option<String> {
        let d = dict();
        let k = d.chars.len() + 2 * d.strs.len() + 2 * d.ints.len();
        if k == 0 {
            return None;
        }
        let j = self.below(k);
        Some(if j < d.chars.len() {
            let c = d.chars[j];
            match self.below(4) {
                0 => format!("{}{}", c, c),
                1 => format!("a{}b", c),
                _ => c.to_string(),
            }
        } else if j < d.chars.len() + 2 * d.strs.len() {
            let s = d.strs[(j - d.chars.len()) / 2];
            match self.below(6) {
                0 => s.to_uppercase(),
                1 => s.to_lowercase(),
                2 => format!("{}{}", s, s),
                _ => s.to_string(),
            }
        } else {
            let n = d.ints[(j - d.chars.len() - 2 * d.strs.len()) / 2];
            if self.chance(1, 3) {
                n.to_string()
            } else {
                let m = n.saturating_add(self.below(3)).saturating_sub(1).min(400);
                let c = self.pick(&['a', '1', ' ', 'é', '.']);
                std::iter::repeat(c).take(m).collect()
            }
        })
    }
}

pub const SIZES: [Size; 6] = [Size::Utf8, Size::Utf16, Size::Chars, Size::Const(0), Size::Const(3), Size::Weird];

/// characters that behave differently in word segmentation, classification or display
pub const CHARS: &[char] = &[
    'a', 'Z', '0', '7', ' ', '.', ',', '\'', '"', '!', ';', ':', '?', '-', '–', '—', '_', '$', '%', '#', '@', '/', '(', '\\', '\t', '\n', '\r',
    '\u{a0}', '\u{3000}', '\u{200b}', '\u{200d}', '\u{301}', '\u{308}', '\u{ad}', '\u{feff}', '\u{85}', '\u{2028}', 'é', 'ß', 'İ', 'Σ', 'ʼ', '’',
    '½', '²', 'Ⅷ', '٣', '०', '０', '中', 'か', 'カ', '한', 'ก', 'א', '😀', '🏽', '🇫', '🇷', '\u{fe0f}', 'ª', '\u{345}', 'ﬁ', '🦶', '\u{1c}', '\u{7f}', '\0', '€', '\u{10ffff}', '\u{660}', 'ǅ', '\u{16ee}', '\u{212a}',
];
pub const FRAGS: &[&str] = &[
    "hello", "World", "don't", "peoples'", "baseball-card", "a–b", "1", "12", "0007", "12,3", "10.0", "1'000", "3rd", "B2B", "2x4y", "1é", "5İ", "x1", " ", "  ", "\t", "\r\n",
    ",", ".", "!", "?", ";", ":", "'", "\"", "$", "€", "😀", "👨‍👩‍👧", "🇫🇷", "e\u{301}", "12\u{301}3", "1\u{200d}2", "中文", "カタカナ", "한국어", "ภาษา", "שלום", "a_b", "1_2", "٣٤", "1٣",
    "½", "3½", "10²", "Ⅷ", "1Ⅷ", "–", "—", "-", "name@example.com", "U.S.A.", "\u{a0}", "\u{200b}", "’", "l’ami", "0x1F", "1e9", "100%", "if", "then", "and", "When", "I", "x", "９", "1９",
];

pub fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    let k = 1 + r.below(6);
    for _ in 0..k {
        if r.chance(1, 4) {
            if let Some(l) = r.literal() {
                s.push_str(&l);
                continue;
            }
        }
        if r.chance(1, 60) {
            // long runs
            let n = r.pick(&[9, 17, 33, 65, 130, 260]);
            let f = r.pick(&["a", "7", " ", "é", "ab-", "12,", "x y ", "."]);
            s.push_str(&f.repeat(if f.len() > 2 { n / 4 + 1 } else { n }));
        } else if r.chance(1, 2) {
            s.push_str(r.pick(FRAGS));
        } else {
            for _ in 0..1 + r.below(3) {
                s.push(r.pick(CHARS));
            }
        }
    }
    s
}
pub fn value(r: &mut Rng) -> V {
    match r.below(8) {
        0..=2 => V::A(A(r.below(3) as u8)),
        3..=5 => V::B(B(r.below(3) as u8)),
        6 => V::Ch(r.pick(&['x', ',', ' '])),
        _ => V::Tag(r.pick(&[TextTag::NATN, TextTag::SPACE, TextTag::WORD])),
    }
}
pub fn values(r: &mut Rng) -> Vec<V> {
    let k = if r.chance(1, 30) { r.size(45, 70) } else { [0, 0, 1, 1, 2, 3, 5][r.below(7)] };
    let wide = k > 5 && r.chance(1, 2);
    (0..k)
        .map(|_| match value(r) {
            V::A(_) if wide => V::A(A(r.below(200) as u8)),
            V::B(_) if wide => V::B(B(r.below(200) as u8)),
            v => v,
        })
        .collect()
}
pub fn inputs(r: &mut Rng, max: usize, simple: bool) -> Vec<In> {
    let k = if r.chance(1, 40) { 0 } else { 1 + r.below(max) };
    (0..k)
        .map(|_| {
            if r.chance(1, 6) {
                let mut v = values(r);
                v.insert(0, V::Mk(Mk));
                In::Custom([0, 1, 2, 7][r.below(4)], v)
            } else if simple {
                if r.chance(1, 6) {
                    if let Some(l) = r.literal() {
                        return In::Text(if l.chars().count() > 12 { l.chars().take(12).collect() } else { l }, values(r));
                    }
                }
                In::Text(r.pick(&["x", " ", "7", ",", "yes", "x y", "1,2"]).to_string(), values(r))
            } else {
                In::Text(text(r), values(r))
            }
        })
        .collect()
}
pub fn rounds(r: &mut Rng) -> Vec<Round> {
    let k = r.below(4);
    (0..k)
        .map(|_| {
            let m = r.below(5);
            let sp = |r: &mut Rng| {
                let a = r.below(24);
                let b = if r.chance(1, 2) { a + r.below(3) } else { r.below(24) };
                (a, b)
            };
            match r.below(10) {
                0..=3 => Round::A((0..m).map(|_| { let (a, b) = sp(r); (a, b, A(r.below(3) as u8)) }).collect()),
                4..=7 => Round::B((0..m).map(|_| { let (a, b) = sp(r); (a, b, B(r.below(3) as u8)) }).collect()),
                8 => Round::Ch((0..m).map(|_| { let (a, b) = sp(r); (a, b, r.pick(&['x', ',', ' '])) }).collect()),
                _ => Round::Tag((0..m).map(|_| { let (a, b) = sp(r); (a, b, r.pick(&[TextTag::NATN, TextTag::SPACE, TextTag::WORD])) }).collect()),
            }
        })
        .collect()
}
pub fn world(r: &mut Rng, max: usize, simple: bool) -> World {
    World { inputs: inputs(r, max, simple), size: r.pick(&SIZES), rounds: rounds(r) }
}

/// lines of many tokens, with many attributes at the same and at different spans
pub fn long_world(r: &mut Rng, cap: usize) -> World {
    let n = if cap > 100 && r.chance(1, 12) { r.pick(&[130, 258]) } else { r.size(cap.min(30), cap) };
    let kinds = ["x", " ", "7", ",", "yes"];
    let inputs = (0..n)
        .map(|_| if r.chance(1, 12) { In::Custom(r.pick(&[0, 1, 3]), vec![V::Mk(Mk)]) } else { In::Text(r.pick(&kinds).to_string(), if r.chance(1, 5) { values(r) } else { vec![] }) })
        .collect();
    let rounds = (0..1 + r.below(4))
        .map(|_| {
            let m = r.size(24, 70);
            let here = (r.below(n), r.below(n));
            let same = r.chance(1, 4);
            let from = r.chance(1, 4);
            let to = r.chance(1, 4);
            let sp = |r: &mut Rng| {
                let (mut a, mut b) = (r.below(n), 0);
                b += a + if r.chance(2, 3) { r.below(3) } else { r.below(n) };
                if same || from {
                    a = here.0.min(here.1);
                }
                if same || to {
                    b = here.0.max(here.1);
                }
                (a.min(b), a.max(b).min(n - 1))
            };
            let big = |r: &mut Rng| {
                let k = if r.chance(1, 3) { 200 } else { 3 };
                r.below(k) as u8
            };
            match r.below(8) {
                0..=3 => Round::A((0..m).map(|_| { let (a, b) = sp(r); (a, b, A(big(r))) }).collect()),
                4..=6 => Round::B((0..m).map(|_| { let (a, b) = sp(r); (a, b, B(big(r))) }).collect()),
                _ => Round::Tag((0..m).map(|_| { let (a, b) = sp(r); (a, b, r.pick(&[TextTag::NATN, TextTag::SPACE, TextTag::WORD])) }).collect()),
            }
        })
        .collect();
    World { inputs, size: r.pick(&SIZES), rounds }
}

/// all lines of up to `max_n` one-token inputs with up to `max_a` spans of A in every order,
/// next to a few choices of B
pub fn small(max_n: usize, max_a: usize) -> Vec<World> {
    let mut out = vec![World { inputs: vec![], size: Size::Utf8, rounds: vec![] }];
    let kinds = ["x", " ", "7", ",", "", "yes", " "];
    for n in 1..=max_n {
        let spans: Vec<(usize, usize)> = (0..n).flat_map(|a| (a..n).map(move |b| (a, b))).collect();
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        let mut last = seqs.clone();
        for _ in 0..max_a {
            last = last.iter().flat_map(|s| (0..spans.len()).map(move |k| { let mut t = s.clone(); t.push(k); t })).collect();
            seqs.extend(last.clone());
        }
        for (q, s) in seqs.iter().enumerate() {
            let rot = q % kinds.len();
            let inputs = (0..n)
                .map(|i| {
                    let k = kinds[(i + rot) % kinds.len()];
                    if k.is_empty() { In::Custom(2, vec![V::Mk(Mk)]) } else { In::Text(k.to_string(), vec![]) }
                })
                .collect();
            let vals = [0u8, 1, 0, 2];
            let a = s.iter().enumerate().map(|(j, k)| (spans[*k].0, spans[*k].1, A(vals[(j + q / 3) % 4]))).collect();
            let b = spans[(q * 7 + 3) % spans.len()];
            let b2 = spans[(q * 5 + 1) % spans.len()];
            let rounds = match q % 3 {
                0 => vec![Round::A(a), Round::B(vec![(b.0, b.1, B(0))])],
                1 => vec![Round::B(vec![(b.0, b.1, B(0)), (b2.0, b2.1, B(1))]), Round::A(a)],
                _ => vec![Round::A(a)],
            };
            out.push(World { inputs, size: SIZES[q % SIZES.len()], rounds });
        }
    }
    out
}

pub fn clause_world(r: &mut Rng) -> World {
    let k = if r.chance(1, 12) { r.size(12, 30) } else { 1 + r.below(4) };
    let pool = ["if", "when", "then", "and", "I", "go", "home", " ", " ", " ", "  ", ",", ".", "!", "'", "x", "12", "$", "don't", "\t"];
    let inputs = (0..k)
        .map(|_| {
            if r.chance(1, 12) {
                return In::Custom(1, vec![V::Mk(Mk)]);
            }
            let mut s = String::new();
            for _ in 0..1 + r.below(6) {
                match r.literal() {
                    Some(l) if r.chance(1, 5) => s.push_str(&l),
                    _ => s.push_str(r.pick(&pool)),
                }
                if r.chance(2, 3) {
                    s.push(' ');
                }
            }
            In::Text(s, vec![])
        })
        .collect();
    let kw = [ClauseKeyword::ConditionStart, ClauseKeyword::Then, ClauseKeyword::And];
    let m = r.below(5);
    let v = (0..m)
        .map(|_| {
            let a = r.below(24);
            (a, a + r.pick(&[0, 0, 0, 1, 2]), r.pick(&kw))
        })
        .collect();
    World { inputs, size: Size::Utf8, rounds: vec![Round::Kw(v)] }
}

/// smaller versions of a world, for shrinking
pub fn shrinks(w: &World) -> Vec<World> {
    let mut out = vec![];
    for i in 0..w.inputs.len() {
        let mut v = w.clone();
        v.inputs.remove(i);
        out.push(v);
        let (attrs, len) = match &w.inputs[i] {
            In::Text(_, a) => (a.clone(), a.len()),
            In::Custom(_, a) => (a.clone(), a.len()),
        };
        for k in 0..len {
            if matches!(attrs[k], V::Mk(_)) {
                continue;
            }
            let mut v = w.clone();
            match &mut v.inputs[i] {
                In::Text(_, a) => { a.remove(k); }
                In::Custom(_, a) => { a.remove(k); }
            }
            out.push(v);
        }
        if let In::Text(s, a) = &w.inputs[i] {
            let cs: Vec<char> = s.chars().collect();
            if cs.len() > 1 {
                for k in 0..cs.len() {
                    let t: String = cs.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, c)| *c).collect();
                    let mut v = w.clone();
                    v.inputs[i] = In::Text(t, a.clone());
                    out.push(v);
                }
            }
        }
    }
    for i in 0..w.rounds.len() {
        let mut v = w.clone();
        v.rounds.remove(i);
        out.push(v);
        macro_rules! drop_each {
            ($($k:ident)*) => { match &w.rounds[i] { $(Round::$k(x) => for k in 0..x.len() {
                let mut y = x.clone();
                y.remove(k);
                let mut v = w.clone();
                v.rounds[i] = Round::$k(y);
                out.push(v);
            })* } };
        }
        drop_each!(A B Tag Ch Kw);
    }
    if w.size != Size::Utf8 {
        let mut v = w.clone();
        v.size = Size::Utf8;
        out.push(v);
    }
    out
}
