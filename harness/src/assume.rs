//! The facts about dependencies that the proofs assume (proof/prelude.rs), checked on the real
//! dependencies: exhaustively where the domain is finite, on samples where not.
use crate::gen::{text, Rng, CHARS};
use layered_amount::rust_decimal::Decimal;
use unicode_segmentation::UnicodeSegmentation;
use unicode_width::UnicodeWidthStr;
use wiktionary_part_of_speech_extract::{Map, Tag, TagSet, ENGLISH_TAG_LOOKUP};

pub struct Fact {
    pub axiom: &'static str,
    pub how: &'static str,
    pub cases: u64,
    pub broken: Option<String>,
}

fn fact(axiom: &'static str, how: &'static str, f: impl FnOnce(&mut u64) -> Result<(), String>) -> Fact {
    let mut cases = 0;
    let broken = f(&mut cases).err();
    Fact { axiom, how, cases, broken }
}
fn ok(n: &mut u64, b: bool, what: impl FnOnce() -> String) -> Result<(), String> {
    *n += 1;
    if b {
        Ok(())
    } else {
        Err(what())
    }
}
const PUNC: &[char] = &[',', '.', '!', ';', ':', '?', '\'', '"'];

pub fn all(seed: u64) -> Vec<Fact> {
    let chars = || (0..=0x10ffffu32).filter_map(char::from_u32);
    vec![
        fact("char_classes, char_classes2", "all characters", |n| {
            for c in chars() {
                let other = c.is_ascii_digit() || PUNC.contains(&c) || c == '-' || c == '\u{2013}';
                ok(n, !(c.is_alphabetic() && (c.is_whitespace() || other)) && !(c.is_whitespace() && other), || format!("{:?}", c))?;
            }
            Ok(())
        }),
        fact("utf8", "all characters", |n| {
            for c in chars() {
                let k = c as u32;
                let w = if k < 0x80 { 1 } else if k < 0x800 { 2 } else if k < 0x10000 { 3 } else { 4 };
                ok(n, c.len_utf8() == w && c.to_string().len() == w, || format!("{:?}", c))?;
            }
            Ok(())
        }),
        fact("word_bounds_law", "all pairs of characters of the generator, all characters, random texts", |n| {
            let mut one = |s: &str| {
                let ps: Vec<&str> = s.split_word_bounds().collect();
                ok(n, ps.concat() == s && ps.iter().all(|p| !p.is_empty()), || format!("{:?}", s))
            };
            for c in chars() {
                one(&c.to_string())?;
            }
            for a in CHARS {
                for b in CHARS {
                    one(&format!("{}{}", a, b))?;
                }
            }
            let mut r = Rng(seed ^ 0xa55);
            for _ in 0..200_000 {
                one(&text(&mut r))?;
            }
            Ok(())
        }),
        fact("width_space, width_push_space", "all characters after and before a space, random texts", |n| {
            let mut one = |a: &str, b: &str| {
                let left = format!("{} ", a);
                ok(n, left.width() == a.width() + 1 && format!("{}{}", left, b).width() == left.width() + b.width(), || format!("{:?} {:?}", a, b))
            };
            for c in chars() {
                one(&c.to_string(), "x")?;
                one("x", &c.to_string())?;
            }
            for a in CHARS {
                for b in CHARS {
                    one(&a.to_string(), &b.to_string())?;
                    one(&format!("{}{}", a, b), "")?;
                    one("", &format!("{}{}", a, b))?;
                }
            }
            let mut r = Rng(seed ^ 0x71d);
            for _ in 0..200_000 {
                let (a, b) = (text(&mut r), text(&mut r));
                one(&a, &b)?;
            }
            Ok(())
        }),
        fact("decimal_point_at_end", "all digit strings up to 5 digits, random ones up to 60", |n| {
            let mut one = |s: &str| {
                let a = s.parse::<Decimal>().ok();
                let b = format!("{}.", s).parse::<Decimal>().ok();
                ok(n, a == b && a.map(|x| x.serialize()) == b.map(|x| x.serialize()), || s.to_string())
            };
            for w in 1..=5usize {
                for k in 0..10u32.pow(w as u32) {
                    one(&format!("{:0w$}", k, w = w))?;
                }
            }
            let mut r = Rng(seed ^ 0xdec);
            for i in 0..200_000 {
                let len = 1 + r.below(60);
                let s: String = (0..len).map(|_| if i % 3 == 0 { '9' } else if i % 7 == 0 { '0' } else { (b'0' + r.below(10) as u8) as char }).collect();
                one(&s)?;
            }
            one("79228162514264337593543950335")?;
            one("79228162514264337593543950336")
        }),
        fact("tag_set_of_one", "all tags", |n| {
            use Tag::*;
            for t in [Adjective, Adverb, Conjunction, Determiner, Interjection, Noun, Numeral, Particle, Postposition, Preposition, Pronoun, ProperNoun, Verb] {
                ok(n, TagSet::of(&[t]).tags().collect::<Vec<_>>() == vec![t], || format!("{:?}", t))?;
            }
            Ok(())
        }),
        fact("dictionary_law", "all words of the dictionary", |n| {
            let words = dictionary_words()?;
            for w in words {
                ok(n, ENGLISH_TAG_LOOKUP.get(&w).map_or(false, |t| t.tags().count() > 0), || w.clone())?;
            }
            Ok(())
        }),
        fact("HashMap, Vec, String (contracts of the standard library)", "random histories", |n| {
            use std::collections::HashMap;
            let mut r = Rng(seed ^ 0x4a5);
            for _ in 0..2_000 {
                let mut m: HashMap<String, Vec<u8>> = HashMap::new();
                let mut l: Vec<(String, Vec<u8>)> = vec![];
                for _ in 0..r.below(20) {
                    let (k, v) = (text(&mut r), r.below(250) as u8);
                    m.entry(k.clone()).or_default().push(v);
                    match l.iter_mut().find(|(x, _)| *x == k) {
                        Some((_, y)) => y.push(v),
                        None => l.push((k, vec![v])),
                    }
                }
                for (k, v) in &l {
                    ok(n, m.get(k.as_str()) == Some(v), || format!("{:?}", k))?;
                }
                let mut e: Vec<_> = m.into_iter().collect();
                e.sort();
                l.sort();
                ok(n, e == l, || format!("{:?}", l))?;
            }
            Ok(())
        }),
    ]
}

/// the words of the part-of-speech dictionary, or a few of them if its data file is not at hand
pub fn dictionary_words() -> Result<Vec<String>, String> {
    let home = std::env::var("CARGO_HOME").unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or_default()));
    let mut data = None;
    for d in std::fs::read_dir(format!("{}/registry/src", home)).into_iter().flatten().flatten() {
        data = data.or_else(|| std::fs::read(d.path().join("wiktionary-part-of-speech-extract-0.1.2/dist/english-word-tags.fst")).ok());
    }
    match data.and_then(|d| Map::new(d).ok()) {
        Some(m) => m.stream().into_str_keys().map_err(|e| format!("{:?}", e)),
        None => Ok(["if", "run", "house", "the", "quickly", "and", "three", "éclair", "café", "naïve"].iter().map(|s| s.to_string()).collect()),
    }
}
