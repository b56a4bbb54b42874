//! Bounded counterpart of the proofs: runs the real crates on all small and many random
//! inputs and compares with independent oracles. It stands in for functions the verifier cannot
//! take and looks for a concrete failing input when an obligation fails.
mod checks;
mod assume;
mod gen;
mod matchers;
mod model;
use checks::*;
use gen::*;
use model::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Ctx {
    seed: u64,
    thorough: bool,
    until: Instant,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    fail: Mutex<Option<(usize, String, String)>>,
    stop: AtomicBool,
    sections: Mutex<Vec<(String, u64)>>,
    prop: String,
    out: Option<String>,
    /// one thread, and every case is written here before it runs (used after a crash)
    trace: Option<String>,
}

/// a single case that runs longer than this does not terminate
const HANG: u64 = 40;

impl Ctx {
    /// runs `check` on the cases make(0), make(1), ... until None or out of time
    fn drive<C: Clone + Debug + Send>(&self, name: &str, make: &(dyn Fn(usize) -> Option<C> + Sync), check: &(dyn Fn(&C) -> R + Sync), shrinks: &(dyn Fn(&C) -> Vec<C> + Sync)) {
        if self.stop.load(Ordering::Relaxed) {
            return;
        }
        let next = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        let threads = if self.trace.is_some() { 1 } else { 6 };
        let live = AtomicUsize::new(threads);
        let t0 = Instant::now();
        // per thread: milliseconds since t0 (plus one) when the running case started, and its index
        let slots: Vec<(AtomicU64, AtomicUsize)> = (0..threads).map(|_| (AtomicU64::new(0), AtomicUsize::new(0))).collect();
        let run = |slot: usize, i: usize, c: &C| -> R {
            if let Some(t) = &self.trace {
                let _ = std::fs::write(t, format!("{}: {:?}", name, c));
            }
            slots[slot].1.store(i, Ordering::SeqCst);
            slots[slot].0.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
            let r = model::quiet(|| check(c)).unwrap_or_else(|e| Err(format!("panic: {}", e)));
            slots[slot].0.store(0, Ordering::SeqCst);
            r
        };
        let work = |slot: usize| loop {
            if self.stop.load(Ordering::Relaxed) || Instant::now() > self.until {
                return;
            }
            let i = next.fetch_add(1, Ordering::Relaxed);
            let c = match make(i) {
                Some(c) => c,
                None => return,
            };
            let r = run(slot, i, &c);
            self.evals.fetch_add(1, Ordering::Relaxed);
            done.fetch_add(1, Ordering::Relaxed);
            match r {
                Ok(k) => {
                    if k > 0 {
                        let mut h = DefaultHasher::new();
                        format!("{:?}", c).hash(&mut h);
                        let mut d = self.distinct.lock().unwrap();
                        if d.len() < 5_000_000 {
                            d.insert(h.finish());
                        }
                        drop(d);
                        if i % 997 == 3 {
                            let mut s = self.samples.lock().unwrap();
                            if s.len() < 6 {
                                s.push(format!("{}: {:?}", name, c));
                            }
                        }
                    }
                }
                Err(e) => {
                    self.stop.store(true, Ordering::Relaxed);
                    self.failed(&c, &e);
                    // make it smaller
                    let mut c = c;
                    let end = Instant::now() + Duration::from_secs(10);
                    'again: while Instant::now() < end {
                        for d in shrinks(&c) {
                            if let Err(e2) = run(slot, i, &d) {
                                self.failed(&d, &e2);
                                c = d;
                                continue 'again;
                            }
                        }
                        break;
                    }
                }
            }
        };
        std::thread::scope(|sc| {
            for slot in 0..threads {
                let (work, live) = (&work, &live);
                sc.spawn(move || {
                    work(slot);
                    live.fetch_sub(1, Ordering::SeqCst);
                });
            }
            while live.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(2));
                let now = t0.elapsed().as_millis() as u64;
                for s in &slots {
                    let at = s.0.load(Ordering::SeqCst);
                    if at != 0 && now > at + HANG * 1000 {
                        let i = s.1.load(Ordering::SeqCst);
                        if self.fail.lock().unwrap().is_none() {
                            if let Some(c) = make(i) {
                                self.failed(&c, &format!("does not finish within {} s", HANG));
                            }
                        }
                        self.sections.lock().unwrap().push((name.to_string(), done.load(Ordering::SeqCst)));
                        self.finish();
                    }
                }
            }
        });
        self.sections.lock().unwrap().push((name.to_string(), done.into_inner()));
    }
    fn failed<C: Debug>(&self, c: &C, e: &str) {
        let d = format!("{:?}", c);
        let mut f = self.fail.lock().unwrap();
        if f.as_ref().map_or(true, |x| d.len() < x.0) {
            *f = Some((d.len(), d, e.to_string()));
        }
    }
    fn finish(&self) -> ! {
        let fail = self.fail.lock().unwrap().clone();
        let secs: Vec<String> = self.sections.lock().unwrap().iter().map(|(n, k)| format!("{}: {}", js(n), k)).collect();
        let out = format!(
            "{{\"property\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}], \"sections\": {{{}}}, \"failure\": {}}}\n",
            js(&self.prop),
            self.evals.load(Ordering::Relaxed),
            self.distinct.lock().unwrap().len(),
            self.samples.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            secs.join(", "),
            match &fail {
                None => "null".to_string(),
                Some((_, c, e)) => format!("{{\"case\": {}, \"what\": {}}}", js(c), js(e)),
            }
        );
        match &self.out {
            Some(p) => std::fs::write(p, out).unwrap(),
            None => print!("{}", out),
        }
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(if fail.is_some() { 1 } else { 0 });
    }
    fn rng(&self, i: usize, salt: u64) -> Rng {
        let mut r = Rng(self.seed.wrapping_mul(0x1000_0001).wrapping_add(salt << 40).wrapping_add(i as u64));
        r.next();
        r
    }
    /// all small worlds, then random ones
    fn worlds(&self, check: fn(&World) -> R, simple: bool, cap: usize) {
        let small = if self.thorough { small(4, 3) } else { small(4, 2) };
        self.drive("all small lines", &|i| small.get(i).cloned(), &check, &shrinks);
        if !self.thorough {
            let small3 = gen::small(3, 3);
            self.drive("all lines of up to 3 tokens with up to 3 spans", &|i| small3.get(i).cloned(), &check, &shrinks);
        }
        let long = 400;
        self.drive("random long lines", &|i| if i < long { Some(long_world(&mut self.rng(i, 9), cap)) } else { None }, &check, &shrinks);
        self.drive("random lines (one in forty long) until the time is up", &|i| Some(if i % 40 == 39 { long_world(&mut self.rng(i, 9), cap) } else { world(&mut self.rng(i, 1), 5, simple) }), &check, &shrinks);
    }
    fn texts(&self, check: fn(&World) -> R) {
        let one = |s: String| World { inputs: vec![In::Text(s, vec![])], size: Size::Utf8, rounds: vec![] };
        let k = CHARS.len();
        let total = k + k * k + k * k * k;
        let step = if self.thorough { 1 } else { 3 };
        let off = self.seed as usize % step;
        self.drive(
            "texts of one and two characters, and of three characters (every third in quick runs)",
            &|i| {
                let j = if i < k + k * k { i } else { k + k * k + (i - k - k * k) * step + off };
                if j >= total {
                    return None;
                }
                let s: String = if j < k {
                    CHARS[j].to_string()
                } else if j < k + k * k {
                    let j = j - k;
                    [CHARS[j / k], CHARS[j % k]].iter().collect()
                } else {
                    let j = j - k - k * k;
                    [CHARS[j / k / k], CHARS[j / k % k], CHARS[j % k]].iter().collect()
                };
                Some(one(s))
            },
            &check,
            &shrinks,
        );
        // every character on its own and after a digit and a letter
        self.drive(
            "every Unicode scalar value on its own, and between digits",
            &|i| {
                let step = if self.thorough { 1 } else { 1 };
                let c = i * step;
                if c > 0x10ffff {
                    return None;
                }
                match char::from_u32(c as u32) {
                    Some(c) => Some(World { inputs: vec![In::Text(c.to_string(), vec![]), In::Text(format!("1{}2", c), vec![])], size: Size::Utf8, rounds: vec![] }),
                    None => Some(one("x".into())),
                }
            },
            &check,
            &shrinks,
        );
        self.drive("random texts until the time is up", &|i| Some(World { inputs: inputs(&mut self.rng(i, 2), if i % 40 == 39 { 40 } else { 3 }, false), size: SIZES[i % 6], rounds: vec![] }), &check, &shrinks);
    }
}

fn no_tags(mut w: World) -> World {
    w.rounds.retain(|r| !matches!(r, Round::Tag(_) | Round::Ch(_)));
    for i in &mut w.inputs {
        match i {
            In::Text(_, a) | In::Custom(_, a) => a.retain(|v| !matches!(v, V::Tag(_) | V::Ch(_))),
        }
    }
    w
}

fn run(ctx: &Ctx, prop: &str) {
    match prop {
        "C01" => ctx.texts(c01),
        "C21" => ctx.texts(c21),
        "C03" => ctx.texts(c03),
        "C02" => {
            ctx.worlds(c02, false, 260);
        }
        "C04" => ctx.worlds(c04, false, 260),
        "C05" => ctx.worlds(c05, true, 40),
        "C06" => ctx.worlds(c06, true, 24),
        "C07" => ctx.worlds(c07, true, 16),
        "C08" => ctx.worlds(c08, true, 12),
        "C09" => ctx.worlds(c09, true, 16),
        "C10" => ctx.worlds(c10, true, 20),
        "C11" => ctx.worlds(c11, true, 20),
        "C12" => ctx.worlds(c12, true, 20),
        "C13" => {
            let v: Vec<World> = small(7, 0).into_iter().chain(small(3, 1)).collect();
            ctx.drive("all pairs of selections of lines of up to 7 tokens", &|i| v.get(i).cloned(), &c13, &shrinks);
            ctx.drive("random lines (one in forty long) until the time is up", &|i| Some(if i % 40 == 39 { long_world(&mut ctx.rng(i, 9), 24) } else { world(&mut ctx.rng(i, 1), 4, true) }), &c13, &shrinks);
        }
        "C22" => {
            let v: Vec<World> = small(7, 0).into_iter().chain(small(3, 1)).collect();
            ctx.drive("all pairs of selections of two lines of up to 7 tokens", &|i| v.get(i).cloned(), &c22, &shrinks);
            ctx.drive("random lines (one in forty long) until the time is up", &|i| Some(if i % 40 == 39 { long_world(&mut ctx.rng(i, 9), 24) } else { world(&mut ctx.rng(i, 1), 4, true) }), &c22, &shrinks);
        }
        "C14" => ctx.worlds(c14, false, 260),
        "C15" => {
            let pool = ["1", "23", "000", "0", ",", ".", "'", " ", "a", "-", "99999999999999999999999999999", "1,2", "3.4", ",,", "12'34", "x", "\u{a0}", "1a2", "٣"];
            let confs: Vec<Option<Option<(Vec<char>, char)>>> = vec![
                None,
                Some(None),
                Some(Some((vec![], '.'))),
                Some(Some((vec![','], ','))),
                Some(Some((vec![' ', '_'], '.'))),
                Some(Some((vec!['.', '.'], '\''))),
                Some(Some((vec!['x', '-'], 'a'))),
                Some(Some((vec!['€', '_'], '-'))),
            ];
            let toks = ["1", "20", ",", ".", "'", " ", "a"];
            let max = if ctx.thorough { 6 } else { 5 };
            let mut total = 0usize;
            for l in 1..=max {
                total += toks.len().pow(l);
            }
            let sh = |c: &AmountCase| shrinks(&c.w).into_iter().map(|w| AmountCase { w, conf: c.conf.clone() }).collect::<Vec<_>>();
            let cf = confs.clone();
            ctx.drive(
                "all lines of up to 5 (thorough: 6) tokens out of 7, English and French",
                &|i| {
                    let conf = cf[i % 2].clone();
                    let mut j = i / 2;
                    if j >= total {
                        return None;
                    }
                    let mut l = 1;
                    while j >= toks.len().pow(l) {
                        j -= toks.len().pow(l);
                        l += 1;
                    }
                    let mut v = vec![];
                    for _ in 0..l {
                        v.push(In::Text(toks[j % toks.len()].to_string(), vec![]));
                        j /= toks.len();
                    }
                    Some(AmountCase { w: World { inputs: v, size: Size::Utf8, rounds: vec![] }, conf })
                },
                &c15,
                &sh,
            );
            let n = usize::MAX;
            ctx.drive(
                "random lines and configurations until the time is up",
                &|i| {
                    if i >= n {
                        return None;
                    }
                    let mut r = ctx.rng(i, 3);
                    let mut v = vec![];
                    for _ in 0..1 + r.below(4) {
                        if r.chance(1, 10) {
                            v.push(In::Custom(1, vec![V::Mk(Mk)]));
                        } else {
                            let mut s = String::new();
                            for _ in 0..1 + if r.chance(1, 20) { r.size(30, 60) } else { r.below(6) } {
                                match r.literal() {
                                    Some(l) if r.chance(1, 6) => s.push_str(&l),
                                    _ => s.push_str(r.pick(&pool)),
                                }
                            }
                            v.push(In::Text(s, vec![V::A(A(0))]));
                        }
                    }
                    Some(AmountCase { w: World { inputs: v, size: Size::Utf8, rounds: vec![] }, conf: r.pick(&confs) })
                },
                &c15,
                &sh,
            );
        }
        "C16" => {
            let pool = ["if", "IF", "If", "then", "Then", "and", "AND", "x", " ", ",", "ÉTÉ", "été", "İ", "i\u{307}", "ΑΣ", "ας", "ασ", "ß", "SS", "ss", "K", "k", "12", "", "lorsque", "si", "et", "ﬁ", "fi"];
            let mut words: Vec<&'static str> = pool.to_vec();
            words.extend(&dict().strs);
            let words = words;
            let n = usize::MAX;
            let sh = |c: &KwCase| {
                let mut v: Vec<KwCase> = shrinks(&c.w).into_iter().map(|w| KwCase { w, conf: c.conf.clone() }).collect();
                for k in 0..3 {
                    for j in 0..c.conf[k].len() {
                        let mut d = c.clone();
                        d.conf[k].remove(j);
                        v.push(d);
                    }
                }
                v
            };
            ctx.drive(
                "random lines and keyword lists until the time is up",
                &|i| {
                    if i >= n {
                        return None;
                    }
                    let mut r = ctx.rng(i, 4);
                    let ins = (0..1 + r.below(5))
                        .map(|_| {
                            if r.chance(1, 9) {
                                In::Custom(1, vec![V::Mk(Mk)])
                            } else {
                                let mut s: String = (0..1 + r.below(4)).map(|_| r.pick(&words).to_string() + if r.chance(1, 2) { " " } else { "" }).collect();
                                if s.is_empty() {
                                    s.push('q');
                                }
                                In::Text(s, values(&mut r))
                            }
                        })
                        .collect();
                    let mut lists = || (0..r.below(4)).map(|_| r.pick(&words)).collect::<Vec<_>>();
                    let conf = [lists(), lists(), lists()];
                    Some(KwCase { w: World { inputs: ins, size: Size::Utf8, rounds: vec![] }, conf })
                },
                &c16,
                &sh,
            );
        }
        "C17" => {
            use layered_clauses::ClauseKeyword::*;
            // every line of up to 5 (6) tokens out of 6 kinds
            let kinds: Vec<(In, Option<layered_clauses::ClauseKeyword>)> = vec![
                (In::Text("x".into(), vec![]), None),
                (In::Text(" ".into(), vec![]), None),
                (In::Text(",".into(), vec![]), None),
                (In::Text("if".into(), vec![]), Some(ConditionStart)),
                (In::Text("then".into(), vec![]), Some(Then)),
                (In::Text("and".into(), vec![]), Some(And)),
            ];
            let max = if ctx.thorough { 7 } else { 6 };
            let total: usize = (1..=max).map(|l| kinds.len().pow(l)).sum();
            ctx.drive(
                "all lines of up to 6 (thorough: 7) tokens out of word, space, punctuation and the three keywords",
                &|i| {
                    let mut j = i;
                    if j >= total {
                        return None;
                    }
                    let mut l = 1;
                    while j >= kinds.len().pow(l) {
                        j -= kinds.len().pow(l);
                        l += 1;
                    }
                    let (mut ins, mut kws) = (vec![], vec![]);
                    for p in 0..l as usize {
                        let (t, k) = &kinds[j % kinds.len()];
                        ins.push(t.clone());
                        if let Some(k) = k {
                            kws.push((p, p, k.clone()));
                        }
                        j /= kinds.len();
                    }
                    Some(World { inputs: ins, size: Size::Utf8, rounds: vec![Round::Kw(kws)] })
                },
                &c17,
                &shrinks,
            );
            let n = usize::MAX;
            ctx.drive("random lines until the time is up", &|i| if i < n { Some(clause_world(&mut ctx.rng(i, 5))) } else { None }, &c17, &shrinks);
        }
        "C18" => {
            let words = ["slack", "Slack", "SLACK", "a", "A", "été", "ÉTÉ", "İ", "i\u{307}", "ß", "SS", " ", ",", "12", "don't", "Don'T", "x y", "", "ΑΣ", "ας"];
            let mut words = words.to_vec();
            words.extend(&dict().strs);
            let words = words;
            let n = usize::MAX;
            let sh = |c: &TextCase| {
                let mut v: Vec<TextCase> = shrinks(&c.w).into_iter().map(|w| TextCase { w, ..c.clone() }).collect();
                for k in 0..c.table.len() {
                    let mut d = c.clone();
                    d.table.remove(k);
                    v.push(d);
                }
                v
            };
            ctx.drive(
                "random lines and tables until the time is up",
                &|i| {
                    if i >= n {
                        return None;
                    }
                    let mut r = ctx.rng(i, 6);
                    let ins = (0..1 + r.below(4))
                        .map(|_| {
                            if r.chance(1, 9) {
                                In::Custom(1, vec![V::Mk(Mk)])
                            } else {
                                let mut s: String = (0..1 + r.below(4)).map(|_| r.pick(&words).to_string() + if r.chance(1, 2) { " " } else { "" }).collect();
                                if s.is_empty() {
                                    s.push('q');
                                }
                                In::Text(s, values(&mut r))
                            }
                        })
                        .collect();
                    let table = (0..r.below(6)).map(|_| (r.pick(&words), (0..r.below(4)).map(|_| r.below(5) as u8).collect())).collect();
                    Some(TextCase { w: World { inputs: ins, size: Size::Utf8, rounds: vec![] }, table, mode: r.below(3) as u8 })
                },
                &c18,
                &sh,
            );
        }
        "C19" => {
            let words = [
                "the", "dog", "Dog", "RUN", "run", "quickly", "blue", "and", "of", "he", "don't", "xyzzy", "Qwghlm", "été", "İ", "well", "light", "I", "a", "A", "12", ",", " ", "$", "baseball-card", "o'clock",
                "Paris", "three", "ouch", "set", "ΑΣ", "中", "–", "mother-in-law", "cameras'", "x-", "ﬁ", "re-", "there's", "ain't",
            ];
            let mut words = words.to_vec();
            words.extend(&dict().strs);
            let words = words;
            let n = usize::MAX;
            let all = assume::dictionary_words().unwrap_or_default();
            let far: Vec<&String> = all.iter().filter(|w| !w.is_ascii()).collect();
            let near: Vec<&String> = all.iter().filter(|w| w.is_ascii() && w.chars().any(|c| !c.is_ascii_lowercase())).collect();
            let from_all = |r: &mut Rng| -> String {
                let w = match r.below(3) {
                    0 if !far.is_empty() => r.pick(&far).clone(),
                    1 if !near.is_empty() => r.pick(&near).clone(),
                    _ if !all.is_empty() => r.pick(&all),
                    _ => "run".to_string(),
                };
                match r.below(5) {
                    0 => w,
                    // KELVIN SIGN, LATIN SMALL LETTER LONG S, ANGSTROM SIGN
                    4 => w.chars().map(|c| match c { 'k' => '\u{212a}', 's' if r.chance(1, 2) => '\u{17f}', 'å' => '\u{212b}', c => c }).collect(),
                    1 => w.to_uppercase(),
                    2 => w.chars().enumerate().flat_map(|(i, c)| if i == 0 { c.to_uppercase().collect::<Vec<_>>() } else { vec![c] }).collect(),
                    _ => w.chars().flat_map(|c| if r.chance(1, 2) { c.to_uppercase().collect::<Vec<_>>() } else { vec![c] }).collect(),
                }
            };
            ctx.drive(
                "random lines until the time is up",
                &|i| {
                    if i >= n {
                        return None;
                    }
                    let mut r = ctx.rng(i, 7);
                    let mut w = no_tags(world(&mut r, 4, false));
                    for inp in &mut w.inputs {
                        if let In::Text(s, _) = inp {
                            if r.chance(3, 4) {
                                *s = (0..1 + r.below(5)).map(|_| if r.chance(1, 3) { from_all(&mut r) } else { r.pick(&words).to_string() } + if r.chance(3, 4) { " " } else { "" }).collect();
                            }
                        }
                    }
                    Some(w)
                },
                &c19,
                &shrinks,
            );
        }
        "C20" => {
            ctx.drive("wrapping and extracting values of 14 types", &|i| if i == 0 { Some(()) } else { None }, &|_| c20_extract(), &|_| vec![]);
            let n = usize::MAX;
            ctx.drive(
                "random input tokens with attributes until the time is up",
                &|i| if i < n { Some(World { inputs: inputs(&mut ctx.rng(i, 8), if i % 50 == 7 { 30 } else { 5 }, i % 2 == 0), size: SIZES[i % 6], rounds: vec![] }) } else { None },
                &c20,
                &shrinks,
            );
        }
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(3);
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || (c as u32) > 0xffff => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = args.get(1).cloned().unwrap_or_default();
    let seconds: u64 = get("--seconds").and_then(|s| s.parse().ok()).unwrap_or(60);
    if prop == "assume" {
        let fs = assume::all(get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1));
        for f in &fs {
            println!("{}\t{}\t{}\t{}", f.axiom, f.how, f.cases, f.broken.as_deref().unwrap_or("-"));
        }
        std::process::exit(fs.iter().any(|f| f.broken.is_some()) as i32);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let ctx = Ctx {
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: get("--tier").as_deref() == Some("thorough"),
        until: Instant::now() + Duration::from_secs(seconds),
        evals: AtomicU64::new(0),
        distinct: Default::default(),
        samples: Default::default(),
        fail: Default::default(),
        stop: AtomicBool::new(false),
        sections: Default::default(),
        prop: prop.clone(),
        out: get("--out"),
        trace: get("--trace"),
    };
    if let Some(d) = get("--dict") {
        load_dict(&d);
    }
    run(&ctx, &prop);
    ctx.finish();
}
