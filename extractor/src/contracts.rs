//! Reader of the contract files. See /verif/DESIGN.md for the format.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct LoopC {
    pub invariant: Vec<Clause>,
    pub except: Vec<Clause>,
    pub exit: String,
    pub brk: String,
    pub ensures: Vec<Clause>,
    pub decreases: String,
    pub begin: String,
    pub end: String,
    pub before: String,
    pub after: String,
    pub ghost: String,
}

#[derive(Default, Debug, Clone)]
pub struct Clause {
    pub label: String,
    pub text: String,
}

#[derive(Default, Debug, Clone)]
pub struct Contract {
    pub key: String,
    pub props: Vec<String>,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub decreases: String,
    /// ghost variables of the whole body
    pub ghost: String,
    pub begin: String,
    pub end: String,
    pub loops: BTreeMap<usize, LoopC>,
    /// a spec function `<name>_spec` exists and says what the function returns
    pub has_spec: bool,
    /// nth closure: explicit ensures instead of the mirrored body
    pub closures: BTreeMap<usize, String>,
    pub closure_requires: BTreeMap<usize, String>,
    pub attrs: String,
    /// broadcast lemmas the body is proved with, next to group_core
    pub uses: Vec<String>,
    /// proof text put before the n-th statement of the body that contains the anchor
    pub trusted: bool,
    pub used: bool,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: BTreeMap<String, Contract>,
    /// extra spec items for `trait X` / `impl X for Y`
    pub extra: BTreeMap<String, String>,
    pub drops: Vec<(String, String)>,
    /// extra bounds
    pub order: Vec<String>,
}

pub fn parse(text: &str, out: &mut Contracts) {
    enum Slot {
        None,
        Req(String),
        Ens(String),
        Begin,
        Ghost,
        LGhost(usize),
        End,
        Decr,
        LInv(usize, String),
        LEns(usize, String),
        LExc(usize, String),
        LDecr(usize),
        LBegin(usize),
        LEnd(usize),
        LBefore(usize),
        LAfter(usize),
        LExit(usize),
        LBreak(usize),
        Extra(String),
        Closure(usize),
        ClosureReq(usize),
    }
    let mut cur: Option<String> = None;
    let mut slot = Slot::None;
    let mut lp = 0usize;
    for line in text.lines() {
        let t = line.trim_end();
        if let Some(d) = t.strip_prefix('@') {
            let mut w = d.splitn(2, char::is_whitespace);
            let name = w.next().unwrap();
            let rest = w.next().unwrap_or("").trim().to_string();
            match name {
                "fn" => {
                    let c = out.fns.entry(rest.clone()).or_default();
                    c.key = rest.clone();
                    cur = Some(rest.clone());
                    out.order.push(rest);
                    slot = Slot::None;
                }
                "extra" => slot = Slot::Extra(rest),
                "drop" => {
                    let mut p = rest.splitn(2, " -- ");
                    out.drops.push((
                        p.next().unwrap().trim().to_string(),
                        p.next().unwrap_or("").to_string(),
                    ));
                    slot = Slot::None;
                }
                "end_contract" => slot = Slot::None,
                _ => {
                    let c = out
                        .fns
                        .get_mut(cur.as_ref().expect("directive outside @fn"))
                        .unwrap();
                    match name {
                        "props" => {
                            c.props = rest.split_whitespace().map(|s| s.to_string()).collect()
                        }
                        "spec" => c.has_spec = true,
                        "trusted" => c.trusted = true,
                        "attrs" => c.attrs = rest,
                        "use" => c.uses = rest.split_whitespace().map(|s| s.to_string()).collect(),
                        "requires" => slot = Slot::Req(rest),
                        "ensures" => slot = Slot::Ens(rest),
                        "begin" => slot = Slot::Begin,
                        "ghost" => slot = Slot::Ghost,
                        "end" => slot = Slot::End,
                        "decreases" => slot = Slot::Decr,
                        "loop" => {
                            lp = rest.parse().expect("loop index");
                            c.loops.entry(lp).or_default();
                            slot = Slot::None;
                        }
                        "invariant" => slot = Slot::LInv(lp, rest),
                        "loop_except_break" => slot = Slot::LExc(lp, rest),
                        "loop_ensures" => slot = Slot::LEns(lp, rest),
                        "loop_decreases" => slot = Slot::LDecr(lp),
                        "loop_begin" => slot = Slot::LBegin(lp),
                        "loop_ghost" => slot = Slot::LGhost(lp),
                        "loop_end" => slot = Slot::LEnd(lp),
                        "loop_before" => slot = Slot::LBefore(lp),
                        "loop_break" => slot = Slot::LBreak(lp),
                        "loop_exit" => slot = Slot::LExit(lp),
                        "loop_after" => slot = Slot::LAfter(lp),
                        "closure" => slot = Slot::Closure(rest.parse().expect("closure index")),
                        "closure_requires" => {
                            slot = Slot::ClosureReq(rest.parse().expect("closure index"))
                        }
                        x => panic!("unknown directive @{}", x),
                    }
                }
            }
            continue;
        }
        if t.trim_start().starts_with("##") {
            continue;
        }
        let add = |s: &mut String| {
            s.push_str(t);
            s.push('\n');
        };
        match &slot {
            Slot::None => {
                if !t.trim().is_empty() {
                    panic!("text outside of a slot: {}", t)
                }
            }
            Slot::Extra(k) => add(out.extra.entry(k.clone()).or_default()),
            s => {
                let c = out.fns.get_mut(cur.as_ref().unwrap()).unwrap();
                let clause = |v: &mut Vec<Clause>, l: &String| {
                    if !t.trim().is_empty() {
                        v.push(Clause {
                            label: l.clone(),
                            text: t.to_string(),
                        })
                    }
                };
                match s {
                    Slot::Req(l) => clause(&mut c.requires, l),
                    Slot::Ens(l) => clause(&mut c.ensures, l),
                    Slot::Begin => add(&mut c.begin),
                    Slot::Ghost => add(&mut c.ghost),
                    Slot::End => add(&mut c.end),
                    Slot::Decr => add(&mut c.decreases),
                    Slot::LInv(i, l) => clause(&mut c.loops.entry(*i).or_default().invariant, l),
                    Slot::LExc(i, l) => clause(&mut c.loops.entry(*i).or_default().except, l),
                    Slot::LEns(i, l) => clause(&mut c.loops.entry(*i).or_default().ensures, l),
                    Slot::LDecr(i) => add(&mut c.loops.entry(*i).or_default().decreases),
                    Slot::LBegin(i) => add(&mut c.loops.entry(*i).or_default().begin),
                    Slot::LGhost(i) => add(&mut c.loops.entry(*i).or_default().ghost),
                    Slot::LEnd(i) => add(&mut c.loops.entry(*i).or_default().end),
                    Slot::LBefore(i) => add(&mut c.loops.entry(*i).or_default().before),
                    Slot::LBreak(i) => add(&mut c.loops.entry(*i).or_default().brk),
                    Slot::LExit(i) => add(&mut c.loops.entry(*i).or_default().exit),
                    Slot::LAfter(i) => add(&mut c.loops.entry(*i).or_default().after),
                    Slot::Closure(i) => add(c.closures.entry(*i).or_default()),
                    Slot::ClosureReq(i) => add(c.closure_requires.entry(*i).or_default()),
                    _ => {}
                }
            }
        }
    }
}
