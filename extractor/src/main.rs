//! Mechanical extraction of the code under contract from /repo into one Verus file.
//!
//!   extractor --repo DIR --contracts DIR --out FILE --report FILE [--degrade KEY]...
//!
//! Nothing is written by hand into the executable part: the bodies are the parsed bodies of
//! the functions in the repository, printed with the rewritings listed in DESIGN.md.
mod contracts;
mod deret;
mod exec;
mod items;
mod kinds;
mod norm;
mod spec;

use contracts::*;
use kinds::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path as FsPath, PathBuf};
use syn::*;

pub type R = std::result::Result<String, String>;

#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub name: String,
    pub owner: Option<String>,
    pub trait_: Option<String>,
    pub sig: Signature,
    pub block: Option<Block>,
    pub file: String,
    pub line: usize,
}

pub struct Cx {
    pub fns: Vec<FnInfo>,
    pub by_name: HashMap<String, Vec<usize>>,
    pub aliases: HashMap<String, Type>,
    pub fields: HashMap<String, Type>,
    /// enum variant / tuple struct name -> (owner, field types)
    pub variants: HashMap<String, Vec<(String, Type)>>,
    pub consts: HashMap<String, (Type, Expr)>,
    pub env: Vec<HashMap<String, (K, bool)>>,
    pub tmp: usize,
    pub loops: usize,
    pub closures: usize,
    /// positions of the map(..) calls whose results the function returns as a Vec of this type
    pub closure_ty: Option<String>,
    pub tail_maps: std::collections::HashMap<(usize, usize), String>,
    pub depth: usize,
    pub cur: Contract,
    pub c: Contracts,
    pub macros: Vec<HashMap<String, Block>>,
    /// `==` on generic values
    pub generic_eq: bool,
    /// a tail position gets these statements in front of it
    pub in_fn_tail_end: bool,
    pub self_ty: String,
    pub degrade: BTreeSet<String>,
    pub locals: Vec<String>,
    /// locals of the function when its contract was written, and which of them is which local now
    pub was_locals: Vec<String>,
    pub pairing: Vec<Option<usize>>,
    pub locals_known: HashMap<String, Vec<(String, String)>>,
    /// clauses of the current function's contract left out because they speak of a local that is gone
    pub weakened: std::cell::RefCell<Vec<String>>,
    pub locals_seen: Vec<(String, Vec<(String, String)>)>,
    pub params: Vec<String>,
    pub self_alias: Option<String>,
    pub inlined: BTreeSet<String>,
    pub unloop_helpers: bool,
    pub louts: HashMap<usize, String>,
    /// loops over an enumeration whose contract does not: the counter
    pub counted: HashMap<usize, String>,
    pub cur_key: String,
    pub in_closure: usize,
    pub loop_stack: Vec<usize>,
}

impl Cx {
    pub fn fresh(&mut self) -> usize {
        self.tmp += 1;
        self.tmp - 1
    }
}

pub struct Src {
    pub file: String,
    pub items: Vec<Item>,
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = quote::quote!(#a).to_string();
        a.path().is_ident("test") || (a.path().is_ident("cfg") && t.contains("test"))
    })
}

fn load(root: &FsPath, file: &FsPath, dir: &FsPath, out: &mut Vec<Src>) {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("extractor: cannot read {}: {}", file.display(), e);
            return;
        }
    };
    let mut f = match parse_file(&text) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("extractor: cannot parse {}: {}", file.display(), e);
            return;
        }
    };
    let name = file
        .strip_prefix(root)
        .unwrap_or(file)
        .display()
        .to_string();
    syn::visit_mut::VisitMut::visit_file_mut(&mut norm::Norm, &mut f);
    walk(root, &name, f.items, dir, out);
}

fn walk(root: &FsPath, name: &str, items: Vec<Item>, dir: &FsPath, out: &mut Vec<Src>) {
    let mut keep = vec![];
    for i in items {
        match i {
            Item::Mod(m) => {
                if is_cfg_test(&m.attrs) {
                    continue;
                }
                let n = m.ident.to_string();
                match m.content {
                    Some((_, items)) => walk(root, name, items, &dir.join(&n), out),
                    None => {
                        let a = dir.join(format!("{}.rs", n));
                        let b = dir.join(&n).join("mod.rs");
                        let p = if a.exists() { a } else { b };
                        load(root, &p, &dir.join(&n), out)
                    }
                }
            }
            Item::Fn(ref f) if is_cfg_test(&f.attrs) => {}
            i => keep.push(i),
        }
    }
    out.push(Src {
        file: name.to_string(),
        items: keep,
    });
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut repo = PathBuf::from("/repo");
    let mut cdir = PathBuf::new();
    let mut outp = PathBuf::new();
    let mut report = PathBuf::new();
    let mut locals_out = None;
    let mut literals_out = None;
    let mut degrade = BTreeSet::new();
    while let Some(a) = args.next() {
        let v = args.next().expect("value");
        match a.as_str() {
            "--repo" => repo = v.into(),
            "--contracts" => cdir = v.into(),
            "--out" => outp = v.into(),
            "--report" => report = v.into(),
            // where to write the locals of every function: how proof/contracts/locals.txt is made
            "--locals-out" => locals_out = Some(PathBuf::from(v)),
            // where to write the literals of the code, for the harness
            "--literals-out" => literals_out = Some(PathBuf::from(v)),
            "--degrade" => {
                degrade.insert(v);
            }
            _ => panic!("unknown argument {}", a),
        }
    }
    let mut c = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(&cdir)
        .expect("contracts dir")
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "vc"))
        .collect();
    files.sort();
    for f in &files {
        contracts::parse(&std::fs::read_to_string(f).unwrap(), &mut c);
    }
    let mut locals_known: HashMap<String, Vec<(String, String)>> = HashMap::new();
    for l in std::fs::read_to_string(cdir.join("locals.txt")).unwrap_or_default().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() == 3 {
            locals_known.entry(f[0].into()).or_default().push((f[1].into(), f[2].into()));
        }
    }
    let mut srcs = vec![];
    for root in [
        "src",
        "layered-amount/src",
        "layered-clauses/src",
        "layered-part-of-speech/src",
    ] {
        let d = repo.join(root);
        load(&repo, &d.join("lib.rs"), &d, &mut srcs);
    }
    if let Some(p) = literals_out {
        std::fs::write(p, literals(&srcs)).unwrap();
        return;
    }
    let mut cx = Cx {
        fns: vec![],
        by_name: HashMap::new(),
        aliases: HashMap::new(),
        fields: HashMap::new(),
        variants: HashMap::new(),
        consts: HashMap::new(),
        env: vec![HashMap::new()],
        tmp: 0,
        loops: 0,
        closures: 0,
        depth: 0,
        cur: Contract::default(),
        c,
        macros: vec![],
        generic_eq: false,
        in_fn_tail_end: false,
        self_ty: String::new(),
        degrade,
        locals: vec![],
        was_locals: vec![],
        pairing: vec![],
        locals_known,
        weakened: Default::default(),
        locals_seen: vec![],
        params: vec![],
        self_alias: None,
        inlined: BTreeSet::new(),
        unloop_helpers: false,
        louts: HashMap::new(),
        counted: HashMap::new(),
        cur_key: String::new(),
        in_closure: 0,
        loop_stack: vec![],
        tail_maps: Default::default(),
        closure_ty: None,
    };
    let mut rep: Vec<BTreeMap<String, String>> = vec![];
    let text = cx.emit_all(&srcs, &mut rep);
    std::fs::write(&outp, &text).unwrap();
    if let Some(p) = locals_out {
        let mut t = String::new();
        for (k, v) in &cx.locals_seen {
            for (n, how) in v {
                t.push_str(&format!("{}\t{}\t{}\n", k, n, how));
            }
        }
        std::fs::write(p, t).unwrap();
    }
    // report: one line per function, tab separated key=value pairs, JSON by hand
    let mut js = String::from("[\n");
    for (i, r) in rep.iter().enumerate() {
        js.push_str(" {");
        for (j, (k, v)) in r.iter().enumerate() {
            if j > 0 {
                js.push_str(", ");
            }
            js.push_str(&format!("{}: {}", json(k), json(v)));
        }
        js.push_str(if i + 1 < rep.len() { "},\n" } else { "}\n" });
    }
    js.push_str("]\n");
    std::fs::write(&report, js).unwrap();
}

/// one literal per line: `c HEX`, `i N` or `s HEX HEX ..`
fn literals(srcs: &[Src]) -> String {
    use quote::ToTokens;
    fn walk(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
        let mut hash = false;
        for x in t {
            let attr = hash;
            hash = matches!(&x, proc_macro2::TokenTree::Punct(p) if p.as_char() == '#');
            match x {
                // attributes and doc comments
                proc_macro2::TokenTree::Group(g) if attr && g.delimiter() == proc_macro2::Delimiter::Bracket => {}
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                proc_macro2::TokenTree::Literal(l) => match Lit::new(l) {
                    Lit::Char(c) => {
                        out.insert(format!("c {:x}", c.value() as u32));
                    }
                    Lit::Byte(b) => {
                        out.insert(format!("c {:x}", b.value()));
                    }
                    Lit::Int(n) => {
                        if let Ok(n) = n.base10_parse::<u64>() {
                            out.insert(format!("i {}", n));
                        }
                    }
                    Lit::Str(v) => {
                        let h: Vec<String> = v.value().chars().map(|c| format!("{:x}", c as u32)).collect();
                        if h.len() <= 80 {
                            out.insert(format!("s {}", h.join(" ")));
                        }
                    }
                    _ => {}
                },
                _ => {}
            }
        }
    }
    let mut out = BTreeSet::new();
    for s in srcs {
        for i in &s.items {
            walk(i.to_token_stream(), &mut out);
        }
    }
    out.into_iter().map(|l| l + "\n").collect()
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
