//! Rewritings of the syntax tree before extraction.
//!
//! `norm` is applied to every function: other spellings of calls the extractor knows.
//! `unloop` is tried only for functions whose loops have no invariant in the contract:
//! `for p in it { .. v.push(e); }` is `v.extend(it.into_iter().map(|p| { ..; e }))`.
use quote::ToTokens;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Norm;
impl VisitMut for Norm {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if c.args.len() == 1 => {
                    let n = p.path.to_token_stream().to_string().replace(' ', "");
                    match (n.as_str(), &c.args[0]) {
                        ("Rc::clone" | "std::rc::Rc::clone" | "Clone::clone", Expr::Reference(r)) if r.mutability.is_none() => {
                            let a = &r.expr;
                            Some(parse_quote!(#a.clone()))
                        }
                        ("Rc::clone" | "std::rc::Rc::clone" | "Clone::clone", a) => Some(parse_quote!(#a.clone())),
                        _ => None,
                    }
                }
                Expr::Path(p) if c.args.len() == 2 => {
                    let n = p.path.to_token_stream().to_string().replace(' ', "");
                    let (a, b) = (&c.args[0], &c.args[1]);
                    match n.as_str() {
                        "std::cmp::max" | "cmp::max" | "core::cmp::max" | "usize::max" | "Ord::max" => Some(parse_quote!((#a).max(#b))),
                        "std::cmp::min" | "cmp::min" | "core::cmp::min" | "usize::min" | "Ord::min" => Some(parse_quote!((#a).min(#b))),
                        _ => None,
                    }
                }
                _ => None,
            },
            Expr::MethodCall(m) if m.method == "is_digit" && m.args.to_token_stream().to_string() == "10" => {
                let r = &m.receiver;
                Some(parse_quote!(#r.is_ascii_digit()))
            }
            Expr::MethodCall(m) if m.method == "collect" && m.turbofish.as_ref().map_or(false, |t| t.args.to_token_stream().to_string() == "String") => {
                let r = &m.receiver;
                Some(parse_quote!(String::from_iter(#r)))
            }
            // `A { x } | B { x } => e`: an arm each
            Expr::Match(m) if m.arms.iter().any(|a| or_binds(&a.pat)) => {
                let mut m = m.clone();
                m.arms = m
                    .arms
                    .into_iter()
                    .flat_map(|mut a| {
                        a.comma = Some(Default::default());
                        match &a.pat {
                            Pat::Or(o) if or_binds(&a.pat) => o.cases.iter().map(|p| Arm { pat: p.clone(), ..a.clone() }).collect(),
                            _ => vec![a],
                        }
                    })
                    .collect();
                Some(Expr::Match(m))
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        inline_closures(b);
        while_next(b);
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
            if t.ty.to_token_stream().to_string() == "String" {
                if let Expr::MethodCall(m) = &*i.expr {
                    if m.method == "collect" && m.turbofish.is_none() {
                        let r = &m.receiver;
                        i.expr = parse_quote!(String::from_iter(#r));
                    }
                }
            }
        }
    }
}

struct Binds(bool);
impl<'b> Visit<'b> for Binds {
    fn visit_pat_ident(&mut self, p: &'b PatIdent) {
        if p.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase()) {
            self.0 = true
        }
    }
}
fn or_binds(p: &Pat) -> bool {
    if !matches!(p, Pat::Or(_)) {
        return false;
    }
    let mut b = Binds(false);
    b.visit_pat(p);
    b.0
}

/// `let mut it = ..; while let Some(p) = it.next() { .. }` with no other use of `it` is `for p in it { .. }`
fn while_next(b: &mut Block) {
    for i in 0..b.stmts.len() {
        let new = match &b.stmts[i] {
            Stmt::Expr(Expr::While(w), _) => match &*w.cond {
                Expr::Let(l) => match (&*l.pat, &*l.expr) {
                    (Pat::TupleStruct(t), Expr::MethodCall(m)) if t.path.is_ident("Some") && t.elems.len() == 1 && m.method == "next" && m.args.is_empty() => match &*m.receiver {
                        Expr::Path(p) => p.path.get_ident().map(|it| (it.clone(), t.elems[0].clone(), w.body.clone(), w.label.clone())),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        if let Some((it, p, body, label)) = new {
            let v = it.to_string();
            let declared = b.stmts[..i].iter().any(|s| matches!(s, Stmt::Local(l) if matches!(&l.pat, Pat::Ident(q) if q.ident == it)));
            let later = b.stmts[i + 1..].iter().any(|s| mentions(s, &v)) || body.stmts.iter().any(|s| mentions(s, &v));
            if declared && !later {
                b.stmts[i] = parse_quote!(#label for #p in #it #body);
            }
        }
    }
}

/// names a pattern binds anywhere in some statements
struct Bound(Vec<String>);
impl<'b> Visit<'b> for Bound {
    fn visit_pat_ident(&mut self, p: &'b PatIdent) {
        self.0.push(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
struct Names(Vec<String>);
impl<'b> Visit<'b> for Names {
    fn visit_expr_path(&mut self, p: &'b ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.0.push(i.to_string())
        }
    }
}
/// how a name is used: calls, and everything else
struct Uses<'a>(&'a str, usize, usize);
impl<'a, 'b> Visit<'b> for Uses<'a> {
    fn visit_expr_call(&mut self, c: &'b ExprCall) {
        if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.0)) {
            self.1 += 1;
            c.args.iter().for_each(|a| self.visit_expr(a));
        } else {
            visit::visit_expr_call(self, c)
        }
    }
    fn visit_expr_path(&mut self, p: &'b ExprPath) {
        if p.path.is_ident(self.0) {
            self.2 += 1
        }
    }
    fn visit_macro(&mut self, m: &'b Macro) {
        if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.0) {
            self.2 += 1
        }
    }
}
struct CallOf<'a>(&'a str, &'a ExprClosure);
impl<'a> VisitMut for CallOf<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.0)) => {
                let body = &self.1.body;
                let ps = self.1.inputs.iter().map(|p| if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() });
                let args = c.args.iter();
                let ty = self.1.inputs.first().and_then(|p| if let Pat::Type(t) = p { Some((*t.ty).clone()) } else { None });
                Some(match (c.args.len(), ty) {
                    (0, _) => parse_quote!({ #body }),
                    (1, Some(t)) => parse_quote!({ #(let #ps: #t = #args;)* #body }),
                    (1, None) => parse_quote!({ #(let #ps = #args;)* #body }),
                    _ => parse_quote!({ let (#(#ps),*) = (#(#args),*); #body }),
                })
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n
        }
    }
}
/// `let f = |x| e;` that is only called: `f(a)` is `{ let x = a; e }`
fn inline_closures(b: &mut Block) {
    let mut i = 0;
    while i < b.stmts.len() {
        let found = match &b.stmts[i] {
            Stmt::Local(l) => match (&l.pat, l.init.as_ref().map(|x| &*x.expr)) {
                (Pat::Ident(p), Some(Expr::Closure(c))) if c.capture.is_none() => Some((p.ident.to_string(), c.clone())),
                _ => None,
            },
            _ => None,
        };
        if let Some((f, c)) = found {
            let mut own = Bound(vec![]);
            c.inputs.iter().for_each(|p| own.visit_pat(p));
            own.visit_expr(&c.body);
            let mut free = Names(vec![]);
            free.visit_expr(&c.body);
            let mut later = Bound(vec![]);
            let mut uses = Uses(&f, 0, 0);
            for s in &b.stmts[i + 1..] {
                later.visit_stmt(s);
                uses.visit_stmt(s);
            }
            let e = Stmt::Expr((*c.body).clone(), None);
            let shadowed = free.0.iter().any(|n| later.0.contains(n) && !own.0.contains(n)) || later.0.contains(&f) || own.0.iter().any(|n| *n == f);
            if uses.2 == 0 && uses.1 > 0 && !shadowed && !exits(&e) {
                for s in &mut b.stmts[i + 1..] {
                    CallOf(&f, &c).visit_stmt_mut(s);
                }
                b.stmts.remove(i);
                continue;
            }
        }
        i += 1;
    }
}

// ------------------------------------------------------------------ loops that push
enum Conv {
    Nothing,
    One(Expr),
    Opt(Expr),
    Many(Expr),
}

struct Mentions<'a>(&'a str, bool);
impl<'a, 'b> Visit<'b> for Mentions<'a> {
    fn visit_expr_path(&mut self, p: &'b ExprPath) {
        if p.path.is_ident(self.0) {
            self.1 = true
        }
    }
    fn visit_pat_ident(&mut self, p: &'b PatIdent) {
        if p.ident == self.0 {
            self.1 = true
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_macro(&mut self, m: &'b Macro) {
        if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.0) {
            self.1 = true
        }
    }
}
trait Look {
    fn look(&self, m: &mut Mentions);
}
impl Look for Expr {
    fn look(&self, m: &mut Mentions) {
        m.visit_expr(self)
    }
}
impl Look for Box<Expr> {
    fn look(&self, m: &mut Mentions) {
        m.visit_expr(self)
    }
}
impl Look for Stmt {
    fn look(&self, m: &mut Mentions) {
        m.visit_stmt(self)
    }
}
fn mentions<T: Look>(x: &T, v: &str) -> bool {
    let mut m = Mentions(v, false);
    x.look(&mut m);
    m.1
}

struct Exits(bool);
impl<'b> Visit<'b> for Exits {
    fn visit_expr_return(&mut self, _: &'b ExprReturn) {
        self.0 = true
    }
    fn visit_expr_break(&mut self, _: &'b ExprBreak) {
        self.0 = true
    }
    fn visit_expr_continue(&mut self, _: &'b ExprContinue) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'b ExprTry) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
}
fn exits(s: &Stmt) -> bool {
    let mut e = Exits(false);
    e.visit_stmt(s);
    e.0
}

/// the vector a loop body pushes to
pub struct Pushed(pub Vec<String>);
impl<'b> Visit<'b> for Pushed {
    fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        if m.method == "push" || m.method == "extend" || m.method == "push_str" {
            if let Expr::Path(p) = &*m.receiver {
                if let Some(i) = p.path.get_ident() {
                    if !self.0.contains(&i.to_string()) {
                        self.0.push(i.to_string())
                    }
                }
            }
        }
    }
}

fn is_continue(b: &Block) -> bool {
    b.stmts.len() == 1 && matches!(&b.stmts[0], Stmt::Expr(Expr::Continue(c), _) if c.label.is_none())
}

fn conv(stmts: &[Stmt], v: &str) -> Option<Conv> {
    let (first, rest) = match stmts.split_first() {
        None => return Some(Conv::Nothing),
        Some(x) => x,
    };
    if !mentions(first, v) && !exits(first) {
        if matches!(first, Stmt::Local(_)) {
            return Some(match conv(rest, v)? {
                Conv::Nothing => Conv::Nothing,
                Conv::One(e) => Conv::One(parse_quote!({ #first #e })),
                Conv::Opt(e) => Conv::Opt(parse_quote!({ #first #e })),
                Conv::Many(e) => Conv::Many(parse_quote!({ #first #e })),
            });
        }
        return None;
    }
    if let Stmt::Expr(Expr::If(i), _) = first {
        if i.else_branch.is_none() && is_continue(&i.then_branch) && !mentions(&i.cond, v) {
            let c = &i.cond;
            return Some(match conv(rest, v)? {
                Conv::Nothing => Conv::Nothing,
                Conv::One(e) => Conv::Opt(parse_quote!(if #c { None } else { Some(#e) })),
                Conv::Opt(e) => Conv::Opt(parse_quote!(if #c { None } else { #e })),
                Conv::Many(e) => Conv::Many(parse_quote!((if #c { Vec::new() } else { #e.collect::<Vec<_>>() }).into_iter())),
            });
        }
    }
    let e = match first {
        Stmt::Expr(e, _) => e,
        _ => return None,
    };
    let c = conv_expr(e, v)?;
    if rest.is_empty() {
        return Some(c);
    }
    if exits(first) {
        return None;
    }
    Some(match conv(rest, v)? {
        Conv::Nothing => c,
        d => {
            let (c, d) = (many(c), many(d));
            Conv::Many(parse_quote!(#c.chain(#d)))
        }
    })
}

/// as an iterator
fn many(c: Conv) -> Expr {
    match c {
        Conv::Nothing => parse_quote!(None.into_iter()),
        Conv::One(e) => parse_quote!(Some(#e).into_iter()),
        Conv::Opt(e) => parse_quote!((#e).into_iter()),
        Conv::Many(e) => e,
    }
}
/// as a vector
fn vec_of(c: Conv) -> Expr {
    match c {
        Conv::Nothing => parse_quote!(Vec::new()),
        Conv::One(e) => parse_quote!(vec![#e]),
        c => {
            let e = many(c);
            parse_quote!(#e.collect::<Vec<_>>())
        }
    }
}

fn conv_expr(e: &Expr, v: &str) -> Option<Conv> {
    match e {
        Expr::MethodCall(m) if m.args.len() == 1 && matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(v)) => {
            let a = m.args[0].clone();
            if mentions(&a, v) {
                return None;
            }
            if m.method == "push_str" {
                Some(Conv::One(match &a {
                    Expr::Path(_) => parse_quote!(#a.as_str()),
                    Expr::Reference(r) if matches!(&*r.expr, Expr::Path(_) | Expr::Field(_)) => {
                        let r = &r.expr;
                        parse_quote!(#r.as_str())
                    }
                    _ => a,
                }))
            } else if m.method == "push" {
                Some(Conv::One(a))
            } else if m.method == "extend" {
                Some(Conv::Many(a))
            } else {
                None
            }
        }
        Expr::Block(b) => conv(&b.block.stmts, v),
        Expr::If(i) if !mentions(&i.cond, v) => {
            let t = conv(&i.then_branch.stmts, v)?;
            let f = match &i.else_branch {
                None => Conv::Nothing,
                Some((_, f)) => conv_expr(f, v)?,
            };
            let c = &i.cond;
            match (t, f) {
                (Conv::One(t), Conv::One(f)) => Some(Conv::One(parse_quote!(if #c { #t } else { #f }))),
                (Conv::Many(t), Conv::Many(f)) => Some(Conv::Many(parse_quote!(if #c { #t } else { #f }))),
                (t, f) if matches!(t, Conv::Many(_)) || matches!(f, Conv::Many(_)) => {
                    let (t, f) = (vec_of(t), vec_of(f));
                    Some(Conv::Many(parse_quote!((if #c { #t } else { #f }).into_iter())))
                }
                (t, f) => {
                    let (t, f) = (opt(t)?, opt(f)?);
                    Some(Conv::Opt(parse_quote!(if #c { #t } else { #f })))
                }
            }
        }
        Expr::Match(m) if !mentions(&m.expr, v) => {
            let mut m = m.clone();
            let cs: Option<Vec<Conv>> = m.arms.iter().map(|a| if a.guard.as_ref().map_or(false, |g| mentions(&g.1, v)) { None } else { conv_expr(&a.body, v) }).collect();
            let cs = cs?;
            if cs.iter().any(|c| matches!(c, Conv::Many(_))) {
                for (a, c) in m.arms.iter_mut().zip(cs) {
                    a.body = Box::new(vec_of(c));
                    a.comma = Some(Default::default());
                }
                return Some(Conv::Many(parse_quote!((#m).into_iter())));
            }
            let all_one = cs.iter().all(|c| matches!(c, Conv::One(_)));
            for (a, c) in m.arms.iter_mut().zip(cs) {
                a.body = Box::new(match c {
                    Conv::One(e) if all_one => e,
                    c => opt(c)?,
                });
                a.comma = Some(Default::default());
            }
            Some(if all_one { Conv::One(Expr::Match(m)) } else { Conv::Opt(Expr::Match(m)) })
        }
        Expr::ForLoop(f) => Some(Conv::Many(chain(f, v, true)?)),
        Expr::Tuple(t) if t.elems.is_empty() => Some(Conv::Nothing),
        Expr::Continue(c) if c.label.is_none() => Some(Conv::Nothing),
        _ => None,
    }
}

fn opt(c: Conv) -> Option<Expr> {
    match c {
        Conv::Nothing => Some(parse_quote!(None)),
        Conv::One(e) => Some(parse_quote!(Some(#e))),
        Conv::Opt(e) => Some(e),
        Conv::Many(_) => None,
    }
}

/// whether anything but texts is pushed
struct Texts(bool, bool);
impl<'b> Visit<'b> for Texts {
    fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        if m.method == "push_str" {
            self.0 = true
        }
        if m.method == "push" || m.method == "extend" {
            self.1 = true
        }
    }
}

/// an optional text, `""` for none
fn or_nothing(e: &Expr) -> Option<Expr> {
    let tail = |b: &Block| -> Option<Block> {
        let mut b = b.clone();
        let e = match b.stmts.pop()? {
            Stmt::Expr(e, None) => or_nothing(&e)?,
            _ => return None,
        };
        b.stmts.push(Stmt::Expr(e, None));
        Some(b)
    };
    Some(match e {
        Expr::Path(p) if p.path.is_ident("None") => parse_quote!(""),
        Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) => c.args[0].clone(),
        Expr::Block(b) => {
            let mut b = b.clone();
            b.block = tail(&b.block)?;
            Expr::Block(b)
        }
        Expr::If(i) => {
            let mut i = i.clone();
            i.then_branch = tail(&i.then_branch)?;
            let (_, f) = i.else_branch.as_mut()?;
            **f = or_nothing(f)?;
            Expr::If(i)
        }
        Expr::Match(m) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                *a.body = or_nothing(&a.body)?;
            }
            Expr::Match(m)
        }
        _ => return None,
    })
}

/// whether `v` is changed
struct Changed<'a>(&'a str, bool);
impl<'a> Changed<'a> {
    fn is(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.is_ident(self.0),
            Expr::Index(i) => self.is(&i.expr),
            Expr::Field(f) => self.is(&f.base),
            _ => false,
        }
    }
}
impl<'a, 'b> Visit<'b> for Changed<'a> {
    fn visit_expr(&mut self, e: &'b Expr) {
        match e {
            Expr::Assign(a) if self.is(&a.left) => self.1 = true,
            Expr::Binary(a) if self.is(&a.left) && a.op.to_token_stream().to_string().ends_with('=') && !matches!(a.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) => self.1 = true,
            Expr::Reference(r) if r.mutability.is_some() && self.is(&r.expr) => self.1 = true,
            Expr::MethodCall(m) if self.is(&m.receiver) && !["len", "iter", "clone", "is_empty", "as_str", "chars", "into_iter", "to_string"].iter().any(|n| m.method == n) => self.1 = true,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_macro(&mut self, m: &'b Macro) {
        if m.tokens.to_string().contains(self.0) {
            self.1 = true
        }
    }
}

fn chain(f: &ExprForLoop, v: &str, inner: bool) -> Option<Expr> {
    let mut texts = Texts(false, false);
    texts.visit_block(&f.body);
    if texts.0 && texts.1 {
        return None;
    }

    if f.label.is_some() || mentions(&f.expr, v) {
        return None;
    }
    let p = &f.pat;
    let it = &f.expr;
    let it: Expr = if let Expr::Reference(r) = &**it {
        if r.mutability.is_some() {
            return None;
        }
        let r = &r.expr;
        parse_quote!(#r.iter())
    } else if matches!(&**it, Expr::Range(_)) {
        parse_quote!((#it))
    } else if matches!(&**it, Expr::MethodCall(m) if m.method == "iter" || m.method == "into_iter" || m.method == "enumerate" || m.method == "windows" || m.method == "rev") {
        (**it).clone()
    } else {
        parse_quote!((#it).into_iter())
    };
    let mv: Option<Token![move]> = if inner { Some(Default::default()) } else { None };
    Some(match conv(&f.body.stmts, v)? {
        Conv::Nothing => return None,
        Conv::One(e) => parse_quote!(#it.map(#mv |#p| #e)),
        Conv::Opt(e) if texts.0 => {
            let e = or_nothing(&e).unwrap_or_else(|| parse_quote!(match #e { Some(text) => text, None => "" }));
            parse_quote!(#it.map(#mv |#p| #e))
        }
        Conv::Opt(e) => parse_quote!(#it.filter_map(#mv |#p| #e)),
        Conv::Many(e) => parse_quote!(#it.flat_map(#mv |#p| #e)),
    })
}

struct Unloop(bool);
impl VisitMut for Unloop {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if let Stmt::Expr(Expr::ForLoop(f), _) = &b.stmts[i] {
                let mut p = Pushed(vec![]);
                p.visit_block(&f.body);
                let f = f.clone();
                for v in p.0 {
                    // a vector declared inside the body is not the one that is filled
                    if let Some(c) = chain(&f, &v, false) {
                        let id = Ident::new(&v, proc_macro2::Span::call_site());
                        let decl = (0..i).rev().find(|j| mentions(&b.stmts[*j], &v));
                        let fresh = decl.filter(|j| match &b.stmts[*j] {
                            Stmt::Local(l) => {
                                let n = match &l.pat {
                                    Pat::Type(t) => t.pat.to_token_stream().to_string(),
                                    p => p.to_token_stream().to_string(),
                                };
                                let init = l.init.as_ref().map(|x| x.expr.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
                                n == format!("mut {}", v) && (init == "Vec::new()" || init == "vec![]" || init.starts_with("Vec::with_capacity(") || init.starts_with("vec![") && init.ends_with("[]") || init == "String::new()" || init == "String::default()")
                            }
                            _ => false,
                        });
                        match fresh {
                            Some(j) => {
                                let mut l = match b.stmts[j].clone() {
                                    Stmt::Local(l) => l,
                                    _ => unreachable!(),
                                };
                                let text = l.init.as_ref().unwrap().expr.to_token_stream().to_string().starts_with("String");
                                l.init.as_mut().unwrap().expr = if text { parse_quote!(String::from_iter(#c)) } else { parse_quote!(#c.collect()) };
                                let mut ch = Changed(&v, false);
                                b.stmts[i + 1..].iter().for_each(|s| ch.visit_stmt(s));
                                if !ch.1 {
                                    let p = match &mut l.pat {
                                        Pat::Type(t) => &mut *t.pat,
                                        p => p,
                                    };
                                    if let Pat::Ident(p) = p {
                                        p.mutability = None
                                    }
                                }
                                b.stmts[i] = Stmt::Local(l);
                                b.stmts.remove(j);
                                i -= 1;
                            }
                            None => b.stmts[i] = parse_quote!(#id.extend(#c);),
                        }
                        self.0 = true;
                        break;
                    }
                }
            }
            i += 1;
        }
        // `let x = e; x`
        if self.0 && b.stmts.len() > 1 {
            let k = b.stmts.len();
            let e = match (&b.stmts[k - 2], &b.stmts[k - 1]) {
                (Stmt::Local(l), Stmt::Expr(Expr::Path(p), None)) => match &l.pat {
                    Pat::Ident(i) if p.path.is_ident(&i.ident) => l.init.as_ref().filter(|i| i.diverge.is_none()).map(|i| (*i.expr).clone()),
                    _ => None,
                },
                _ => None,
            };
            if let Some(e) = e {
                b.stmts.truncate(k - 2);
                b.stmts.push(Stmt::Expr(e, None));
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

pub fn unloop(b: &Block) -> Option<Block> {
    let mut b = b.clone();
    let mut u = Unloop(false);
    u.visit_block_mut(&mut b);
    if u.0 {
        // a loop around one that is gone now may go too
        for _ in 0..3 {
            let mut v = Unloop(false);
            v.visit_block_mut(&mut b);
            if !v.0 {
                break;
            }
        }
        // positions of their own
        parse_str(&b.to_token_stream().to_string()).ok()
    } else {
        None
    }
}

/// parameter `p`, given `&mut x` (`own`) or the reference `x`: `x` in its place
struct InPlace<'a>(&'a str, Ident, bool, bool, &'a [String]);
impl<'a> InPlace<'a> {
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.is_ident(self.0))
    }
    fn value(&self) -> Expr {
        let x = &self.1;
        if self.2 && !self.3 {
            parse_quote!(&#x)
        } else if self.2 {
            parse_quote!(&mut #x)
        } else {
            parse_quote!(#x)
        }
    }
}
impl<'a> VisitMut for InPlace<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let x = self.1.clone();
        let place: Expr = parse_quote!(#x);
        if self.is(e) {
            *e = self.value();
            return;
        }
        match e {
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.4.iter().any(|f| i == f))) => {
                if self.is(&c.func) {
                    *c.func = place.clone();
                }
                for a in c.args.iter_mut() {
                    if self.is(a) && self.2 {
                        *a = parse_quote!(&#place);
                    } else {
                        self.visit_expr_mut(a);
                    }
                }
            }
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                *m.receiver = place;
                m.args.iter_mut().for_each(|a| self.visit_expr_mut(a));
            }
            Expr::Field(f) if self.is(&f.base) => *f.base = place,
            Expr::Index(i) if self.is(&i.expr) => {
                *i.expr = place;
                self.visit_expr_mut(&mut i.index);
            }
            Expr::Unary(u) if self.2 && matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) => *e = place,
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
pub fn put_in_place(b: &mut Block, p: &str, x: &str, own: bool, by_mut: bool, callables: &[String]) -> bool {
    let mut bound = Bound(vec![]);
    bound.visit_block(b);
    let mut names = Names(vec![]);
    names.visit_block(b);
    if bound.0.iter().any(|n| n == x || n == p) || (p != x && names.0.iter().any(|n| n == x)) {
        return false;
    }
    let mut macros = Uses(p, 0, 0);
    struct Macros<'a, 'b>(&'b mut Uses<'a>);
    impl<'a, 'b, 'c> Visit<'c> for Macros<'a, 'b> {
        fn visit_macro(&mut self, m: &'c Macro) {
            self.0.visit_macro(m)
        }
    }
    Macros(&mut macros).visit_block(b);
    if macros.2 > 0 {
        return false;
    }
    InPlace(p, Ident::new(x, proc_macro2::Span::call_site()), own, by_mut, callables).visit_block_mut(b);
    true
}
