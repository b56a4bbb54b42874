//! Prints executable expressions in the dialect Verus accepts.
use crate::deret;
use crate::kinds::*;
use crate::spec::*;
use crate::{Cx, R};
use std::collections::{BTreeSet, HashMap};
use syn::visit::Visit;
use syn::*;

/// names assigned to / declared in a piece of code
#[derive(Default)]
struct Muts {
    assigned: BTreeSet<String>,
    declared: BTreeSet<String>,
}
fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        Expr::Index(f) => root(&f.expr),
        Expr::Unary(f) => root(&f.expr),
        Expr::Paren(f) => root(&f.expr),
        _ => None,
    }
}
impl<'a> Visit<'a> for Muts {
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        if let Some(n) = root(&a.left) {
            self.assigned.insert(n);
        }
        visit::visit_expr_assign(self, a)
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        if tt(&b.op).ends_with('=') && !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) {
            if let Some(n) = root(&b.left) {
                self.assigned.insert(n);
            }
        }
        visit::visit_expr_binary(self, b)
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if matches!(m.method.to_string().as_str(), "push" | "push_str" | "extend" | "insert" | "pop" | "clear") {
            if let Some(n) = root(&m.receiver) {
                self.assigned.insert(n);
            }
        }
        visit::visit_expr_method_call(self, m)
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.declared.insert(p.ident.to_string());
    }
}
fn stateful(c: &ExprClosure) -> bool {
    let mut m = Muts::default();
    m.visit_expr(&c.body);
    for p in &c.inputs {
        m.visit_pat(p)
    }
    m.assigned.difference(&m.declared).next().is_some()
}

impl Cx {
    pub fn var_name(&self, n: &str) -> String {
        if n == "self" {
            if let Some(a) = &self.self_alias {
                return a.clone();
            }
        }
        n.to_string()
    }

    pub fn is_generic_eq(&self, l: &Expr, r: &Expr) -> bool {
        fn plain(e: &Expr) -> bool {
            match e {
                Expr::Path(p) => p.path.get_ident().is_some(),
                Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && plain(&u.expr),
                Expr::Paren(p) => plain(&p.expr),
                _ => false,
            }
        }
        plain(l) && plain(r)
    }
    fn generic_ref(&self, e: &Expr) -> String {
        match e {
            Expr::Unary(u) => tt(&u.expr),
            Expr::Paren(p) => self.generic_ref(&p.expr),
            e => tt(e),
        }
    }

    pub fn vec_elems(&mut self, m: &Macro) -> std::result::Result<Vec<Expr>, String> {
        use syn::punctuated::Punctuated;
        m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
            .map(|p| p.into_iter().collect())
            .map_err(|_| "vec! form".to_string())
    }
    pub fn matches_parts(&mut self, m: &Macro) -> std::result::Result<(Expr, Pat, Option<Expr>), String> {
        m.parse_body_with(|i: parse::ParseStream| {
            let e: Expr = i.parse()?;
            i.parse::<Token![,]>()?;
            let p = Pat::parse_multi_with_leading_vert(i)?;
            let g = if i.peek(Token![if]) {
                i.parse::<Token![if]>()?;
                Some(i.parse()?)
            } else {
                None
            };
            if i.peek(Token![,]) {
                i.parse::<Token![,]>()?;
            }
            Ok((e, p, g))
        })
        .map_err(|_| "matches! form".to_string())
    }

    /// a function item passed as a closure
    pub fn eta(&mut self, e: &Expr, nargs: usize) -> std::result::Result<ExprClosure, String> {
        match e {
            Expr::Closure(c) => Ok(c.clone()),
            Expr::Paren(p) => self.eta(&p.expr, nargs),
            Expr::Path(p) => {
                let n = last_seg(&p.path).ident.to_string();
                let path = &p.path;
                if nargs == 0 {
                    let b: Expr = parse_quote!(#path());
                    return Ok(parse_quote!(|| #b));
                }
                let method = ["as_slice", "to_lowercase", "to_string", "as_str", "clone", "into_iter", "iter", "len", "is_whitespace", "is_alphabetic", "is_ascii_digit", "is_empty", "is_some", "is_none", "to_owned", "as_ref", "chars"];
                if p.path.segments.len() > 1 && method.contains(&n.as_str()) {
                    let id: Ident = parse_str(&n).unwrap();
                    return Ok(parse_quote!(|x_eta| x_eta.#id()));
                }
                // inherent methods of extracted types
                if p.path.segments.len() > 1 {
                    if let Some(v) = self.by_name.get(&n) {
                        if self.fns[v[0]].sig.receiver().is_some() {
                            let id: Ident = parse_str(&n).unwrap();
                            return Ok(parse_quote!(|x_eta| x_eta.#id()));
                        }
                    }
                }
                Ok(parse_quote!(|x_eta| #path(x_eta)))
            }
            _ => Err("closure argument is not a closure".into()),
        }
    }

    pub fn ex(&mut self, e: &Expr) -> R {
        match e {
            Expr::Paren(p) => Ok(format!("({})", self.ex(&p.expr)?)),
            Expr::Group(p) => self.ex(&p.expr),
            Expr::Lit(l) => Ok(tt(&l.lit)),
            Expr::Path(p) => {
                if p.path.segments.len() == 1 {
                    let n = p.path.segments[0].ident.to_string();
                    if self.lookup(&n).is_some() || n == "self" {
                        return Ok(self.var_name(&n));
                    }
                    if let Some((_, e)) = self.consts.get(&n).cloned() {
                        return Ok(format!("({})", self.ex(&e)?));
                    }
                }
                Ok(self.path_str(&p.path))
            }
            Expr::Field(f) => Ok(format!("{}.{}", self.ex(&f.base)?, tt(&f.member))),
            Expr::Reference(r) => {
                let m = if r.mutability.is_some() { "mut " } else { "" };
                if let Expr::Index(i) = &*r.expr {
                    if let Expr::Range(_) = &*i.index {
                        // the slice helpers already return a reference
                        return self.ex(&r.expr);
                    }
                }
                // &*string
                if let Expr::Unary(u) = &*r.expr {
                    if matches!(u.op, UnOp::Deref(_)) && r.mutability.is_none() && self.kind(&u.expr).is_seqlike() {
                        return Ok(format!("(&{})", self.ex(&u.expr)?));
                    }
                }
                Ok(format!("(&{}{})", m, self.ex(&r.expr)?))
            }
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => Ok(format!("(*{})", self.ex(&u.expr)?)),
                UnOp::Not(_) => Ok(format!("(!{})", self.ex(&u.expr)?)),
                _ => Ok(format!("(-{})", self.ex(&u.expr)?)),
            },
            Expr::Binary(b) => {
                if self.generic_eq && self.is_generic_eq(&b.left, &b.right) {
                    let l = self.generic_ref(&b.left);
                    let r = self.generic_ref(&b.right);
                    match b.op {
                        BinOp::Eq(_) => return Ok(format!("v_eq({}, {})", l, r)),
                        BinOp::Ne(_) => return Ok(format!("(!v_eq({}, {}))", l, r)),
                        _ => {}
                    }
                }
                // string comparison
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && self.kind(&b.left) == K::Str {
                    let s = format!("v_str_eq({}, {})", self.ex(&b.left)?, self.ex(&b.right)?);
                    return Ok(if matches!(b.op, BinOp::Eq(_)) { s } else { format!("(!{})", s) });
                }
                let (l, r) = (self.ex(&b.left)?, self.ex(&b.right)?);
                let (l, r) = if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && l.starts_with("(&") {
                    // &a == b : compare the values
                    (strip_ref(&l), format!("(*{})", r))
                } else {
                    (l, r)
                };
                let s = format!("{} {} {}", l, tt(&b.op), r);
                if tt(&b.op).ends_with('=') && !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) {
                    return Ok(s);
                }
                Ok(format!("({})", s))
            }
            Expr::Assign(a) => Ok(format!("{} = {}", self.ex(&a.left)?, self.ex(&a.right)?)),
            Expr::Cast(c) if matches!(*c.ty, Type::Reference(_)) => self.ex(&c.expr),
            Expr::Cast(c) => Ok(format!("({} as {})", self.ex(&c.expr)?, self.ty(&c.ty)?)),
            Expr::Tuple(t) => {
                let v: std::result::Result<Vec<_>, _> = t.elems.iter().map(|e| self.ex(e)).collect();
                let v = v?;
                Ok(if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) })
            }
            Expr::Array(t) => {
                let v: std::result::Result<Vec<_>, _> = t.elems.iter().map(|e| self.ex(e)).collect();
                Ok(format!("[{}]", v?.join(", ")))
            }
            Expr::Struct(s) => {
                let mut o = format!("{} {{ ", self.path_str(&s.path));
                for f in &s.fields {
                    o.push_str(&format!("{}: {}, ", tt(&f.member), self.ex(&f.expr)?));
                }
                if let Some(r) = &s.rest {
                    o.push_str(&format!("..{}", self.ex(r)?));
                }
                o.push('}');
                Ok(o)
            }
            Expr::Index(i) => {
                if let Expr::Range(r) = &*i.index {
                    let str_ = self.kind(&i.expr) == K::Str;
                    let b = self.ex(&i.expr)?;
                    let lo = match &r.start {
                        Some(s) => self.ex(s)?,
                        None => "0".into(),
                    };
                    let f = if str_ { "v_str" } else { "v_slice" };
                    return Ok(match (&r.end, &r.limits) {
                        (Some(e), RangeLimits::HalfOpen(_)) => format!("{}.{}_range({}, {})", b, f, lo, self.ex(e)?),
                        (Some(e), RangeLimits::Closed(_)) => format!("{}.{}_range_incl({}, {})", b, f, lo, self.ex(e)?),
                        (None, _) => format!("{}.{}_from({})", b, f, lo),
                    });
                }
                match self.kind(&i.expr) {
                    K::Map(_) => Ok(format!("(*{}.v_index({}))", self.ex(&i.expr)?, self.ex(&i.index)?)),
                    _ => Ok(format!("{}[{}]", self.ex(&i.expr)?, self.ex(&i.index)?)),
                }
            }
            Expr::Range(r) => {
                let lo = self.ex(r.start.as_ref().ok_or("open range")?)?;
                let hi = self.ex(r.end.as_ref().ok_or("open range")?)?;
                Ok(match r.limits {
                    RangeLimits::HalfOpen(_) => format!("v_range({}, {})", lo, hi),
                    RangeLimits::Closed(_) => format!("v_range_incl({}, {})", lo, hi),
                })
            }
            Expr::Block(b) => {
                if b.label.is_some() {
                    return Err("labelled block".into());
                }
                self.ex_block(&b.block)
            }
            Expr::If(i) => {
                self.env.push(Default::default());
                let r = (|| {
                    if let Some((s, pats)) = self.slice_pattern(&i.cond)? {
                        let t = self.ex_block(&i.then_branch)?;
                        let f = match &i.else_branch {
                            Some((_, e)) => self.ex(e)?,
                            None => "{ }".into(),
                        };
                        let f = if f.starts_with('{') { f } else { format!("{{ {} }}", f) };
                        return Ok(format!("match {} {{ {} => {} _ => {} }}", s, pats, t, f));
                    }
                    let c = self.ex_cond(&i.cond)?;
                    let t = self.ex_block(&i.then_branch)?;
                    Ok::<_, String>(match &i.else_branch {
                        Some((_, e)) => {
                            self.env.push(Default::default());
                            let f = self.ex(e);
                            self.env.pop();
                            let f = f?;
                            let f = if f.starts_with('{') || f.starts_with("if ") { f } else { format!("{{ {} }}", f) };
                            format!("if {} {} else {}", c, t, f)
                        }
                        None => format!("if {} {}", c, t),
                    })
                })();
                self.env.pop();
                r
            }
            Expr::Let(_) => Err("let chain".into()),
            Expr::Match(m) => {
                let sk = self.kind(&m.expr);
                let coerced = self.str_arms(m);
                let scrut = self.ex(&m.expr)?;
                let scrut = if m.arms.iter().any(|a| matches!(a.pat, Pat::Slice(_))) { format!("v_arr2({})", scrut) } else { scrut };
                let mut o = format!("match {} {{\n", scrut);
                for a in &m.arms {
                    self.env.push(Default::default());
                    self.bind_pat(&a.pat, &sk, false);
                    let r = (|| {
                        let g = match &a.guard {
                            Some((_, g)) => format!(" if {}", self.ex(g)?),
                            None => String::new(),
                        };
                        let mut b = self.ex(&a.body)?;
                        if coerced && tail_lit(&a.body).is_none() && !diverges(&a.body) {
                            b = format!("({}).v_as_str()", b);
                        }
                        let p = self.arr2_pat(&a.pat)?;
                        Ok::<_, String>(format!("{}{} => {{ {} }}\n", p, g, b))
                    })();
                    self.env.pop();
                    o.push_str(&r?);
                }
                o.push('}');
                Ok(o)
            }
            Expr::Return(r) => {
                if self.in_closure > 0 {
                    return Err("return in a closure".into());
                }
                match &r.expr {
                    Some(x) => {
                        let v = self.ex(x)?;
                        Ok(format!("{{ {} return {}; }}", self.bind_r(&v)?.0, self.bind_r(&v)?.1))
                    }
                    None => Ok("return".into()),
                }
            }
            Expr::Break(b) => {
                if b.label.is_some() || b.expr.is_some() {
                    return Err("break with label or value".into());
                }
                let brk = self.loop_stack.last().map(|i| self.lc(*i).brk).unwrap_or_default();
                if brk.trim().is_empty() {
                    Ok("break".into())
                } else {
                    Ok(format!("{{ proof {{ {} }} break; }}", self.sub(&brk)?))
                }
            }
            Expr::Continue(b) => {
                if b.label.is_some() {
                    return Err("continue with label".into());
                }
                Ok("continue".into())
            }
            Expr::Try(t) => {
                if let Expr::Macro(m) = &*t.expr {
                    if m.mac.path.is_ident("write") {
                        return Ok(format!("{}?", self.ex_write(&m.mac)?));
                    }
                }
                Ok(format!("{}?", self.ex(&t.expr)?))
            }
            Expr::Loop(l) => {
                let (i, head) = self.loop_head(None)?;
                self.loop_stack.push(i);
                let b = self.ex_block_ghost(&l.body, &self.lc(i).begin.clone(), &self.lc(i).ghost.clone(), &self.lc(i).end.clone());
                self.loop_stack.pop();
                let b = self.in_loop(i, b?);
                Ok(format!("{{ proof {{ {} }} {}loop {} {} proof {{ {} }} }}", self.sub(&self.lc(i).before.clone())?, self.loop_attr(i), head, b, self.sub(&self.lc(i).after.clone())?))
            }
            Expr::While(w) => {
                let (i, head) = self.loop_head(None)?;
                self.env.push(Default::default());
                let r = (|| {
                    let c = if let Expr::Let(l) = &*w.cond {
                        let k = self.kind(&l.expr);
                        let s = self.ex(&l.expr)?;
                        self.bind_pat(&l.pat, &k, false);
                        Some((s, self.pat_str(&l.pat)?))
                    } else {
                        None
                    };
                    self.loop_stack.push(i);
                    let b = self.ex_block_ghost(&w.body, &self.lc(i).begin.clone(), &self.lc(i).ghost.clone(), &self.lc(i).end.clone());
                    self.loop_stack.pop();
                    let b = b?;
                    let inner = match c {
                        Some((s, p)) => format!("{{ match {} {{ {} => {} _ => {{ proof {{ {} }} break; }} }} }}", s, p, b, self.sub(&self.lc(i).exit.clone())?),
                        None => format!("{{ if !({}) {{ proof {{ {} }} break; }} {} }}", self.ex(&w.cond)?, self.sub(&self.lc(i).exit.clone())?, b),
                    };
                    let inner = self.in_loop(i, inner);
                    Ok::<_, String>(format!(
                        "{{ proof {{ {} }} {}loop {} {} proof {{ {} }} }}",
                        self.sub(&self.lc(i).before.clone())?,
                        self.loop_attr(i),
                        head,
                        inner,
                        self.sub(&self.lc(i).after.clone())?
                    ))
                })();
                self.env.pop();
                r
            }
            Expr::ForLoop(f) => {
                // for p in it.map(|q| e) { body }: map is lazy, the same as for q in it { let p = e; body }
                if let Expr::MethodCall(mc) = &*f.expr {
                    if let (true, 1, Some(Expr::Closure(c))) = (mc.method == "map", mc.args.len(), mc.args.first()) {
                        if c.inputs.len() == 1 {
                            let e = deret::deret(&c.body)?;
                            let (q, pat) = (strip_ty(&c.inputs[0]), &f.pat);
                            let n = Ident::new(&format!("fm_{}", self.loops), proc_macro2::Span::call_site());
                            let body = &f.body.stmts;
                            let recv = &mc.receiver;
                            let g: Expr = syn::parse_quote!(for #n in #recv { let #pat = { let #q = #n; #e }; #(#body)* });
                            return self.ex(&g);
                        }
                    }
                }
                let counted = self.counter_of(f);
                let (expr, pat, count) = match &counted {
                    Some((e, p, n)) => (e, p, Some(n)),
                    None => (&*f.expr, &*f.pat, None),
                };
                let k = self.kind(expr);
                let it = self.ex(expr)?;
                let it = if it.starts_with("(&") || matches!(k, K::Seq(_)) && matches!(expr, Expr::Reference(_)) {
                    format!("{}.v_iter()", it)
                } else {
                    format!("({}).v_for_iter()", it)
                };
                // a closure with state became a loop that pushes: what it returned is that vector
                let mut pushed = crate::norm::Pushed(vec![]);
                syn::visit::Visit::visit_block(&mut pushed, &f.body);
                if let [v] = &pushed.0[..] {
                    self.louts.insert(self.loops, v.clone());
                }
                if let Some(n) = count {
                    let n = self.pat_str(n)?;
                    self.counted.insert(self.loops, n);
                    self.weakened.borrow_mut().push("a loop with a counter".into());
                } else {
                    self.counted.remove(&self.loops);
                }
                let (i, _) = self.loop_head(Some(()))?;
                self.env.push(Default::default());
                if let Some(n) = count {
                    self.bind_pat(n, &K::Int, false);
                }
                self.bind_pat(pat, &k.elem(), false);
                let r = self.ex_for(i, &it, pat, &f.body, None);
                self.env.pop();
                r
            }
            Expr::Macro(m) => self.ex_macro(&m.mac),
            Expr::Closure(_) => Err("closure that is not an argument".into()),
            Expr::Call(c) => self.ex_call(c),
            Expr::MethodCall(m) => self.ex_method(m),
            _ => Err(format!("unsupported expression: {}", short(e))),
        }
    }

    /// `let r: T = v; proof { .. }` in front of a result, and the expression to use for it
    pub fn bind_r(&mut self, v: &str) -> std::result::Result<(String, String), String> {
        if self.cur.end.trim().is_empty() || self.in_closure > 0 {
            Ok((String::new(), v.to_string()))
        } else {
            let e = self.sub(&self.cur.end.clone())?;
            Ok((format!("let r = {}; proof {{ {} }}", v, e), "r".to_string()))
        }
    }

    pub fn lc(&self, i: usize) -> crate::contracts::LoopC {
        self.cur.loops.get(&i).cloned().unwrap_or_default()
    }

    /// loops with clauses that hold only inside or only after need to say so
    fn loop_attr(&self, i: usize) -> &'static str {
        let l = self.lc(i);
        if l.except.is_empty() && l.ensures.is_empty() {
            ""
        } else {
            "#[verifier::loop_isolation(true)] "
        }
    }

    /// `for (n, p) in it.enumerate()` where the contract speaks of the loop over `it`: it, p, n
    fn counter_of(&self, f: &syn::ExprForLoop) -> Option<(Expr, Pat, Pat)> {
        let Expr::MethodCall(m) = &*f.expr else { return None };
        if m.method != "enumerate" {
            return None;
        }
        let Pat::Tuple(t) = &*f.pat else { return None };
        let l = self.lc(self.loops);
        let texts = l.invariant.iter().chain(&l.except).chain(&l.ensures).map(|c| &c.text);
        if t.elems.len() != 2 || texts.chain([&l.before, &l.begin, &l.end, &l.after]).any(|c| c.contains("enumerated")) {
            return None;
        }
        Some(((*m.receiver).clone(), t.elems[1].clone(), t.elems[0].clone()))
    }

    /// a loop verified by itself has to repeat which lemmas it uses
    fn in_loop(&self, i: usize, body: String) -> String {
        if self.loop_attr(i).is_empty() {
            body
        } else {
            format!("{{ {}{}", self.uses_stmt(), &body[1..])
        }
    }

    /// header of the next loop, `for` loops get the iteration bookkeeping
    fn loop_head(&mut self, for_: Option<()>) -> std::result::Result<(usize, String), String> {
        let i = self.loops;
        self.loops += 1;
        if !self.cur.loops.contains_key(&i) {
            return Err(format!("loop {} has no invariant", i));
        }
        let l = self.lc(i);
        let mut o = String::new();
        if !l.except.is_empty() {
            o.push_str("\n        invariant_except_break\n");
            for c in &l.except {
                o.push_str(&format!("            {} //@P:{}\n", self.sub(&c.text)?, c.label));
            }
        }
        if for_.is_some() {
            o.push_str(&format!(
                "\n        invariant lit{i}@ == lg{i}.skip(lk{i}), 0 <= lk{i} <= lg{i}.len(),\n",
                i = i
            ));
            if self.counted.contains_key(&i) {
                o.push_str(&format!("            lc{i} == lk{i}, lg{i}.len() <= usize::MAX,\n", i = i));
            }
        } else if !l.invariant.is_empty() {
            o.push_str("\n        invariant\n");
        }
        for c in &l.invariant {
            o.push_str(&format!("            {} //@P:{}\n", self.sub(&c.text)?, c.label));
        }
        for (w, v) in [("ensures", &l.ensures)] {
            if !v.is_empty() {
                o.push_str(&format!("\n        {}\n", w));
            }
            for c in v {
                o.push_str(&format!("            {} //@P:{}\n", self.sub(&c.text)?, c.label));
            }
        }
        if for_.is_some() && l.decreases.trim().is_empty() {
            o.push_str(&format!("        decreases lg{i}.len() - lk{i}\n", i = i));
        } else if !l.decreases.trim().is_empty() {
            o.push_str(&format!("        decreases {}\n", self.sub(&l.decreases)?));
        } else {
            return Err(format!("loop {} has no measure", i));
        }
        Ok((i, o))
    }

    /// pat in it { body }; `out`: the body is an expression whose Option/value result is pushed
    fn ex_for(&mut self, i: usize, it: &str, pat: &Pat, body: &Block, out: Option<&str>) -> R {
        // the header has to be printed again: loop_head advanced the counter already
        self.loops -= 1;
        let saved = self.loops;
        self.loops = i;
        let (_, head) = self.loop_head(Some(()))?;
        self.loops = saved + 1;
        let l = self.lc(i);
        let begin = self.sub(&l.begin)?;
        let end = self.sub(&l.end)?;
        let b = match out {
            None => {
                self.loop_stack.push(i);
                let b = self.ex_block_with(body, "", &l.end);
                self.loop_stack.pop();
                b?
            }
            Some(push) => {
                let e = self.ex_block(body)?;
                format!("{{ {} proof {{ {} }} }}", push.replace("$BODY", &e), end)
            }
        };
        let p = self.pat_str(&strip_ty(pat))?;
        let (count, counting) = match self.counted.remove(&i) {
            Some(n) => (
                format!("lit{i}.v_sized(); let mut lc{i}: usize = 0;", i = i),
                format!("let {n} = lc{i}; lc{i} = lc{i} + 1;", i = i, n = n),
            ),
            None => Default::default(),
        };
        Ok(format!(
            "{{ let mut lit{i} = {it}; {count} let ghost lg{i} = lit{i}@; let ghost mut lk{i}: int = 0;\n proof {{ assert(lg{i}.skip(0) =~= lg{i}); {before} }}\n loop {head} {{\n match lit{i}.next() {{ None => {{ proof {{ assert(lk{i} == lg{i}.len()); }} break; }}\n Some(lx{i}) => {{ proof {{ assert(lx{i} == lg{i}[lk{i}]); assert(lg{i}.skip(lk{i}).drop_first() =~= lg{i}.skip(lk{i} + 1)); lk{i} = lk{i} + 1; {begin} }} {counting} let {p} = lx{i}; {ghost} {b} }} }} }} proof {{ {after} }} }}",
            i = i,
            it = it,
            head = head,
            before = self.sub(&l.before)?,
            begin = begin,
            ghost = self.sub(&l.ghost)?,
            after = self.sub(&l.after)?,
            count = count,
            counting = counting,
            p = p,
            b = b
        ))
    }

    fn slice_pattern(&mut self, c: &Expr) -> std::result::Result<Option<(String, String)>, String> {
        if let Expr::Let(l) = c {
            if let Pat::Slice(s) = &*l.pat {
                if s.elems.len() != 2 {
                    return Err("slice pattern".into());
                }
                let k = self.kind(&l.expr);
                let e = self.ex(&l.expr)?;
                self.bind_pat(&l.pat, &k, false);
                let a = self.pat_str(&s.elems[0])?;
                let b = self.pat_str(&s.elems[1])?;
                return Ok(Some((format!("v_arr2({})", e), format!("({}, {})", a, b))));
            }
        }
        Ok(None)
    }

    /// a pattern for an array of two, as the pattern of the pair `v_arr2` gives
    fn arr2_pat(&mut self, p: &Pat) -> R {
        if let Pat::Slice(s) = p {
            if s.elems.len() != 2 || s.elems.iter().any(|e| matches!(e, Pat::Rest(_))) {
                return Err("slice pattern".into());
            }
            return Ok(format!("({}, {})", self.pat_str(&s.elems[0])?, self.pat_str(&s.elems[1])?));
        }
        self.pat_str(p)
    }

    pub fn ex_cond(&mut self, c: &Expr) -> R {
        if let Expr::Let(l) = c {
            let k = self.kind(&l.expr);
            let s = self.ex(&l.expr)?;
            self.bind_pat(&l.pat, &k, false);
            return Ok(format!("let {} = {}", self.pat_str(&l.pat)?, s));
        }
        self.ex(c)
    }

    pub fn ex_block(&mut self, b: &Block) -> R {
        self.ex_block_with(b, "", "")
    }

    pub fn ex_block_with(&mut self, b: &Block, begin: &str, end: &str) -> R {
        self.ex_block_ghost(b, begin, "", end)
    }
    pub fn ex_block_ghost(&mut self, b: &Block, begin: &str, ghost: &str, end: &str) -> R {
        self.env.push(HashMap::new());
        self.macros.push(HashMap::new());
        let r = self.ex_stmts(&b.stmts);
        self.macros.pop();
        self.env.pop();
        let (stmts, tail) = r?;
        let mut o = String::from("{\n");
        if !begin.trim().is_empty() {
            o.push_str(&format!("proof {{ {} }}\n", self.sub(begin)?));
        }
        if !ghost.trim().is_empty() {
            o.push_str(&self.sub(ghost)?);
        }
        o.push_str(&stmts);
        if !end.trim().is_empty() {
            if let Some(t) = tail {
                o.push_str(&format!("{};\n", t));
            }
            o.push_str(&format!("proof {{ {} }}\n", self.sub(end)?));
        } else if let Some(t) = tail {
            o.push_str(&t);
            o.push('\n');
        }
        o.push('}');
        Ok(o)
    }

    pub fn ex_stmts(&mut self, stmts: &[Stmt]) -> std::result::Result<(String, Option<String>), String> {
        let mut o = String::new();
        for (i, s) in stmts.iter().enumerate() {
            let last = i + 1 == stmts.len();
            match s {
                Stmt::Local(l) => {
                    let (ty, pat) = match &l.pat {
                        Pat::Type(t) => (format!(": {}", self.ty(&t.ty)?), (*t.pat).clone()),
                        p => (String::new(), p.clone()),
                    };
                    let init = match &l.init {
                        Some(x) => {
                            if x.diverge.is_some() {
                                let e = self.ex(&x.expr)?;
                                let d = self.ex(&x.diverge.as_ref().unwrap().1)?;
                                let k = self.kind(&x.expr);
                                self.bind_pat(&pat, &k, false);
                                let e = if matches!(pat, Pat::Slice(_)) { format!("v_arr2({})", e) } else { e };
                                let p = self.arr2_pat(&pat)?;
                                let names = pat_names(&pat);
                                o.push_str(&format!(
                                    "let ({n}) = match {e} {{ {p} => ({n}), _ => {d} }};\n",
                                    n = names.join(", "),
                                    e = e,
                                    p = p,
                                    d = d
                                ));
                                continue;
                            }
                            let k = self.kind(&x.expr);
                            if let Pat::Type(t) = &l.pat {
                                self.note_tails(&t.ty, &x.expr)?;
                            }
                            let s = self.ex(&x.expr)?;
                            self.bind_pat(&l.pat, &k, false);
                            if matches!(pat, Pat::Slice(_)) {
                                format!(" = v_arr2({})", s)
                            } else {
                                format!(" = {}", s)
                            }
                        }
                        None => {
                            self.bind_pat(&l.pat, &K::Other, false);
                            String::new()
                        }
                    };
                    o.push_str(&format!("let {}{}{};\n", self.arr2_pat(&pat)?, ty, init));
                }
                Stmt::Expr(e, semi) => {
                    // statement without effect
                    let s = self.ex(e)?;
                    if last && semi.is_none() {
                        return Ok((o, Some(s)));
                    }
                    let needs = !(s.starts_with("if ") || s.starts_with("match ") || s.starts_with('{'));
                    if semi.is_some() || needs {
                        o.push_str(&format!("{};\n", s));
                    } else {
                        o.push_str(&format!("{}\n", s));
                    }
                }
                Stmt::Macro(m) => {
                    let s = self.ex_macro(&m.mac)?;
                    if last && m.semi_token.is_none() && !s.starts_with('{') {
                        return Ok((o, Some(s)));
                    }
                    o.push_str(&format!("{};\n", s));
                }
                Stmt::Item(Item::Const(c)) => {
                    self.bind(&c.ident.to_string(), K::Other, false);
                    let k = self.kind_of_type(&c.ty);
                    self.bind(&c.ident.to_string(), k, false);
                    o.push_str(&format!("let {}: {} = {};\n", c.ident, self.ty(&c.ty)?, self.ex(&c.expr)?));
                }
                Stmt::Item(Item::Macro(m)) => {
                    let name = m.ident.as_ref().ok_or("macro item")?.to_string();
                    let b = local_macro(&m.mac).ok_or("local macro with parameters")?;
                    self.macros.last_mut().unwrap().insert(name, b);
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(_) => return Err("nested item".into()),
            }
        }
        Ok((o, None))
    }

    fn ex_write(&mut self, m: &Macro) -> R {
        use syn::punctuated::Punctuated;
        let p = m
            .parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
            .map_err(|_| "write! form")?;
        let v: Vec<Expr> = p.into_iter().collect();
        match &v[..] {
            [dst, Expr::Lit(l)] => {
                if let Lit::Str(s) = &l.lit {
                    if !s.value().contains('{') && !s.value().contains('}') {
                        return Ok(format!("v_write_lit({}, {})", self.ex(dst)?, tt(s)));
                    }
                }
                Err("write! with arguments".into())
            }
            _ => Err("write! with arguments".into()),
        }
    }

    fn ex_macro(&mut self, m: &Macro) -> R {
        let n = last_seg(&m.path).ident.to_string();
        for s in self.macros.clone().iter().rev() {
            if let Some(b) = s.get(&n) {
                return self.ex_block(&b.clone());
            }
        }
        match n.as_str() {
            "vec" => {
                let es = self.vec_elems(m)?;
                if es.is_empty() {
                    return Ok("Vec::new()".into());
                }
                let v: std::result::Result<Vec<_>, _> = es.iter().map(|e| self.ex(e)).collect();
                let v = v?;
                if v.len() == 1 {
                    Ok(format!("v_vec1({})", v[0]))
                } else if v.len() == 2 {
                    Ok(format!("v_vec2({})", v.join(", ")))
                } else if v.len() == 3 {
                    Ok(format!("v_vec3({})", v.join(", ")))
                } else {
                    Err("vec! with many elements".into())
                }
            }
            "assert" => {
                use syn::punctuated::Punctuated;
                let p = m
                    .parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                    .map_err(|_| "assert! form")?;
                Ok(format!("v_assert({})", self.ex(p.first().ok_or("assert! form")?)?))
            }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => Ok("()".into()),
            "panic" | "unreachable" | "todo" | "unimplemented" => Ok("v_panic()".into()),
            "format" => {
                use syn::punctuated::Punctuated;
                let p = m
                    .parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                    .map_err(|_| "format! form")?;
                let v: Vec<Expr> = p.into_iter().collect();
                match &v[..] {
                    [Expr::Lit(l), x] if tt(l) == "\"{:?}\"" => Ok(format!("v_debug({})", self.ex(x)?)),
                    [Expr::Lit(l)] if tt(l).starts_with("\"{") && tt(l).ends_with(":?}\"") => {
                        let n = tt(l);
                        Ok(format!("v_debug({})", &n[2..n.len() - 4]))
                    }
                    _ => Err("format! form".into()),
                }
            }
            "matches" => {
                let (e, p, g) = self.matches_parts(m)?;
                let k = self.kind(&e);
                let s = self.ex(&e)?;
                self.env.push(HashMap::new());
                self.bind_pat(&p, &k, false);
                let g = match g {
                    Some(g) => self.ex(&g),
                    None => Ok("true".into()),
                };
                self.env.pop();
                Ok(format!("match {} {{ {} => {{ {} }}, _ => false }}", s, self.pat_str(&p)?, g?))
            }
            "write" => self.ex_write(m),
            _ => Err(format!("macro {}!", n)),
        }
    }

    fn ex_call(&mut self, c: &ExprCall) -> R {
        if let Expr::Path(p) = &*c.func {
            let n = last_seg(&p.path).ident.to_string();
            let full = self.path_str(&p.path);
            let mut a = vec![];
            if full == "Rc::clone" {
                return Ok(format!("{}.v_clone()", strip_ref(&self.ex(&c.args[0])?)));
            }
            if !n.chars().next().unwrap().is_uppercase() && self.lookup(&n).is_none() {
                if let Some(i) = self.inline_target(&n, c.args.len(), false) {
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    return self.ex_inline(i, None, &args);
                }
            }
            for x in &c.args {
                if let Expr::Closure(cl) = x {
                    a.push(self.ex_plain_closure(cl)?);
                } else {
                    a.push(self.ex(x)?)
                }
            }
            // `self.helper` called as Self::helper(self, ..) is left to the verifier
            let bare = tt(&p.path).replace(' ', "");
            let f = match (full.as_str(), n.as_str()) {
                ("Rc::try_unwrap", _) => "v_try_unwrap".to_string(),
                ("Rc::ptr_eq", _) => "v_ptr_eq".into(),
                ("String::from", _) => {
                    if self.kind(&c.args[0]) == K::Char {
                        "v_string_from_char".into()
                    } else {
                        "v_string_from".into()
                    }
                }
                ("String::from_iter", _) => "v_string_from_iter".into(),
                ("Default::default", _) => "v_default".into(),
                ("Box::new", _) => "v_box".into(),
                (_, "take") if bare.contains("mem::take") => "v_take".into(),
                (_, "repeat") if bare.contains("iter::repeat") => "v_repeat".into(),
                ("UnicodeWidthStr::width", _) => "v_width".into(),
                (_, "drop") if bare == "drop" || bare.ends_with("mem::drop") => "v_drop".into(),
                _ => full.clone(),
            };
            return Ok(format!("{}({})", f, a.join(", ")));
        }
        Err("call of a value".into())
    }

    /// closure passed to a function of the repository
    fn ex_plain_closure(&mut self, c: &ExprClosure) -> R {
        if c.inputs.len() != 1 {
            return Err("closure arity".into());
        }
        let body = deret::deret(&c.body)?;
        self.in_closure += 1;
        self.env.push(HashMap::new());
        let r = (|| {
            let ci = self.closures;
            self.closures += 1;
            // the parameter type is not in scope here; the only such closure measures text
            self.bind_pat(&c.inputs[0], &K::Str, false);
            let ens = match self.cur.closures.get(&ci).cloned() {
                Some(s) => self.sub(&s)?,
                None => self.ens("r", &body)?,
            };
            let b = self.ex(&body)?;
            Ok(format!(
                "|{}: &str| -> (r: _) ensures {} {{ {} }}",
                self.pat_str(&strip_ty(&c.inputs[0]))?,
                ens.trim().trim_end_matches(','),
                b
            ))
        })();
        self.env.pop();
        self.in_closure -= 1;
        r
    }

    pub fn inline_target(&self, n: &str, nargs: usize, method: bool) -> Option<usize> {
        let v = self.by_name.get(n)?;
        let v: Vec<usize> = v
            .iter()
            .cloned()
            .filter(|i| {
                let f = &self.fns[*i];
                let typed = f.sig.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).count();
                typed == nargs && (f.sig.receiver().is_some() == method)
            })
            .collect();
        if v.len() != 1 {
            return None;
        }
        let f = &self.fns[v[0]];
        if f.trait_.is_some() || f.block.is_none() || self.c.fns.contains_key(&f.key) {
            return None;
        }
        Some(v[0])
    }

    pub fn helper_block(&self, b: &Block) -> Block {
        if self.unloop_helpers {
            if let Some(b) = crate::norm::unloop(b) {
                return b;
            }
        }
        b.clone()
    }

    fn ex_inline(&mut self, i: usize, recv: Option<&Expr>, args: &[Expr]) -> R {
        self.depth += 1;
        if self.depth > 6 {
            self.depth -= 1;
            return Err("recursive helper".into());
        }
        let f = self.fns[i].clone();
        self.inlined.insert(f.key.clone());
        let r = (|| {
            let block = self.helper_block(f.block.as_ref().unwrap());
            let mut block = block;
            let mut kept: Vec<(String, usize)> = vec![];
            let typed = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None });
            let callables: Vec<String> = typed
                .clone()
                .filter(|t| is_callable(&t.ty, &f.sig.generics))
                .filter_map(|t| if let Pat::Ident(p) = &*t.pat { Some(p.ident.to_string()) } else { None })
                .collect();
            let mut called = callables.clone();
            for (ix, (t, a)) in typed.zip(args).enumerate() {
                // a mutable reference to a variable, a function: the variable itself
                if let Pat::Ident(p) = &*t.pat {
                    let by_mut = matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some());
                    let by_ref = matches!(&*t.ty, Type::Reference(r) if r.mutability.is_none());
                    let callable = callables.iter().any(|c| p.ident == c);
                    if p.mutability.is_some() || !(by_mut || callable) {
                        continue;
                    }
                    let (x, own) = match a {
                        Expr::Reference(r) if r.mutability.is_some() == by_mut => (&*r.expr, true),
                        a => (a, false),
                    };
                    if callable && own && !by_ref {
                        continue;
                    }
                    if let Expr::Path(x) = x {
                        if let Some(x) = x.path.get_ident() {
                            if crate::norm::put_in_place(&mut block, &p.ident.to_string(), &x.to_string(), own, by_mut, &called) {
                                if callable {
                                    called.push(x.to_string());
                                }
                                kept.push((x.to_string(), ix));
                            }
                        }
                    }
                }
            }
            let body = deret::deret_stmts(&block.stmts)?;
            let mut names = vec![];
            let mut vals = vec![];
            let mut kinds = vec![];
            let mut self_alias = None;
            let mut ix = 0;
            for a in &f.sig.inputs {
                match a {
                    FnArg::Receiver(rc) => {
                        let r = recv.ok_or("missing receiver")?;
                        let s = self.ex(r)?;
                        if s != "self" {
                            let n = format!("self_{}", self.fresh());
                            names.push(n.clone());
                            vals.push(if rc.reference.is_some() {
                                if rc.mutability.is_some() {
                                    format!("&mut {}", s)
                                } else {
                                    format!("&{}", s)
                                }
                            } else {
                                s
                            });
                            self_alias = Some(n);
                        }
                    }
                    FnArg::Typed(t) => {
                        let k = self.kind_of_type(&t.ty);
                        ix += 1;
                        if let Some((x, _)) = kept.iter().find(|x| x.1 == ix - 1) {
                            let id = Ident::new(x, proc_macro2::Span::call_site());
                            let k = self.lookup(x).map(|z| z.0).unwrap_or(k);
                            kinds.push((syn::parse_quote!(#id), k));
                            continue;
                        }
                        let v = self.ex(&args[ix - 1])?;
                        names.push(self.pat_str(&strip_ty(&t.pat))?);
                        vals.push(v);
                        kinds.push(((*t.pat).clone(), k));
                    }
                }
            }
            let saved_env = std::mem::replace(&mut self.env, vec![HashMap::new()]);
            let saved_macros = std::mem::take(&mut self.macros);
            self.macros.push(HashMap::new());
            for (p, k) in &kinds {
                self.bind_pat(p, k, false)
            }
            let saved_alias = self.self_alias.clone();
            if let Some(a) = &self_alias {
                self.self_alias = Some(a.clone());
            }
            self.in_closure += 1; // `return` and result proofs belong to the caller
            let b = self.ex(&body);
            self.in_closure -= 1;
            self.self_alias = saved_alias;
            self.env = saved_env;
            self.macros = saved_macros;
            let b = b?;
            let b = if f.sig.output == ReturnType::Default { format!("{};", b) } else { b };
            Ok(if names.is_empty() {
                format!("{{ {} }}", b)
            } else if names.len() == 1 {
                format!("{{ let {} = {}; {} }}", names[0], vals[0], b)
            } else {
                format!("{{ let ({}) = ({}); {} }}", names.join(", "), vals.join(", "), b)
            })
        })();
        self.depth -= 1;
        r
    }

    fn ex_method(&mut self, m: &ExprMethodCall) -> R {
        let n = m.method.to_string();
        let nargs = m.args.len();
        let rk = self.kind(&m.receiver);

        // iter::repeat(c).take(n)
        // map.entry(k).or_default() and friends
        if let Expr::MethodCall(inner) = &*m.receiver {
            if inner.method == "entry" && inner.args.len() == 1 {
                let r = self.ex(&inner.receiver)?;
                let k = self.ex(&inner.args[0])?;
                match (n.as_str(), nargs) {
                    ("or_default", 0) => return Ok(format!("{}.v_entry_or_default({})", r, k)),
                    ("or_insert", 1) => {
                        return Ok(format!("{}.v_entry_or_insert({}, {})", r, k, self.ex(&m.args[0])?))
                    }
                    ("or_insert_with", 1) => {
                        let c = self.eta(&m.args[0], 0)?;
                        return Ok(format!("{}.v_entry_or_insert({}, {})", r, k, self.ex(&c.body)?));
                    }
                    _ => return Err("entry API".into()),
                }
            }
        }
        if n == "fold" && nargs == 2 {
            return self.ex_fold(m);
        }
        if n == "for_each" && nargs == 1 {
            let c = self.eta(&m.args[0], 1)?;
            let it = self.ex(&m.receiver)?;
            let (i, _) = self.loop_head(Some(()))?;
            self.env.push(HashMap::new());
            self.bind_pat(&c.inputs[0], &rk.elem(), false);
            let body = as_block(&c.body);
            let r = self.ex_for(i, &it, &c.inputs[0], &body, None);
            self.env.pop();
            return r;
        }
        if n == "into" && nargs == 0 {
            return Ok(format!("v_into({})", self.ex(&m.receiver)?));
        }
        if n == "parse" && nargs == 0 {
            return Ok(format!("v_parse_decimal(&{})", self.ex(&m.receiver)?));
        }
        if matches!(n.as_str(), "downcast_ref" | "downcast_mut") {
            let t = m.turbofish.as_ref().ok_or("downcast without type")?;
            if let Some(GenericArgument::Type(Type::Path(p))) = t.args.first() {
                let s = last_seg(&p.path);
                if s.ident == "Vec" {
                    let e = generic_args(s);
                    return Ok(format!("{}.v_{}::<{}>()", self.ex(&m.receiver)?, n, self.ty(&e[0])?));
                }
            }
            return Err("downcast to something else than a Vec".into());
        }
        // helper of the repository without a contract of its own
        if !(n == "get" && nargs == 1) {
            let builtin = matches!(rk, K::Iter(_) | K::Seq(_) | K::Opt(_) | K::Str | K::Map(_) | K::Int | K::Char);
            if !builtin {
                if let Some(i) = self.inline_target(&n, nargs, true) {
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    return self.ex_inline(i, Some(&m.receiver), &args);
                }
            }
        }
        if let Some(e) = self.opt_desugar(m)? {
            self.closures += m.args.iter().filter(|a| self.is_closure_arg(&n, a)).count();
            return self.ex(&e);
        }
        let name = match (n.as_str(), nargs) {
            ("iter", 0) => "v_iter",
            ("into_iter", 0) => "v_into_iter",
            ("chars", 0) => "v_chars",
            ("split_word_bounds", 0) => "v_split_word_bounds",
            ("windows", 1) => "v_windows",
            ("get", 1) => "v_get",
            ("get_mut", 1) => "v_get_mut",
            ("contains", 1) => "v_contains",
            ("clone", 0) => "v_clone",
            ("first", 0) => "v_first",
            ("last", 0) if matches!(rk, K::Seq(_)) => "v_last",
            ("to_lowercase", 0) => "v_to_lowercase",
            ("is_alphabetic", 0) => "v_is_alphabetic",
            ("is_whitespace", 0) => "v_is_whitespace",
            ("is_ascii_digit", 0) => "v_is_ascii_digit",
            ("len", 0) if rk == K::Str => "v_str_len",
            ("is_empty", 0) if rk == K::Str => "v_str_is_empty",
            ("is_empty", 0) => "v_is_empty",
            ("push", 1) if rk == K::Str => "v_push",
            ("push_str", 1) => "v_push_str",
            ("extend", 1) => "v_extend",
            ("to_vec", 0) => "v_to_vec",
            ("downcast", 0) => "v_downcast",
            ("unwrap_or_default", 0) => "v_unwrap_or_default",
            ("as_ref", 0) if rk == K::Other => "v_as_ref",
            ("cloned", 0) | ("copied", 0) if matches!(rk, K::Opt(_)) => "v_cloned",
            ("cloned", 0) | ("copied", 0) => "cloned",
            ("to_string", 0) if rk == K::Char => "v_char_to_string",
            ("to_string", 0) => "v_to_string",
            ("to_owned", 0) if rk == K::Str => "v_to_string",
            ("as_str", 0) => "v_as_str",
            (s, _) => s,
        }
        .to_string();
        let tf = match &m.turbofish {
            Some(_) if n == "collect" => String::new(),
            Some(t) => self.turbofish(t)?,
            None => String::new(),
        };
        // closures
        let closure_at = m.args.iter().position(|a| self.is_closure_arg(&n, a));
        if let Some(ci) = closure_at {
            let zero = matches!(n.as_str(), "unwrap_or_else" | "or_else" | "or_insert_with" | "map_or_else" | "ok_or_else");
            let c = self.eta(&m.args[ci], if zero { 0 } else { 1 })?;
            // combinators of Option are what their definition says: a match
            if matches!(rk, K::Opt(_)) && !has_try(&c.body) && matches!((n.as_str(), nargs), ("map", 1) | ("and_then", 1) | ("map_or", 2) | ("unwrap_or_else", 1)) {
                let body = deret::deret(&c.body)?;
                self.closures += 1;
                let r = self.ex(&m.receiver)?;
                let d = if n == "map_or" { self.ex(&m.args[0])? } else { String::new() };
                self.in_closure += 1;
                self.env.push(HashMap::new());
                let res = (|| {
                    if c.inputs.is_empty() {
                        return Ok((String::new(), self.ex(&body)?));
                    }
                    let pat = match &c.inputs[0] {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    self.bind_pat(&pat, &rk.elem(), false);
                    Ok::<_, String>((self.pat_str(&pat)?, self.ex(&body)?))
                })();
                self.env.pop();
                self.in_closure -= 1;
                let (pat, b) = res?;
                return Ok(match n.as_str() {
                    "map" => format!("(match {r} {{ Some({pat}) => Some({{ {b} }}), None => None }})"),
                    "and_then" => format!("(match {r} {{ Some({pat}) => {{ {b} }}, None => None }})"),
                    "map_or" => format!("(match {r} {{ Some({pat}) => {{ {b} }}, None => {{ {d} }} }})"),
                    _ => format!("(match {r} {{ Some(v_some) => v_some, None => {{ {b} }} }})"),
                });
            }
            if stateful(&c) {
                return self.ex_stateful(m, &c);
            }
            if c.inputs.is_empty() {
                let r = self.ex(&m.receiver)?;
                let cl = self.ex_closure(&c, None, &n, rk.elem())?;
                return Ok(format!("{}.{}{}({})", r, name, tf, cl));
            }
            let id = self.fresh();
            let r = self.ex(&m.receiver)?;
            let mut args = vec![];
            for (i, a) in m.args.iter().enumerate() {
                if i == ci {
                    let sp = m.method.span().start();
                    self.closure_ty = self.tail_maps.get(&(sp.line, sp.column)).cloned();
                    args.push(self.ex_closure(&c, Some(id), &n, rk.elem())?)
                } else {
                    args.push(self.ex(a)?)
                }
            }
            return Ok(format!(
                "{{ let it{id} = {r}; let ghost g{id} = it{id}; it{id}.{name}{tf}({a}) }}",
                id = id,
                r = r,
                name = name,
                tf = tf,
                a = args.join(", ")
            ));
        }
        let r = self.ex(&m.receiver)?;
        let mut a = vec![];
        for x in &m.args {
            a.push(self.ex(x)?)
        }
        Ok(format!("{}.{}{}({})", r, name, tf, a.join(", ")))
    }

    /// methods of Option, Result and bool whose definition is one `match` or `if`
    pub fn opt_desugar(&mut self, m: &ExprMethodCall) -> std::result::Result<Option<Expr>, String> {
        let n = m.method.to_string();
        let rk = self.kind(&m.receiver);
        if self.by_name.contains_key(&n) {
            return Ok(None);
        }
        let r = &*m.receiver;
        let mut cl = |i: usize, k: usize| -> std::result::Result<(Pat, Expr), String> {
            let c = self.eta(&m.args[i], k)?;
            let b = if has_try(&c.body) { return Err("? in a closure".into()) } else { deret::deret(&c.body)? };
            Ok((c.inputs.first().map_or(parse_quote!(_), strip_ty), b))
        };
        let opt = matches!(rk, K::Opt(_));
        Ok(Some(match (n.as_str(), m.args.len()) {
            ("filter", 1) if opt => {
                let (p, b) = cl(0, 1)?;
                parse_quote!(match #r { Some(v_some) => { let v_keep = { let #p = &v_some; #b }; if v_keep { Some(v_some) } else { None } }, None => None })
            }
            ("is_some_and", 1) => {
                let (p, b) = cl(0, 1)?;
                parse_quote!(match #r { Some(#p) => #b, None => false })
            }
            ("is_none_or", 1) => {
                let (p, b) = cl(0, 1)?;
                parse_quote!(match #r { Some(#p) => #b, None => true })
            }
            ("or_else", 1) if opt => {
                let (_, b) = cl(0, 0)?;
                parse_quote!(match #r { Some(v_some) => Some(v_some), None => #b })
            }
            ("map_or_else", 2) if opt => {
                let (_, d) = cl(0, 0)?;
                let (p, b) = cl(1, 1)?;
                parse_quote!(match #r { Some(#p) => #b, None => #d })
            }
            ("ok_or_else", 1) if opt => {
                let (_, d) = cl(0, 0)?;
                parse_quote!(match #r { Some(v_some) => Ok(v_some), None => Err(#d) })
            }
            ("or", 1) if opt => {
                let a = &m.args[0];
                parse_quote!({ let v_first = #r; let v_second = #a; match v_first { Some(v_some) => Some(v_some), None => v_second } })
            }
            ("and", 1) if opt => {
                let a = &m.args[0];
                parse_quote!({ let v_first = #r; let v_second = #a; match v_first { Some(_) => v_second, None => None } })
            }
            ("ok_or", 1) if opt => {
                let a = &m.args[0];
                parse_quote!({ let v_first = #r; let v_second = #a; match v_first { Some(v_some) => Ok(v_some), None => Err(v_second) } })
            }
            ("then", 1) => {
                let (_, b) = cl(0, 0)?;
                parse_quote!(if #r { Some(#b) } else { None })
            }
            ("then_some", 1) => {
                let a = &m.args[0];
                parse_quote!({ let v_first = #r; let v_second = #a; if v_first { Some(v_second) } else { None } })
            }
            _ => return Ok(None),
        }))
    }

    fn is_closure_arg(&self, method: &str, a: &Expr) -> bool {
        match a {
            Expr::Closure(_) => true,
            Expr::Path(p) => {
                let higher = matches!(
                    method,
                    "map" | "flat_map" | "filter_map" | "filter" | "and_then" | "unwrap_or_else" | "map_err" | "map_or"
                        | "map_or_else" | "or_else" | "for_each" | "all" | "any" | "find" | "position" | "is_some_and" | "is_none_or"
                        | "ok_or_else" | "skip_while" | "take_while" | "map_while" | "then"
                );
                // plain variables are data
                higher && p.path.get_ident().map_or(true, |i| self.lookup(&i.to_string()).is_none())
                    && !(method == "map_or" && p.path.is_ident("None"))
            }
            _ => false,
        }
    }

    /// a closure as an argument of an iterator or Option method
    fn ex_closure(&mut self, c: &ExprClosure, src: Option<usize>, method: &str, k: K) -> R {
        let mut rt = self.closure_ty.take().unwrap_or("_".into());
        let body = deret::deret(&c.body)?;
        if matches!(&body, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if matches!(tt(&p.path).replace(' ', "").as_str(), "drop" | "mem::drop" | "std::mem::drop"))) {
            rt = "()".into();
        }
        let ci = self.closures;
        self.closures += 1;
        self.in_closure += 1;
        self.env.push(HashMap::new());
        let r = (|| {
            let mv = if c.capture.is_some() { "move " } else { "" };
            if c.inputs.is_empty() {
                let ens = match self.cur.closures.get(&ci).cloned() {
                    Some(s) => self.sub(&s)?,
                    None => self.ens("r", &body)?,
                };
                let b = self.ex(&body)?;
                return Ok(format!("{}|| -> (r: _) ensures {} {{ {} }}", mv, ens.trim().trim_end_matches(','), b));
            }
            let id = src.unwrap();
            let (pat, ty) = match &c.inputs[0] {
                Pat::Type(t) => ((*t.pat).clone(), format!(": {}", self.ty(&t.ty)?)),
                p => (p.clone(), String::new()),
            };
            self.bind_pat(&c.inputs[0], &k, false);
            let (param, pre) = match &pat {
                Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => (i.ident.to_string(), String::new()),
                Pat::Wild(_) => (format!("p{}", id), String::new()),
                p => (format!("p{}", id), format!("let {} = p{}; ", self.pat_str(p)?, id)),
            };
            let ens = match self.cur.closures.get(&ci).cloned() {
                Some(s) => self.sub(&s.replace("$p", &param))?,
                None => self.ens("r", &body)?,
            };
            let req = if method == "map_err" {
                "true".to_string()
            } else if matches!(method, "filter" | "skip_while" | "take_while" | "find") {
                format!("has(g{}, *{})", id, param)
            } else {
                format!("has(g{}, {})", id, param)
            };
            let req = match self.cur.closure_requires.get(&ci).cloned() {
                Some(s) => format!("{}, {}", req, self.sub(&s.replace("$p", &param))?),
                None => req,
            };
            let b = self.ex(&body)?;
            Ok(format!(
                "{mv}|{param}{ty}| -> (r: {rt}) requires {req} ensures ({{ {pre}{ens} }}) {{ {pre}{b} }}",
                mv = mv,
                rt = rt,
                param = param,
                ty = ty,
                req = req.trim().trim_end_matches(','),
                pre = pre,
                ens = ens.trim().trim_end_matches(','),
                b = b
            ))
        })();
        self.env.pop();
        self.in_closure -= 1;
        r
    }

    /// filter_map / flat_map / map with a closure that changes captured variables: a loop
    fn ex_stateful(&mut self, m: &ExprMethodCall, c: &ExprClosure) -> R {
        let n = m.method.to_string();
        let rk = self.kind(&m.receiver);
        let it = self.ex(&m.receiver)?;
        self.louts.remove(&self.loops);
        let (i, _) = self.loop_head(Some(()))?;
        self.env.push(HashMap::new());
        self.bind_pat(&c.inputs[0], &rk.elem(), false);
        let body = as_block(&deret::deret(&c.body)?);
        let push = match n.as_str() {
            "filter_map" => format!("let ly{i} = $BODY; match ly{i} {{ Some(lz{i}) => {{ lout{i}.push(lz{i}); }} None => {{ }} }}", i = i),
            "map" => format!("let ly{i} = $BODY; lout{i}.push(ly{i});", i = i),
            _ => return Err(format!("closure with state in {}", n)),
        };
        self.in_closure += 1;
        let r = self.ex_for(i, &it, &c.inputs[0], &body, Some(&push));
        self.in_closure -= 1;
        self.env.pop();
        Ok(format!("{{ let mut lout{i} = Vec::new(); {r} lout{i}.v_into_iter() }}", i = i, r = r?))
    }

    /// it.fold(init, |mut acc, x| { ..; acc }): a loop
    fn ex_fold(&mut self, m: &ExprMethodCall) -> R {
        let rk = self.kind(&m.receiver);
        let c = match &m.args[1] {
            Expr::Closure(c) if c.inputs.len() == 2 => c.clone(),
            _ => return Err("fold without closure".into()),
        };
        let acc = match strip_ty(&c.inputs[0]) {
            Pat::Ident(i) => i.ident.to_string(),
            _ => return Err("fold accumulator".into()),
        };
        let mut body = as_block(&c.body);
        match body.stmts.pop() {
            Some(Stmt::Expr(Expr::Path(p), None)) if p.path.is_ident(&acc) => {}
            Some(Stmt::Expr(e, None)) => {
                let id: Ident = parse_str(&acc).unwrap();
                body.stmts.push(parse_quote!(#id = #e;));
            }
            _ => return Err("fold body".into()),
        }
        if deret::stmts_escape(&body.stmts) {
            return Err("early exit in fold".into());
        }
        let it = self.ex(&m.receiver)?;
        let ik = self.kind(&m.args[0]);
        let init = self.ex(&m.args[0])?;
        let (i, _) = self.loop_head(Some(()))?;
        self.env.push(HashMap::new());
        self.bind(&acc, ik, false);
        self.bind_pat(&c.inputs[1], &rk.elem(), false);
        self.in_closure += 1;
        let r = self.ex_for(i, &format!("lf{}", i), &c.inputs[1], &body, None);
        self.in_closure -= 1;
        self.env.pop();
        Ok(format!("{{ let lf{i} = {it}; let mut {acc} = {init}; {r} {acc} }}", i = i, it = it, acc = acc, init = init, r = r?))
    }
}

pub fn as_block(e: &Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.clone(),
        e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] },
    }
}

fn local_macro(m: &Macro) -> Option<Block> {
    // () => { .. };
    let mut it = m.tokens.clone().into_iter();
    let first = it.next()?;
    if let proc_macro2::TokenTree::Group(g) = first {
        if !g.stream().is_empty() {
            return None;
        }
    } else {
        return None;
    }
    it.next()?;
    it.next()?;
    if let proc_macro2::TokenTree::Group(g) = it.next()? {
        let s = g.stream();
        return parse2::<Block>(quote::quote!({ #s })).ok();
    }
    None
}

pub fn pat_names(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            let n = p.ident.to_string();
            if !n.chars().next().unwrap().is_uppercase() {
                self.0.push(n);
            }
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}

fn has_try(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// the string literal an arm ends with
pub fn tail_lit(e: &Expr) -> Option<&LitStr> {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Str(s) => Some(s),
            _ => None,
        },
        Expr::Paren(p) => tail_lit(&p.expr),
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(e, None)) => tail_lit(e),
            _ => None,
        },
        _ => None,
    }
}
pub fn diverges(e: &Expr) -> bool {
    match e {
        Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true,
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(e, _)) => diverges(e),
            _ => false,
        },
        _ => false,
    }
}
impl Cx {
    /// some arms are string literals and others are not: those are coerced to &str
    pub fn str_arms(&mut self, m: &ExprMatch) -> bool {
        m.arms.iter().any(|a| tail_lit(&a.body).is_some()) && m.arms.iter().any(|a| tail_lit(&a.body).is_none() && !diverges(&a.body))
    }
}

/// a type of functions: `F: Fn(..)`, `impl Fn(..)`, `dyn Fn(..)`, or a reference to one
fn is_callable(t: &Type, g: &Generics) -> bool {
    let fnish = |b: &TypeParamBound| matches!(b, TypeParamBound::Trait(t) if last_seg(&t.path).ident == "Fn");
    match t {
        Type::Reference(r) if r.mutability.is_none() => is_callable(&r.elem, g),
        Type::Paren(p) => is_callable(&p.elem, g),
        Type::ImplTrait(i) => i.bounds.iter().any(fnish),
        Type::TraitObject(i) => i.bounds.iter().any(fnish),
        Type::Path(p) => match p.path.get_ident() {
            Some(n) => {
                g.type_params().any(|q| &q.ident == n && q.bounds.iter().any(fnish))
                    || g.where_clause.iter().flat_map(|w| w.predicates.iter()).any(|q| {
                        matches!(q, WherePredicate::Type(q)
                            if matches!(&q.bounded_ty, Type::Path(z) if z.path.is_ident(n)) && q.bounds.iter().any(fnish))
                    })
            }
            None => false,
        },
        _ => false,
    }
}
