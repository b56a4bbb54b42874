//! The "mirror": the meaning of a pure expression as a specification expression. It is used
//! for the postcondition of closures and inlined helpers, so that it follows the code.
use crate::deret;
use crate::kinds::*;
use crate::{Cx, R};
use quote::ToTokens;
use syn::*;

pub fn tt<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

impl Cx {
    /// `val`: the value itself is wanted, not the mathematical view of a Vec or a String
    pub fn sp(&mut self, e: &Expr, val: bool) -> R {
        let k = self.kind(e);
        match e {
            Expr::Paren(p) => Ok(format!("({})", self.sp(&p.expr, val)?)),
            Expr::Group(p) => self.sp(&p.expr, val),
            Expr::Reference(r) => {
                let s = self.sp(&r.expr, val)?;
                if k.is_seqlike() && !val {
                    Ok(s)
                } else {
                    Ok(format!("(&{})", s))
                }
            }
            Expr::Unary(u) => {
                let s = self.sp(&u.expr, val)?;
                match u.op {
                    UnOp::Deref(_) => {
                        if k.is_seqlike() && !val {
                            Ok(s)
                        } else {
                            Ok(format!("(*{})", s))
                        }
                    }
                    UnOp::Not(_) => Ok(format!("(!{})", s)),
                    _ => Err("unary operator".into()),
                }
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Str(s) => {
                    if val {
                        Ok(tt(s))
                    } else {
                        Ok(format!("{}@", tt(s)))
                    }
                }
                l => Ok(tt(l)),
            },
            Expr::Path(p) => {
                if p.path.segments.len() == 1 {
                    let n = p.path.segments[0].ident.to_string();
                    if let Some((k, rep)) = self.lookup(&n) {
                        let n = self.var_name(&n);
                        if k.is_seqlike() && !rep && !val {
                            return Ok(format!("{}@", n));
                        }
                        if k.is_seqlike() && rep && val {
                            return Err(format!("{} has no value in specifications", n));
                        }
                        return Ok(n);
                    }
                    if let Some((_, e)) = self.consts.get(&n).cloned() {
                        return self.sp(&e, val);
                    }
                }
                Ok(self.path_str(&p.path))
            }
            Expr::Field(f) => {
                let b = self.sp(&f.base, true)?;
                let m = tt(&f.member);
                if k.is_seqlike() && !val {
                    Ok(format!("{}.{}@", b, m))
                } else {
                    Ok(format!("{}.{}", b, m))
                }
            }
            Expr::Index(i) => {
                let bk = self.kind(&i.expr);
                if let Expr::Range(r) = &*i.index {
                    let b = self.sp(&i.expr, false)?;
                    let lo = match &r.start {
                        Some(s) => self.sp(s, true)?,
                        None => "0".into(),
                    };
                    let hi = match (&r.end, &r.limits) {
                        (Some(e), RangeLimits::HalfOpen(_)) => self.sp(e, true)?,
                        (Some(e), RangeLimits::Closed(_)) => format!("({} + 1)", self.sp(e, true)?),
                        (None, _) => format!("{}.len()", b),
                    };
                    if bk == K::Str {
                        return Ok(format!("str_sub({}, {}, {})", b, lo, hi));
                    }
                    return Ok(format!(
                        "{}.subrange({} as int, {} as int)",
                        b, lo, hi
                    ));
                }
                let ix = self.sp(&i.index, true)?;
                let s = match bk {
                    K::Map(_) => {
                        let b = self.sp(&i.expr, true)?;
                        format!("{}.get_spec({}).unwrap()", b, ix)
                    }
                    _ => {
                        let b = self.sp(&i.expr, false)?;
                        format!("{}[{} as int]", b, ix)
                    }
                };
                if k.is_seqlike() && !val {
                    Ok(format!("{}@", s))
                } else {
                    Ok(s)
                }
            }
            Expr::Tuple(t) => {
                let v: std::result::Result<Vec<_>, _> =
                    t.elems.iter().map(|e| self.sp(e, true)).collect();
                let v = v?;
                if v.len() == 1 {
                    Ok(format!("({},)", v[0]))
                } else {
                    Ok(format!("({})", v.join(", ")))
                }
            }
            Expr::Array(a) => {
                let v: std::result::Result<Vec<_>, _> =
                    a.elems.iter().map(|e| self.sp(e, true)).collect();
                Ok(format!("seq![{}]", v?.join(", ")))
            }
            Expr::Struct(s) => {
                let mut o = format!("{} {{ ", self.path_str(&s.path));
                for f in &s.fields {
                    o.push_str(&format!("{}: {}, ", tt(&f.member), self.sp(&f.expr, true)?));
                }
                if let Some(r) = &s.rest {
                    let r = self.sp(r, true)?;
                    o.push_str(&format!("..{}{}", if r == "self" { "*" } else { "" }, r));
                }
                o.push('}');
                Ok(o)
            }
            Expr::Binary(b) => {
                let l = self.sp(&b.left, false)?;
                let r = self.sp(&b.right, false)?;
                let op = tt(&b.op);
                match b.op {
                    BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) => {
                        Ok(format!("(({} {} {}) as usize)", l, op, r))
                    }
                    BinOp::Eq(_) if self.generic_eq && self.is_generic_eq(&b.left, &b.right) => {
                        Ok(format!("eqv(*{}, *{})", l, r))
                    }
                    BinOp::Ne(_) if self.generic_eq && self.is_generic_eq(&b.left, &b.right) => {
                        Ok(format!("!eqv(*{}, *{})", l, r))
                    }
                    BinOp::Eq(_) => {
                        // references are transparent in specifications, but typed
                        Ok(format!("({} == {})", strip_ref(&l), strip_ref(&r)))
                    }
                    BinOp::Ne(_) => Ok(format!("({} != {})", strip_ref(&l), strip_ref(&r))),
                    _ => Ok(format!("({} {} {})", l, op, r)),
                }
            }
            Expr::Cast(c) if matches!(*c.ty, Type::Reference(_)) => self.sp(&c.expr, val),
            Expr::Cast(c) => Ok(format!("({} as {})", self.sp(&c.expr, true)?, self.ty(&c.ty)?)),
            Expr::If(i) => {
                self.env.push(Default::default());
                let s = (|| {
                    let c = self.sp_cond(&i.cond)?;
                    let t = self.sp_block(&i.then_branch, val)?;
                    Ok::<_, String>((c, t))
                })();
                self.env.pop();
                let (c, t) = s?;
                let (_, el) = i.else_branch.as_ref().ok_or("if without else")?;
                let f = self.sp(el, val)?;
                Ok(if c.starts_with("let ") {
                    format!("(if {} {{ {} }} else {{ {} }})", c, t, f)
                } else {
                    format!("(if {} {{ {} }} else {{ {} }})", c, t, f)
                })
            }
            Expr::Match(m) => {
                let sk = self.kind(&m.expr);
                let sv = self.sp(&m.expr, true)?;
                let mut o = format!("(match {} {{ ", sv);
                for a in &m.arms {
                    self.env.push(Default::default());
                    self.bind_pat(&a.pat, &sk, false);
                    let b = self.sp(&a.body, val);
                    let g = match &a.guard {
                        Some((_, g)) => Some(self.sp(g, false)),
                        None => None,
                    };
                    self.env.pop();
                    o.push_str(&self.pat_str(&a.pat)?);
                    if let Some(g) = g {
                        o.push_str(&format!(" if {}", g?));
                    }
                    o.push_str(&format!(" => {{ {} }}, ", b?));
                }
                o.push_str("})");
                Ok(o)
            }
            Expr::Block(b) => Ok(format!("{{ {} }}", self.sp_block(&b.block, val)?)),
            Expr::Call(c) => self.sp_call(c, val),
            Expr::MethodCall(m) => {
                if let Some(e) = self.opt_desugar(m)? {
                    return self.sp(&e, val);
                }
                let (s, rep) = self.sp_method(m)?;
                if k.is_seqlike() && !rep && !val {
                    Ok(format!("{}@", s))
                } else if k.is_seqlike() && rep && val {
                    Err(format!(".{}() has no value in specifications", m.method))
                } else {
                    Ok(s)
                }
            }
            Expr::Macro(m) => {
                let n = last_seg(&m.mac.path).ident.to_string();
                match n.as_str() {
                    "vec" => {
                        let es = self.vec_elems(&m.mac)?;
                        let v: std::result::Result<Vec<_>, _> =
                            es.iter().map(|e| self.sp(e, true)).collect();
                        Ok(format!("seq![{}]", v?.join(", ")))
                    }
                    "format" if val => Err("format!".into()),
                    "format" => {
                        use syn::punctuated::Punctuated;
                        let p = m.mac
                            .parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                            .map_err(|_| "format! form")?;
                        let v: Vec<Expr> = p.into_iter().collect();
                        match &v[..] {
                            [Expr::Lit(l), x] if tt(l) == "\"{:?}\"" => Ok(format!("debug_text(*{})", self.sp(x, true)?)),
                            [Expr::Lit(l)] if tt(l).starts_with("\"{") && tt(l).ends_with(":?}\"") => {
                                let n = tt(l);
                                Ok(format!("debug_text(*{})", &n[2..n.len() - 4]))
                            }
                            _ => Err("format! form".into()),
                        }
                    }
                    "matches" => {
                        let (e, p, g) = self.matches_parts(&m.mac)?;
                        let s = self.sp(&e, true)?;
                        let g = match g {
                            Some(g) => self.sp(&g, false)?,
                            None => "true".into(),
                        };
                        Ok(format!(
                            "(match {} {{ {} => {{ {} }}, _ => false }})",
                            s,
                            self.pat_str(&p)?,
                            g
                        ))
                    }
                    _ => Err(format!("macro {}!", n)),
                }
            }
            _ => Err(format!("expression without a mirror: {}", short(e))),
        }
    }

    pub fn sp_cond(&mut self, c: &Expr) -> R {
        if let Expr::Let(l) = c {
            let k = self.kind(&l.expr);
            let s = self.sp(&l.expr, true)?;
            self.bind_pat(&l.pat, &k, false);
            return Ok(format!("let {} = {}", self.pat_str(&l.pat)?, s));
        }
        self.sp(c, false)
    }

    pub fn sp_block(&mut self, b: &Block, val: bool) -> R {
        self.env.push(Default::default());
        let r = self.sp_stmts(&b.stmts, &mut |cx, e| cx.sp(e, val));
        self.env.pop();
        r
    }

    pub fn sp_stmts(&mut self, stmts: &[Stmt], k: &mut dyn FnMut(&mut Cx, &Expr) -> R) -> R {
        let mut o = String::new();
        for (i, s) in stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    let init = l.init.as_ref().ok_or("let without value")?;
                    if init.diverge.is_some() {
                        return Err("let else".into());
                    }
                    if let Pat::Ident(pi) = &l.pat {
                        if pi.mutability.is_some() {
                            return Err("mutable local in a pure expression".into());
                        }
                    }
                    let kd = self.kind(&init.expr);
                    let (s, rep) = match self.sp(&init.expr, false) {
                        Ok(s) => (s, true),
                        Err(e) => return Err(e),
                    };
                    self.bind_pat(&l.pat, &kd, rep);
                    o.push_str(&format!("let {} = {}; ", self.pat_str(&strip_ty(&l.pat))?, s));
                }
                Stmt::Expr(e, None) if i + 1 == stmts.len() => {
                    o.push_str(&k(self, e)?);
                    return Ok(o);
                }
                Stmt::Item(Item::Const(c)) => {
                    let n = c.ident.to_string();
                    self.consts.insert(n, ((*c.ty).clone(), (*c.expr).clone()));
                }
                Stmt::Macro(m)
                    if last_seg(&m.mac.path).ident.to_string().starts_with("debug_assert") => {}
                // a statement that computes a value and throws it away
                Stmt::Expr(Expr::Lit(_), _) | Stmt::Expr(Expr::Tuple(_), _) => {}
                _ => return Err("statement in a pure expression".into()),
            }
        }
        Err("block without a value".into())
    }

    /// postcondition of a closure or helper: what its result `r` is
    pub fn ens(&mut self, r: &str, e: &Expr) -> R {
        match e {
            Expr::Paren(p) => self.ens(r, &p.expr),
            Expr::Block(b) => {
                self.env.push(Default::default());
                let rr = r.to_string();
                let s = self.sp_stmts(&b.block.stmts, &mut |cx, e| cx.ens(&rr, e));
                self.env.pop();
                Ok(format!("{{ {} }}", s?))
            }
            Expr::If(i) if i.else_branch.is_some() => {
                self.env.push(Default::default());
                let s = (|| {
                    let c = self.sp_cond(&i.cond)?;
                    let rr = r.to_string();
                    let t = self.sp_stmts(&i.then_branch.stmts, &mut |cx, e| cx.ens(&rr, e))?;
                    Ok::<_, String>((c, t))
                })();
                self.env.pop();
                let (c, t) = s?;
                let f = self.ens(r, &i.else_branch.as_ref().unwrap().1)?;
                Ok(format!("(if {} {{ {} }} else {{ {} }})", c, t, f))
            }
            Expr::Match(m) => {
                let sk = self.kind(&m.expr);
                let sv = self.sp(&m.expr, true)?;
                let mut o = format!("(match {} {{ ", sv);
                let coerced = self.str_arms(m);
                for a in &m.arms {
                    self.env.push(Default::default());
                    self.bind_pat(&a.pat, &sk, false);
                    let b = if coerced { self.sp(&a.body, false).map(|s| format!("strref_is({}, {})", r, s)) } else { self.ens(r, &a.body) };
                    let g = match &a.guard {
                        Some((_, g)) => Some(self.sp(g, false)),
                        None => None,
                    };
                    self.env.pop();
                    o.push_str(&self.pat_str(&a.pat)?);
                    if let Some(g) = g {
                        o.push_str(&format!(" if {}", g?));
                    }
                    o.push_str(&format!(" => {{ {} }}, ", b?));
                }
                o.push_str("})");
                Ok(o)
            }
            Expr::Tuple(t) if !t.elems.is_empty() => {
                if let Ok(s) = self.sp(e, true) {
                    return Ok(format!("same({}, {})", r, s));
                }
                let mut v = vec![];
                let mut n = vec![];
                for x in t.elems.iter() {
                    let id = format!("r{}", self.fresh());
                    v.push(self.ens(&id, x)?);
                    n.push(id);
                }
                Ok(format!("({{ let ({},) = {}; {} }})", n.join(", "), r, v.join(" && ")))
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if matches!(tt(&p.path).replace(' ', "").as_str(), "drop" | "mem::drop" | "std::mem::drop")) => Ok("true".into()),
            Expr::Call(c) if c.args.is_empty() && matches!(&*c.func, Expr::Path(p) if self.path_str(&p.path) == "Default::default") => {
                Ok(format!("dflt({})", r))
            }
            e => {
                if let Expr::MethodCall(m) = e {
                    if let Some(e) = self.opt_desugar(m)? {
                        return self.ens(r, &e);
                    }
                }
                let k = self.kind(e);
                match &k {
                    K::Iter(x) => {
                        if x.is_seqlike() && self.elem_rep(e) {
                            Ok(format!("it_it_is({}, {})", r, self.sp(e, false)?))
                        } else {
                            Ok(format!("it_is({}, {})", r, self.sp(e, false)?))
                        }
                    }
                    K::Seq(_) => Ok(format!("{}({}, {})", self.seq_is(e), r, self.sp(e, false)?)),
                    K::Str => match self.sp(e, true) {
                        Ok(s) => Ok(format!("same({}, {})", r, s)),
                        Err(_) => {
                            let slice = match e {
                                Expr::Reference(_) => true,
                                Expr::MethodCall(m) => m.method == "as_str" || m.method == "as_ref",
                                _ => false,
                            };
                            Ok(format!("{}({}, {})", if slice { "strref_is" } else { "string_is" }, r, self.sp(e, false)?))
                        }
                    },
                    K::Opt(x) if x.is_seqlike() && self.elem_rep(e) => {
                        let f = match **x {
                            K::Iter(_) => "opt_it_is",
                            K::Seq(_) => match self.seq_is(e) {
                                "slice_is" => "opt_slice_is",
                                "vref_is" => "opt_vref_is",
                                _ => "opt_vec_is",
                            },
                            _ => "opt_str_is",
                        };
                        Ok(format!("{}({}, {})", f, r, self.sp(e, false)?))
                    }
                    _ => Ok(format!("same({}, {})", r, self.sp(e, true)?)),
                }
            }
        }
    }

    /// the relation between a list (a Vec, a slice, a reference to a Vec) and its elements
    pub fn seq_is(&mut self, e: &Expr) -> &'static str {
        match e {
            Expr::Paren(p) => self.seq_is(&p.expr),
            Expr::Reference(r) => match &*r.expr {
                Expr::Array(_) | Expr::Index(_) => "slice_is",
                _ => "vref_is",
            },
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.seq_is(&e.clone()),
                _ => "vec_is",
            },
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.seq_is(&e.clone()),
                _ => "vec_is",
            },
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "as_slice" => "slice_is",
                "downcast_ref" => "vref_is",
                "unwrap" | "expect" | "unwrap_or" | "unwrap_or_else" | "unwrap_or_default" => self.seq_is(&m.receiver),
                n => {
                    let n = n.to_string();
                    if let Some(v) = self.by_name.get(&n) {
                        let f = &self.fns[v[0]];
                        if let ReturnType::Type(_, t) = &f.sig.output {
                            if let Type::Reference(r) = &**t {
                                return if matches!(&*r.elem, Type::Slice(_)) { "slice_is" } else { "vref_is" };
                            }
                        }
                    }
                    "vec_is"
                }
            },
            _ => "vec_is",
        }
    }

    /// are the elements of this iterator / Option mirrored as sequences (not as Vec, Iter ..)?
    pub fn elem_rep(&mut self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.elem_rep(&p.expr),
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "map" => {
                    let rk = self.kind(&m.receiver);
                    self.closure_kind(&m.args[0], rk.elem()).is_seqlike()
                        && !self.closure_returns_value(&m.args[0])
                }
                "filter_map" | "flat_map" => {
                    // the elements come out of what the closure makes
                    if let Expr::Closure(c) = &m.args[0] {
                        let rk = self.kind(&m.receiver);
                        self.env.push(Default::default());
                        for p in &c.inputs {
                            self.bind_pat(p, &rk.elem(), false)
                        }
                        let b = match &*c.body {
                            Expr::Block(b) => match b.block.stmts.last() {
                                Some(Stmt::Expr(e, None)) => Some(e.clone()),
                                _ => None,
                            },
                            e => Some(e.clone()),
                        };
                        let r = match b {
                            Some(b) => self.elem_rep(&b),
                            None => false,
                        };
                        self.env.pop();
                        r
                    } else {
                        false
                    }
                }
                "filter" | "rev" | "chain" | "skip" | "take" | "into_iter" => {
                    self.elem_rep(&m.receiver)
                }
                "downcast_ref" => true,
                "and_then" => false,
                _ => false,
            },
            _ => false,
        }
    }
    /// the closure returns a place (a reference to something that exists)
    fn closure_returns_value(&mut self, c: &Expr) -> bool {
        if let Expr::Closure(c) = c {
            matches!(&*c.body, Expr::Path(_) | Expr::Field(_))
        } else {
            false
        }
    }

    pub fn sp_closure_body(&mut self, c: &Expr, seq: &str, k: K, rep: bool, nargs: usize, deref: bool, wrap: &dyn Fn(String) -> String, bodyval: bool) -> R {
        let c = self.eta(c, nargs)?;
        let body = deret::deret(&c.body)?;
        let id = self.fresh();
        self.env.push(Default::default());
        let pat = strip_ty(&c.inputs[0]);
        self.bind_pat(&pat, &k, rep);
        let b = self.sp(&body, bodyval);
        self.env.pop();
        let pat = if deref { strip_refpat(&pat) } else { pat };
        Ok(format!(
            "|q{id}| {{ let {pat} = pin({seq}, q{id}); {b} }}",
            id = id,
            pat = self.pat_str(&pat)?,
            seq = seq,
            b = wrap(b?)
        ))
    }

    /// (text, is it a mathematical sequence when the kind is sequence-like)
    fn sp_method(&mut self, m: &ExprMethodCall) -> std::result::Result<(String, bool), String> {
        let n = m.method.to_string();
        let rk = self.kind(&m.receiver);
        let erep = self.elem_rep(&m.receiver);
        let nargs = m.args.len();
        let id = self.fresh();
        let g = format!("s{}", id);
        let builtin_get = n == "get" && nargs == 1;
        macro_rules! recv {
            () => {
                self.sp(&m.receiver, false)?
            };
        }
        macro_rules! recvv {
            () => {
                self.sp(&m.receiver, true)?
            };
        }
        let is_opt = matches!(rk, K::Opt(_));
        Ok(match (n.as_str(), nargs) {
            ("iter", 0) => (format!("refs({})", recv!()), true),
            ("into_iter", 0) => {
                if is_opt {
                    (format!("opt_seq({})", self.sp(&m.receiver, false)?), true)
                } else {
                    (recv!(), true)
                }
            }
            ("chars", 0) => (recv!(), true),
            ("tags", 0) if !self.by_name.contains_key("tags") => (format!("{}.list()", recvv!()), true),
            ("map", 1) if is_opt => (self.sp_opt(m, erep, &|b| format!("Some({})", b), "None")?, true),
            ("and_then", 1) => (self.sp_opt(m, erep, &|b| b, "None")?, true),
            ("map", 1) => {
                let r = recv!();
                let bk = self.closure_kind(&m.args[0], rk.elem());
                let bodyval = !bk.is_seqlike() || self.closure_returns_value(&m.args[0]);
                let c = self.sp_closure_body(&m.args[0], &g, rk.elem(), erep, 1, false, &|b| b, bodyval)?;
                (format!("{{ let {g} = {r}; {g}.map_values({c}) }}"), true)
            }
            ("filter_map", 1) | ("flat_map", 1) => {
                let r = recv!();
                let bk = self.closure_kind(&m.args[0], rk.elem());
                let c = if n == "filter_map" || matches!(bk, K::Opt(_)) {
                    self.sp_closure_body(&m.args[0], &g, rk.elem(), erep, 1, false, &|b| format!("opt_seq({})", b), false)?
                } else {
                    self.sp_closure_body(&m.args[0], &g, rk.elem(), erep, 1, false, &|b| b, false)?
                };
                (format!("{{ let {g} = {r}; {g}.map_values({c}).flatten() }}"), true)
            }
            ("flatten", 0) if !is_opt => {
                let r = recv!();
                match rk.elem() {
                    K::Opt(_) => (format!("flatten_opts({})", r), true),
                    _ if erep => (format!("{}.flatten()", r), true),
                    _ => (format!("flatten_its({})", r), true),
                }
            }
            ("filter", 1) if !is_opt => {
                let r = recv!();
                let c = self.sp_closure_body(&m.args[0], &g, rk.elem(), erep, 1, true, &|b| b, false)?;
                (format!("{{ let {g} = {r}; {g}.filter({c}) }}"), true)
            }
            ("all", 1) | ("any", 1) => {
                let r = recv!();
                let c = self.sp_closure_body(&m.args[0], &g, rk.elem(), erep, 1, false, &|b| b, false)?;
                let f = if n == "all" { "seq_all" } else { "seq_any" };
                (format!("{{ let {g} = {r}; {f}({g}, {c}) }}"), true)
            }
            ("chain", 1) => {
                let r = recv!();
                let ak = self.kind(&m.args[0]);
                let a = self.sp(&m.args[0], false)?;
                let a = if matches!(ak, K::Opt(_)) { format!("opt_seq({})", a) } else { a };
                (format!("({} + {})", r, a), true)
            }
            ("collect", 0) => {
                if self.kind(&Expr::MethodCall(m.clone())) == K::Str {
                    return Err("collect into a String".into());
                }
                (recv!(), true)
            }
            ("rev", 0) => (format!("{}.reverse()", recv!()), true),
            ("enumerate", 0) => (format!("enumerated({})", recv!()), true),
            ("cloned", 0) | ("copied", 0) if !is_opt => (format!("derefs({})", recv!()), true),
            ("cloned", 0) | ("copied", 0) => (format!("opt_deref({})", recvv!()), false),
            ("take", 1) => (format!("seq_take({}, {})", recv!(), self.sp(&m.args[0], true)?), true),
            ("skip", 1) => (format!("seq_skip({}, {})", recv!(), self.sp(&m.args[0], true)?), true),
            ("next", 0) | ("first", 0) if !self.has_user(&n, 0) => (format!("seq_first({})", recv!()), false),
            ("last", 0) => (format!("seq_last({})", recv!()), false),
            ("clone", 0) | ("to_owned", 0) | ("borrow", 0) => match self.sp(&m.receiver, true) {
                Ok(s) => (deref_ref(&s), false),
                Err(_) => (recv!(), true),
            },
            ("as_ref", 0) | ("as_slice", 0) | ("as_str", 0) | ("to_vec", 0) | ("to_string", 0) => {
                (recv!(), true)
            }
            ("as_any", 0) => (recvv!(), false),
            ("downcast_ref", 0) => {
                let r = recvv!();
                let t = m.turbofish.as_ref().ok_or("downcast without type")?;
                match t.args.first() {
                    Some(GenericArgument::Type(Type::Path(p))) if last_seg(&p.path).ident == "Vec" => {
                        let e = generic_args(last_seg(&p.path));
                        (format!("{}.downcast_spec::<{}>()", r, self.ty(&e[0])?), true)
                    }
                    _ => return Err("downcast to something else than a Vec".into()),
                }
            }
            ("to_lowercase", 0) => (format!("lower(chars_of({}))", recv!()), true),
            ("len", 0) => {
                if rk == K::Str {
                    (format!("str_len({})", recv!()), true)
                } else {
                    (format!("({}.len() as usize)", recv!()), true)
                }
            }
            ("is_empty", 0) => (format!("({}.len() == 0)", recv!()), true),
            ("is_some", 0) => (format!("{}.is_some()", recv!()), true),
            ("is_none", 0) => (format!("{}.is_none()", recv!()), true),
            ("unwrap", 0) | ("expect", 1) => {
                let r = recv!();
                (format!("{}.unwrap()", r), erep)
            }
            ("unwrap_or", 1) => {
                let r = recv!();
                let d = self.sp(&m.args[0], !erep)?;
                (format!("opt_or({}, {})", r, d), erep)
            }
            ("unwrap_or_default", 0) if erep => (format!("opt_or({}, Seq::empty())", recv!()), true),
            ("unwrap_or_else", 1) => {
                let r = recv!();
                let c = self.eta(&m.args[0], 0)?;
                let d = self.sp(&c.body, !erep)?;
                (format!("opt_or({}, {})", r, d), erep)
            }
            ("checked_sub", 1) => {
                let r = recv!();
                let a = self.sp(&m.args[0], true)?;
                (format!("checked_sub_spec({}, {})", r, a), true)
            }
            ("saturating_sub", 1) => {
                let r = recv!();
                let a = self.sp(&m.args[0], true)?;
                (format!("saturating_sub_spec({}, {})", r, a), true)
            }
            ("max", 1) => {
                let r = recv!();
                let a = self.sp(&m.args[0], true)?;
                (format!("max_spec({}, {})", r, a), true)
            }
            ("min", 1) => {
                let r = recv!();
                let a = self.sp(&m.args[0], true)?;
                (format!("min_spec({}, {})", r, a), true)
            }
            ("contains", 1) => {
                let r = recv!();
                let ak = self.kind(&m.args[0]);
                if ak == K::Str {
                    (format!("str_in({}, {})", r, self.sp(&m.args[0], false)?), true)
                } else {
                    (format!("slice_has({}, {})", r, self.sp(&m.args[0], true)?), true)
                }
            }
            ("is_alphabetic", 0) => (format!("c_alpha({})", recvv!()), true),
            ("is_whitespace", 0) => (format!("c_white({})", recvv!()), true),
            ("is_ascii_digit", 0) => (format!("c_digit({})", recvv!()), true),
            _ if builtin_get && matches!(rk, K::Seq(_)) => {
                let a = self.sp(&m.args[0], true)?;
                (format!("seq_get({}, {})", recv!(), a), false)
            }
            _ => return self.sp_user_method(m, builtin_get),
        })
    }

    fn sp_opt(&mut self, m: &ExprMethodCall, erep: bool, wrap: &dyn Fn(String) -> String, none: &str) -> R {
        let rk = self.kind(&m.receiver);
        let r = self.sp(&m.receiver, false)?;
        let c = self.eta(&m.args[0], 1)?;
        let body = deret::deret(&c.body)?;
        self.env.push(Default::default());
        let pat = strip_ty(&c.inputs[0]);
        self.bind_pat(&pat, &rk.elem(), erep);
        let bk = self.kind(&body);
        let b = self.sp(&body, !(bk.is_seqlike()));
        self.env.pop();
        Ok(format!(
            "(match {} {{ Some({}) => {{ {} }}, None => {{ {} }} }})",
            r,
            self.pat_str(&pat)?,
            wrap(b?),
            none
        ))
    }

    fn has_user(&self, n: &str, nargs: usize) -> bool {
        self.by_name.get(n).map_or(false, |v| {
            v.iter().any(|i| {
                self.fns[*i]
                    .sig
                    .inputs
                    .iter()
                    .filter(|a| matches!(a, FnArg::Typed(_)))
                    .count()
                    == nargs
            })
        })
    }

    fn sp_user_method(
        &mut self,
        m: &ExprMethodCall,
        builtin_get: bool,
    ) -> std::result::Result<(String, bool), String> {
        let n = m.method.to_string();
        if !builtin_get {
            if let Some(i) = self.inline_target(&n, m.args.len(), true) {
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                return Ok((self.sp_inline(i, Some(&m.receiver), &args)?, true));
            }
            if self.by_name.contains_key(&n) && !self.spec_known(&n) {
                return Err(format!("{}() has no specification function", n));
            }
        }
        let r = self.sp(&m.receiver, true)?;
        let mut a = vec![];
        for x in &m.args {
            a.push(match self.sp(x, true) {
                Err(_) if builtin_get => format!("(&{})", self.sp(x, false)?),
                r => r?,
            })
        }
        let tf = match &m.turbofish {
            Some(t) => self.turbofish(t)?,
            None => String::new(),
        };
        Ok((format!("{}.{}_spec{}({})", r, n, tf, a.join(", ")), !builtin_get))
    }

    pub fn spec_known(&self, n: &str) -> bool {
        self.c
            .fns
            .values()
            .any(|c| c.has_spec && (c.key == n || c.key.ends_with(&format!("::{}", n))))
    }

    fn sp_call(&mut self, c: &ExprCall, _val: bool) -> R {
        if let Expr::Path(p) = &*c.func {
            let n = last_seg(&p.path).ident.to_string();
            let full = self.path_str(&p.path);
            if full == "TypeId::of" || n == "of" {
                let s = tt(&p.path);
                if s.contains("TypeId") {
                    let seg = last_seg(&p.path);
                    let a = generic_args(seg);
                    return Ok(format!("tid::<{}>()", self.ty(&a[0])?));
                }
            }
            if full == "TagSet::of" && c.args.len() == 1 {
                return Ok(format!("tag_set_of({})", self.sp(&c.args[0], false)?));
            }
            if full == "Vec::new" {
                return Ok("Seq::empty()".into());
            }
            if full == "String::new" {
                return Ok("Seq::<char>::empty()".into());
            }
            if full == "String::from_iter" && c.args.len() == 1 && self.elem_rep(&c.args[0]) {
                return Ok(format!("{}.flatten()", self.sp(&c.args[0], false)?));
            }
            if full == "String::from" {
                if self.kind(&c.args[0]) == K::Char {
                    return Ok(format!("seq![{}]", self.sp(&c.args[0], true)?));
                }
                return self.sp(&c.args[0], false);
            }
            if n.chars().next().unwrap().is_uppercase() {
                let mut a = vec![];
                for x in &c.args {
                    let k = self.kind(x);
                    let wantval = !(n == "Some" && k.is_seqlike() && self.sp(x, true).is_err());
                    a.push(self.sp(x, wantval)?)
                }
                return Ok(format!("{}({})", full, a.join(", ")));
            }
            if let Some(i) = self.inline_target(&n, c.args.len(), false) {
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                return self.sp_inline(i, None, &args);
            }
            if self.spec_known(&n) {
                let mut a = vec![];
                for x in &c.args {
                    a.push(self.sp(x, true)?)
                }
                return Ok(format!("{}_spec({})", full, a.join(", ")));
            }
            return Err(format!("call of {}", full));
        }
        Err("call of a value".into())
    }

    fn sp_inline(&mut self, i: usize, recv: Option<&Expr>, args: &[Expr]) -> R {
        self.depth += 1;
        if self.depth > 6 {
            self.depth -= 1;
            return Err("recursive helper".into());
        }
        let f = self.fns[i].clone();
        self.inlined.insert(f.key.clone());
        let r = (|| {
            let block = self.helper_block(f.block.as_ref().unwrap());
            let body = deret::deret_stmts(&block.stmts)?;
            let mut names = vec![];
            let mut vals = vec![];
            let mut kinds = vec![];
            let mut self_alias = None;
            for a in &f.sig.inputs {
                match a {
                    FnArg::Receiver(_) => {
                        let r = recv.ok_or("missing receiver")?;
                        let s = self.sp(r, true)?;
                        if s != "self" {
                            let id = self.fresh();
                            let n = format!("self_{}", id);
                            names.push(n.clone());
                            vals.push(s);
                            kinds.push((None, K::Other, false));
                            self_alias = Some(n);
                        }
                    }
                    FnArg::Typed(t) => {
                        let ix = kinds.iter().filter(|x: &&(Option<Pat>, K, bool)| x.0.is_some()).count();
                        let k = self.kind_of_type(&t.ty);
                        let (v, rep) = match self.sp(&args[ix], true) {
                            Ok(v) => (v, false),
                            Err(_) => (self.sp(&args[ix], false)?, true),
                        };
                        names.push(self.pat_str(&strip_ty(&t.pat))?);
                        vals.push(v);
                        kinds.push((Some((*t.pat).clone()), k, rep));
                    }
                }
            }
            let saved_env = std::mem::replace(&mut self.env, vec![Default::default()]);
            for (p, k, rep) in &kinds {
                if let Some(p) = p {
                    self.bind_pat(p, k, *rep)
                }
            }
            let saved_alias = self.self_alias.clone();
            if let Some(a) = &self_alias {
                self.self_alias = Some(a.clone());
            }
            let b = self.sp(&body, false);
            self.self_alias = saved_alias;
            self.env = saved_env;
            let b = b?;
            Ok(if names.is_empty() {
                format!("{{ {} }}", b)
            } else if names.len() == 1 {
                format!("{{ let {} = {}; {} }}", names[0], vals[0], b)
            } else {
                format!("{{ let ({}) = ({}); {} }}", names.join(", "), vals.join(", "), b)
            })
        })();
        self.depth -= 1;
        r
    }
}

pub fn strip_ref(s: &str) -> String {
    // "(&x)" -> "x"
    if let Some(x) = s.strip_prefix("(&") {
        if let Some(x) = x.strip_suffix(')') {
            return format!("({})", x);
        }
    }
    s.to_string()
}
pub fn deref_ref(s: &str) -> String {
    s.to_string()
}

pub fn strip_ty(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}
pub fn strip_refpat(p: &Pat) -> Pat {
    match p {
        Pat::Reference(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}
pub fn short(e: &Expr) -> String {
    let s = tt(e);
    s.chars().take(60).collect()
}
