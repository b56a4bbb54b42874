//! A coarse notion of what an expression evaluates to, enough to tell an Option from an
//! iterator and a sequence from a scalar.
use crate::Cx;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Iter(Box<K>),
    Seq(Box<K>),
    Opt(Box<K>),
    Map(Box<K>),
    Tup(Vec<K>),
    Str,
    Char,
    Int,
    Bool,
    Other,
}

impl K {
    pub fn elem(&self) -> K {
        match self {
            K::Iter(k) | K::Seq(k) | K::Opt(k) => (**k).clone(),
            _ => K::Other,
        }
    }
    pub fn is_seqlike(&self) -> bool {
        matches!(self, K::Iter(_) | K::Seq(_) | K::Str)
    }
}

pub fn bx(k: K) -> Box<K> {
    Box::new(k)
}

pub fn last_seg(p: &Path) -> &PathSegment {
    p.segments.last().unwrap()
}

pub fn generic_args(s: &PathSegment) -> Vec<Type> {
    match &s.arguments {
        PathArguments::AngleBracketed(a) => a
            .args
            .iter()
            .filter_map(|a| match a {
                GenericArgument::Type(t) => Some(t.clone()),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}

impl Cx {
    pub fn kind_of_type(&self, t: &Type) -> K {
        match t {
            Type::Reference(r) => self.kind_of_type(&r.elem),
            Type::Paren(p) => self.kind_of_type(&p.elem),
            Type::Group(p) => self.kind_of_type(&p.elem),
            Type::Slice(s) => K::Seq(bx(self.kind_of_type(&s.elem))),
            Type::Array(s) => K::Seq(bx(self.kind_of_type(&s.elem))),
            Type::Tuple(t) => K::Tup(t.elems.iter().map(|t| self.kind_of_type(t)).collect()),
            Type::ImplTrait(i) => {
                for b in &i.bounds {
                    if let TypeParamBound::Trait(tb) = b {
                        let s = last_seg(&tb.path);
                        if s.ident == "Iterator"
                            || s.ident == "IntoIterator"
                            || s.ident == "DoubleEndedIterator"
                            || s.ident == "ExactSizeIterator"
                        {
                            if let PathArguments::AngleBracketed(a) = &s.arguments {
                                for g in &a.args {
                                    if let GenericArgument::AssocType(at) = g {
                                        return K::Iter(bx(self.kind_of_type(&at.ty)));
                                    }
                                }
                            }
                            return K::Iter(bx(K::Other));
                        }
                    }
                }
                K::Other
            }
            Type::Path(p) => {
                let s = last_seg(&p.path);
                let name = s.ident.to_string();
                let args = generic_args(s);
                let g = |i: usize| {
                    args.get(i)
                        .map(|t| self.kind_of_type(t))
                        .unwrap_or(K::Other)
                };
                match name.as_str() {
                    "Vec" => K::Seq(bx(g(0))),
                    "Option" => K::Opt(bx(g(0))),
                    "String" | "str" => K::Str,
                    "HashMap" => K::Map(bx(g(1))),
                    "usize" | "u32" | "u64" | "i32" | "i64" | "isize" | "u8" => K::Int,
                    "bool" => K::Bool,
                    "char" => K::Char,
                    "Rc" | "Box" => g(0),
                    _ => match self.aliases.get(&name) {
                        Some(t) => self.kind_of_type(&t.clone()),
                        None => K::Other,
                    },
                }
            }
            _ => K::Other,
        }
    }

    pub fn bind(&mut self, name: &str, k: K, rep: bool) {
        self.env
            .last_mut()
            .unwrap()
            .insert(name.to_string(), (k, rep));
    }
    pub fn lookup(&self, name: &str) -> Option<(K, bool)> {
        for s in self.env.iter().rev() {
            if let Some(x) = s.get(name) {
                return Some(x.clone());
            }
        }
        None
    }
    pub fn bind_pat(&mut self, p: &Pat, k: &K, rep: bool) {
        match p {
            Pat::Ident(i) => {
                self.bind(&i.ident.to_string(), k.clone(), rep);
                if let Some((_, s)) = &i.subpat {
                    self.bind_pat(s, k, rep)
                }
            }
            Pat::Type(t) => {
                let k2 = self.kind_of_type(&t.ty);
                self.bind_pat(&t.pat, &if k2 == K::Other { k.clone() } else { k2 }, rep)
            }
            Pat::Reference(r) => self.bind_pat(&r.pat, k, rep),
            Pat::Paren(r) => self.bind_pat(&r.pat, k, rep),
            Pat::Tuple(t) => {
                for (i, p) in t.elems.iter().enumerate() {
                    let e = match k {
                        K::Tup(v) => v.get(i).cloned().unwrap_or(K::Other),
                        _ => K::Other,
                    };
                    self.bind_pat(p, &e, rep)
                }
            }
            Pat::TupleStruct(t) => {
                let n = last_seg(&t.path).ident.to_string();
                let fields = self.variants.get(&n).cloned();
                for (i, p) in t.elems.iter().enumerate() {
                    let e = match (&n[..], k, &fields) {
                        ("Some", K::Opt(k), _) => (**k).clone(),
                        ("Ok", k, _) => (*k).clone(),
                        (_, _, Some(f)) => f
                            .get(i)
                            .map(|t| self.kind_of_type(&t.1))
                            .unwrap_or(K::Other),
                        _ => K::Other,
                    };
                    self.bind_pat(p, &e, rep && n == "Some")
                }
            }
            Pat::Struct(s) => {
                for f in &s.fields {
                    let n = match &f.member {
                        Member::Named(i) => i.to_string(),
                        Member::Unnamed(i) => i.index.to_string(),
                    };
                    let e = self.field_kind(&n);
                    self.bind_pat(&f.pat, &e, false)
                }
            }
            Pat::Slice(s) => {
                for p in &s.elems {
                    self.bind_pat(p, &k.elem(), rep)
                }
            }
            Pat::Or(o) => {
                for p in &o.cases {
                    self.bind_pat(p, k, rep)
                }
            }
            _ => {}
        }
    }

    pub fn field_kind(&self, n: &str) -> K {
        self.fields
            .get(n)
            .map(|t| self.kind_of_type(t))
            .unwrap_or(K::Other)
    }

    pub fn closure_kind(&mut self, c: &Expr, arg: K) -> K {
        match c {
            Expr::Closure(c) => {
                self.env.push(Default::default());
                for p in &c.inputs {
                    self.bind_pat(p, &arg, false);
                }
                let k = match &c.output {
                    ReturnType::Type(_, t) => self.kind_of_type(t),
                    _ => self.kind(&c.body),
                };
                self.env.pop();
                k
            }
            Expr::Path(p) => {
                let n = last_seg(&p.path).ident.to_string();
                match n.as_str() {
                    "as_slice" => K::Seq(bx(K::Other)),
                    "to_lowercase" | "to_string" => K::Str,
                    _ => self.fn_kind(&n),
                }
            }
            _ => K::Other,
        }
    }

    pub fn fn_kind(&self, name: &str) -> K {
        if let Some(v) = self.by_name.get(name) {
            let i = &self.fns[v[0]];
            if let ReturnType::Type(_, t) = &i.sig.output {
                return self.kind_of_type(t);
            }
        }
        K::Other
    }

    pub fn block_kind(&mut self, b: &Block) -> K {
        self.env.push(Default::default());
        let mut k = K::Other;
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    let ik = match &l.init {
                        Some(x) => self.kind(&x.expr),
                        None => K::Other,
                    };
                    self.bind_pat(&l.pat, &ik, false);
                }
                Stmt::Expr(e, None) if i + 1 == b.stmts.len() => k = self.kind(e),
                _ => {}
            }
        }
        self.env.pop();
        k
    }

    pub fn kind(&mut self, e: &Expr) -> K {
        match e {
            Expr::Path(p) => {
                if p.path.segments.len() == 1 {
                    let n = p.path.segments[0].ident.to_string();
                    if let Some((k, _)) = self.lookup(&n) {
                        return k;
                    }
                    if let Some((t, _)) = self.consts.get(&n) {
                        let t = t.clone();
                        return self.kind_of_type(&t);
                    }
                    if n == "None" {
                        return K::Opt(bx(K::Other));
                    }
                    if n == "ENGLISH_TAG_LOOKUP" {
                        return K::Map(bx(K::Other));
                    }
                }
                K::Other
            }
            Expr::Field(f) => match &f.member {
                Member::Named(i) => self.field_kind(&i.to_string()),
                Member::Unnamed(ix) => match self.kind(&f.base) {
                    K::Tup(v) => v.get(ix.index as usize).cloned().unwrap_or(K::Other),
                    _ => K::Other,
                },
            },
            Expr::Reference(r) => self.kind(&r.expr),
            Expr::Paren(r) => self.kind(&r.expr),
            Expr::Group(r) => self.kind(&r.expr),
            Expr::Unary(u) => match u.op {
                UnOp::Not(_) => K::Bool,
                _ => self.kind(&u.expr),
            },
            Expr::Binary(b) => match b.op {
                BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) => {
                    K::Int
                }
                _ => K::Bool,
            },
            Expr::Lit(l) => match l.lit {
                Lit::Str(_) => K::Str,
                Lit::Char(_) => K::Char,
                Lit::Int(_) => K::Int,
                Lit::Bool(_) => K::Bool,
                _ => K::Other,
            },
            Expr::Tuple(t) => K::Tup(t.elems.iter().map(|e| self.kind(e)).collect()),
            Expr::Array(a) => K::Seq(bx(a.elems.first().map(|e| self.kind(e)).unwrap_or(K::Other))),
            Expr::Range(_) => K::Iter(bx(K::Int)),
            Expr::Try(t) => self.kind(&t.expr).elem(),
            Expr::Cast(c) => self.kind_of_type(&c.ty),
            Expr::Index(i) => match (&*i.index, self.kind(&i.expr)) {
                (Expr::Range(_), k) => k,
                (_, K::Map(k)) => *k,
                (_, k) => k.elem(),
            },
            Expr::If(i) => {
                let k = self.block_kind(&i.then_branch);
                match (&k, &i.else_branch) {
                    (K::Other, Some((_, e))) => self.kind(e),
                    (K::Opt(a), Some((_, e))) if **a == K::Other => match self.kind(e) {
                        K::Other => k,
                        k2 => k2,
                    },
                    _ => k,
                }
            }
            Expr::Match(m) => {
                let sk = self.kind(&m.expr);
                let mut best = K::Other;
                for a in &m.arms {
                    self.env.push(Default::default());
                    self.bind_pat(&a.pat, &sk, false);
                    let k = self.kind(&a.body);
                    self.env.pop();
                    match (&best, &k) {
                        (K::Other, _) => best = k,
                        (K::Opt(b), K::Opt(_)) if **b == K::Other => best = k,
                        _ => {}
                    }
                }
                best
            }
            Expr::Block(b) => self.block_kind(&b.block),
            Expr::Macro(m) => match last_seg(&m.mac.path).ident.to_string().as_str() {
                "vec" => K::Seq(bx(K::Other)),
                "format" => K::Str,
                _ => K::Other,
            },
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = last_seg(&p.path).ident.to_string();
                    let pre = if p.path.segments.len() > 1 {
                        p.path.segments[p.path.segments.len() - 2].ident.to_string()
                    } else {
                        String::new()
                    };
                    match n.as_str() {
                        "Some" => return K::Opt(bx(self.kind(&c.args[0]))),
                        "Ok" => return self.kind(&c.args[0]),
                        "new" | "with_capacity" if pre == "Vec" => return K::Seq(bx(K::Other)),
                        "new" | "from" | "from_iter" if pre == "String" => return K::Str,
                        "repeat" => return K::Iter(bx(K::Other)),
                        _ => {}
                    }
                    return self.fn_kind(&n);
                }
                K::Other
            }
            Expr::MethodCall(m) => self.method_kind(m),
            _ => K::Other,
        }
    }

    fn method_kind(&mut self, m: &ExprMethodCall) -> K {
        let n = m.method.to_string();
        let rk = self.kind(&m.receiver);
        let nargs = m.args.len();
        match (n.as_str(), nargs) {
            ("iter", 0) => K::Iter(bx(rk.elem())),
            ("into_iter", 0) => K::Iter(bx(rk.elem())),
            ("chars", 0) => K::Iter(bx(K::Char)),
            ("tags", 0) if !self.by_name.contains_key("tags") => K::Iter(bx(K::Other)),
            ("split_word_bounds", 0) => K::Iter(bx(K::Str)),
            ("windows", 1) | ("chunks", 1) => K::Iter(bx(rk)),
            ("map", 1) => {
                let b = self.closure_kind(&m.args[0], rk.elem());
                match rk {
                    K::Opt(_) => K::Opt(bx(b)),
                    _ => K::Iter(bx(b)),
                }
            }
            ("filter_map", 1) | ("flat_map", 1) => {
                let b = self.closure_kind(&m.args[0], rk.elem());
                K::Iter(bx(b.elem()))
            }
            ("flatten", 0) => match rk {
                K::Opt(k) => *k,
                K::Iter(k) => K::Iter(bx(k.elem())),
                _ => K::Iter(bx(K::Other)),
            },
            ("filter", 1) | ("rev", 0) | ("chain", 1) | ("skip", 1) | ("take", 1)
            | ("cloned", 0) | ("copied", 0) | ("clone", 0) | ("as_ref", 0) | ("as_slice", 0)
            | ("to_vec", 0) | ("or_else", 1) | ("or", 1) | ("skip_while", 1) | ("take_while", 1)
            | ("by_ref", 0) | ("peekable", 0) | ("as_deref", 0) | ("to_owned", 0) => rk,
            ("enumerate", 0) => K::Iter(bx(K::Tup(vec![K::Int, rk.elem()]))),
            ("collect", 0) => {
                if let Some(tf) = &m.turbofish {
                    if let Some(GenericArgument::Type(t)) = tf.args.first() {
                        let k = self.kind_of_type(t);
                        if k != K::Seq(bx(K::Other)) {
                            return k;
                        }
                    }
                }
                K::Seq(bx(rk.elem()))
            }
            ("next", 0) | ("last", 0) | ("first", 0) | ("nth", 1) | ("find", 1) | ("pop", 0)
            | ("get_mut", 1) | ("next_back", 0) => {
                if self.by_name.contains_key(&n) && !matches!(rk, K::Iter(_) | K::Seq(_)) {
                    return self.fn_kind(&n);
                }
                K::Opt(bx(rk.elem()))
            }
            ("get", 1) => match rk {
                K::Map(k) => K::Opt(k),
                k => K::Opt(bx(k.elem())),
            },
            ("downcast_ref", 0) => K::Opt(bx(K::Seq(bx(K::Other)))),
            ("checked_sub", 1) | ("checked_add", 1) | ("position", 1) => K::Opt(bx(K::Int)),
            ("and_then", 1) => self.closure_kind(&m.args[0], rk.elem()),
            ("unwrap", 0) | ("expect", 1) | ("unwrap_or", 1) | ("unwrap_or_default", 0) => rk.elem(),
            ("unwrap_or_else", 1) => match rk.elem() {
                K::Other => self.closure_kind(&m.args[0], K::Other),
                k => k,
            },
            ("map_or", 2) | ("map_or_else", 2) => {
                let b = self.closure_kind(&m.args[1], rk.elem());
                if b == K::Other {
                    self.kind(&m.args[0])
                } else {
                    b
                }
            }
            ("then_some", 1) => K::Opt(bx(self.kind(&m.args[0]))),
            ("then", 1) => {
                let b = self.closure_kind(&m.args[0], K::Other);
                K::Opt(bx(b))
            }
            ("ok_or", 1) | ("ok_or_else", 1) | ("and", 1) => rk,
            ("to_string", 0) | ("to_lowercase", 0) | ("as_str", 0) | ("to_uppercase", 0) => K::Str,
            ("len", 0) | ("max", 1) | ("min", 1) | ("saturating_sub", 1) | ("count", 0) => K::Int,
            ("is_empty", 0)
            | ("contains", 1)
            | ("is_some", 0)
            | ("is_none", 0)
            | ("any", 1)
            | ("is_some_and", 1)
            | ("is_none_or", 1)
            | ("is_numeric", 0)
            | ("is_alphanumeric", 0)
            | ("starts_with", 1)
            | ("ends_with", 1)
            | ("all", 1)
            | ("is_alphabetic", 0)
            | ("is_whitespace", 0)
            | ("is_ascii_digit", 0) => K::Bool,
            _ => self.fn_kind(&n),
        }
    }
}
