//! Items: types, traits, functions with their contracts woven in.
use crate::contracts::*;
use crate::exec::pat_names;
use crate::kinds::*;
use crate::spec::*;
use crate::{is_cfg_test, Cx, FnInfo, Src, R};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::Visit;
use syn::*;

const DROP_BOUNDS: &[&str] = &["Debug", "Send", "Sync", "Display", "PartialEq"];
const FOREIGN_TRAITS: &[&str] = &[
    "Debug", "Display", "PartialEq", "Eq", "Clone", "Copy", "Default", "From", "Into", "Hash", "Send", "Sync", "Drop",
    "PartialOrd", "Ord", "AsRef", "Deref", "IntoIterator", "Iterator", "Index", "FromIterator",
];

impl Cx {
    pub fn path_str(&self, p: &Path) -> String {
        let segs: Vec<&PathSegment> = p.segments.iter().collect();
        let n = segs.len();
        let mut start = 0;
        while start + 1 < n {
            let s = segs[start].ident.to_string();
            if s.chars().next().unwrap().is_lowercase() || s.starts_with('_') {
                start += 1
            } else {
                break;
            }
        }
        let mut o = vec![];
        for s in &segs[start..] {
            let mut t = s.ident.to_string();
            match &s.arguments {
                PathArguments::AngleBracketed(a) => {
                    if let Ok(x) = self.args_str(a) {
                        t.push_str(&format!("::<{}>", x));
                    }
                }
                _ => {}
            }
            o.push(t);
        }
        o.join("::")
    }

    fn args_str(&self, a: &AngleBracketedGenericArguments) -> R {
        let mut v = vec![];
        for x in &a.args {
            v.push(match x {
                GenericArgument::Lifetime(l) => tt(l).replace(' ', ""),
                GenericArgument::Type(t) => self.ty(t)?,
                GenericArgument::AssocType(at) => {
                    let n = if at.ident == "Item" { "X".to_string() } else { at.ident.to_string() };
                    format!("{} = {}", n, self.ty(&at.ty)?)
                }
                GenericArgument::Const(e) => tt(e),
                _ => return Err("generic argument".into()),
            });
        }
        Ok(v.join(", "))
    }

    pub fn turbofish(&self, a: &AngleBracketedGenericArguments) -> R {
        Ok(format!("::<{}>", self.args_str(a)?))
    }

    pub fn ty(&self, t: &Type) -> R {
        Ok(match t {
            Type::Paren(p) => self.ty(&p.elem)?,
            Type::Group(p) => self.ty(&p.elem)?,
            Type::Reference(r) => format!(
                "&{}{}{}",
                r.lifetime.as_ref().map(|l| format!("{} ", tt(l).replace(' ', ""))).unwrap_or_default(),
                if r.mutability.is_some() { "mut " } else { "" },
                self.ty(&r.elem)?
            ),
            Type::Slice(s) => format!("[{}]", self.ty(&s.elem)?),
            Type::Array(a) => format!("[{}; {}]", self.ty(&a.elem)?, tt(&a.len)),
            Type::Tuple(t) => {
                let v: std::result::Result<Vec<_>, _> = t.elems.iter().map(|x| self.ty(x)).collect();
                let v = v?;
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Type::Infer(_) => "_".into(),
            Type::ImplTrait(_) => match self.kind_of_type(t) {
                K::Iter(_) => {
                    if let Type::ImplTrait(i) = t {
                        for b in &i.bounds {
                            if let TypeParamBound::Trait(tb) = b {
                                if let PathArguments::AngleBracketed(a) = &last_seg(&tb.path).arguments {
                                    for g in &a.args {
                                        if let GenericArgument::AssocType(at) = g {
                                            return Ok(format!("It<{}>", self.ty(&at.ty)?));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    return Err("impl Trait".into());
                }
                _ => return Err("impl Trait".into()),
            },
            Type::Path(p) => {
                if p.qself.is_some() {
                    return Err("qualified path type".into());
                }
                let s = last_seg(&p.path);
                if s.ident == "Box" {
                    let inner = match &s.arguments {
                        PathArguments::AngleBracketed(a) => a.args.first().cloned(),
                        _ => None,
                    };
                    if let Some(GenericArgument::Type(Type::TraitObject(o))) = inner {
                        let d = tt(&o);
                        if d.contains("Bucket") {
                            return Ok("DynBucket".into());
                        }
                        if d.contains("Any") {
                            return Ok("DynAny".into());
                        }
                        return Err("trait object".into());
                    }
                }
                let segs: Vec<&PathSegment> = p.path.segments.iter().collect();
                let mut start = 0;
                while start + 1 < segs.len() {
                    let c = segs[start].ident.to_string();
                    if c.chars().next().unwrap().is_lowercase() {
                        start += 1
                    } else {
                        break;
                    }
                }
                let mut o = vec![];
                for s in &segs[start..] {
                    let mut t = s.ident.to_string();
                    if let Some(a) = self.aliases.get(&t) {
                        if segs.len() == 1 {
                            return self.ty(a);
                        }
                    }
                    if t == "Formatter" {
                        o.push("Formatter".into());
                        continue;
                    }
                    if t == "Result" && tt(&p.path).contains("fmt") {
                        o.push("FmtResult".into());
                        continue;
                    }
                    if t == "Seq" {
                        t = "XSeq".into();
                    }
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        t.push_str(&format!("<{}>", self.args_str(a)?));
                    }
                    o.push(t);
                }
                o.join("::")
            }
            _ => return Err(format!("type {}", tt(t))),
        })
    }

    fn bounds(&self, b: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> R {
        let mut v = vec![];
        for x in b {
            match x {
                TypeParamBound::Lifetime(l) => v.push(tt(l).replace(' ', "")),
                TypeParamBound::Trait(t) => {
                    let s = last_seg(&t.path);
                    let n = s.ident.to_string();
                    if DROP_BOUNDS.contains(&n.as_str()) {
                        continue;
                    }
                    match n.as_str() {
                        "Fn" | "FnMut" | "FnOnce" => {
                            if let PathArguments::Parenthesized(a) = &s.arguments {
                                let i: std::result::Result<Vec<_>, _> = a.inputs.iter().map(|t| self.ty(t)).collect();
                                let o = match &a.output {
                                    ReturnType::Type(_, t) => format!(" -> {}", self.ty(t)?),
                                    _ => String::new(),
                                };
                                v.push(format!("{}({}){}", n, i?.join(", "), o));
                                continue;
                            }
                            return Err("bound".into());
                        }
                        "AsRef" => v.push("VAsRefStr".into()),
                        _ => {
                            let n = match n.as_str() {
                                "Seq" => "XSeq".to_string(),
                                "IntoIterator" | "Iterator" => "VIntoIter".into(),
                                n => n.to_string(),
                            };
                            let a = match &s.arguments {
                                PathArguments::AngleBracketed(a) => format!("<{}>", self.args_str(a)?),
                                _ => String::new(),
                            };
                            v.push(format!("{}{}", n, a));
                        }
                    }
                }
                _ => return Err("bound".into()),
            }
        }
        Ok(v.join(" + "))
    }

    pub fn generics(&self, g: &Generics) -> R {
        if g.params.is_empty() {
            return Ok(String::new());
        }
        let mut v = vec![];
        for p in &g.params {
            v.push(match p {
                GenericParam::Lifetime(l) => {
                    let b: Vec<String> = l.bounds.iter().map(|x| tt(x).replace(' ', "")).collect();
                    let n = tt(&l.lifetime).replace(' ', "");
                    if b.is_empty() {
                        n
                    } else {
                        format!("{}: {}", n, b.join(" + "))
                    }
                }
                GenericParam::Type(t) => {
                    let b = self.bounds(&t.bounds)?;
                    if b.is_empty() {
                        t.ident.to_string()
                    } else {
                        format!("{}: {}", t.ident, b)
                    }
                }
                GenericParam::Const(c) => format!("const {}: {}", c.ident, self.ty(&c.ty)?),
            });
        }
        Ok(format!("<{}>", v.join(", ")))
    }
    fn where_(&self, g: &Generics) -> R {
        let mut v = vec![];
        if let Some(w) = &g.where_clause {
            for p in &w.predicates {
                match p {
                    WherePredicate::Type(t) => {
                        let b = self.bounds(&t.bounds)?;
                        if !b.is_empty() {
                            v.push(format!("{}: {}", self.ty(&t.bounded_ty)?, b));
                        }
                    }
                    WherePredicate::Lifetime(l) => v.push(tt(l)),
                    _ => {}
                }
            }
        }
        Ok(if v.is_empty() { String::new() } else { format!(" where {}", v.join(", ")) })
    }

    pub fn pat_str(&self, p: &Pat) -> R {
        Ok(match p {
            Pat::Ident(i) => {
                let mut o = String::new();
                if i.by_ref.is_some() {
                    o.push_str("ref ");
                }
                if i.mutability.is_some() {
                    o.push_str("mut ");
                }
                o.push_str(&i.ident.to_string());
                if let Some((_, s)) = &i.subpat {
                    o.push_str(&format!(" @ {}", self.pat_str(s)?));
                }
                o
            }
            Pat::Wild(_) => "_".into(),
            Pat::Rest(_) => "..".into(),
            Pat::Lit(l) => tt(l),
            Pat::Paren(p) => format!("({})", self.pat_str(&p.pat)?),
            Pat::Type(t) => format!("{}: {}", self.pat_str(&t.pat)?, self.ty(&t.ty)?),
            Pat::Reference(r) => format!("&{}", self.pat_str(&r.pat)?),
            Pat::Tuple(t) => {
                let v: std::result::Result<Vec<_>, _> = t.elems.iter().map(|x| self.pat_str(x)).collect();
                let v = v?;
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Pat::TupleStruct(t) => {
                let v: std::result::Result<Vec<_>, _> = t.elems.iter().map(|x| self.pat_str(x)).collect();
                format!("{}({})", self.path_str(&t.path), v?.join(", "))
            }
            Pat::Path(p) => self.path_str(&p.path),
            Pat::Or(o) => {
                let v: std::result::Result<Vec<_>, _> = o.cases.iter().map(|x| self.pat_str(x)).collect();
                v?.join(" | ")
            }
            Pat::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields {
                    let pt = self.pat_str(&f.pat)?;
                    let m = tt(&f.member);
                    if m == pt {
                        v.push(m)
                    } else {
                        v.push(format!("{}: {}", m, pt))
                    }
                }
                if s.rest.is_some() {
                    v.push("..".into());
                }
                format!("{} {{ {} }}", self.path_str(&s.path), v.join(", "))
            }
            _ => return Err(format!("pattern {}", tt(p))),
        })
    }

    /// the locals of a body and of the helpers inlined into it, in order, each with how it is introduced
    fn locals_of(&self, b: &Block, depth: usize) -> Vec<(String, String)> {
        struct L<'c>(Vec<(String, String)>, &'c Cx, usize);
        impl<'c> L<'c> {
            fn add(&mut self, p: &Pat, how: String) {
                for n in pat_names(p) {
                    self.0.push((n, how.clone()));
                }
            }
            fn helper(&mut self, n: &str, nargs: usize, method: bool) {
                if self.2 < 4 {
                    if let Some(i) = self.1.inline_target(n, nargs, method) {
                        let f = &self.1.fns[i];
                        for a in &f.sig.inputs {
                            if let FnArg::Typed(t) = a {
                                self.add(&t.pat, "helper".into());
                            }
                        }
                        let more = self.1.locals_of(f.block.as_ref().unwrap(), self.2 + 1);
                        self.0.extend(more);
                    }
                }
            }
        }
        impl<'a, 'c> Visit<'a> for L<'c> {
            fn visit_local(&mut self, l: &'a Local) {
                let mut how = String::new();
                if let Some(i) = &l.init {
                    self.visit_expr(&i.expr);
                    how = tt(&i.expr).chars().filter(|c| !c.is_whitespace()).take(160).collect();
                }
                self.add(&l.pat, format!("let {}", how));
            }
            fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
                self.add(&f.pat, "for".into());
                visit::visit_expr_for_loop(self, f);
            }
            fn visit_expr_let(&mut self, f: &'a ExprLet) {
                self.add(&f.pat, "if let".into());
                visit::visit_expr_let(self, f);
            }
            fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
                for p in &c.inputs {
                    self.add(p, "closure".into());
                }
                visit::visit_expr_closure(self, c);
            }
            fn visit_expr_call(&mut self, c: &'a ExprCall) {
                visit::visit_expr_call(self, c);
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    self.helper(&n, c.args.len(), false);
                }
            }
            fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
                visit::visit_expr_method_call(self, c);
                self.helper(&c.method.to_string(), c.args.len(), true);
            }
        }
        let mut l = L(vec![], self, depth);
        l.visit_block(b);
        l.0
    }

    /// pairs the locals the contract was written for with those the function has now
    fn set_locals(&mut self, key: &str, now: Vec<(String, String)>) {
        self.locals = now.iter().map(|x| x.0.clone()).collect();
        self.was_locals.clear();
        self.pairing.clear();
        let was = match self.locals_known.get(key) {
            Some(w) => w.clone(),
            None => {
                self.locals_seen.push((key.to_string(), now));
                return;
            }
        };
        self.was_locals = was.iter().map(|x| x.0.clone()).collect();
        let (n, m) = (was.len(), now.len());
        let cost = |a: &(String, String), b: &(String, String)| match (a.0 == b.0, a.1 == b.1) {
            (true, true) => 0,
            (true, false) => 2,
            (false, true) => 5,
            _ => {
                let k = |x: &(String, String)| x.1.split(' ').next().unwrap_or("").to_string();
                let (x, y) = (k(a), k(b));
                if x == y || (x == "closure" && y == "let") || (x == "let" && y == "closure") || x == "helper" || y == "helper" {
                    15
                } else {
                    25
                }
            }
        };
        let mut d = vec![vec![0i32; m + 1]; n + 1];
        for i in (0..=n).rev() {
            for j in (0..=m).rev() {
                d[i][j] = if i == n {
                    10 * (m - j) as i32
                } else if j == m {
                    10 * (n - i) as i32
                } else {
                    (d[i + 1][j + 1] + cost(&was[i], &now[j])).min(d[i + 1][j] + 10).min(d[i][j + 1] + 10)
                };
            }
        }
        let (mut i, mut j) = (0, 0);
        self.pairing = vec![None; n];
        while i < n && j < m {
            if d[i][j] == d[i + 1][j + 1] + cost(&was[i], &now[j]) {
                self.pairing[i] = Some(j);
                i += 1;
                j += 1;
            } else if d[i][j] == d[i + 1][j] + 10 {
                i += 1;
            } else {
                j += 1;
            }
        }
        self.locals_seen.push((key.to_string(), now));
    }

    /// substitutes the names; a complete clause or assertion about a local that is gone is left out, which can only weaken the proof
    pub fn sub(&self, t: &str) -> R {
        let mut t = t.to_string();
        for (i, v) in &self.louts {
            let l = format!("lout{}", i);
            if t.contains(&l) {
                t = t.replace(&l, v);
                self.weakened.borrow_mut().push("a loop in place of an adaptor".into());
            }
        }
        let mut out = vec![];
        for l in t.split('\n') {
            match self.sub_line(l) {
                Err(e) if e.starts_with("the local") => {
                    let b = l.trim_end();
                    let n = |c: char| b.matches(c).count();
                    let whole = n('(') == n(')') && n('[') == n(']') && n('{') == n('}');
                    if !(whole && (b.ends_with(',') || b.ends_with(';'))) || b.trim_start().starts_with("let ") {
                        return Err(e);
                    }
                    self.weakened.borrow_mut().push(e);
                }
                r => out.push(r?),
            }
        }
        Ok(out.join("\n"))
    }

    /// `${name|pN}`: the N-th parameter; `${name|N}`: the local that stands where `name` stood when the contract was written
    fn sub_line(&self, t: &str) -> R {
        let mut o = String::new();
        let mut rest = t;
        while let Some(i) = rest.find("${") {
            o.push_str(&rest[..i]);
            let j = rest[i..].find('}').ok_or("unterminated ${")? + i;
            let body = &rest[i + 2..j];
            let mut it = body.split('|');
            let name = it.next().unwrap().to_string();
            let pos = it.next().unwrap_or("").to_string();
            if let Some(k) = pos.strip_prefix('p') {
                let k: usize = k.parse().map_err(|_| "bad ${}")?;
                o.push_str(self.params.get(k).ok_or("parameter gone")?);
            } else {
                let k: usize = pos.parse().map_err(|_| "bad ${}")?;
                let at = if self.was_locals.get(k) == Some(&name) { Some(k) } else { self.was_locals.iter().position(|n| *n == name) };
                match at.and_then(|k| self.pairing[k]) {
                    Some(j) => o.push_str(&self.locals[j]),
                    None if self.locals.contains(&name) => o.push_str(&name),
                    None => return Err(format!("the local {} is gone", name)),
                }
            }
            rest = &rest[j + 1..];
        }
        o.push_str(rest);
        Ok(o)
    }

    fn collect(&mut self, srcs: &[Src]) {
        for s in srcs {
            for i in &s.items {
                match i {
                    Item::Type(t) => {
                        self.aliases.insert(t.ident.to_string(), (*t.ty).clone());
                    }
                    Item::Const(c) => {
                        self.consts.insert(c.ident.to_string(), ((*c.ty).clone(), (*c.expr).clone()));
                    }
                    Item::Struct(st) => {
                        if let Fields::Named(n) = &st.fields {
                            for f in &n.named {
                                self.fields.insert(f.ident.as_ref().unwrap().to_string(), f.ty.clone());
                            }
                        }
                        if let Fields::Unnamed(n) = &st.fields {
                            self.variants.insert(
                                st.ident.to_string(),
                                n.unnamed.iter().map(|f| (st.ident.to_string(), f.ty.clone())).collect(),
                            );
                        }
                    }
                    Item::Enum(e) => {
                        for v in &e.variants {
                            match &v.fields {
                                Fields::Unnamed(n) => {
                                    self.variants.insert(
                                        v.ident.to_string(),
                                        n.unnamed.iter().map(|f| (e.ident.to_string(), f.ty.clone())).collect(),
                                    );
                                }
                                Fields::Named(n) => {
                                    for f in &n.named {
                                        self.fields.insert(f.ident.as_ref().unwrap().to_string(), f.ty.clone());
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                    Item::Fn(f) => self.add_fn(&s.file, None, None, &f.sig, Some((*f.block).clone())),
                    Item::Impl(im) => {
                        let owner = ty_name(&im.self_ty);
                        let tr = im.trait_.as_ref().map(|t| last_seg(&t.1).ident.to_string());
                        for it in &im.items {
                            if let ImplItem::Fn(f) = it {
                                if is_cfg_test(&f.attrs) {
                                    continue;
                                }
                                self.add_fn(&s.file, Some(owner.clone()), tr.clone(), &f.sig, Some(f.block.clone()));
                            }
                        }
                    }
                    Item::Trait(t) => {
                        let n = t.ident.to_string();
                        for it in &t.items {
                            if let TraitItem::Fn(f) = it {
                                self.add_fn(&s.file, None, Some(n.clone()), &f.sig, f.default.clone());
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    fn add_fn(&mut self, file: &str, owner: Option<String>, tr: Option<String>, sig: &Signature, block: Option<Block>) {
        let name = sig.ident.to_string();
        let key = match (&owner, &tr) {
            (Some(o), Some(t)) => format!("{} for {}::{}", t, o, name),
            (Some(o), None) => format!("{}::{}", o, name),
            (None, Some(t)) => format!("{}::{}", t, name),
            (None, None) => name.clone(),
        };
        // methods of foreign traits cannot be called by name
        if let Some(t) = &tr {
            if FOREIGN_TRAITS.contains(&t.as_str()) && !self.c.fns.contains_key(&key) {
                return;
            }
        }
        if self.c.drops.iter().any(|(d, _)| *d == key || owner.as_ref() == Some(d)) {
            return;
        }
        self.by_name.entry(name.clone()).or_default().push(self.fns.len());
        self.fns.push(FnInfo {
            key,
            name,
            owner,
            trait_: tr,
            sig: sig.clone(),
            block,
            file: file.to_string(),
            line: sig.ident.span().start().line,
        });
    }

    pub fn emit_all(&mut self, srcs: &[Src], rep: &mut Vec<BTreeMap<String, String>>) -> String {
        self.collect(srcs);
        let mut o = String::new();
        let mut eq_axioms = vec![];
        let declared_traits: BTreeSet<String> = srcs
            .iter()
            .flat_map(|s| s.items.iter())
            .filter_map(|i| match i {
                Item::Trait(t) => Some(t.ident.to_string()),
                _ => None,
            })
            .collect();
        for s in srcs {
            for i in &s.items {
                let r = self.emit_item(s, i, rep, &mut eq_axioms, &declared_traits);
                match r {
                    Ok(t) => o.push_str(&t),
                    Err(e) => {
                        let mut m = BTreeMap::new();
                        m.insert("item".into(), item_name(i));
                        m.insert("file".into(), s.file.clone());
                        m.insert("status".into(), "dropped".into());
                        m.insert("reason".into(), e);
                        rep.push(m);
                    }
                }
            }
        }
        let mut ax = String::new();
        for n in &eq_axioms {
            ax.push_str(&format!(
                "pub broadcast axiom fn eqv_{n}(a: {n}, b: {n}) ensures #[trigger] eqv::<{n}>(a, b) == (a == b);\n",
                n = n
            ));
        }
        ax.push_str(&format!(
            "pub broadcast group group_eqv {{ eqv_lrange, eqv_char, {} }}\n",
            eq_axioms.iter().map(|n| format!("eqv_{}", n)).collect::<Vec<_>>().join(", ")
        ));
        // contracts that found no function
        for (k, c) in &self.c.fns {
            if !c.used {
                let mut m = BTreeMap::new();
                m.insert("key".into(), k.clone());
                m.insert("status".into(), "missing".into());
                m.insert("props".into(), c.props.join(" "));
                m.insert("reason".into(), "the function is not in the repository".into());
                rep.push(m);
            }
        }
        for k in self.inlined.clone() {
            let mut m = BTreeMap::new();
            m.insert("key".into(), k);
            m.insert("status".into(), "inlined".into());
            rep.push(m);
        }
        format!("{}\n{}", ax, o)
    }

    fn dropped(&self, k: &str) -> bool {
        self.c.drops.iter().any(|(d, _)| d == k)
    }

    fn emit_item(
        &mut self,
        s: &Src,
        i: &Item,
        rep: &mut Vec<BTreeMap<String, String>>,
        eqs: &mut Vec<String>,
        declared: &BTreeSet<String>,
    ) -> R {
        match i {
            Item::Use(_) | Item::Mod(_) | Item::Type(_) | Item::Const(_) | Item::Macro(_) => Ok(String::new()),
            Item::Struct(st) => {
                let n = st.ident.to_string();
                if self.dropped(&n) {
                    return Ok(String::new());
                }
                let g = self.generics(&st.generics)?;
                let rr: String = st.generics.type_params().map(|t| format!("#[verifier::reject_recursive_types({})]\n", t.ident)).collect();
                let d = rr + &self.derives(&st.attrs, &n, st.generics.type_params().next().is_some(), eqs, false);
                Ok(match &st.fields {
                    Fields::Named(f) => {
                        let mut o = format!("{}pub struct {}{}{} {{\n", d, n, g, self.where_(&st.generics)?);
                        for x in &f.named {
                            o.push_str(&format!("    pub {}: {},\n", x.ident.as_ref().unwrap(), self.ty(&x.ty)?));
                        }
                        o.push_str("}\n");
                        let dv: String = st.attrs.iter().filter(|a| a.path().is_ident("derive")).map(tt).collect();
                        if dv.split(|c: char| !c.is_alphanumeric()).any(|w| w == "Default") {
                            let names: Vec<String> = st.generics.params.iter().map(|p| match p {
                                GenericParam::Type(t) => t.ident.to_string(),
                                GenericParam::Lifetime(l) => tt(&l.lifetime),
                                GenericParam::Const(c) => c.ident.to_string(),
                            }).collect();
                            let ga = if names.is_empty() { String::new() } else { format!("<{}>", names.join(", ")) };
                            let fs: Vec<String> = f.named.iter().map(|x| x.ident.as_ref().unwrap().to_string()).collect();
                            o.push_str(&format!(
                                "impl{} VDefault for {}{} {{\n    open spec fn is_default(&self) -> bool {{ {} }}\n    fn v_dflt() -> (r: Self) {{ {} {{ {} }} }}\n}}\n",
                                g, n, ga,
                                if fs.is_empty() { "true".to_string() } else { fs.iter().map(|x| format!("self.{}.is_default()", x)).collect::<Vec<_>>().join(" && ") },
                                n,
                                fs.iter().map(|x| format!("{}: v_default()", x)).collect::<Vec<_>>().join(", ")
                            ));
                        }
                        o
                    }
                    Fields::Unnamed(f) => {
                        let v: std::result::Result<Vec<_>, _> =
                            f.unnamed.iter().map(|x| self.ty(&x.ty).map(|t| format!("pub {}", t))).collect();
                        format!("{}pub struct {}{}({});\n", d, n, g, v?.join(", "))
                    }
                    Fields::Unit => format!("{}pub struct {}{};\n", d, n, g),
                })
            }
            Item::Enum(e) => {
                let n = e.ident.to_string();
                if self.dropped(&n) {
                    return Ok(String::new());
                }
                let g = self.generics(&e.generics)?;
                let rr: String = e.generics.type_params().map(|t| format!("#[verifier::reject_recursive_types({})]\n", t.ident)).collect();
                let d = rr + &self.derives(&e.attrs, &n, e.generics.type_params().next().is_some(), eqs, true);
                let mut o = format!("{}pub enum {}{} {{\n", d, n, g);
                for v in &e.variants {
                    match &v.fields {
                        Fields::Unit => o.push_str(&format!("    {},\n", v.ident)),
                        Fields::Unnamed(f) => {
                            let t: std::result::Result<Vec<_>, _> = f.unnamed.iter().map(|x| self.ty(&x.ty)).collect();
                            o.push_str(&format!("    {}({}),\n", v.ident, t?.join(", ")))
                        }
                        Fields::Named(f) => {
                            let mut t = vec![];
                            for x in &f.named {
                                t.push(format!("{}: {}", x.ident.as_ref().unwrap(), self.ty(&x.ty)?));
                            }
                            o.push_str(&format!("    {} {{ {} }},\n", v.ident, t.join(", ")))
                        }
                    }
                }
                o.push_str("}\n");
                Ok(o)
            }
            Item::Fn(f) => {
                let k = f.sig.ident.to_string();
                if is_cfg_test(&f.attrs) {
                    return Ok(String::new());
                }
                self.emit_fn(s, &k, &f.sig, Some(&f.block), &Generics::default(), false, true, rep)
            }
            Item::Trait(t) => {
                let n = t.ident.to_string();
                if self.dropped(&n) {
                    return Ok(String::new());
                }
                let pn = if n == "Seq" { "XSeq".to_string() } else { n.clone() };
                let sup = self.bounds(&t.supertraits)?;
                let mut o = format!(
                    "pub trait {}{}{}{} {{\n",
                    pn,
                    self.generics(&t.generics)?,
                    if sup.is_empty() { String::new() } else { format!(": {}", sup) },
                    self.where_(&t.generics)?
                );
                if let Some(x) = self.c.extra.get(&format!("trait {}", n)) {
                    o.push_str(x);
                }
                for it in &t.items {
                    match it {
                        TraitItem::Type(ty) => {
                            let b = self.bounds(&ty.bounds)?;
                            o.push_str(&format!(
                                "    type {}{};\n",
                                ty.ident,
                                if b.is_empty() { String::new() } else { format!(": {}", b) }
                            ));
                        }
                        TraitItem::Fn(f) => {
                            let k = format!("{}::{}", n, f.sig.ident);
                            o.push_str(&self.emit_fn(s, &k, &f.sig, f.default.as_ref(), &t.generics, false, false, rep)?);
                        }
                        _ => {}
                    }
                }
                o.push_str("}\n");
                Ok(o)
            }
            Item::Impl(im) => {
                let owner = ty_name(&im.self_ty);
                if self.dropped(&owner) {
                    return Ok(String::new());
                }
                let g = self.generics(&im.generics)?;
                let st = self.ty(&im.self_ty)?;
                let w = self.where_(&im.generics)?;
                match &im.trait_ {
                    None => {
                        let mut o = format!("impl{} {}{} {{\n", g, st, w);
                        let mut any = false;
                        for it in &im.items {
                            if let ImplItem::Fn(f) = it {
                                let k = format!("{}::{}", owner, f.sig.ident);
                                if self.dropped(&k) {
                                    continue;
                                }
                                let x = self.emit_fn(s, &k, &f.sig, Some(&f.block), &im.generics, false, true, rep)?;
                                any |= !x.is_empty();
                                o.push_str(&x);
                            }
                        }
                        o.push_str("}\n");
                        Ok(if any { o } else { String::new() })
                    }
                    Some((_, tp, _)) => {
                        let tn = last_seg(tp).ident.to_string();
                        let ik = format!("{} for {}", tn, owner);
                        if self.dropped(&ik) || (self.dropped(&tn)) {
                            return Ok(String::new());
                        }
                        let under_contract = im.items.iter().any(|i| matches!(i, ImplItem::Fn(f) if self.c.fns.contains_key(&format!("{}::{}", ik, f.sig.ident))));
                        if tn == "Display" || (FOREIGN_TRAITS.contains(&tn.as_str()) && under_contract) {
                            // emitted as an inherent function
                            let mut o = format!("impl{} {}{} {{\n", g, st, w);
                            let mut any = false;
                            for it in &im.items {
                                if let ImplItem::Fn(f) = it {
                                    let k = format!("{}::{}", ik, f.sig.ident);
                                    let x = self.emit_fn(s, &k, &f.sig, Some(&f.block), &im.generics, false, true, rep)?;
                                    any |= !x.is_empty();
                                    o.push_str(&x);
                                }
                            }
                            o.push_str("}\n");
                            return Ok(if any { o } else { String::new() });
                        }
                        if !declared.contains(&tn) {
                            return Err(format!("impl of the foreign trait {}", tn));
                        }
                        let tstr = {
                            let seg = last_seg(tp);
                            let n = if tn == "Seq" { "XSeq".to_string() } else { tn.clone() };
                            match &seg.arguments {
                                PathArguments::AngleBracketed(a) => format!("{}<{}>", n, self.args_str(a)?),
                                _ => n,
                            }
                        };
                        let mut o = format!("impl{} {} for {}{} {{\n", g, tstr, st, w);
                        if let Some(x) = self.c.extra.get(&format!("impl {}", ik)) {
                            o.push_str(x);
                        }
                        for it in &im.items {
                            match it {
                                ImplItem::Type(t) => o.push_str(&format!("    type {} = {};\n", t.ident, self.ty(&t.ty)?)),
                                ImplItem::Fn(f) => {
                                    let k = format!("{}::{}", ik, f.sig.ident);
                                    let x = self.emit_fn(s, &k, &f.sig, Some(&f.block), &im.generics, true, true, rep)?;
                                    if self.dropped(&k) {
                                        continue;
                                    }
                                    if x.is_empty() {
                                        return Err(format!("{} has no contract", k));
                                    }
                                    o.push_str(&x);
                                }
                                _ => {}
                            }
                        }
                        o.push_str("}\n");
                        Ok(o)
                    }
                }
            }
            _ => Ok(String::new()),
        }
    }

    fn derives(&self, attrs: &[Attribute], n: &str, generic: bool, eqs: &mut Vec<String>, _is_enum: bool) -> String {
        let mut d = String::new();
        for a in attrs {
            if a.path().is_ident("derive") {
                d.push_str(&tt(a));
            }
        }
        let has = |x: &str| d.split(|c: char| !c.is_alphanumeric()).any(|w| w == x);
        if has("PartialEq") && !generic {
            eqs.push(n.to_string());
        }
        let extra = self.c.extra.get(&format!("attr {}", n)).cloned().unwrap_or_default();
        let out = if has("Copy") && generic {
            "#[derive(Clone, Copy)]\n"
        } else if has("Copy") {
            "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"
        } else {
            ""
        };
        format!("{}{}", out, extra)
    }

    #[allow(clippy::too_many_arguments)]
    fn emit_fn(
        &mut self,
        s: &Src,
        key: &str,
        sig: &Signature,
        block: Option<&Block>,
        ig: &Generics,
        trait_impl: bool,
        has_body: bool,
        rep: &mut Vec<BTreeMap<String, String>>,
    ) -> R {
        if self.dropped(key) {
            return Ok(String::new());
        }
        let mut m = BTreeMap::new();
        m.insert("key".to_string(), key.to_string());
        m.insert("file".to_string(), s.file.clone());
        m.insert("line".to_string(), sig.ident.span().start().line.to_string());
        let c = match self.c.fns.get_mut(key) {
            Some(c) => {
                c.used = true;
                c.clone()
            }
            None => {
                m.insert("status".into(), "no contract".into());
                rep.push(m);
                return Ok(String::new());
            }
        };
        m.insert("props".to_string(), c.props.join(" "));
        self.cur = c.clone();
        self.cur_key = key.to_string();
        self.env = vec![HashMap::new()];
        self.macros = vec![HashMap::new()];
        self.loops = 0;
        self.louts.clear();
        self.closures = 0;
        self.tmp = 0;
        self.in_closure = 0;
        self.self_alias = None;
        self.depth = 0;
        let bounds = format!("{} {}", tt(&sig.generics), tt(ig));
        let wh = format!("{} {}", tt(&sig.generics.where_clause), tt(&ig.where_clause));
        self.generic_eq = bounds.contains("PartialEq") || wh.contains("PartialEq");
        // names
        self.params.clear();
        self.locals.clear();
        self.weakened.borrow_mut().clear();
        let mut ps = vec![];
        let mut muts = vec![];
        let mut header_err = None;
        for (ai, a) in sig.inputs.iter().enumerate() {
            match a {
                FnArg::Receiver(r) => {
                    let lt = match &r.reference {
                        Some((_, Some(l))) => format!("{} ", tt(l).replace(' ', "")),
                        _ => String::new(),
                    };
                    if r.reference.is_some() {
                        ps.push(format!("&{}{}self", lt, if r.mutability.is_some() { "mut " } else { "" }));
                    } else {
                        ps.push("self".into());
                        if r.mutability.is_some() {
                            muts.push(("self_m".to_string(), "self".to_string()));
                        }
                    }
                    self.bind("self", K::Other, false);
                }
                FnArg::Typed(t) => {
                    let k = self.kind_of_type(&t.ty);
                    self.bind_pat(&t.pat, &k, false);
                    let ty = match self.ty(&t.ty) {
                        Ok(t) => t,
                        Err(e) => {
                            header_err = Some(e);
                            "()".into()
                        }
                    };
                    match &*t.pat {
                        Pat::Ident(i) => {
                            self.params.push(i.ident.to_string());
                            if i.mutability.is_some() {
                                muts.push((i.ident.to_string(), i.ident.to_string()));
                            }
                            ps.push(format!("{}: {}", i.ident, ty));
                        }
                        Pat::Wild(_) => {
                            self.params.push(format!("arg{}", ai));
                            ps.push(format!("arg{}: {}", ai, ty));
                        }
                        p => {
                            let n = format!("arg{}", ai);
                            self.params.push(n.clone());
                            muts.push((self.pat_str(p)?, n.clone()));
                            ps.push(format!("{}: {}", n, ty));
                        }
                    }
                }
            }
        }
        if let Some(e) = header_err {
            m.insert("status".into(), "dropped".into());
            m.insert("reason".into(), e);
            rep.push(m);
            return Ok(String::new());
        }
        if let Some(b) = block {
            let l = self.locals_of(b, 0);
            self.set_locals(key, l);
        }
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => format!(" -> (r: {})", self.ty(t)?),
        };
        let mut o = format!("\n//@@FN {}\n", key);
        let body = if !has_body || block.is_none() {
            Ok(None)
        } else if c.trusted {
            Err("trusted".to_string())
        } else if self.degrade.contains(key) {
            Err("degraded by the driver".to_string())
        } else {
            self.fn_body_variants(key, block.unwrap(), &muts, sig).map(Some)
        };
        let head = format!(
            "    {}fn {}{}({}){}{}\n",
            if trait_impl || !has_body { "" } else { "pub " },
            sig.ident,
            self.generics(&sig.generics)?,
            ps.join(", "),
            ret,
            self.where_(&sig.generics)?
        );
        let mut spec = String::new();
        let subst = |cx: &Cx, t: &str| cx.sub(t);
        if !c.requires.is_empty() && !trait_impl {
            spec.push_str("    requires\n");
            for x in &c.requires {
                spec.push_str(&format!("    {} //@P:{}\n", subst(self, &x.text)?, x.label));
            }
        }
        if !c.ensures.is_empty() {
            spec.push_str("    ensures\n");
            for x in &c.ensures {
                spec.push_str(&format!("    {} //@P:{}\n", subst(self, &x.text)?, x.label));
            }
        }
        if !c.decreases.trim().is_empty() {
            spec.push_str(&format!("    decreases {}\n", c.decreases.trim()));
        }
        match body {
            Ok(None) => {
                o.push_str(&head);
                o.push_str(spec.trim_end());
                o.push_str("\n    ;\n");
                m.insert("status".into(), "trait".into());
            }
            Ok(Some(b)) => {
                // a solver of its own: in parallel, and independent of the other functions
                o.push_str("    #[verifier::spinoff_prover]\n");
                if !c.attrs.is_empty() {
                    o.push_str(&format!("    {}\n", c.attrs));
                }
                o.push_str(&head);
                o.push_str(&spec);
                o.push_str(&b);
                o.push('\n');
                m.insert("status".into(), "contract".into());
            }
            Err(e) => {
                o.push_str("    #[verifier::external_body]\n");
                o.push_str(&head);
                o.push_str(&spec);
                o.push_str("    { unimplemented!() }\n");
                m.insert("status".into(), if e == "trusted" { "trusted".into() } else { "unsupported".to_string() });
                m.insert("reason".into(), e);
            }
        }
        o.push_str("//@@END\n");
        let gone = self.weakened.borrow().join("; ");
        if !gone.is_empty() {
            m.insert("weakened".into(), gone);
        }
        rep.push(m);
        Ok(o)
    }

    pub fn uses_stmt(&self) -> String {
        let mut uses = self.cur.uses.clone();
        if uses.first().map(|u| u == "only").unwrap_or(false) {
            uses.remove(0);
        } else {
            uses.insert(0, "group_core".into());
            uses.insert(1, "group_eqv".into());
        }
        if uses.is_empty() {
            String::new()
        } else {
            format!("broadcast use {{{}}};\n", uses.join(", "))
        }
    }

    /// loops that the contract does not know: as iterator chains, or without the contract's invariants.
    /// What is then not proved is undecided, not violated.
    fn fn_body_variants(&mut self, key: &str, b: &Block, muts: &[(String, String)], sig: &Signature) -> R {
        let env = self.env.clone();
        let macros = self.macros.clone();
        let alias = self.self_alias.clone();
        let e = match self.fn_body(b, muts, sig) {
            Ok(o) => return Ok(o),
            Err(e) => e,
        };
        let reset = |cx: &mut Cx| {
            cx.env = env.clone();
            cx.macros = macros.clone();
            cx.self_alias = alias.clone();
            cx.loops = 0;
            cx.louts.clear();
            cx.closures = 0;
            cx.in_closure = 0;
            cx.depth = 0;
            cx.loop_stack.clear();
        };
        {
            self.unloop_helpers = true;
            let b2 = crate::norm::unloop(b).unwrap_or_else(|| b.clone());
            let l = self.locals_of(&b2, 0);
            self.set_locals(key, l);
            reset(self);
            let r = self.fn_body(&b2, muts, sig);
            self.unloop_helpers = false;
            if std::env::var("EXDBG").is_ok() {
                eprintln!("{}: {:?}\n{}", key, r.as_ref().err(), tt(&b2));
            }
            if let Ok(o) = r {
                self.weakened.borrow_mut().push("loops that push, as iterator chains".into());
                return Ok(o);
            }
        }
        if e.starts_with("0 loops where") {
            let saved = std::mem::take(&mut self.cur.loops);
            reset(self);
            let r = self.fn_body(b, muts, sig);
            self.cur.loops = saved;
            if let Ok(o) = r {
                self.weakened.borrow_mut().push("no loop any more".into());
                return Ok(o);
            }
        }
        Err(e)
    }

    fn fn_body(&mut self, b: &Block, muts: &[(String, String)], sig: &Signature) -> R {
        let mut o = String::from("    {\n");
        o.push_str(&self.uses_stmt());
        let mut rename_self = false;
        for (a, n) in muts {
            if n == "self" {
                o.push_str("let mut self_m = self;\n");
                rename_self = true;
            } else if a == n {
                o.push_str(&format!("let mut {} = {};\n", a, n));
            } else {
                o.push_str(&format!("let {} = {};\n", a, n));
            }
        }
        self.tail_maps.clear();
        if let ReturnType::Type(_, t) = &sig.output {
            if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
                self.note_tails(t, e)?;
            }
            let mut rs = Returns(vec![]);
            syn::visit::Visit::visit_block(&mut rs, &b);
            for e in rs.0 {
                self.note_tails(t, &e)?;
            }
        }
        if rename_self {
            self.self_alias = Some("self_m".into());
        }
        if !self.cur.ghost.trim().is_empty() {
            o.push_str(&format!("{}\n", self.sub(&self.cur.ghost.clone())?));
        }
        if !self.cur.begin.trim().is_empty() {
            o.push_str(&format!("proof {{ {} }}\n", self.sub(&self.cur.begin.clone())?));
        }
        let (st, tail) = self.ex_stmts(&b.stmts)?;
        o.push_str(&st);
        match tail {
            Some(t) => {
                if sig.output == ReturnType::Default {
                    o.push_str(&format!("{};\n", t));
                    if !self.cur.end.trim().is_empty() {
                        o.push_str(&format!("proof {{ {} }}\n", self.sub(&self.cur.end.clone())?));
                    }
                } else {
                    let diverging = matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Loop(_), _)));
                    if diverging || self.cur.end.trim().is_empty() {
                        o.push_str(&t);
                    } else {
                        let (pre, r) = self.bind_r(&t)?;
                        let ty = match &sig.output {
                            ReturnType::Type(_, t) => self.ty(t)?,
                            _ => String::new(),
                        };
                        let pre = pre.replacen("let r =", &format!("let r: {} =", ty), 1);
                        o.push_str(&format!("{}\n{}\n", pre, r));
                    }
                }
            }
            None => {
                if !self.cur.end.trim().is_empty() && sig.output == ReturnType::Default {
                    o.push_str(&format!("proof {{ {} }}\n", self.sub(&self.cur.end.clone())?));
                }
            }
        }
        if self.loops != self.cur.loops.len() {
            return Err(format!("{} loops where the contract has {}", self.loops, self.cur.loops.len()));
        }
        o.push_str("\n    }");
        Ok(o)
    }
}

pub fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => last_seg(&p.path).ident.to_string(),
        Type::Tuple(t) => format!("({})", t.elems.iter().map(ty_name).collect::<Vec<_>>().join(",")),
        Type::Reference(r) => ty_name(&r.elem),
        _ => tt(t),
    }
}

fn item_name(i: &Item) -> String {
    match i {
        Item::Impl(im) => format!(
            "impl {}{}",
            im.trait_.as_ref().map(|t| format!("{} for ", last_seg(&t.1).ident)).unwrap_or_default(),
            ty_name(&im.self_ty)
        ),
        Item::Fn(f) => f.sig.ident.to_string(),
        Item::Struct(f) => f.ident.to_string(),
        Item::Enum(f) => f.ident.to_string(),
        Item::Trait(f) => f.ident.to_string(),
        _ => "item".into(),
    }
}

impl Cx {
    /// a Vec of a known type made by `x.map(..).collect()`: the closure returns that type
    pub fn note_tails(&mut self, t: &Type, e: &Expr) -> std::result::Result<(), String> {
        if let Type::Path(p) = t {
            let seg = p.path.segments.last().unwrap();
            if seg.ident == "Vec" {
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    if let Some(GenericArgument::Type(t)) = a.args.first() {
                        if matches!(t, Type::Infer(_)) {
                            return Ok(());
                        }
                        let ty = self.ty(t)?;
                        let mut v = vec![];
                        tails(e, &mut v);
                        for p in v {
                            self.tail_maps.insert(p, ty.clone());
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

#[allow(dead_code)]
fn unused(_: &Clause) {}

/// the values a function returns early
struct Returns(Vec<Expr>);
impl<'a> syn::visit::Visit<'a> for Returns {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        if let Some(e) = &r.expr {
            self.0.push((**e).clone())
        }
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

/// the `x.map(..)` of `x.map(..).collect()` in tail position
fn tails(e: &Expr, v: &mut Vec<(usize, usize)>) {
    fn block(b: &Block, v: &mut Vec<(usize, usize)>) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            tails(e, v)
        }
    }
    match e {
        Expr::If(i) => {
            block(&i.then_branch, v);
            if let Some((_, e)) = &i.else_branch {
                tails(e, v)
            }
        }
        Expr::Block(b) => block(&b.block, v),
        Expr::Match(m) => m.arms.iter().for_each(|a| tails(&a.body, v)),
        Expr::MethodCall(m) if m.method == "collect" => {
            if let Expr::MethodCall(x) = &*m.receiver {
                if x.method == "map" {
                    let s = x.method.span().start();
                    v.push((s.line, s.column));
                }
            }
        }
        _ => {}
    }
}
