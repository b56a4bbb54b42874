//! Rewrites a closure body that leaves early (`return`, `?` on an Option) into an
//! equivalent expression without early exits.
use syn::visit::Visit;
use syn::*;

struct Esc(bool);
impl<'a> Visit<'a> for Esc {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
pub fn escapes(e: &Expr) -> bool {
    let mut v = Esc(false);
    v.visit_expr(e);
    v.0
}
pub fn stmts_escape(s: &[Stmt]) -> bool {
    let mut v = Esc(false);
    for x in s {
        v.visit_stmt(x)
    }
    v.0
}

fn block_of(stmts: Vec<Stmt>) -> Block {
    Block {
        brace_token: Default::default(),
        stmts,
    }
}
fn eblock(stmts: Vec<Stmt>) -> Expr {
    if stmts.len() == 1 {
        if let Stmt::Expr(e, None) = &stmts[0] {
            return e.clone();
        }
    }
    Expr::Block(ExprBlock {
        attrs: vec![],
        label: None,
        block: block_of(stmts),
    })
}
fn as_block(e: Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block,
        e => block_of(vec![Stmt::Expr(e, None)]),
    }
}

type R = std::result::Result<Expr, String>;

/// does every path through this expression leave?
fn diverges(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(e, _)) => diverges(e),
            _ => false,
        },
        Expr::If(i) => match &i.else_branch {
            Some((_, el)) => {
                diverges(&eblock(i.then_branch.stmts.clone())) && diverges(el)
            }
            None => false,
        },
        _ => false,
    }
}

pub fn deret_stmts(stmts: &[Stmt]) -> R {
    if !stmts_escape(stmts) {
        return Ok(eblock(stmts.to_vec()));
    }
    let (s, rest) = stmts.split_first().ok_or("empty block")?;
    if rest.is_empty() {
        if let Stmt::Expr(e, _) = s {
            return deret(e);
        }
    }
    match s {
        Stmt::Local(l) => {
            if let Some(init) = &l.init {
                if let Some((_, div)) = &init.diverge {
                    // let PAT = e else { return x };
                    let pat = &l.pat;
                    let e = &init.expr;
                    let good = deret_stmts(rest)?;
                    let bad = deret(div)?;
                    return Ok(parse_quote!(match #e { #pat => #good, _ => #bad }));
                }
                if escapes(&init.expr) {
                    let pat = l.pat.clone();
                    let rest = rest.to_vec();
                    return push(&init.expr, &move |v: Expr| {
                        let mut st: Vec<Stmt> = vec![parse_quote!(let #pat = #v;)];
                        st.extend(rest.clone());
                        deret_stmts(&st)
                    });
                }
            }
            let r = deret_stmts(rest)?;
            let mut st = vec![s.clone()];
            st.extend(as_block(r).stmts);
            Ok(eblock(st))
        }
        Stmt::Expr(e, _) => {
            if diverges(e) {
                return deret(e);
            }
            if escapes(e) {
                if let Expr::If(i) = e {
                    if i.else_branch.is_none() {
                        let cond = &i.cond;
                        if escapes(cond) {
                            return Err("early exit in a condition".into());
                        }
                        let then = eblock(i.then_branch.stmts.clone());
                        if diverges(&then) {
                            let t = as_block(deret(&then)?);
                            let el = as_block(deret_stmts(rest)?);
                            return Ok(parse_quote!(if #cond #t else #el));
                        }
                    }
                }
                return Err("early exit in a statement".into());
            }
            let r = deret_stmts(rest)?;
            let mut st = vec![s.clone()];
            st.extend(as_block(r).stmts);
            Ok(eblock(st))
        }
        _ => Err("early exit around an item or macro".into()),
    }
}

/// value of `e` goes to `k`, early exits do not
fn push(e: &Expr, k: &dyn Fn(Expr) -> R) -> R {
    if !escapes(e) {
        return k(e.clone());
    }
    match e {
        Expr::Paren(p) => push(&p.expr, k),
        Expr::Return(_) => deret(e),
        Expr::Try(t) => {
            let inner = &t.expr;
            if escapes(inner) {
                return push(inner, &|v| {
                    let g = k(parse_quote!(v_try))?;
                    Ok(parse_quote!(match #v { Some(v_try) => #g, None => None }))
                });
            }
            let g = k(parse_quote!(v_try))?;
            Ok(parse_quote!(match #inner { Some(v_try) => #g, None => None }))
        }
        Expr::If(i) => {
            let cond = &i.cond;
            if escapes(cond) {
                return Err("early exit in a condition".into());
            }
            let (_, el) = i.else_branch.as_ref().ok_or("if without else")?;
            let t = as_block(push(&eblock(i.then_branch.stmts.clone()), k)?);
            let f = as_block(push(el, k)?);
            Ok(parse_quote!(if #cond #t else #f))
        }
        Expr::Match(m) => {
            let mut m = m.clone();
            if escapes(&m.expr) {
                return Err("early exit in a scrutinee".into());
            }
            for a in m.arms.iter_mut() {
                *a.body = push(&a.body, k)?;
                a.comma = Some(Default::default());
            }
            Ok(Expr::Match(m))
        }
        Expr::Block(b) => {
            // statements before the tail must not leave, except by the known shapes
            let (last, init) = b.block.stmts.split_last().ok_or("empty block")?;
            match last {
                Stmt::Expr(t, None) if !stmts_escape(init) => {
                    let v = push(t, k)?;
                    let mut st = init.to_vec();
                    st.extend(as_block(v).stmts);
                    Ok(eblock(st))
                }
                Stmt::Expr(t, Some(_)) if diverges(t) && !stmts_escape(init) => {
                    let v = deret(t)?;
                    let mut st = init.to_vec();
                    st.extend(as_block(v).stmts);
                    Ok(eblock(st))
                }
                _ => Err("early exit in a nested block".into()),
            }
        }
        Expr::Call(c) => {
            let n = c.args.iter().filter(|a| escapes(a)).count();
            if n != 1 || escapes(&c.func) {
                return Err("early exits in several arguments".into());
            }
            let i = c.args.iter().position(escapes).unwrap();
            push(&c.args[i], &|v| {
                let mut c = c.clone();
                c.args[i] = v;
                k(Expr::Call(c))
            })
        }
        Expr::MethodCall(c) => {
            if escapes(&c.receiver) {
                if c.args.iter().any(escapes) {
                    return Err("early exits in several arguments".into());
                }
                return push(&c.receiver, &|v| {
                    let mut c = c.clone();
                    *c.receiver = v;
                    k(Expr::MethodCall(c))
                });
            }
            let n = c.args.iter().filter(|a| escapes(a)).count();
            if n != 1 {
                return Err("early exits in several arguments".into());
            }
            let i = c.args.iter().position(escapes).unwrap();
            push(&c.args[i], &|v| {
                let mut c = c.clone();
                c.args[i] = v;
                k(Expr::MethodCall(c))
            })
        }
        _ => Err("early exit in an unsupported place".into()),
    }
}

pub fn deret(e: &Expr) -> R {
    if !escapes(e) {
        return Ok(e.clone());
    }
    match e {
        Expr::Return(r) => match &r.expr {
            Some(x) => deret(x),
            None => Ok(parse_quote!(())),
        },
        Expr::Paren(p) => deret(&p.expr),
        Expr::Block(b) => deret_stmts(&b.block.stmts),
        Expr::If(i) => {
            let cond = &i.cond;
            if escapes(cond) {
                return Err("early exit in a condition".into());
            }
            let (_, el) = i.else_branch.as_ref().ok_or("if without else")?;
            let t = as_block(deret_stmts(&i.then_branch.stmts)?);
            let f = as_block(deret(el)?);
            Ok(parse_quote!(if #cond #t else #f))
        }
        Expr::Match(m) => {
            if escapes(&m.expr) {
                return push(&m.expr, &|v| {
                    let mut m = m.clone();
                    *m.expr = v;
                    deret(&Expr::Match(m))
                });
            }
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                *a.body = deret(&a.body)?;
                a.comma = Some(Default::default());
            }
            Ok(Expr::Match(m))
        }
        e => push(e, &Ok),
    }
}
