//! Early exits of a helper or closure body turned into nested expressions, so that the body can
//! stand where its call stood. `let p = e?; rest` becomes `__vtry!{ (e) (p) { rest } }`, which the
//! lowering turns into a match on the Option or Result `e` (see `Lower::vtry`).
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use syn::*;

fn exits(m: &Macro) -> bool { let n = m.path.segments.last().unwrap().ident.to_string(); matches!(n.as_str(), "bail" | "ensure") || n != "__vtry" && tries(&m.tokens) }
fn tries(ts: &TokenStream) -> bool {
    ts.clone().into_iter().any(|t| match t { TokenTree::Punct(p) => p.as_char() == '?', TokenTree::Group(g) => tries(&g.stream()), TokenTree::Ident(i) => i == "return", _ => false })
}
struct Has { any: bool, non_err: bool }
impl<'a> visit::Visit<'a> for Has {
    fn visit_expr_try(&mut self, e: &'a ExprTry) { self.any = true; visit::visit_expr_try(self, e); }
    fn visit_expr_return(&mut self, e: &'a ExprReturn) {
        self.any = true;
        let err = match e.expr.as_deref() { Some(Expr::Call(c)) => c.func.to_token_stream().to_string() == "Err", _ => false };
        if !err { self.non_err = true; }
        visit::visit_expr_return(self, e);
    }
    fn visit_macro(&mut self, m: &'a Macro) { if exits(m) { self.any = true; } }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
pub fn has_flow(e: &Expr) -> bool { let mut v = Has { any: false, non_err: false }; visit::Visit::visit_expr(&mut v, e); v.any }
/// every early exit of the block hands an error on
pub fn only_errors(b: &Block) -> bool { let mut v = Has { any: false, non_err: false }; visit::Visit::visit_block(&mut v, b); !v.non_err }
fn stmt_flow(s: &Stmt) -> bool { let mut v = Has { any: false, non_err: false }; visit::Visit::visit_stmt(&mut v, s); v.any }
fn has_loop(s: &[Stmt]) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) { self.0 = true; }
        fn visit_expr_while(&mut self, _: &'a ExprWhile) { self.0 = true; }
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) { self.0 = true; }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) { if matches!(m.method.to_string().as_str(), "map" | "filter" | "collect" | "fold" | "any" | "all" | "find" | "reduce") { self.0 = true; } visit::visit_expr_method_call(self, m); }
    }
    let mut v = V(false);
    for x in s { visit::Visit::visit_stmt(&mut v, x); }
    v.0
}
pub struct Flow { n: usize, budget: usize, cont: Vec<std::collections::BTreeSet<String>> }
type R<T> = Option<T>;
/// a block that ends by leaving the function
fn leaves(b: &Block) -> bool { match b.stmts.last() { Some(Stmt::Expr(Expr::Return(_), _)) => true, Some(Stmt::Macro(m)) => m.mac.path.is_ident("bail"), _ => false } }
impl Flow {
    pub fn new() -> Self { Flow { n: 0, budget: 60, cont: vec![] } }
    fn fresh(&mut self) -> Ident { self.n += 1; format_ident!("__h{}", self.n) }
    pub fn block(&mut self, b: &Block) -> R<Block> { let e = self.stmts(b.stmts.clone())?; Some(parse_quote!({ #e })) }
    fn vtry(e: Expr, p: TokenStream, rest: Expr) -> Expr { parse_quote!(__vtry!{ (#e) (#p) { #rest } }) }
    fn blk(prefix: &[Stmt], e: Expr) -> Expr { if prefix.is_empty() { match e { Expr::Block(b) => Expr::Block(b), e => parse_quote!({ #e }) } } else { parse_quote!({ #(#prefix)* #e }) } }
    /// the value of a statement list in tail position
    fn stmts(&mut self, s: Vec<Stmt>) -> R<Expr> {
        if self.budget == 0 { return None; } self.budget -= 1;
        let i = match s.iter().position(stmt_flow) { None => return Some(parse_quote!({ #(#s)* })), Some(i) => i };
        let prefix = &s[..i];
        let rest: Vec<Stmt> = s[i + 1..].to_vec();
        let e = match &s[i] {
            Stmt::Item(_) => return None,
            Stmt::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                let ts = &m.mac.tokens;
                match n.as_str() {
                    "bail" if !tries(ts) => parse_quote!(Err(anyhow!(#ts))),
                    "ensure" if !tries(ts) => {
                        let a = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                        let c = &a[0]; let r = self.stmts(rest)?;
                        parse_quote!(if #c { #r } else { Err(anyhow!("")) })
                    }
                    _ => return None,
                }
            }
            Stmt::Expr(e, semi) => {
                if semi.is_none() && rest.is_empty() { self.tail(e.clone())? } else { self.unit_then(e.clone(), rest)? }
            }
            Stmt::Local(l) => self.local(l.clone(), rest)?,
        };
        Some(Self::blk(prefix, e))
    }
    fn push_cont(&mut self, rest: &[Stmt]) { let mut c = std::collections::BTreeSet::new(); crate::lower::idents(quote!(#(#rest)*), &mut |n| { c.insert(n); }); self.cont.push(c); }
    fn hoisted(&mut self, out: Vec<(Ident, Expr)>, e: Expr) -> Expr { out.into_iter().rev().fold(e, |acc, (h, x)| Self::vtry(x, quote!(#h), acc)) }
    fn local(&mut self, mut l: Local, rest: Vec<Stmt>) -> R<Expr> {
        let mut init = l.init.take()?;
        if let Some((_, d)) = init.diverge.take() {
            if let (d, false) = (&d, has_flow(&init.expr)) {
                let x = &init.expr; let p = match &l.pat { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                let d = self.tail((**d).clone())?; let r = self.stmts(rest)?;
                return Some(parse_quote!(match #x { #p => #r, _ => { #d } }));
            }
            return None;
        }
        let p = &l.pat;
        match *init.expr {
            Expr::Try(t) if !has_flow(&t.expr) => { let r = self.stmts(rest)?; Some(Self::vtry(*t.expr, quote!(#p), r)) }
            e @ (Expr::Match(_) | Expr::If(_) | Expr::Block(_)) => {
                let p = p.clone();
                self.push_cont(&rest);
                let r = self.branch(e, &mut |s: &mut Self, v: Option<Expr>| { let v = v?; let mut r: Vec<Stmt> = vec![parse_quote!(let #p = #v;)]; r.extend(rest.iter().cloned()); let c = s.cont.pop(); let x = s.stmts(r); s.cont.extend(c); x }, has_loop(&rest));
                self.cont.pop(); r
            }
            mut e => {
                let mut out = vec![];
                self.hoist(&mut e, &mut out)?;
                let mut r: Vec<Stmt> = vec![parse_quote!(let #p = #e;)];
                r.extend(rest);
                let r = self.stmts(r)?;
                Some(self.hoisted(out, r))
            }
        }
    }
    /// the statement `e;` and what follows it
    fn unit_then(&mut self, e: Expr, rest: Vec<Stmt>) -> R<Expr> {
        match e {
            Expr::Return(r) => self.tail(*r.expr?),
            Expr::Try(t) if !has_flow(&t.expr) => { let r = self.stmts(rest)?; Some(Self::vtry(*t.expr, quote!(_), r)) }
            Expr::Macro(m) => self.stmts(std::iter::once(Stmt::Macro(StmtMacro { attrs: vec![], mac: m.mac, semi_token: Some(Default::default()) })).chain(rest).collect()),
            e @ (Expr::Match(_) | Expr::If(_) | Expr::Block(_)) => {
                self.push_cont(&rest);
                let r = self.branch(e, &mut |s: &mut Self, v: Option<Expr>| { let mut r: Vec<Stmt> = vec![]; if let Some(v) = v { r.push(parse_quote!(#v;)); } r.extend(rest.iter().cloned()); let c = s.cont.pop(); let x = s.stmts(r); s.cont.extend(c); x }, has_loop(&rest));
                self.cont.pop(); r
            }
            mut e => {
                let mut out = vec![];
                self.hoist(&mut e, &mut out)?;
                let mut r: Vec<Stmt> = vec![parse_quote!(#e;)];
                r.extend(rest);
                let r = self.stmts(r)?;
                Some(self.hoisted(out, r))
            }
        }
    }
    /// push a continuation into the branches that fall through
    fn branch(&mut self, e: Expr, k: &mut dyn FnMut(&mut Self, Option<Expr>) -> R<Expr>, once: bool) -> R<Expr> {
        let mut used = 0;
        let r = self.branch_in(e, k, &mut used)?;
        if used > 1 && once { return None; }
        Some(r)
    }
    fn branch_in(&mut self, e: Expr, k: &mut dyn FnMut(&mut Self, Option<Expr>) -> R<Expr>, used: &mut usize) -> R<Expr> {
        match e {
            Expr::If(mut i) => {
                if let Expr::Let(l) = &*i.cond { if has_flow(&l.expr) { return None; } }
                let mut out = vec![];
                if has_flow(&i.cond) { self.hoist(&mut i.cond, &mut out)?; }
                let c = &i.cond;
                let a = self.fall(i.then_branch.stmts, k, used)?;
                let b = match i.else_branch { Some((_, e)) => self.branch_in(*e, k, used)?, None => { *used += 1; k(self, None)? } };
                let e: Expr = parse_quote!(if #c { #a } else { #b });
                Some(self.hoisted(out, e))
            }
            Expr::Match(mut m) => {
                let mut out = vec![];
                if has_flow(&m.expr) { self.hoist(&mut m.expr, &mut out)?; }
                let mut arms = vec![];
                for mut a in m.arms { if let Some((_, g)) = &a.guard { if has_flow(g) { return None; } } let b = self.branch_in(*a.body, k, used)?; a.body = Box::new(parse_quote!({ #b })); a.comma = Some(Default::default()); arms.push(a); }
                let x = &m.expr;
                let e: Expr = parse_quote!(match #x { #(#arms)* });
                Some(self.hoisted(out, e))
            }
            Expr::Block(b) if b.label.is_none() => self.fall(b.block.stmts, k, used),
            Expr::Return(r) => self.tail(*r.expr?),
            Expr::Macro(m) if exits(&m.mac) => { let ts = &m.mac.tokens; if m.mac.path.is_ident("bail") && !tries(ts) { Some(parse_quote!(Err(anyhow!(#ts)))) } else { None } }
            mut e => { let mut out = vec![]; self.hoist(&mut e, &mut out)?; *used += 1; let r = k(self, Some(e))?; Some(self.hoisted(out, r)) }
        }
    }
    /// a branch body followed by the continuation
    fn fall(&mut self, mut s: Vec<Stmt>, k: &mut dyn FnMut(&mut Self, Option<Expr>) -> R<Expr>, used: &mut usize) -> R<Expr> {
        if let Some(i) = s.iter().position(|x| matches!(x, Stmt::Expr(Expr::Return(_), _)) || matches!(x, Stmt::Macro(m) if m.mac.path.is_ident("bail"))) { s.truncate(i + 1); return self.stmts(s); }
        // the continuation moves into the scope of what this block declares
        let mut names = vec![];
        for x in &s { if let Stmt::Local(l) = x { crate::lower::pat_names(&l.pat, &mut names); } }
        if names.iter().any(|n| self.cont.iter().any(|c| c.contains(n))) { return None; }
        let i = s.iter().position(stmt_flow);
        if let Some(i) = i { if i + 1 < s.len() || !matches!(s[i], Stmt::Expr(_, None)) {
            let tail: Vec<Stmt> = s[i + 1..].to_vec();
            let pre = s[..i].to_vec();
            let e = match s[i].clone() {
                Stmt::Local(mut l) => {
                    let init = l.init.take()?;
                    let p = l.pat.clone();
                    if let Some((_, d)) = init.diverge {
                        if has_flow(&init.expr) { return None; }
                        let x = &init.expr; let p = match &p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                        let d = self.tail((*d).clone())?; let r = self.fall(tail, k, used)?;
                        parse_quote!(match #x { #p => #r, _ => { #d } })
                    } else { match *init.expr {
                        Expr::Try(t) if !has_flow(&t.expr) => { let r = self.fall(tail, k, used)?; Self::vtry(*t.expr, quote!(#p), r) }
                        Expr::Match(_) | Expr::If(_) | Expr::Block(_) => return None,
                        mut e => {
                            let mut out = vec![];
                            self.hoist(&mut e, &mut out)?;
                            let mut r: Vec<Stmt> = vec![parse_quote!(let #p = #e;)];
                            r.extend(tail);
                            let r = self.fall(r, k, used)?;
                            self.hoisted(out, r)
                        }
                    } }
                }
                Stmt::Expr(Expr::Try(t), Some(_)) if !has_flow(&t.expr) => { let r = self.fall(tail, k, used)?; Self::vtry(*t.expr, quote!(_), r) }
                Stmt::Expr(Expr::If(c), _) if c.else_branch.is_none() && !has_flow(&c.cond) && leaves(&c.then_branch) => {
                    let c0 = &c.cond; let a = self.stmts(c.then_branch.stmts.clone())?; let r = self.fall(tail, k, used)?;
                    parse_quote!(if #c0 { #a } else { #r })
                }
                _ => return None,
            };
            return Some(Self::blk(&pre, e));
        } }
        let last = match s.last() { Some(Stmt::Expr(_, None)) => match s.pop() { Some(Stmt::Expr(e, None)) => Some(e), _ => None }, _ => None };
        let e = match last { Some(e) => self.branch_in(e, k, used)?, None => { *used += 1; k(self, None)? } };
        Some(Self::blk(&s, e))
    }
    /// an expression in tail position
    fn tail(&mut self, e: Expr) -> R<Expr> {
        if !has_flow(&e) { return Some(e); }
        match e {
            Expr::Paren(p) => self.tail(*p.expr),
            Expr::Group(p) => self.tail(*p.expr),
            Expr::Block(b) if b.label.is_none() => self.stmts(b.block.stmts),
            Expr::Return(r) => self.tail(*r.expr?),
            Expr::Macro(m) => { let ts = &m.mac.tokens; if m.mac.path.is_ident("bail") && !tries(ts) { Some(parse_quote!(Err(anyhow!(#ts)))) } else { None } }
            Expr::If(mut i) => {
                if let Expr::Let(l) = &*i.cond { if has_flow(&l.expr) { return None; } }
                let mut out = vec![];
                if has_flow(&i.cond) { self.hoist(&mut i.cond, &mut out)?; }
                let c = &i.cond; let a = self.stmts(i.then_branch.stmts)?; let b = self.tail(*i.else_branch?.1)?;
                let e: Expr = parse_quote!(if #c { #a } else { #b });
                Some(self.hoisted(out, e))
            }
            Expr::Match(mut m) => {
                let mut out = vec![];
                if has_flow(&m.expr) { self.hoist(&mut m.expr, &mut out)?; }
                let mut arms = vec![];
                for mut a in m.arms { if let Some((_, g)) = &a.guard { if has_flow(g) { return None; } } let b = self.tail(*a.body)?; a.body = Box::new(parse_quote!({ #b })); a.comma = Some(Default::default()); arms.push(a); }
                let x = &m.expr;
                let e: Expr = parse_quote!(match #x { #(#arms)* });
                Some(self.hoisted(out, e))
            }
            mut e => { let mut out = vec![]; self.hoist(&mut e, &mut out)?; Some(self.hoisted(out, e)) }
        }
    }
    /// take the `?` operations out of an expression, in evaluation order
    fn hoist(&mut self, e: &mut Expr, out: &mut Vec<(Ident, Expr)>) -> R<()> {
        if !has_flow(e) { return Some(()); }
        match e {
            Expr::Try(t) => { self.hoist(&mut t.expr, out)?; let h = self.fresh(); out.push((h.clone(), (*t.expr).clone())); *e = parse_quote!(#h); }
            Expr::MethodCall(m) => { self.hoist(&mut m.receiver, out)?; for a in m.args.iter_mut() { self.hoist(a, out)?; } }
            Expr::Call(c) => { for a in c.args.iter_mut() { self.hoist(a, out)?; } }
            Expr::Field(f) => self.hoist(&mut f.base, out)?,
            Expr::Reference(r) => self.hoist(&mut r.expr, out)?,
            Expr::Unary(r) => self.hoist(&mut r.expr, out)?,
            Expr::Paren(r) => self.hoist(&mut r.expr, out)?,
            Expr::Group(r) => self.hoist(&mut r.expr, out)?,
            Expr::Await(r) => self.hoist(&mut r.base, out)?,
            Expr::Cast(r) => self.hoist(&mut r.expr, out)?,
            Expr::Index(r) => { self.hoist(&mut r.expr, out)?; self.hoist(&mut r.index, out)?; }
            Expr::Struct(s) => { if s.rest.as_ref().map(|r| has_flow(r)).unwrap_or(false) { return None; } for f in s.fields.iter_mut() { self.hoist(&mut f.expr, out)?; } }
            Expr::Tuple(t) => for a in t.elems.iter_mut() { self.hoist(a, out)?; },
            Expr::Array(t) => for a in t.elems.iter_mut() { self.hoist(a, out)?; },
            Expr::Assign(a) => self.hoist(&mut a.right, out)?,
            Expr::Binary(b) => {
                self.hoist(&mut b.left, out)?;
                if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) { if has_flow(&b.right) { return None; } } else { self.hoist(&mut b.right, out)?; }
            }
            _ => return None,
        }
        Some(())
    }
}
