//! Quantifiers of iterators whose answer is the function's answer, as the loops they abbreviate.
use quote::ToTokens;
use syn::*;

fn peel(e: &Expr) -> &Expr { match e { Expr::Paren(p) => peel(&p.expr), Expr::Group(g) => peel(&g.expr), e => e } }
/// `it.all(|p| b)`: its parts, and whether it is `all`
fn quant(e: &Expr) -> Option<(Expr, Pat, Expr, bool)> {
    match peel(e) {
        Expr::Unary(ExprUnary { op: UnOp::Not(_), .. }) => None,
        Expr::MethodCall(m) if m.args.len() == 1 && (m.method == "all" || m.method == "any") => match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                // the receiver of `all` is an iterator, taken by reference
                if matches!(peel(&m.receiver), Expr::Path(_)) { return None; }
                Some(((*m.receiver).clone(), p, (*c.body).clone(), m.method == "all"))
            }
            _ => None,
        },
        _ => None,
    }
}
fn neg(e: Expr) -> Expr { match e { Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => peel(&expr).clone(), e => parse_quote!(!(#e)) } }
fn flows(e: &Expr) -> bool { crate::flow::has_flow(e) }
/// statements equivalent to a boolean tail expression
fn tail_bool(e: &Expr) -> Option<Vec<Stmt>> {
    match peel(e) {
        Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => {
            let (r, p, b, all) = quant(expr)?; if flows(&b) { return None; }
            let c = if all { neg(b) } else { b };
            Some(if all { vec![parse_quote!(for #p in #r { if #c { return true; } }), Stmt::Expr(parse_quote!(false), None)] } else { vec![parse_quote!(for #p in #r { if #c { return false; } }), Stmt::Expr(parse_quote!(true), None)] })
        }
        Expr::Binary(b @ ExprBinary { op: BinOp::And(_) | BinOp::Or(_), .. }) => {
            let and = matches!(b.op, BinOp::And(_));
            let rest = tail_bool(&b.right)?;
            let l = (*b.left).clone();
            let mut out: Vec<Stmt> = if and { let n = neg(l); vec![parse_quote!(if #n { return false; })] } else { vec![parse_quote!(if #l { return true; })] };
            out.extend(rest); Some(out)
        }
        e => {
            let (r, p, b, all) = quant(e)?; if flows(&b) { return None; }
            let c = if all { neg(b) } else { b };
            Some(if all { vec![parse_quote!(for #p in #r { if #c { return false; } }), Stmt::Expr(parse_quote!(true), None)] } else { vec![parse_quote!(for #p in #r { if #c { return true; } }), Stmt::Expr(parse_quote!(false), None)] })
        }
    }
}
fn tail_stmts(s: &mut Vec<Stmt>) {
    let last = match s.last() {
        Some(Stmt::Expr(Expr::Return(ExprReturn { expr: Some(e), .. }), _)) => (**e).clone(),
        Some(Stmt::Expr(e, None)) => e.clone(),
        _ => return,
    };
    if let Some(r) = tail_bool(&last) { s.pop(); s.extend(r); return; }
    if let Some(Stmt::Expr(e, None)) = s.last_mut() { tail_expr(e); }
}
fn tail_expr(e: &mut Expr) {
    match e {
        Expr::Block(b) if b.label.is_none() => tail_stmts(&mut b.block.stmts),
        Expr::If(i) => { tail_stmts(&mut i.then_branch.stmts); if let Some((_, x)) = &mut i.else_branch { tail_expr(x); } }
        Expr::Match(m) => for a in m.arms.iter_mut() {
            if let Some(r) = tail_bool(&a.body) { *a.body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: r } }); } else { tail_expr(&mut a.body); }
        },
        _ => {}
    }
}
/// `if it.any(|p| c) { ..return }` as a loop that returns
struct Guards;
impl visit_mut::VisitMut for Guards {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Expr(Expr::If(i), _) = &s {
                if i.else_branch.is_none() && diverges(&i.then_branch) {
                    let q = match peel(&i.cond) { Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => quant(expr).map(|(r, p, b, all)| (r, p, b, all, true)), c => quant(c).map(|(r, p, b, all)| (r, p, b, all, false)) };
                    if let Some((r, p, body, all, not)) = q {
                        let mut names = vec![]; crate::lower::pat_names(&p, &mut names);
                        let then = &i.then_branch;
                        let ts = then.to_token_stream();
                        if all == not && !flows(&body) && !names.iter().any(|n| crate::lower::contains_ident(&ts, n)) {
                            let c = if all { neg(body) } else { body };
                            out.push(parse_quote!(for #p in #r { if #c #then }));
                            continue;
                        }
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}
fn diverges(b: &Block) -> bool {
    let ok = match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Macro(m)) => m.mac.path.segments.last().map(|s| s.ident == "bail").unwrap_or(false),
        _ => false,
    };
    struct V(bool);
    impl<'a> visit::Visit<'a> for V { fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; } fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true; } }
    let mut v = V(false); visit::Visit::visit_block(&mut v, b);
    ok && !v.0
}
/// `v.iter_mut().find(|p| c)`: v, p, c
fn find_mut(e: &Expr) -> Option<(Expr, Ident, Expr)> {
    let m = match peel(e) { Expr::MethodCall(m) if m.method == "find" && m.args.len() == 1 => m, _ => return None };
    let v = match peel(&m.receiver) { Expr::MethodCall(r) if r.method == "iter_mut" && r.args.is_empty() => (*r.receiver).clone(), _ => return None };
    let c = match &m.args[0] { Expr::Closure(c) if c.inputs.len() == 1 => c, _ => return None };
    let p = match &c.inputs[0] { Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => i.ident.clone(), _ => return None };
    if flows(&c.body) { return None; }
    Some((v, p, (*c.body).clone()))
}
fn some_ident(p: &Pat) -> Option<Ident> {
    match p { Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => match &t.elems[0] { Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => Some(i.ident.clone()), _ => None }, _ => None }
}
fn jumps(b: &[Stmt]) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V { fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; } fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true; } }
    let mut v = V(false); for s in b { visit::Visit::visit_stmt(&mut v, s); } v.0
}
fn stmts_of(e: &Expr) -> Vec<Stmt> { match peel(e) { Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), Some(Default::default()))] } }
/// the first element a loop's last statement finds and changes, as a loop over the elements that goes on with the outer loop
struct Finds(usize);
impl Finds {
    fn rewrite(&mut self, b: &mut Block, label: &mut Option<Label>) {
        let n = b.stmts.len();
        for at in 0..n {
            let Stmt::Expr(e, _) = &b.stmts[at] else { continue };
            let last = at + 1 == n;
            let (scrut, q, mut then, els): (Expr, Ident, Vec<Stmt>, Option<Vec<Stmt>>) = match e {
                Expr::Match(m) if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
                    let Some(k) = m.arms.iter().position(|a| some_ident(&a.pat).is_some()) else { continue };
                    ((*m.expr).clone(), some_ident(&m.arms[k].pat).unwrap(), stmts_of(&m.arms[k].body), Some(stmts_of(&m.arms[1 - k].body)))
                }
                Expr::If(i) => match &*i.cond {
                    Expr::Let(l) => { let Some(q) = some_ident(&l.pat) else { continue }; ((*l.expr).clone(), q, i.then_branch.stmts.clone(), i.else_branch.as_ref().map(|(_, e)| stmts_of(e))) }
                    _ => continue,
                },
                _ => continue,
            };
            // the search may be bound just before
            let (scrut, from) = match peel(&scrut) {
                Expr::Path(p) if at > 0 => match &b.stmts[at - 1] {
                    Stmt::Local(Local { pat: Pat::Ident(i), init: Some(LocalInit { expr, diverge: None, .. }), .. }) if p.path.is_ident(&i.ident) => ((**expr).clone(), at - 1),
                    _ => continue,
                },
                _ => (scrut, at),
            };
            let Some((v, p, c)) = find_mut(&scrut) else { continue };
            let ends = matches!(then.last(), Some(Stmt::Expr(Expr::Continue(k), _)) if k.label.is_none());
            if ends { then.pop(); }
            if !(last || ends) || jumps(&then) { continue; }
            let lab = label.get_or_insert_with(|| { self.0 += 1; let l = Lifetime::new(&format!("'__l{}", self.0), proc_macro2::Span::call_site()); parse_quote!(#l:) }).name.clone();
            let c: Expr = match parse2(crate::lower::rename_ident(c.to_token_stream(), &p, &q)) { Ok(c) => c, Err(_) => continue };
            if let Some(Stmt::Expr(_, s @ None)) = then.last_mut() { *s = Some(Default::default()); }
            let mut out: Vec<Stmt> = b.stmts[..from].to_vec();
            out.push(parse_quote!(for #q in &mut #v { if #c { #(#then)* continue #lab; } }));
            out.extend(els.into_iter().flatten());
            out.extend(b.stmts[at + 1..].iter().cloned());
            b.stmts = out;
            return;
        }
    }
}
impl visit_mut::VisitMut for Finds {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) { visit_mut::visit_expr_for_loop_mut(self, f); let mut l = f.label.take(); self.rewrite(&mut f.body, &mut l); f.label = l; }
    fn visit_expr_while_mut(&mut self, f: &mut ExprWhile) { visit_mut::visit_expr_while_mut(self, f); let mut l = f.label.take(); self.rewrite(&mut f.body, &mut l); f.label = l; }
    fn visit_expr_loop_mut(&mut self, f: &mut ExprLoop) { visit_mut::visit_expr_loop_mut(self, f); let mut l = f.label.take(); self.rewrite(&mut f.body, &mut l); f.label = l; }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}
/// `let s: Set = it.flat_map(|p| e).collect()` as a loop that extends the set
struct Sets;
fn is_set(t: &Type) -> bool { matches!(t, Type::Path(p) if matches!(p.path.segments.last().unwrap().ident.to_string().as_str(), "BTreeSet" | "HashSet")) }
impl visit_mut::VisitMut for Sets {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match set_loop(&s) { Some(r) => out.extend(r), None => out.push(s) }
        }
        b.stmts = out;
    }
}
fn set_loop(s: &Stmt) -> Option<Vec<Stmt>> {
    let Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) = s else { return None };
    let (id, ty) = match pat { Pat::Ident(i) if i.subpat.is_none() => (i.ident.clone(), None), Pat::Type(t) => match &*t.pat { Pat::Ident(i) => (i.ident.clone(), Some((*t.ty).clone())), _ => return None }, _ => return None };
    let m = match peel(expr) { Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() => m, _ => return None };
    let ty = match (ty, &m.turbofish) { (Some(t), _) => t, (None, Some(a)) if a.args.len() == 1 => match &a.args[0] { GenericArgument::Type(t) => t.clone(), _ => return None }, _ => return None };
    if !is_set(&ty) { return None; }
    let f = match peel(&m.receiver) { Expr::MethodCall(f) if f.method == "flat_map" && f.args.len() == 1 => f, _ => return None };
    let c = match &f.args[0] { Expr::Closure(c) if c.inputs.len() == 1 && !flows(&c.body) => c, _ => return None };
    let (p, e, r) = (&c.inputs[0], &c.body, &f.receiver);
    let owner = match &ty { Type::Path(p) => p.path.segments.last().unwrap().ident.clone(), _ => return None };
    let complete = matches!(&ty, Type::Path(p) if !p.to_token_stream().to_string().contains('_'));
    let l: Stmt = if complete { parse_quote!(let mut #id: #ty = #owner::new();) } else { parse_quote!(let mut #id = #owner::new();) };
    Some(vec![l, Stmt::Expr(parse_quote!(for #p in #r { #id.extend(#e); }), None)])
}
pub fn body(b: &mut Block, bool_tail: bool) {
    visit_mut::VisitMut::visit_block_mut(&mut Guards, b);
    visit_mut::VisitMut::visit_block_mut(&mut Finds(0), b);
    visit_mut::VisitMut::visit_block_mut(&mut Sets, b);
    if bool_tail { tail_stmts(&mut b.stmts); }
}
