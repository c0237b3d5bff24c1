//! Inlining of helper functions that have no contract of their own: `h(a, b)` becomes
//! `{ let p = a; let q = b; BODY }`, with the helper's current body. A helper is a free function of the
//! same file, or a method of the same type in the same file, that the template does not name. Bodies
//! that leave early are inlined only where leaving the caller is the same thing: in tail position (or
//! under `return`), and for `?` / `return Err(..)` directly under a `?`.
use crate::{pstr, ty_last};
use quote::quote;
use std::collections::{HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper { sig: Signature, block: Block, method: bool }

#[derive(Default)]
pub struct Helpers { map: HashMap<String, Helper> }

impl Helpers {
    pub fn collect(items: &[Item], known: &HashSet<String>) -> Helpers {
        let mut h = Helpers::default();
        for it in items {
            match it {
                Item::Fn(f) => {
                    let n = f.sig.ident.to_string();
                    if !known.contains(&n) { h.map.insert(n, Helper { sig: f.sig.clone(), block: (*f.block).clone(), method: false }); }
                }
                Item::Impl(i) if i.trait_.is_none() => for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        let n = format!("{}::{}", ty_last(&i.self_ty), f.sig.ident);
                        if !known.contains(&n) { h.map.insert(n, Helper { sig: f.sig.clone(), block: f.block.clone(), method: f.sig.receiver().is_some() }); }
                    }
                },
                _ => {}
            }
        }
        h
    }
    pub fn run(&self, ty: &str, block: &mut Block, used: &mut Vec<String>) {
        for _ in 0..4 {
            let mut v = Inl { h: self, ty: ty.to_string(), tail: false, used: vec![], depth: 0 };
            v.do_block(block, true);
            if v.used.is_empty() { break }
            used.append(&mut v.used);
        }
    }
}

#[derive(Default)]
struct Exits { ret_other: usize, ret_err: usize, q: usize }
impl<'a> Visit<'a> for Exits {
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        let err = match r.expr.as_deref() { Some(Expr::Call(c)) => pstr(&c.func) == "Err", _ => false };
        if err { self.ret_err += 1 } else { self.ret_other += 1 }
        visit::visit_expr_return(self, r)
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) { self.q += 1; visit::visit_expr_try(self, t) }
}
#[derive(Default)]
struct Idents { bound: HashSet<String>, seen: HashSet<String> }
impl<'a> Visit<'a> for Idents {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.bound.insert(p.ident.to_string()); visit::visit_pat_ident(self, p) }
    fn visit_ident(&mut self, i: &'a proc_macro2::Ident) { self.seen.insert(i.to_string()); }
}
/// an expression that may be written any number of times in place of a parameter
fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && place(&u.expr),
        Expr::Reference(r) => place(&r.expr),
        _ => false,
    }
}
struct Subst { m: HashMap<String, Expr>, hit_macro: bool }
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `*p` with p = &place  ==>  place
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Expr::Path(p) = &*u.expr {
                    if let Some(i) = p.path.get_ident() {
                        if let Some(Expr::Reference(r)) = self.m.get(&i.to_string()) { let x = &r.expr; *e = parse_quote!(#x); return }
                    }
                }
            }
        }
        // `p.method(..)` / `p.field` with p = &place  ==>  place.method(..)
        let strip = |m: &HashMap<String, Expr>, b: &mut Box<Expr>| {
            if let Expr::Path(p) = &**b { if let Some(i) = p.path.get_ident() { if let Some(Expr::Reference(r)) = m.get(&i.to_string()) { *b = r.expr.clone(); return true } } }
            false
        };
        match e {
            Expr::MethodCall(c) => { if strip(&self.m, &mut c.receiver) { for a in c.args.iter_mut() { self.visit_expr_mut(a) } return } }
            Expr::Field(f) => { if strip(&self.m, &mut f.base) { return } }
            _ => {}
        }
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() { if let Some(x) = self.m.get(&i.to_string()) { *e = x.clone(); return } }
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let s = m.tokens.to_string();
        if self.m.keys().any(|k| s.contains(k.as_str())) { self.hit_macro = true }
    }
}

struct Inl<'a> { h: &'a Helpers, ty: String, tail: bool, used: Vec<String>, depth: usize }
#[derive(PartialEq, Clone, Copy)]
enum Pos { Tail, Question, Plain }
impl<'a> Inl<'a> {
    fn do_block(&mut self, b: &mut Block, tail: bool) {
        let n = b.stmts.len();
        for (k, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if k + 1 == n => self.do_expr(e, if tail { Pos::Tail } else { Pos::Plain }),
                s => { self.tail = false; visit_mut::visit_stmt_mut(self, s) }
            }
        }
    }
    fn do_expr(&mut self, e: &mut Expr, pos: Pos) {
        if let Some(n) = self.try_inline(e, pos) { *e = n; return }
        match e {
            Expr::Block(b) if b.label.is_none() => self.do_block(&mut b.block, pos == Pos::Tail),
            Expr::If(i) => {
                self.do_expr(&mut i.cond, Pos::Plain);
                self.do_block(&mut i.then_branch, pos == Pos::Tail);
                if let Some((_, x)) = &mut i.else_branch { self.do_expr(x, pos) }
            }
            Expr::Match(m) => {
                self.do_expr(&mut m.expr, Pos::Plain);
                for a in &mut m.arms { if let Some((_, g)) = &mut a.guard { self.do_expr(g, Pos::Plain) } self.do_expr(&mut a.body, pos) }
            }
            Expr::Return(r) => { if let Some(x) = &mut r.expr { self.do_expr(x, Pos::Tail) } }
            Expr::Try(t) => self.do_expr(&mut t.expr, Pos::Question),
            Expr::Paren(p) => self.do_expr(&mut p.expr, pos),
            Expr::Closure(c) => self.do_expr(&mut c.body, Pos::Plain),
            e => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn try_inline(&mut self, e: &Expr, pos: Pos) -> Option<Expr> {
        let (name, args, recv): (String, Vec<Expr>, bool) = match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let key = match segs.len() {
                    1 => segs[0].clone(),
                    2 => format!("{}::{}", if segs[0] == "Self" { &self.ty } else { &segs[0] }, segs[1]),
                    _ => return None,
                };
                (key, c.args.iter().cloned().collect(), false)
            }
            Expr::MethodCall(c) => {
                if pstr(&c.receiver) != "self" { return None }
                (format!("{}::{}", self.ty, c.method), c.args.iter().cloned().collect(), true)
            }
            _ => return None,
        };
        let h = self.h.map.get(&name)?.clone();
        if h.method != recv { return None }
        if self.depth > 200 { return None }
        let mut x = Exits::default();
        x.visit_block(&h.block);
        let ok = match pos {
            Pos::Tail => true,
            Pos::Question => x.ret_other == 0,
            Pos::Plain => x.ret_other + x.ret_err + x.q == 0,
        };
        if !ok { return None }
        let mut params: Vec<(Pat, Type)> = vec![];
        for a in &h.sig.inputs { if let FnArg::Typed(t) = a { params.push(((*t.pat).clone(), (*t.ty).clone())) } }
        if params.len() != args.len() { return None }
        let mut inner = Idents::default();
        inner.visit_block(&h.block);
        let gens: HashSet<String> = h.sig.generics.params.iter().filter_map(|g| match g { GenericParam::Type(t) => Some(t.ident.to_string()), GenericParam::Const(c) => Some(c.ident.to_string()), _ => None }).collect();
        let mut sub = Subst { m: HashMap::new(), hit_macro: false };
        let mut lets: Vec<Stmt> = vec![];
        let mut simple: Vec<(String, Expr)> = vec![];
        for ((p, t), a) in params.iter().zip(&args) {
            let mut ai = Idents::default();
            ai.visit_expr(a);
            let captured = ai.seen.iter().any(|i| inner.bound.contains(i));
            if captured { return None }
            let is_ref = matches!(t, Type::Reference(_)) || (matches!(a, Expr::Reference(_)));
            match p {
                Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && place(a) && (is_ref || matches!(a, Expr::Lit(_))) && !inner.bound.contains(&i.ident.to_string()) => {
                    simple.push((i.ident.to_string(), a.clone()));
                }
                p => {
                    let mut ti = Idents::default();
                    ti.visit_type(t);
                    let lt = { struct L(bool); impl<'b> Visit<'b> for L { fn visit_lifetime(&mut self, _: &'b Lifetime) { self.0 = true } fn visit_type_impl_trait(&mut self, _: &'b TypeImplTrait) { self.0 = true } } let mut l = L(false); l.visit_type(t); l.0 };
                    if lt || ti.seen.iter().any(|i| gens.contains(i)) { lets.push(parse_quote!(let #p = #a;)) } else { lets.push(parse_quote!(let #p: #t = #a;)) }
                }
            }
        }
        for (k, v) in simple { sub.m.insert(k, v); }
        let mut b = h.block.clone();
        sub.visit_block_mut(&mut b);
        if sub.hit_macro { return None }
        self.used.push(name);
        self.depth += 1;
        let st = &b.stmts;
        if let (ReturnType::Type(_, rt), true) = (&h.sig.output, pos == Pos::Question) {
            let mut ti = Idents::default();
            ti.visit_type(rt);
            if !ti.seen.iter().any(|i| gens.contains(i)) { return Some(Expr::Block(parse_quote!({ #(#lets)* let vx_h: #rt = { #(#st)* }; vx_h }))) }
        }
        Some(Expr::Block(parse_quote!({ #(#lets)* #(#st)* })))
    }
}
impl<'a> VisitMut for Inl<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) { self.do_expr(e, Pos::Plain) }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) { self.do_block(b, false) }
}
#[allow(unused)]
fn _q() { let _ = quote!(); }
