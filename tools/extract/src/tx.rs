use crate::load::{Db, FnInfo};
use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

type Ty = Option<Type>;

#[derive(Clone, Default)]
struct Scope {
    ty: HashMap<String, Ty>,
    strs: HashMap<String, String>,
    clos: HashMap<String, (ExprClosure, Box<Scope>)>,
    generics: HashSet<String>,
    lens: HashMap<String, Expr>, // `let n = x.len()`: n -> x
}
impl Scope {
    fn bind(&mut self, n: &str, t: Ty) {
        self.ty.insert(n.to_string(), t);
        self.strs.remove(n);
        self.clos.remove(n);
        self.lens.remove(n);
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}
fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
fn pty(s: &str) -> Ty { Some(parse_str::<Type>(s).unwrap()) }
fn text<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }

fn strip_ref(t: &Type) -> Type {
    match t { Type::Reference(r) => strip_ref(&r.elem), Type::Paren(p) => strip_ref(&p.elem), Type::Group(p) => strip_ref(&p.elem), _ => t.clone() }
}
fn is_ref(t: &Type) -> bool { matches!(t, Type::Reference(_)) }
fn tname(t: &Ty) -> Option<String> {
    let t = strip_ref(t.as_ref()?);
    match t { Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()), _ => None }
}
fn targ(t: &Ty, i: usize) -> Ty {
    let t = strip_ref(t.as_ref()?);
    if let Type::Path(p) = t {
        if let PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments {
            let v: Vec<&Type> = a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t) } else { None }).collect();
            return v.get(i).map(|t| (*t).clone());
        }
    }
    None
}
fn opt_of(t: Ty) -> Ty { let t = t?; Some(parse_quote!(Option<#t>)) }
const INTS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];

struct FlatTy;
impl VisitMut for FlatTy {
    fn visit_type_path_mut(&mut self, t: &mut TypePath) {
        if t.qself.is_none() && t.path.segments.len() > 1 {
            let l = t.path.segments.last().unwrap().clone();
            t.path.segments.clear();
            t.path.segments.push(l);
            t.path.leading_colon = None;
        }
        visit_mut::visit_type_path_mut(self, t);
    }
}
fn flat(mut t: Type) -> Type { FlatTy.visit_type_mut(&mut t); t }

struct Renamer { from: String, to: String }
impl VisitMut for Renamer {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if *i == self.from { *i = Ident::new(&self.to, i.span()); } }
    // field names and method names are not variables
    fn visit_member_mut(&mut self, _m: &mut Member) {}
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        self.visit_expr_mut(&mut m.receiver);
        for a in m.args.iter_mut() { self.visit_expr_mut(a); }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.leading_colon.is_none() && p.segments.len() == 1 { visit_mut::visit_path_mut(self, p); }
        else { for s in p.segments.iter_mut() { self.visit_path_arguments_mut(&mut s.arguments); } }
    }
    fn visit_type_mut(&mut self, _t: &mut Type) {}
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        for f in s.fields.iter_mut() {
            if f.colon_token.is_none() && matches!(&f.member, Member::Named(n) if *n == self.from) { f.colon_token = Some(Default::default()); }
            self.visit_expr_mut(&mut f.expr);
        }
        if let Some(r) = &mut s.rest { self.visit_expr_mut(r); }
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() && matches!(&f.member, Member::Named(n) if *n == self.from) { f.colon_token = Some(Default::default()); }
        self.visit_pat_mut(&mut f.pat);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(ts: proc_macro2::TokenStream, from: &str, to: &str) -> proc_macro2::TokenStream {
            ts.into_iter().map(|t| match t {
                proc_macro2::TokenTree::Ident(i) if i == from => proc_macro2::TokenTree::Ident(Ident::new(to, i.span())),
                proc_macro2::TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), go(g.stream(), from, to));
                    n.set_span(g.span());
                    proc_macro2::TokenTree::Group(n)
                }
                t => t,
            }).collect()
        }
        m.tokens = go(m.tokens.clone(), &self.from, &self.to);
    }
}
fn rename_block(b: &mut Block, from: &str, to: &str) {
    if from != to { Renamer { from: from.into(), to: to.into() }.visit_block_mut(b); }
}
/// Replace every `Self` by the owner type (macro bodies included).
struct SelfTy { to: String }
impl VisitMut for SelfTy {
    fn visit_path_segment_mut(&mut self, i: &mut PathSegment) { if i.ident == "Self" { i.ident = Ident::new(&self.to, i.ident.span()); } visit_mut::visit_path_segment_mut(self, i); }
    fn visit_macro_mut(&mut self, m: &mut Macro) { let mut r = Renamer { from: "Self".into(), to: self.to.clone() }; r.visit_macro_mut(m); }
}

fn mentions(ex: &Expr, name: &str) -> bool {
    struct V<'a> { n: &'a str, f: bool }
    impl<'a, 'b> Visit<'a> for V<'b> {
        fn visit_ident(&mut self, i: &'a Ident) { if i == self.n { self.f = true; } }
        fn visit_member(&mut self, _m: &'a Member) {}
        fn visit_macro(&mut self, m: &'a Macro) { if has_tok(m.tokens.clone(), self.n) { self.f = true; } }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) { self.visit_expr(&m.receiver); for a in &m.args { self.visit_expr(a); } }
    }
    let mut v = V { n: name, f: false };
    v.visit_expr(ex);
    v.f
}
fn has_tok(ts: proc_macro2::TokenStream, n: &str) -> bool {
    ts.into_iter().any(|t| match t { proc_macro2::TokenTree::Ident(i) => i == n, proc_macro2::TokenTree::Group(g) => has_tok(g.stream(), n), _ => false })
}
fn has_return_expr(e: &Expr) -> bool { let mut v = RetV(false); v.visit_expr(e); v.0 }
/// `x.iter()`, `x.clone()`, `x.into_iter()`, `&x`: the sequence x
fn peel_iter(e: &Expr) -> Expr {
    let mut ex = strip_paren(e).clone();
    loop {
        match &ex {
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "into_iter" || m.method == "clone") => { let r = (*m.receiver).clone(); ex = r; }
            Expr::Reference(r) => { let r = (*r.expr).clone(); ex = r; }
            _ => return ex,
        }
    }
}
/// does the body leave or restart its loop?
fn jumps(b: &Block) -> bool {
    struct J(bool, usize);
    impl<'a> Visit<'a> for J {
        fn visit_expr_loop(&mut self, l: &'a ExprLoop) { self.1 += 1; visit::visit_expr_loop(self, l); self.1 -= 1; }
        fn visit_expr_while(&mut self, l: &'a ExprWhile) { self.1 += 1; visit::visit_expr_while(self, l); self.1 -= 1; }
        fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) { self.1 += 1; visit::visit_expr_for_loop(self, l); self.1 -= 1; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_break(&mut self, b: &'a ExprBreak) { if self.1 == 0 || b.label.is_some() { self.0 = true; } visit::visit_expr_break(self, b); }
        fn visit_expr_continue(&mut self, b: &'a ExprContinue) { if self.1 == 0 || b.label.is_some() { self.0 = true; } }
    }
    let mut j = J(false, 0); j.visit_block(b); j.0
}
fn is_place(e: &Expr) -> bool { match e { Expr::Path(_) => true, Expr::Field(f) => is_place(&f.base), Expr::Paren(p) => is_place(&p.expr), Expr::Reference(r) => is_place(&r.expr), _ => false } }
fn idle_stmt(s: &Stmt) -> bool {
    match s { Stmt::Expr(x, _) => idle(x), Stmt::Local(l) => l.init.as_ref().map_or(true, |i| i.diverge.is_none() && idle(&i.expr)), Stmt::Item(_) => true, _ => false }
}
fn idle(x: &Expr) -> bool {
    match strip_paren(x) { Expr::Lit(_) => true, Expr::Tuple(t) => t.elems.iter().all(idle), Expr::Block(b) => b.block.stmts.iter().all(idle_stmt), Expr::MethodCall(m) => m.method == "clone" && m.args.is_empty() && is_place(&m.receiver), x => is_place(x) }
}
fn has_return_stmt(s: &Stmt) -> bool { let mut v = RetV(false); v.visit_stmt(s); v.0 }
struct RetV(bool);
impl<'a> Visit<'a> for RetV {
    fn visit_expr_return(&mut self, _r: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _r: &'a ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _c: &'a ExprClosure) {}
    fn visit_item(&mut self, _c: &'a Item) {}
}

/// `x?` becomes an explicit `match` with an early return. Hoisting keeps the order of evaluation: only what is a place, a
/// literal or a reference to one may be evaluated before it.
fn untry(b: &mut Block, result: bool) -> std::result::Result<(), String> {
    struct Has(bool);
    impl<'a> Visit<'a> for Has { fn visit_expr_try(&mut self, _t: &'a ExprTry) { self.0 = true; } fn visit_expr_closure(&mut self, _c: &'a ExprClosure) {} }
    fn has(e: &Expr) -> bool { let mut h = Has(false); h.visit_expr(e); h.0 }
    fn still(e: &Expr) -> bool { is_place(e) || matches!(strip_paren(e), Expr::Lit(_)) || matches!(strip_paren(e), Expr::Reference(r) if still(&r.expr)) }
    // pulls the `?` evaluated first out of e: what is tried, and e reads the name instead
    fn pull(e: &mut Expr, name: &Ident) -> std::result::Result<Option<Expr>, String> {
        if !has(e) { return Ok(None); }
        let list = |v: Vec<&mut Expr>, name: &Ident| -> std::result::Result<Option<Expr>, String> {
            for x in v {
                if has(x) { return pull(x, name); }
                if !still(x) { return Err("operator ? after another operand".into()); }
            }
            Ok(None)
        };
        match e {
            Expr::Try(t) => {
                if has(&t.expr) { return pull(&mut t.expr, name); }
                let x = (*t.expr).clone();
                *e = parse_quote!(#name);
                Ok(Some(x))
            }
            Expr::Paren(x) => pull(&mut x.expr, name),
            Expr::Reference(x) => pull(&mut x.expr, name),
            Expr::Unary(x) => pull(&mut x.expr, name),
            Expr::Field(x) => pull(&mut x.base, name),
            Expr::Cast(x) => pull(&mut x.expr, name),
            Expr::Binary(x) if !matches!(x.op, BinOp::And(_) | BinOp::Or(_)) => { let ExprBinary { left, right, .. } = x; list(vec![&mut **left, &mut **right], name) }
            Expr::Assign(x) => pull(&mut x.right, name),
            Expr::Return(x) => match &mut x.expr { Some(y) => pull(y, name), None => Ok(None) },
            Expr::Call(x) => list(x.args.iter_mut().collect(), name),
            Expr::MethodCall(x) => { let ExprMethodCall { receiver, args, .. } = x; let mut v = vec![&mut **receiver]; v.extend(args.iter_mut()); list(v, name) }
            Expr::Tuple(x) => list(x.elems.iter_mut().collect(), name),
            Expr::Struct(x) => list(x.fields.iter_mut().map(|f| &mut f.expr).collect(), name),
            Expr::If(x) => if has(&x.cond) { pull(&mut x.cond, name) } else { Ok(None) },
            Expr::Match(x) => if has(&x.expr) { pull(&mut x.expr, name) } else { Ok(None) },
            Expr::Let(x) => pull(&mut x.expr, name),
            _ => Err("operator ?".into()),
        }
    }
    struct Deep<'a> { result: bool, err: Option<String>, n: &'a mut u32 }
    impl<'a> VisitMut for Deep<'a> {
        fn visit_expr_closure_mut(&mut self, _c: &mut ExprClosure) {}
        fn visit_item_mut(&mut self, _c: &mut Item) {}
        fn visit_arm_mut(&mut self, a: &mut Arm) {
            if has(&a.body) && !matches!(&*a.body, Expr::Block(_)) { let x = a.body.clone(); a.body = Box::new(parse_quote!({ #x })); }
            visit_mut::visit_arm_mut(self, a);
        }
        fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
            if let Some((_, x)) = &mut i.else_branch { if has(x) && !matches!(&**x, Expr::Block(_)) { let y = x.clone(); **x = parse_quote!({ #y }); } }
            visit_mut::visit_expr_if_mut(self, i);
        }
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut out = vec![];
            for s in std::mem::take(&mut b.stmts) {
                let mut s = s;
                loop {
                    let name = id(&format!("try_{}", *self.n));
                    let e: Option<&mut Expr> = match &mut s { Stmt::Local(l) => l.init.as_mut().map(|i| &mut *i.expr), Stmt::Expr(e, _) => Some(e), _ => None };
                    let Some(e) = e else { break };
                    match pull(e, &name) {
                        Ok(Some(x)) => {
                            *self.n += 1;
                            if self.result { let en = id(&format!("err_{}", *self.n)); out.push(parse_quote!(let #name = match #x { Ok(v) => v, Err(#en) => { return Err(#en); } };)); }
                            else { out.push(parse_quote!(let Some(#name) = #x else { return None; };)); }
                        }
                        Ok(None) => break,
                        Err(m) => { self.err = Some(m); break; }
                    }
                }
                out.push(s);
            }
            b.stmts = out;
            visit_mut::visit_block_mut(self, b);
        }
    }
    let mut h = Has(false);
    h.visit_block(b);
    if !h.0 { return Ok(()); }
    let mut n = 0;
    let mut d = Deep { result, err: None, n: &mut n };
    d.visit_block_mut(b);
    match d.err { Some(m) => Err(m), None => Ok(()) }
}

/// a `return v;` that ends the body is its value; `{ s; }` in statement position is `s;`
fn unreturn(b: &mut Block) {
    struct Flat;
    impl VisitMut for Flat {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let n = b.stmts.len();
            let mut out = vec![];
            for (i, s) in b.stmts.drain(..).enumerate() {
                match s {
                    Stmt::Expr(Expr::Block(k), semi) if (i + 1 < n || semi.is_some()) && k.label.is_none() && k.attrs.is_empty() && k.block.stmts.iter().all(|s| matches!(s, Stmt::Expr(_, Some(_)) | Stmt::Macro(_))) => out.extend(k.block.stmts),
                    s => out.push(s),
                }
            }
            b.stmts = out;
        }
    }
    Flat.visit_block_mut(b);
    loop {
        match b.stmts.last() {
            Some(Stmt::Expr(Expr::Return(r), _)) => match &r.expr { Some(x) => { let x = (**x).clone(); b.stmts.pop(); b.stmts.push(Stmt::Expr(x, None)); } None => { b.stmts.pop(); } },
            _ => return,
        }
    }
}

/// `let x = loop { .. break v; .. }` becomes `let x; loop { .. { x = v; break; } .. }`, likewise for a value in tail position
fn unvalue(b: &mut Block) {
    struct Has(bool);
    impl<'a> Visit<'a> for Has {
        fn visit_expr_break(&mut self, b: &'a ExprBreak) { if b.expr.is_some() { self.0 = true; } visit::visit_expr_break(self, b); }
    }
    // breaks of this loop only: unlabelled and not inside another loop, or with its label
    struct Set<'n> { name: &'n Ident, label: Option<String>, depth: usize }
    impl<'n> VisitMut for Set<'n> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Closure(_) => {}
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => { self.depth += 1; visit_mut::visit_expr_mut(self, e); self.depth -= 1; }
                Expr::Break(b) => {
                    let mine = match &b.label { None => self.depth == 0, Some(l) => Some(l.ident.to_string()) == self.label };
                    if mine { if let Some(v) = b.expr.take() { let (n, l) = (self.name, &b.label); *e = parse_quote!({ #n = #v; break #l; }); } }
                }
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    fn valued(e: &Expr) -> bool { if let Expr::Loop(l) = e { let mut h = Has(false); h.visit_block(&l.body); h.0 } else { false } }
    struct Deep(usize);
    impl VisitMut for Deep {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut out = vec![];
            let n = b.stmts.len();
            for (i, s) in b.stmts.drain(..).enumerate() {
                let mut go = |name: Ident, ty: Option<Type>, e: Expr, out: &mut Vec<Stmt>| {
                    let Expr::Loop(mut l) = e else { return };
                    let mut v = Set { name: &name, label: l.label.as_ref().map(|x| x.name.ident.to_string()), depth: 0 };
                    v.visit_block_mut(&mut l.body);
                    out.push(match ty { Some(t) => parse_quote!(let #name: #t;), None => parse_quote!(let #name;) });
                    out.push(Stmt::Expr(Expr::Loop(l), Some(Default::default())));
                };
                match s {
                    Stmt::Local(l) if l.init.as_ref().map_or(false, |x| x.diverge.is_none() && valued(&x.expr)) => {
                        let e = *l.init.unwrap().expr;
                        match l.pat {
                            Pat::Ident(p) if p.mutability.is_none() && p.subpat.is_none() => go(p.ident, None, e, &mut out),
                            Pat::Type(t) if matches!(&*t.pat, Pat::Ident(p) if p.mutability.is_none()) => { let Pat::Ident(p) = *t.pat else { unreachable!() }; go(p.ident, Some(*t.ty), e, &mut out) }
                            p => { self.0 += 1; let nm = Ident::new(&format!("loop_v{}", self.0), Span::call_site()); go(nm.clone(), None, e, &mut out); out.push(parse_quote!(let #p = #nm;)); }
                        }
                    }
                    Stmt::Expr(e, None) if i + 1 == n && valued(&e) => { self.0 += 1; let nm = Ident::new(&format!("loop_v{}", self.0), Span::call_site()); go(nm.clone(), None, e, &mut out); out.push(Stmt::Expr(parse_quote!(#nm), None)); }
                    Stmt::Expr(Expr::Return(r), semi) if r.expr.as_ref().map_or(false, |e| valued(e)) => { self.0 += 1; let nm = Ident::new(&format!("loop_v{}", self.0), Span::call_site()); go(nm.clone(), None, *r.expr.unwrap(), &mut out); out.push(Stmt::Expr(parse_quote!(return #nm), semi)); }
                    s => out.push(s),
                }
            }
            b.stmts = out;
        }
    }
    let mut h = Has(false);
    h.visit_block(b);
    if h.0 { Deep(0).visit_block_mut(b); }
}

/// A loop that steps an iterator by hand becomes the `for` it spells out:
/// `let mut it = X.iter(); while let Some(p) = it.next() { .. }` (or a `loop` whose first statement takes `it.next()` and breaks
/// on `None`), when nothing else uses `it`; and `let mut i = 0; while i < X.len() { .. i += 1; }` becomes `for i in 0..X.len()`,
/// when nothing else assigns `i` or uses X mutably, and nothing reads `i` afterwards.
fn as_for(b: &mut Block) {
    fn toks(s: &impl ToTokens, n: &str) -> bool { has_tok(s.to_token_stream(), n) }
    fn idents(e: &Expr) -> Vec<String> {
        fn go(ts: proc_macro2::TokenStream, o: &mut Vec<String>) { for t in ts { match t { proc_macro2::TokenTree::Ident(i) => o.push(i.to_string()), proc_macro2::TokenTree::Group(g) => go(g.stream(), o), _ => {} } } }
        let mut o = vec![]; go(e.to_token_stream(), &mut o); o
    }
    fn next_of(e: &Expr, it: &str) -> bool {
        matches!(strip_paren(e), Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() && matches!(strip_paren(&m.receiver), Expr::Path(p) if p.path.is_ident(it)))
    }
    fn some_pat(p: &Pat) -> Option<Pat> {
        let Pat::TupleStruct(t) = p else { return None };
        if t.elems.len() == 1 && t.path.segments.last().map_or(false, |s| s.ident == "Some") { Some(t.elems[0].clone()) } else { None }
    }
    fn none_pat(p: &Pat) -> bool { matches!(p, Pat::Ident(i) if i.ident == "None") || matches!(p, Pat::Wild(_)) || matches!(p, Pat::Path(q) if q.path.segments.last().map_or(false, |s| s.ident == "None")) }
    fn breaks(e: &Expr) -> bool {
        match e {
            Expr::Break(b) => b.label.is_none() && b.expr.is_none(),
            Expr::Block(k) => k.label.is_none() && k.block.stmts.len() == 1 && matches!(&k.block.stmts[0], Stmt::Expr(x, _) if breaks(x)),
            _ => false,
        }
    }
    // (pattern, body) of a loop that consumes `it`
    fn body_of(e: &Expr, it: &str) -> Option<(Option<Label>, Pat, Block)> {
        match e {
            Expr::While(w) => {
                let Expr::Let(l) = strip_paren(&w.cond) else { return None };
                if !next_of(&l.expr, it) { return None; }
                Some((w.label.clone(), some_pat(&l.pat)?, w.body.clone()))
            }
            Expr::Loop(l) => {
                let mut body = l.body.clone();
                if body.stmts.is_empty() { return None; }
                let only = body.stmts.len() == 1;
                let first = body.stmts.remove(0);
                match first {
                    Stmt::Local(lc) => {
                        let init = lc.init?;
                        if let Some((_, els)) = &init.diverge {
                            if next_of(&init.expr, it) && breaks(els) { return Some((l.label.clone(), some_pat(&lc.pat)?, body)); }
                            return None;
                        }
                        let p = match lc.pat { Pat::Type(t) => (*t.pat).clone(), p => p };
                        match &*init.expr {
                            Expr::Match(m) if next_of(&m.expr, it) && m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
                                let (a, n) = if some_pat(&m.arms[0].pat).is_some() { (&m.arms[0], &m.arms[1]) } else { (&m.arms[1], &m.arms[0]) };
                                let Pat::Ident(q) = some_pat(&a.pat)? else { return None };
                                if none_pat(&n.pat) && breaks(&n.body) && matches!(strip_paren(&a.body), Expr::Path(x) if x.path.is_ident(&q.ident)) { return Some((l.label.clone(), p, body)); }
                                None
                            }
                            _ => None,
                        }
                    }
                    Stmt::Expr(Expr::Match(m), _) if only && next_of(&m.expr, it) && m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
                        let (a, n) = if some_pat(&m.arms[0].pat).is_some() { (&m.arms[0], &m.arms[1]) } else { (&m.arms[1], &m.arms[0]) };
                        if !none_pat(&n.pat) || !breaks(&n.body) { return None; }
                        let bb = match &*a.body { Expr::Block(k) if k.label.is_none() => k.block.clone(), x => { let x = x.clone(); parse_quote!({ #x; }) } };
                        Some((l.label.clone(), some_pat(&a.pat)?, bb))
                    }
                    Stmt::Expr(Expr::If(f), _) if only => {
                        let Expr::Let(lt) = strip_paren(&f.cond) else { return None };
                        if !next_of(&lt.expr, it) { return None; }
                        let (_, els) = f.else_branch.as_ref()?;
                        if !breaks(els) { return None; }
                        Some((l.label.clone(), some_pat(&lt.pat)?, f.then_branch.clone()))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn restarts(b: &Block) -> bool {
        struct J(bool, usize);
        impl<'a> Visit<'a> for J {
            fn visit_expr_loop(&mut self, l: &'a ExprLoop) { self.1 += 1; visit::visit_expr_loop(self, l); self.1 -= 1; }
            fn visit_expr_while(&mut self, l: &'a ExprWhile) { self.1 += 1; visit::visit_expr_while(self, l); self.1 -= 1; }
            fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) { self.1 += 1; visit::visit_expr_for_loop(self, l); self.1 -= 1; }
            fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
            fn visit_expr_continue(&mut self, b: &'a ExprContinue) { if self.1 == 0 || b.label.is_some() { self.0 = true; } }
        }
        let mut j = J(false, 0); j.visit_block(b); j.0
    }
    // is a place rooted at one of `roots` assigned, borrowed mutably, or the receiver of a method that is not known to only read?
    fn writes(b: &Block, roots: &[String], handed: bool) -> bool {
        struct W<'n>(&'n [String], bool, bool);
        fn root(e: &Expr) -> Option<String> { match e { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Field(f) => root(&f.base), Expr::Paren(p) => root(&p.expr), Expr::Index(i) => root(&i.expr), Expr::Reference(r) => root(&r.expr), Expr::Unary(u) => root(&u.expr), _ => None } }
        impl<'n> W<'n> {
            fn hit(&mut self, e: &Expr) { if let Some(r) = root(e) { if self.0.contains(&r) { self.1 = true; } } }
            // a bare name handed to a function may be a mutable borrow passed on
            fn handed<'x>(&mut self, args: impl Iterator<Item = &'x Expr>) { if self.2 { for a in args { if matches!(strip_paren(a), Expr::Path(_) | Expr::Field(_)) { self.hit(a); } } } }
        }
        impl<'a, 'n> Visit<'a> for W<'n> {
            fn visit_expr_assign(&mut self, a: &'a ExprAssign) { self.hit(&a.left); visit::visit_expr_assign(self, a); }
            fn visit_expr_binary(&mut self, a: &'a ExprBinary) {
                if matches!(a.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_)) { self.hit(&a.left); }
                visit::visit_expr_binary(self, a);
            }
            fn visit_expr_reference(&mut self, r: &'a ExprReference) { if r.mutability.is_some() { self.hit(&r.expr); } visit::visit_expr_reference(self, r); }
            fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
                const READS: [&str; 17] = ["get", "get_unchecked", "len", "iter", "keys", "values", "clone", "contains", "contains_key", "first_index_of", "first", "last", "first_unchecked", "last_unchecked", "is_empty", "unwrap", "unwrap_or"];
                if !READS.contains(&m.method.to_string().as_str()) { self.hit(&m.receiver); }
                self.handed(m.args.iter());
                visit::visit_expr_method_call(self, m);
            }
            fn visit_expr_call(&mut self, c: &'a ExprCall) { self.handed(c.args.iter()); visit::visit_expr_call(self, c); }
            fn visit_macro(&mut self, m: &'a Macro) { if self.0.iter().any(|r| has_tok(m.tokens.clone(), r)) { self.1 = true; } }
            fn visit_expr_closure(&mut self, c: &'a ExprClosure) { if self.0.iter().any(|r| has_tok(c.to_token_stream(), r)) { self.1 = true; } }
            fn visit_pat_ident(&mut self, p: &'a PatIdent) { if self.0.contains(&p.ident.to_string()) { self.1 = true; } }
        }
        let mut w = W(roots, false, handed); w.visit_block(b); w.1
    }
    fn bump(s: &Stmt, i: &str) -> bool {
        let Stmt::Expr(e, _) = s else { return false };
        let one = |e: &Expr| matches!(strip_paren(e), Expr::Lit(ExprLit { lit: Lit::Int(k), .. }) if k.base10_digits() == "1");
        let me = |e: &Expr| matches!(strip_paren(e), Expr::Path(p) if p.path.is_ident(i));
        match e {
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_)) => me(&b.left) && one(&b.right),
            Expr::Assign(a) => me(&a.left) && matches!(strip_paren(&a.right), Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) && me(&b.left) && one(&b.right)),
            _ => false,
        }
    }
    fn counted(e: &Expr, i: &str) -> Option<(Option<Label>, Expr, Block)> {
        let Expr::While(w) = e else { return None };
        let Expr::Binary(c) = strip_paren(&w.cond) else { return None };
        let me = |e: &Expr| matches!(strip_paren(e), Expr::Path(p) if p.path.is_ident(i));
        let end = match c.op { BinOp::Lt(_) if me(&c.left) => &c.right, BinOp::Gt(_) if me(&c.right) => &c.left, BinOp::Ne(_) if me(&c.left) => return None, _ => return None };
        // the end: a literal, a name, or the length of a place
        let root = match strip_paren(end) {
            Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() && is_place(&m.receiver) => idents(&m.receiver),
            x if is_place(x) => idents(x),
            Expr::Lit(_) => vec![],
            _ => return None,
        };
        let at = w.body.stmts.iter().position(|s| bump(s, i))?;
        let mut body = w.body.clone();
        body.stmts.remove(at);
        let plain = matches!(strip_paren(end), Expr::Path(_));
        if writes(&body, &root[..root.len().min(1)], !plain) || writes(&body, &[i.to_string()], false) || root.iter().any(|r| r == i) { return None; }
        // after the step the name stands for the next position: it must not be read there; before it, nothing may restart the loop
        if body.stmts[at..].iter().any(|s| toks(s, i)) { return None; }
        let head = Block { brace_token: Default::default(), stmts: body.stmts[..at].to_vec() };
        if restarts(&head) { return None; }
        Some((w.label.clone(), (**end).clone(), body))
    }
    struct Deep;
    impl VisitMut for Deep {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut k = 0;
            while k < b.stmts.len() {
                if let Some((at, fl)) = found(&b.stmts, k) {
                    let semi = match &b.stmts[at] { Stmt::Expr(_, s) => s.clone(), _ => None };
                    b.stmts[at] = Stmt::Expr(Expr::ForLoop(fl), semi);
                    b.stmts.remove(k);
                    continue;
                }
                k += 1;
            }
            let mut k = 0;
            while k < b.stmts.len() {
                if let Some((at, fl)) = keyed(&b.stmts, k) {
                    let semi = match &b.stmts[at] { Stmt::Expr(_, s) => s.clone(), _ => None };
                    b.stmts[at] = Stmt::Expr(Expr::ForLoop(fl), semi);
                    b.stmts.remove(k);
                    continue;
                }
                k += 1;
            }
        }
    }
    // `let ks = M.keys(); for i in 0..ks.len() { let k = ks.get_unchecked(i); .. }` and `for k in ks.iter()` walk the keys of M
    fn keyed(st: &[Stmt], k: usize) -> Option<(usize, ExprForLoop)> {
        let Stmt::Local(l) = &st[k] else { return None };
        let init = l.init.as_ref()?;
        if init.diverge.is_some() { return None; }
        let Pat::Ident(p) = (match &l.pat { Pat::Type(t) => &*t.pat, p => p }) else { return None };
        if p.mutability.is_some() || p.subpat.is_some() { return None; }
        let ks = p.ident.to_string();
        let Expr::MethodCall(m) = strip_paren(&init.expr) else { return None };
        if (m.method != "keys" && m.method != "values") || !m.args.is_empty() || !is_place(&m.receiver) { return None; }
        let at = (k + 1..st.len()).find(|j| toks(&st[*j], &ks))?;
        let Stmt::Expr(Expr::ForLoop(f), _) = &st[at] else { return None };
        let again = |s: &Stmt| matches!(s, Stmt::Local(l) if matches!(match &l.pat { Pat::Type(t) => &*t.pat, p => p }, Pat::Ident(p) if p.ident == ks && p.subpat.is_none()) && l.init.as_ref().map_or(true, |i| !has_tok(i.expr.to_token_stream(), &ks) && i.diverge.is_none()));
        if st[at + 1..].iter().take_while(|s| !again(s)).any(|s| toks(s, &ks)) { return None; }
        let root = idents(&m.receiver);
        if st[k + 1..at].iter().any(|s| root.iter().any(|r| toks(s, r))) { return None; }
        let x = &init.expr;
        let is_ks = |e: &Expr| matches!(strip_paren(e), Expr::Path(p) if p.path.is_ident(&ks));
        if is_ks(&peel_iter(&f.expr)) {
            if f.body.stmts.iter().any(|s| toks(s, &ks)) { return None; }
            let mut g = f.clone();
            g.expr = Box::new(parse_quote!(#x.iter()));
            return Some((at, g));
        }
        let Expr::Range(r) = strip_paren(&f.expr) else { return None };
        if !matches!(r.limits, RangeLimits::HalfOpen(_)) || !matches!(r.start.as_deref(), Some(Expr::Lit(ExprLit { lit: Lit::Int(z), .. })) if z.base10_digits() == "0") { return None; }
        if !matches!(r.end.as_deref().map(strip_paren), Some(Expr::MethodCall(q)) if q.method == "len" && q.args.is_empty() && is_ks(&q.receiver)) { return None; }
        let Pat::Ident(i) = &*f.pat else { return None };
        let i = i.ident.to_string();
        let mut body = f.body.clone();
        if body.stmts.is_empty() { return None; }
        let Stmt::Local(b0) = body.stmts.remove(0) else { return None };
        if body.stmts.iter().any(|s| toks(s, &ks) || toks(s, &i)) { return None; }
        let bi = b0.init?;
        if bi.diverge.is_some() { return None; }
        let is_i = |a: &Expr| matches!(strip_paren(a), Expr::Path(p) if p.path.is_ident(&i));
        let got = |e: &Expr, n: &str| matches!(strip_paren(e), Expr::MethodCall(q) if q.method == n && q.args.len() == 1 && is_i(&q.args[0]) && is_ks(&q.receiver));
        let plain = got(&bi.expr, "get_unchecked") || matches!(strip_paren(&bi.expr), Expr::MethodCall(q) if ["unwrap", "unwrap_optimized"].contains(&q.method.to_string().as_str()) && q.args.is_empty() && got(&q.receiver, "get"));
        if !plain { return None; }
        let pat = match b0.pat { Pat::Type(t) => t.pat, p => Box::new(p) };
        let g: ExprForLoop = parse_quote!(for _ in #x.iter() { });
        Some((at, ExprForLoop { label: f.label.clone(), pat, body, ..g }))
    }
    fn found(st: &[Stmt], k: usize) -> Option<(usize, ExprForLoop)> {
        let Stmt::Local(l) = &st[k] else { return None };
        let init = l.init.as_ref()?;
        if init.diverge.is_some() { return None; }
        let (p, ty) = match &l.pat { Pat::Type(t) => (&*t.pat, Some(&*t.ty)), p => (p, None) };
        let Pat::Ident(p) = p else { return None };
        if p.mutability.is_none() || p.subpat.is_some() { return None; }
        let it = p.ident.to_string();
        // the first statement after it that uses the name is the loop
        let at = (k + 1..st.len()).find(|j| toks(&st[*j], &it))?;
        let Stmt::Expr(lp, _) = &st[at] else { return None };
        // a later `let` of the same name ends its scope
        let again = |s: &Stmt| matches!(s, Stmt::Local(l) if matches!(match &l.pat { Pat::Type(t) => &*t.pat, p => p }, Pat::Ident(p) if p.ident == it && p.subpat.is_none()) && l.init.as_ref().map_or(true, |i| !has_tok(i.expr.to_token_stream(), &it) && i.diverge.is_none()));
        if st[at + 1..].iter().take_while(|s| !again(s)).any(|s| toks(s, &it)) { return None; }
        if let Expr::Lit(ExprLit { lit: Lit::Int(z), .. }) = strip_paren(&init.expr) {
            let (label, end, body) = counted(lp, &it)?;
            let nm = Ident::new(&it, Span::call_site());
            let lo: Expr = match ty { Some(t) if z.suffix().is_empty() => { let z = LitInt::new(&format!("{}{}", z.base10_digits(), t.to_token_stream()), Span::call_site()); parse_quote!(#z) } _ => parse_quote!(#z) };
            let used = body.stmts.iter().any(|s| toks(s, &it));
            let f: ExprForLoop = if used { parse_quote!(for #nm in #lo..#end { }) } else { parse_quote!(for _ in #lo..#end { }) };
            return Some((at, ExprForLoop { label, body, ..f }));
        }
        let Expr::MethodCall(m) = strip_paren(&init.expr) else { return None };
        if !m.args.is_empty() || !["iter", "into_iter", "keys", "values", "enumerate", "rev"].contains(&m.method.to_string().as_str()) { return None; }
        let names = idents(&init.expr);
        let place = is_place(&peel_iter(&init.expr));
        for s in &st[k + 1..at] {
            let pure_ = matches!(s, Stmt::Local(l) if l.init.as_ref().map_or(true, |i| i.diverge.is_none() && matches!(strip_paren(&i.expr), Expr::Lit(_))));
            if !pure_ && (!place || names.iter().any(|n| toks(s, n))) { return None; }
        }
        let (label, pat, body) = body_of(lp, &it)?;
        if body.stmts.iter().any(|s| toks(s, &it)) { return None; }
        let x = &init.expr;
        let f: ExprForLoop = parse_quote!(for _ in #x { });
        Some((at, ExprForLoop { label, pat: Box::new(pat), body, ..f }))
    }
    Deep.visit_block_mut(b);
}

/// Early-return elimination, so that a body can be placed inside its caller.
fn elim(stmts: &[Stmt]) -> std::result::Result<Vec<Stmt>, String> {
    let mut out = vec![];
    for (i, s) in stmts.iter().enumerate() {
        if !has_return_stmt(s) { out.push(s.clone()); continue; }
        let rest: Vec<Stmt> = stmts[i + 1..].to_vec();
        let join = |b: &Block, tail_is_unit: bool| -> std::result::Result<Block, String> {
            let mut v = b.stmts.clone();
            if tail_is_unit { if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() { *semi = Some(Default::default()); } }
            v.extend(rest.iter().cloned());
            Ok(Block { brace_token: Default::default(), stmts: elim(&v)? })
        };
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e: Expr = r.expr.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(()));
                if has_return_expr(&e) { out.extend(elim(&[Stmt::Expr(e, None)])?); } else { out.push(Stmt::Expr(e, None)); }
                return Ok(out);
            }
            Stmt::Expr(e, semi) => {
                let is_tail = i + 1 == stmts.len() && semi.is_none();
                out.push(Stmt::Expr(elim_branches(e, &|b| join(b, !is_tail))?, None));
                return Ok(out);
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref().ok_or("return in let")?;
                if let Some((_, els)) = &init.diverge {
                    if has_return_expr(&init.expr) { return Err("early return inside let-else initialiser".into()); }
                    let (p, x) = (&l.pat, &init.expr);
                    let then = Block { brace_token: Default::default(), stmts: elim(&rest)? };
                    let els: Vec<Stmt> = match &**els { Expr::Block(b) => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] };
                    let els = Block { brace_token: Default::default(), stmts: elim(&els)? };
                    out.push(Stmt::Expr(parse_quote!(match #x { #p => #then, _ => #els }), None));
                    return Ok(out);
                }
                let mk = |b: &Block| -> std::result::Result<Block, String> {
                    let mut v = b.stmts.clone();
                    match v.pop() {
                        Some(Stmt::Expr(Expr::Return(r), s)) => v.push(Stmt::Expr(Expr::Return(r), s)),
                        Some(Stmt::Expr(x, None)) => {
                            let mut l2 = l.clone();
                            l2.init.as_mut().unwrap().expr = Box::new(x);
                            v.push(Stmt::Local(l2));
                            v.extend(rest.iter().cloned());
                        }
                        Some(o) => v.push(o),
                        None => return Err("early return shape".into()),
                    }
                    Ok(Block { brace_token: Default::default(), stmts: elim(&v)? })
                };
                out.push(Stmt::Expr(elim_branches(&init.expr, &mk)?, None));
                return Ok(out);
            }
            _ => return Err("early return inside an unsupported statement".into()),
        }
    }
    Ok(out)
}
fn elim_branches(e: &Expr, join: &dyn Fn(&Block) -> std::result::Result<Block, String>) -> std::result::Result<Expr, String> {
    match e {
        Expr::If(f) => {
            if has_return_expr(&f.cond) { return Err("early return in a condition".into()); }
            let mut g = f.clone();
            g.then_branch = join(&f.then_branch)?;
            let els: Block = match &f.else_branch {
                None => parse_quote!({}),
                Some((_, x)) => match &**x { Expr::Block(b) => b.block.clone(), x => parse_quote!({ #x }) },
            };
            let b = join(&els)?;
            g.else_branch = Some((Default::default(), Box::new(parse_quote!(#b))));
            Ok(Expr::If(g))
        }
        Expr::Match(m) => {
            let mut g = m.clone();
            for a in g.arms.iter_mut() {
                let b: Block = match &*a.body { Expr::Block(b) => b.block.clone(), x => parse_quote!({ #x }) };
                let b = join(&b)?;
                a.body = Box::new(parse_quote!(#b));
            }
            Ok(Expr::Match(g))
        }
        Expr::Block(b) => { let b = join(&b.block)?; Ok(parse_quote!(#b)) }
        Expr::Return(r) => Ok(r.expr.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(()))),
        _ => Err("early return inside a loop or operand".into()),
    }
}

struct Tx<'a> {
    db: &'a Db,
    keep: HashSet<usize>,
    anchors: HashSet<String>,
    cret: HashMap<String, Type>,
    clients: HashSet<String>,
    ctr: usize,
    loops: usize,
    loop_kinds: Vec<String>,
    errs: Vec<String>,
    inlined: BTreeSet<String>,
    called: BTreeSet<String>,
    rules: BTreeSet<String>,
    stack: Vec<usize>,
    symbols: BTreeSet<String>,
}

fn is_e(x: &Expr) -> bool { matches!(x, Expr::Path(p) if p.path.is_ident("e")) }
fn const_only(x: &Expr) -> bool {
    match x {
        Expr::Lit(_) => true,
        Expr::Paren(p) => const_only(&p.expr),
        Expr::Group(p) => const_only(&p.expr),
        Expr::Binary(b) => const_only(&b.left) && const_only(&b.right),
        Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && const_only(&u.expr),
        _ => false,
    }
}
fn has_shift(x: &Expr) -> bool {
    match x {
        Expr::Paren(p) => has_shift(&p.expr), Expr::Group(p) => has_shift(&p.expr), Expr::Unary(u) => has_shift(&u.expr),
        Expr::Binary(b) => matches!(b.op, BinOp::Shl(_) | BinOp::Shr(_)) || has_shift(&b.left) || has_shift(&b.right),
        _ => false,
    }
}
/// value and suffix of an integer expression made of literals (non-negative results within 2^62 only)
fn const_eval(x: &Expr) -> Option<(i128, String)> {
    match x {
        Expr::Lit(ExprLit { lit: Lit::Int(z), .. }) => Some((z.base10_parse::<i128>().ok()?, z.suffix().to_string())),
        Expr::Paren(p) => const_eval(&p.expr),
        Expr::Group(p) => const_eval(&p.expr),
        Expr::Binary(b) => {
            let ((a, s), (c, t)) = (const_eval(&b.left)?, const_eval(&b.right)?);
            let v = match b.op {
                BinOp::Shl(_) => { if c > 30 || a >= (1 << 31) { return None; } a << c }
                BinOp::Shr(_) => { if c > 30 { return None; } a >> c }
                BinOp::Add(_) => a + c, BinOp::Sub(_) => a - c, BinOp::Mul(_) => a.checked_mul(c)?, BinOp::Div(_) => a.checked_div(c)?,
                _ => return None,
            };
            if v < 0 || v >= (1 << 31) { return None; }
            Some((v, if matches!(b.op, BinOp::Shl(_) | BinOp::Shr(_)) || !s.is_empty() { s } else { t }))
        }
        _ => None,
    }
}

impl<'a> Tx<'a> {
    fn err(&mut self, s: impl Into<String>) { let s = s.into(); if !self.errs.contains(&s) { self.errs.push(s); } }
    fn fresh(&mut self, p: &str) -> Ident { self.ctr += 1; id(&format!("{}{}", p, self.ctr)) }
    fn cur(&self) -> &'a FnInfo { &self.db.fns[*self.stack.last().unwrap()] }

    fn resolve_free(&self, segs: &[String]) -> Option<usize> {
        let name = segs.last()?;
        let c: Vec<usize> = (0..self.db.fns.len()).filter(|&i| self.db.fns[i].owner.is_none() && &self.db.fns[i].name == name).collect();
        if c.is_empty() { return None; }
        let curm = self.cur().module.clone();
        // expand the first segment through the module's imports
        let mut full: Vec<String> = segs.to_vec();
        if let Some(u) = self.db.uses.get(&curm).and_then(|u| u.get(&segs[0])) {
            full = u.iter().cloned().chain(segs[1..].iter().cloned()).collect();
        }
        let known_ext = ["core", "std", "soroban_sdk", "cast", "sep_41_token", "sep_40_oracle", "soroban_fixed_point_math", "alloc"];
        if known_ext.contains(&full[0].as_str()) { return None; }
        if c.len() == 1 { return Some(c[0]); }
        let mut base: Vec<String> = curm.split("::").filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let mut f = &full[..];
        while let Some(h) = f.first() {
            if h == "crate" { base.clear(); f = &f[1..]; } else if h == "super" { base.pop(); f = &f[1..]; } else if h == "self" { f = &f[1..]; } else { break; }
        }
        let target = base.iter().cloned().chain(f.iter().cloned()).collect::<Vec<_>>().join("::");
        if let Some(&i) = c.iter().find(|&&i| self.db.fns[i].path() == target) { return Some(i); }
        let tail = f.join("::");
        // suffix match on module (re-exports: a::b::f for a::f)
        let hits: Vec<usize> = c.iter().copied().filter(|&i| { let p = self.db.fns[i].path(); p.ends_with(&format!("::{}", tail)) || p == tail }).collect();
        if hits.len() == 1 { return Some(hits[0]); }
        if f.len() >= 2 {
            let m = &f[f.len() - 2];
            let hits: Vec<usize> = c.iter().copied().filter(|&i| self.db.fns[i].module.split("::").any(|x| x == m)).collect();
            if hits.len() == 1 { return Some(hits[0]); }
        }
        let hits: Vec<usize> = c.iter().copied().filter(|&i| self.db.fns[i].module == curm).collect();
        if hits.len() == 1 { return Some(hits[0]); }
        None
    }
    fn resolve_method(&self, owner: Option<&str>, name: &str, assoc: bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.db.fns.len()).filter(|&i| {
            let f = &self.db.fns[i];
            f.name == name && f.owner.is_some() && (assoc || f.sig.receiver().is_some()) && owner.map_or(true, |o| f.owner.as_deref() == Some(o))
        }).collect();
        if c.len() == 1 { Some(c[0]) } else { None }
    }
    fn emit_name(&self, i: usize) -> String {
        let f = &self.db.fns[i];
        if f.owner.is_some() { return f.name.clone(); }
        let n = self.db.fns.iter().filter(|g| g.owner.is_none() && g.name == f.name).count();
        if n == 1 { f.name.clone() } else { format!("{}__{}", f.module.replace("::", "_"), f.name) }
    }
    fn ret_ty(&self, i: usize) -> Ty {
        match &self.db.fns[i].sig.output { ReturnType::Default => pty("()"), ReturnType::Type(_, t) => {
            let mut t = (**t).clone();
            if let Some(o) = &self.db.fns[i].owner { SelfTy { to: o.clone() }.visit_type_mut(&mut t); }
            Some(flat(t)) } }
    }
    fn field_ty(&self, t: &Ty, m: &Member) -> Ty {
        let n = tname(t);
        if let (Some(n), Member::Named(f)) = (n, m) {
            let s = self.db.structs.get(&n)?;
            return s.fields.iter().find(|x| x.ident.as_ref() == Some(f)).map(|x| flat(x.ty.clone()));
        }
        if let Member::Unnamed(ix) = m {
            if let Some(Type::Tuple(tt)) = t.as_ref().map(strip_ref) { return tt.elems.iter().nth(ix.index as usize).cloned(); }
        }
        None
    }

    // ---------- patterns
    fn pat(&mut self, p: &mut Pat, t: &Ty, sc: &mut Scope) {
        match p {
            Pat::Ident(i) => {
                // a constant or unit variant pattern keeps its meaning
                if let Some(c) = self.db.consts.get(&i.ident.to_string()) { if let Expr::Lit(_) = &*c.expr { let e = c.expr.clone(); *p = parse_quote!(#e); return; } }
                sc.bind(&i.ident.to_string(), if i.by_ref.is_some() { None } else { t.clone() });
            }
            Pat::Type(pt) => { let ty = flat((*pt.ty).clone()); *pt.ty = ty.clone(); self.pat(&mut pt.pat, &Some(ty), sc); }
            Pat::Tuple(pt) => {
                let ts: Vec<Ty> = match t.as_ref().map(strip_ref) { Some(Type::Tuple(tt)) => tt.elems.iter().map(|x| Some(x.clone())).collect(), _ => vec![] };
                for (k, x) in pt.elems.iter_mut().enumerate() { self.pat(x, &ts.get(k).cloned().flatten(), sc); }
            }
            Pat::TupleStruct(ts) => {
                let n = ts.path.segments.last().unwrap().ident.to_string();
                self.flat_variant(&mut ts.path);
                let inner = match n.as_str() { "Some" | "Ok" => targ(t, 0), "Err" => targ(t, 1), _ => None };
                let tys: Vec<Ty> = if n == "Some" || n == "Ok" || n == "Err" { vec![inner] } else { self.variant_tys(&ts.path) };
                for (k, x) in ts.elems.iter_mut().enumerate() { self.pat(x, &tys.get(k).cloned().flatten(), sc); }
            }
            Pat::Struct(ps) => {
                self.flat_variant(&mut ps.path);
                let n = ps.path.segments.last().unwrap().ident.to_string();
                let tt = pty(&n);
                let l = ps.path.segments.last().unwrap().clone();
                if self.db.structs.contains_key(&n) { ps.path.segments.clear(); ps.path.segments.push(l); }
                for f in ps.fields.iter_mut() { let ft = self.field_ty(&tt, &f.member); self.pat(&mut f.pat, &ft, sc); }
            }
            Pat::Path(pp) => { self.flat_variant(&mut pp.path); self.const_pat(p); }
            Pat::Or(o) => for c in o.cases.iter_mut() { self.pat(c, t, sc); },
            Pat::Reference(r) => { let t2 = t.as_ref().map(strip_ref); self.pat(&mut r.pat, &t2, sc) }
            Pat::Paren(pp) => self.pat(&mut pp.pat, t, sc),
            _ => {}
        }
    }
    fn const_pat(&mut self, p: &mut Pat) {
        if let Pat::Path(pp) = p {
            let n = pp.path.segments.last().unwrap().ident.to_string();
            if let Some(c) = self.db.consts.get(&n) { if let Expr::Lit(_) = &*c.expr { let e = c.expr.clone(); *p = parse_quote!(#e); } }
        }
    }
    fn variant_tys(&self, p: &Path) -> Vec<Ty> {
        if p.segments.len() < 2 { return vec![]; }
        let en = p.segments[p.segments.len() - 2].ident.to_string();
        let v = p.segments.last().unwrap().ident.to_string();
        self.db.enums.get(&en).and_then(|e| e.variants.iter().find(|x| x.ident == v)).map(|v| v.fields.iter().map(|f| Some(flat(f.ty.clone()))).collect()).unwrap_or_default()
    }
    fn flat_variant(&self, p: &mut Path) {
        let n = p.segments.len();
        if n > 2 {
            let v: Vec<PathSegment> = p.segments.iter().skip(n - 2).cloned().collect();
            p.segments.clear();
            for s in v { p.segments.push(s); }
            p.leading_colon = None;
        }
    }

    // ---------- blocks
    fn block(&mut self, b: &Block, sc: &Scope) -> (Block, Ty) {
        let mut s = sc.clone();
        let mut out: Vec<Stmt> = vec![];
        let mut ty = pty("()");
        let n = b.stmts.len();
        for (i, st) in b.stmts.iter().enumerate() {
            let last = i + 1 == n;
            let names = self.anchor_names(st);
            if !names.is_empty() { let l = names.join(","); out.push(parse_quote!(__before!(#l);)); }
            let mark = out.len();
            match st {
                Stmt::Local(l) => {
                    let mut l2 = l.clone();
                    l2.attrs.clear();
                    let mut t: Ty = None;
                    if let Some(init) = &l.init {
                        // closures bound to a local: beta-reduced at their calls
                        if let (Pat::Ident(pi), Expr::Closure(c)) = (&l.pat, &*init.expr) {
                            let cap = s.clone();
                            s.bind(&pi.ident.to_string(), None);
                            s.clos.insert(pi.ident.to_string(), (c.clone(), Box::new(cap)));
                            continue;
                        }
                        let (x, xt) = self.expr(&init.expr, &s);
                        // string constants, environment and storage handles are followed by name
                        if let Some(nm) = simple_pat(&l.pat) {
                            if let Some(lit) = self.str_of(&init.expr, &s) { s.bind(&nm, None); s.strs.insert(nm, lit); continue; }
                            if let Some(tn) = tname(&xt) { if tn == "Env" || (tn.starts_with("__") && tn != "__DeployerWith") { s.bind(&nm, xt); continue; } }
                        }
                        t = xt;
                        let div = match &init.diverge { Some((_, d)) => { let (d2, _) = self.expr(d, &s); Some((Default::default(), Box::new(d2))) } None => None };
                        let x = if div.is_some() && !matches!(x, Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Paren(_)) { parse_quote!((#x)) } else { x };
                        l2.init = Some(LocalInit { eq_token: Default::default(), expr: Box::new(x), diverge: div });
                    }
                    self.pat(&mut l2.pat, &t, &mut s);
                    if let (Some(nm), Some(init)) = (simple_pat(&l.pat), &l.init) {
                        if let Expr::MethodCall(m) = strip_paren(&init.expr) { if m.method == "len" && m.args.is_empty() && is_place(&m.receiver) { s.lens.insert(nm, (*m.receiver).clone()); } }
                    }
                    // give integer locals an explicit type when it is known, so that literals infer
                    out.push(Stmt::Local(l2));
                }
                Stmt::Expr(e, semi) => {
                    let (x, t) = self.expr(e, &s);
                    let unit = matches!(&x, Expr::Tuple(tt) if tt.elems.is_empty());
                    if last && semi.is_none() { ty = t; }
                    if unit && !(last && semi.is_none()) { self.pop_marker(&mut out, mark, &names); continue; }
                    if unit { self.pop_marker(&mut out, mark, &names); continue; }
                    out.push(Stmt::Expr(x, *semi));
                }
                Stmt::Macro(m) => {
                    let em = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    let (x, t) = self.expr(&em, &s);
                    if matches!(&x, Expr::Tuple(tt) if tt.elems.is_empty()) { continue; }
                    if last && m.semi_token.is_none() { ty = t; out.push(Stmt::Expr(x, None)); } else { out.push(Stmt::Expr(x, Some(Default::default()))); }
                }
                Stmt::Item(Item::Const(c)) => {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(x), .. }) = &*c.expr { s.strs.insert(c.ident.to_string(), x.value()); continue; }
                    s.bind(&c.ident.to_string(), Some((*c.ty).clone()));
                    out.push(st.clone());
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(_) => { self.err("nested item in a function body"); }
            }
            if !names.is_empty() && !(last && matches!(st, Stmt::Expr(_, None))) { let l = names.join(","); out.push(parse_quote!(__after!(#l);)); }
            if last && !matches!(st, Stmt::Expr(_, None)) { ty = pty("()"); }
        }
        (Block { brace_token: Default::default(), stmts: out }, ty)
    }
    fn pop_marker(&self, out: &mut Vec<Stmt>, mark: usize, names: &[String]) { if !names.is_empty() && out.len() == mark { out.pop(); } }
    fn anchor_names(&self, st: &Stmt) -> Vec<String> {
        struct V<'b> { a: &'b HashSet<String>, o: Vec<String> }
        impl<'b, 'c> Visit<'c> for V<'b> {
            fn visit_block(&mut self, _b: &'c Block) {}
            fn visit_expr_closure(&mut self, _c: &'c ExprClosure) {}
            fn visit_expr_call(&mut self, c: &'c ExprCall) {
                if let Expr::Path(p) = &*c.func { let n = p.path.segments.last().unwrap().ident.to_string(); if self.a.contains(&n) { self.o.push(n); } }
                visit::visit_expr_call(self, c);
            }
            fn visit_expr_method_call(&mut self, c: &'c ExprMethodCall) {
                let n = c.method.to_string();
                if self.a.contains(&n) { self.o.push(n); }
                visit::visit_expr_method_call(self, c);
            }
        }
        let mut v = V { a: &self.anchors, o: vec![] };
        v.visit_stmt(st);
        v.o
    }
    fn str_of(&self, e: &Expr, s: &Scope) -> Option<String> {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Str(x), .. }) => Some(x.value()),
            Expr::Reference(r) => self.str_of(&r.expr, s),
            Expr::Paren(r) => self.str_of(&r.expr, s),
            Expr::Path(p) => { let n = p.path.segments.last()?.ident.to_string(); s.strs.get(&n).or_else(|| if s.ty.contains_key(&n) { None } else { self.db.strs.get(&n) }).cloned() }
            _ => None,
        }
    }
    fn exprs<'b>(&mut self, it: impl Iterator<Item = &'b Expr>, sc: &Scope) -> Vec<(Expr, Ty)> { it.map(|x| self.expr(x, sc)).collect() }
    fn sym(&mut self, s: String) -> Expr { let h = fnv(&s); self.symbols.insert(s); parse_quote!(Symbol::lit(#h)) }

    /// `f(e, ..)` where another argument also needs `e`: evaluate those arguments first, in order.
    fn seq_args(&mut self, args: Vec<Expr>) -> (Vec<Stmt>, Vec<Expr>) {
        let mut pre = vec![];
        let mut out = vec![];
        let lastuse = args.iter().rposition(|a| !is_e(a) && mentions(a, "e"));
        for (k, a) in args.into_iter().enumerate() {
            if lastuse.map_or(false, |l| k <= l) && !is_e(&a) && mentions(&a, "e") {
                let v = self.fresh("inl_t");
                match a {
                    Expr::Reference(r) => {
                        let m = r.mutability;
                        let x = *r.expr;
                        if m.is_some() { pre.push(parse_quote!(let mut #v = #x;)); } else { pre.push(parse_quote!(let #v = #x;)); }
                        out.push(parse_quote!(& #m #v));
                    }
                    x => { pre.push(parse_quote!(let #v = #x;)); out.push(parse_quote!(#v)); }
                }
            } else { out.push(a); }
        }
        (pre, out)
    }
    fn wrap(&self, pre: Vec<Stmt>, x: Expr) -> Expr { if pre.is_empty() { x } else { parse_quote!({ #(#pre)* #x }) } }
    fn mk_call(&mut self, f: Expr, args: Vec<Expr>) -> Expr {
        if args.iter().any(is_e) { let (p, a) = self.seq_args(args); self.wrap(p, parse_quote!(#f(#(#a),*))) } else { parse_quote!(#f(#(#args),*)) }
    }
    fn mk_mcall(&mut self, r: Expr, m: &str, tf: Option<AngleBracketedGenericArguments>, args: Vec<Expr>) -> Expr {
        let m = id(m);
        if is_e(&r) || args.iter().any(is_e) { let (p, a) = self.seq_args(args); self.wrap(p, parse_quote!(#r.#m #tf (#(#a),*))) } else { parse_quote!(#r.#m #tf (#(#args),*)) }
    }

    // ---------- inlining
    fn inline(&mut self, fi: usize, recv: Option<(Expr, Ty)>, args: Vec<(&Expr, &Scope)>) -> (Expr, Ty) {
        let f = &self.db.fns[fi];
        if self.stack.contains(&fi) { self.err(format!("recursive function {}", f.path())); return (parse_quote!(()), None); }
        self.inlined.insert(f.path());
        let mut body = f.block.clone();
        unreturn(&mut body);
        unvalue(&mut body);
        as_for(&mut body);
        let mut sig = f.sig.clone();
        if let Some(o) = &f.owner { let mut v = SelfTy { to: o.clone() }; v.visit_block_mut(&mut body); v.visit_signature_mut(&mut sig); }
        if let Err(m) = untry(&mut body, matches!(&f.sig.output, ReturnType::Type(_, t) if text(&**t).starts_with("Result"))) { self.err(format!("{}: {}", f.path(), m)); }
        let mut has_ret = RetV(false);
        has_ret.visit_block(&body);
        if has_ret.0 {
            match elim(&body.stmts) { Ok(s) => body.stmts = s, Err(m) => { self.err(format!("{}: {}", f.path(), m)); } }
            self.rules.insert("early returns of inlined helpers become branches".into());
        }
        let mut sc = Scope::default();
        for g in sig.generics.type_params() { sc.generics.insert(g.ident.to_string()); }
        let gen = |t: &Type, sc: &Scope| sc.generics.iter().any(|g| has_tok(t.to_token_stream(), g));
        let mut pre: Vec<Stmt> = vec![];
        // self
        if let Some((rx, rt)) = recv {
            let me = self.fresh("self_");
            rename_block(&mut body, "self", &me.to_string());
            let r = sig.receiver().unwrap();
            let oty: Type = parse_str(f.owner.as_ref().unwrap()).unwrap();
            let isref = rt.as_ref().map(is_ref).unwrap_or(false);
            if r.reference.is_some() {
                if r.mutability.is_some() {
                    if isref { pre.push(parse_quote!(let #me = &mut *#rx;)); } else { pre.push(parse_quote!(let #me = &mut #rx;)); }
                    sc.bind(&me.to_string(), Some(parse_quote!(&mut #oty)));
                } else {
                    if isref { pre.push(parse_quote!(let #me = &*#rx;)); } else { pre.push(parse_quote!(let #me = &#rx;)); }
                    sc.bind(&me.to_string(), Some(parse_quote!(& #oty)));
                }
            } else {
                let m = r.mutability;
                pre.push(parse_quote!(let #m #me = #rx;));
                sc.bind(&me.to_string(), Some(oty));
            }
        }
        let params: Vec<&PatType> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).collect();
        if params.len() != args.len() { self.err(format!("{}: argument count", f.path())); return (parse_quote!(()), None); }
        let mut names: Vec<String> = params.iter().map(|p| simple_pat(&p.pat).unwrap_or_default()).collect();
        // a closure argument is substituted into the body: locals it would capture are renamed
        let passed: Vec<Expr> = args.iter().filter_map(|(a, asc)| match a {
            Expr::Closure(c) => Some(Expr::Closure(c.clone())),
            Expr::Path(pp) => pp.path.get_ident().and_then(|i| asc.clos.get(&i.to_string())).map(|c| Expr::Closure(c.0.clone())),
            _ => None,
        }).collect();
        if !passed.is_empty() {
            struct L(Vec<String>);
            impl<'x> Visit<'x> for L { fn visit_pat_ident(&mut self, i: &'x PatIdent) { self.0.push(i.ident.to_string()); } }
            let mut l = L(names.clone());
            l.visit_block(&body);
            l.0.sort(); l.0.dedup();
            for n in l.0 {
                if n.is_empty() || n == "e" || n == "_" || n.starts_with(char::is_uppercase) || !passed.iter().any(|c| mentions(c, &n)) { continue; }
                let v = self.fresh("inl_h").to_string();
                rename_block(&mut body, &n, &v);
                for x in names.iter_mut() { if *x == n { *x = v.clone(); } }
            }
        }
        let mut rebinds: Vec<Stmt> = vec![];
        for (k, p) in params.iter().enumerate() {
            let ty = flat((*p.ty).clone());
            let (ax, asc) = args[k];
            let n = names[k].clone();
            if n.is_empty() && !matches!(&*p.pat, Pat::Wild(_)) { self.err(format!("{}: pattern parameter", f.path())); continue; }
            if tname(&Some(ty.clone())).as_deref() == Some("Env") {
                let (x, t) = self.expr(ax, asc);
                if !is_e(&x) { self.err(format!("{}: environment argument is not the environment ({:?})", f.path(), tname(&t))); }
                rename_block(&mut body, &n, "e");
                sc.bind("e", pty("&mut Env"));
                continue;
            }
            // an error variant handed to a helper that panics with it
            if let Expr::Path(pp) = strip_paren(ax) {
                let segs: Vec<String> = pp.path.segments.iter().map(|x| x.ident.to_string()).collect();
                if segs.len() >= 2 && segs[segs.len() - 2].ends_with("Error") && matches!(&*p.pat, Pat::Ident(q) if q.mutability.is_none()) {
                    struct Sub<'n> { n: &'n str, e: &'n Expr }
                    impl<'n> VisitMut for Sub<'n> {
                        fn visit_expr_mut(&mut self, x: &mut Expr) { if matches!(&*x, Expr::Path(p) if p.path.is_ident(self.n)) { *x = self.e.clone(); } else { visit_mut::visit_expr_mut(self, x); } }
                        fn visit_macro_mut(&mut self, m: &mut Macro) {
                            let e = self.e.to_token_stream();
                            fn go(ts: proc_macro2::TokenStream, n: &str, e: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
                                ts.into_iter().flat_map(|t| match t {
                                    proc_macro2::TokenTree::Ident(i) if i == n => e.clone(),
                                    proc_macro2::TokenTree::Group(g) => { let mut h = proc_macro2::Group::new(g.delimiter(), go(g.stream(), n, e)); h.set_span(g.span()); std::iter::once(proc_macro2::TokenTree::Group(h)).collect() }
                                    t => std::iter::once(t).collect::<proc_macro2::TokenStream>(),
                                }).collect()
                            }
                            m.tokens = go(m.tokens.clone(), self.n, &e);
                        }
                    }
                    struct Shadow<'n>(&'n str, bool);
                    impl<'x, 'n> Visit<'x> for Shadow<'n> { fn visit_pat_ident(&mut self, i: &'x PatIdent) { if i.ident == self.0 { self.1 = true; } } }
                    let mut sh = Shadow(&n, false);
                    sh.visit_block(&body);
                    let x: Expr = Expr::Path(pp.clone());
                    if !sh.1 { Sub { n: &n, e: &x }.visit_block_mut(&mut body); }
                }
            }
            if let Expr::Closure(c) = ax { sc.bind(&n, None); sc.clos.insert(n, (c.clone(), Box::new(asc.clone()))); continue; }
            if let Expr::Path(pp) = ax { if let Some(i) = pp.path.get_ident() { if let Some(c) = asc.clos.get(&i.to_string()) { sc.bind(&n, None); sc.clos.insert(n, c.clone()); continue; } } }
            if let Some(s) = self.str_of(ax, asc) { sc.bind(&n, None); sc.strs.insert(n, s); continue; }
            let (mut x, xt) = self.expr(ax, asc);
            if let Some(tn) = tname(&xt) { if tn.starts_with("__") && tn != "__DeployerWith" { sc.bind(&n, xt); continue; } }
            let mutref = matches!(&ty, Type::Reference(r) if r.mutability.is_some());
            if mutref && !matches!(x, Expr::Reference(_)) { x = parse_quote!(&mut *#x); }
            let later = args[k + 1..].iter().any(|(a, s2)| mentions_deep(a, &n, s2));
            let is_mut = matches!(&*p.pat, Pat::Ident(i) if i.mutability.is_some());
            let m: Option<Token![mut]> = if is_mut { Some(Default::default()) } else { None };
            let has_gen = gen(&ty, &sc) || matches!(ty, Type::ImplTrait(_)) || text(&ty).contains("impl ");
            let ann: Option<proc_macro2::TokenStream> = if has_gen { None } else { Some(quote::quote!(: #ty)) };
            let bty = if has_gen { xt.clone() } else { Some(ty.clone()) };
            if n.is_empty() || n == "_" { let v = self.fresh("inl_u"); pre.push(parse_quote!(let #v = #x;)); continue; }
            let nid = id(&n);
            if later {
                let v = self.fresh("inl_p");
                pre.push(parse_quote!(let #v #ann = #x;));
                rebinds.push(parse_quote!(let #m #nid = #v;));
            } else {
                pre.push(parse_quote!(let #m #nid #ann = #x;));
            }
            sc.bind(&n, bty);
        }
        pre.extend(rebinds);
        // closure capture hygiene
        for (cn, (c, _)) in sc.clos.iter() {
            let ce = Expr::Closure(c.clone());
            let mut locals: Vec<String> = names.iter().filter(|n| *n != cn && *n != "e" && !n.is_empty()).cloned().collect();
            struct L(Vec<String>);
            impl<'x> Visit<'x> for L { fn visit_pat_ident(&mut self, i: &'x PatIdent) { self.0.push(i.ident.to_string()); } }
            let mut l = L(vec![]);
            l.visit_block(&body);
            locals.extend(l.0);
            locals.retain(|n| !n.starts_with(char::is_uppercase));
            if locals.iter().any(|n| n != "e" && mentions(&ce, n)) { self.errs.push(format!("{}: closure argument captures a shadowed name", f.path())); }
        }
        self.stack.push(fi);
        let (b, bt) = self.block(&body, &sc);
        self.stack.pop();
        let rt = self.ret_ty(fi);
        let has_gen = rt.as_ref().map_or(true, |t| gen(t, &sc));
        let unit = matches!(rt.as_ref(), Some(Type::Tuple(t)) if t.elems.is_empty());
        let out: Expr = if unit || matches!(rt, Some(Type::Never(_))) { parse_quote!({ #(#pre)* #b }) }
            else if has_gen || rt.as_ref().map_or(false, is_ref) { parse_quote!({ #(#pre)* #b }) }
            else { let v = self.fresh("inl_r"); let t = rt.clone(); parse_quote!({ #(#pre)* let #v: #t = #b; #v }) };
        (out, if has_gen { bt } else { rt })
    }
    fn beta(&mut self, c: &ExprClosure, csc: &Scope, args: Vec<(Expr, Ty)>) -> (Expr, Ty) {
        let mut sc = csc.clone();
        let mut pre: Vec<Stmt> = vec![];
        if c.inputs.len() != args.len() { self.err("closure arity"); return (parse_quote!(()), None); }
        let mut body = (*c.body).clone();
        if has_return_expr(&body) {
            let st = match &body { Expr::Block(b) => b.block.stmts.clone(), x => vec![Stmt::Expr(x.clone(), None)] };
            match elim(&st) { Ok(s) => { body = parse_quote!({ #(#s)* }); } Err(m) => self.err(m) }
        }
        for (p, (x, t)) in c.inputs.iter().zip(args) {
            let mut p2 = p.clone();
            self.pat(&mut p2, &t, &mut sc);
            pre.push(parse_quote!(let #p2 = #x;));
        }
        let (x, t) = self.expr(&body, &sc);
        (self.wrap(pre, x), t)
    }
    fn closure_arg(&mut self, a: &Expr, sc: &Scope, args: Vec<(Expr, Ty)>) -> Option<(Expr, Ty)> {
        match a {
            Expr::Closure(c) => Some(self.beta(c, sc, args)),
            Expr::Path(p) => {
                let n = p.path.get_ident()?.to_string();
                let (c, s) = sc.clos.get(&n)?.clone();
                Some(self.beta(&c, &s, args))
            }
            _ => None,
        }
    }

    // ---------- expressions
    fn expr(&mut self, x: &Expr, sc: &Scope) -> (Expr, Ty) {
        match x {
            Expr::Lit(l) => {
                let t = match &l.lit { Lit::Int(i) if !i.suffix().is_empty() => pty(i.suffix()), Lit::Bool(_) => pty("bool"), _ => None };
                (x.clone(), t)
            }
            Expr::Paren(p) => { let (e, t) = self.expr(&p.expr, sc); (match e { Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Lit(_) | Expr::Field(_) => e, _ => parse_quote!((#e)) }, t) }
            Expr::Group(p) => self.expr(&p.expr, sc),
            Expr::Path(p) => self.path(p, sc),
            Expr::Reference(r) => {
                let (e, t) = self.expr(&r.expr, sc);
                if tname(&t).as_deref() == Some("Env") { return (e, t); }
                let m = r.mutability;
                let t2 = t.map(|t| -> Type { parse_quote!(& #m #t) });
                (parse_quote!(& #m #e), t2)
            }
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => {
                    let (e, t) = self.expr(&u.expr, sc);
                    if tname(&t).as_deref() == Some("Env") { return (e, t); }
                    let t2 = t.map(|t| match t { Type::Reference(r) => *r.elem, t => t });
                    (parse_quote!(*#e), t2)
                }
                UnOp::Neg(_) => {
                    if const_only(x) { return (x.clone(), None); }
                    let (e, t) = self.expr(&u.expr, sc);
                    (parse_quote!(ck_neg(#e)), t)
                }
                _ => { let (e, t) = self.expr(&u.expr, sc); (parse_quote!(!#e), t) }
            },
            Expr::Binary(b) => self.binary(b, sc),
            Expr::Assign(a) => {
                let (l, _) = self.expr(&a.left, sc);
                let (r, _) = self.expr(&a.right, sc);
                (parse_quote!(#l = #r), pty("()"))
            }
            Expr::Call(c) => self.call(c, sc),
            Expr::MethodCall(m) => self.mcall(m, sc),
            Expr::Field(f) => {
                let (e, t) = self.expr(&f.base, sc);
                let ft = self.field_ty(&t, &f.member);
                let m = &f.member;
                (parse_quote!(#e.#m), ft)
            }
            Expr::Tuple(t) => {
                let v = self.exprs(t.elems.iter(), sc);
                let xs: Vec<Expr> = v.iter().map(|p| p.0.clone()).collect();
                let ty = if v.iter().all(|p| p.1.is_some()) { let ts = v.iter().map(|p| p.1.clone().unwrap()); Some(if v.len() == 1 { let ts: Vec<_> = ts.collect(); parse_quote!((#(#ts),*,)) } else { parse_quote!((#(#ts),*)) }) } else { None };
                (if xs.len() == 1 { parse_quote!((#(#xs),*,)) } else { parse_quote!((#(#xs),*)) }, ty)
            }
            Expr::Array(a) => {
                let v = self.exprs(a.elems.iter(), sc);
                let t: Ty = v.iter().find_map(|p| p.1.clone()).map(|t| { let n = v.len(); parse_quote!([#t; #n]) });
                let xs = v.into_iter().map(|p| p.0);
                (parse_quote!([#(#xs),*]), t)
            }
            Expr::Repeat(a) => { let (v, _) = self.expr(&a.expr, sc); let l = &a.len; (parse_quote!([#v; #l]), None) }
            Expr::Index(ix) => { let (a, _) = self.expr(&ix.expr, sc); let (i, _) = self.expr(&ix.index, sc); (parse_quote!(#a[#i]), None) }
            Expr::Block(b) => { let (bb, t) = self.block(&b.block, sc); (parse_quote!(#bb), t) }
            Expr::If(f) => {
                let mut s2 = sc.clone();
                let c = self.cond(&f.cond, &mut s2);
                let (tb, t1) = self.block(&f.then_branch, &s2);
                match &f.else_branch {
                    None => (parse_quote!(if #c #tb), pty("()")),
                    Some((_, eb)) => {
                        let (ex, t2) = self.expr(eb, sc);
                        let ex: Expr = match ex { Expr::If(_) | Expr::Block(_) => ex, o => parse_quote!({ #o }) };
                        let never = matches!(&t1, Some(Type::Never(_)));
                        (parse_quote!(if #c #tb else #ex), if t1.is_some() && !never { t1 } else { t2 })
                    }
                }
            }
            Expr::Let(_) => { let mut s2 = sc.clone(); (self.cond(x, &mut s2), pty("bool")) }
            Expr::Match(m) => {
                let (s, st) = self.expr(&m.expr, sc);
                let mut g = m.clone();
                g.attrs.clear();
                g.expr = Box::new(s);
                let mut ty: Ty = None;
                for a in g.arms.iter_mut() {
                    let mut s2 = sc.clone();
                    self.pat(&mut a.pat, &st, &mut s2);
                    a.attrs.clear();
                    if let Some((_, gd)) = &mut a.guard { let (ge, _) = self.expr(gd, &s2); **gd = ge; }
                    let (b, t) = self.expr(&a.body, &s2);
                    if ty.is_none() && !matches!(&t, Some(Type::Never(_))) { ty = t; }
                    a.body = Box::new(b);
                    if a.comma.is_none() { a.comma = Some(Default::default()); }
                }
                (Expr::Match(g), ty)
            }
            Expr::While(w) => {
                let n = self.loops; self.loops += 1;
                self.loop_kinds.push("while".into());
                let mut s2 = sc.clone();
                let c = self.cond(&w.cond, &mut s2);
                let (b, _) = self.block(&w.body, &s2);
                let st = b.stmts;
                let li = Lit::Int(LitInt::new(&n.to_string(), Span::call_site()));
                let lb = &w.label;
                (parse_quote!(#lb while #c { __loop_start!(#li); #(#st)* __loop_end!(#li); }), pty("()"))
            }
            Expr::Loop(w) => {
                let n = self.loops; self.loops += 1;
                self.loop_kinds.push("loop".into());
                let (b, _) = self.block(&w.body, sc);
                let st = b.stmts;
                let li = Lit::Int(LitInt::new(&n.to_string(), Span::call_site()));
                let lb = &w.label;
                (parse_quote!(#lb loop { __loop_start!(#li); #(#st)* __loop_end!(#li); }), None)
            }
            Expr::ForLoop(f) => self.for_loop(f, sc),
            Expr::Return(r) => {
                let v = r.expr.as_ref().map(|e| self.expr(e, sc).0);
                (parse_quote!(return #v), pty("!"))
            }
            Expr::Break(b) => { if b.expr.is_some() { self.err("break with value"); } let l = &b.label; (parse_quote!(break #l), pty("!")) }
            Expr::Continue(b) => { let l = &b.label; (parse_quote!(continue #l), pty("!")) }
            Expr::Struct(s) => {
                let mut g = s.clone();
                g.attrs.clear();
                let l = g.path.segments.last().unwrap().clone();
                let ln = l.ident.to_string();
                if self.db.structs.contains_key(&ln) || g.path.segments.len() == 1 { g.path.segments.clear(); g.path.segments.push(l); } else { self.flat_variant(&mut g.path); }
                for fv in g.fields.iter_mut() { let (e, _) = self.expr(&fv.expr, sc); fv.expr = e; }
                if let Some(r) = &g.rest { let (e, _) = self.expr(r, sc); g.rest = Some(Box::new(e)); }
                (Expr::Struct(g), pty(&ln))
            }
            Expr::Cast(c) => {
                let ty = flat((*c.ty).clone());
                let tn = text(&ty);
                // Enum::Variant as int: the literal discriminant
                if let Expr::Path(p) = strip_paren(&c.expr) {
                    let n = p.path.segments.len();
                    if n >= 2 {
                        let en = p.path.segments[n - 2].ident.to_string();
                        let v = p.path.segments[n - 1].ident.to_string();
                        if let Some(en) = self.db.enums.get(&en) {
                            let mut cur: i128 = 0;
                            for vv in &en.variants {
                                if let Some((_, d)) = &vv.discriminant { if let Ok(i) = text(d).parse::<i128>() { cur = i; } else { self.err("enum discriminant is not a literal"); } }
                                if vv.ident == v { let lit = LitInt::new(&format!("{}{}", cur, tn), Span::call_site()); return (parse_quote!(#lit), Some(ty)); }
                                cur += 1;
                            }
                        }
                    }
                }
                let (e, t) = self.expr(&c.expr, sc);
                if let Expr::Lit(_) = &e { return (parse_quote!(#e as #ty), Some(ty)); }
                if let Some(en) = tname(&t).and_then(|n| self.db.enums.get(&n).cloned()) {
                    // the discriminants, variant by variant
                    let mut arms: Vec<Arm> = vec![];
                    let mut cur: i128 = 0;
                    let name = &en.ident;
                    for vv in &en.variants {
                        if !matches!(vv.fields, Fields::Unit) { self.err("cast of an enum value"); break; }
                        if let Some((_, d)) = &vv.discriminant { if let Ok(i) = text(d).parse::<i128>() { cur = i; } else { self.err("enum discriminant is not a literal"); } }
                        let (v, lit) = (&vv.ident, LitInt::new(&format!("{}{}", cur, tn), Span::call_site()));
                        arms.push(parse_quote!(#name::#v => #lit,));
                        cur += 1;
                    }
                    return (parse_quote!(match #e { #(#arms)* }), Some(ty));
                }
                if tname(&t).as_deref() == Some("bool") && INTS.contains(&tn.as_str()) { return (parse_quote!((if #e { 1 as #ty } else { 0 as #ty })), Some(ty)); }
                if INTS.contains(&tn.as_str()) { let f = id(&format!("as_{}", tn)); let e = self.deref_int(e, &t); (parse_quote!(#f(#e)), Some(ty)) } else { (parse_quote!(#e as #ty), Some(ty)) }
            }
            Expr::Macro(m) => self.mac(&m.mac, sc),
            Expr::Closure(_) => { self.err("closure outside a recognised position"); (parse_quote!(()), None) }
            Expr::Try(_) => { self.err("operator ?"); (parse_quote!(()), None) }
            _ => { self.err(format!("unsupported expression {}", text(x).chars().take(80).collect::<String>())); (x.clone(), None) }
        }
    }
    fn cond(&mut self, c: &Expr, sc: &mut Scope) -> Expr {
        match c {
            Expr::Let(l) => {
                let (e, t) = self.expr(&l.expr, sc);
                let mut g = l.clone();
                self.pat(&mut g.pat, &t, sc);
                g.expr = Box::new(e);
                Expr::Let(g)
            }
            Expr::Binary(b) if matches!(b.op, BinOp::And(_)) && (matches!(&*b.left, Expr::Let(_)) || matches!(&*b.right, Expr::Let(_))) => { self.err("let chain"); c.clone() }
            _ => self.expr(c, sc).0,
        }
    }
    fn path(&mut self, p: &ExprPath, sc: &Scope) -> (Expr, Ty) {
        if let Some(i) = p.path.get_ident() {
            let n = i.to_string();
            if let Some(t) = sc.ty.get(&n) {
                if let Some(tn) = tname(t) { if tn == "Env" || (tn.starts_with("__") && tn != "__DeployerWith") { return (parse_quote!(e), t.clone()); } }
                return (Expr::Path(p.clone()), t.clone());
            }
        }
        let l = p.path.segments.last().unwrap().ident.to_string();
        if p.path.segments.len() >= 2 {
            let o = p.path.segments[p.path.segments.len() - 2].ident.to_string();
            let k = format!("{}__{}", o, l);
            if let Some(c) = self.db.consts.get(&k) { let t = (*c.ty).clone(); let i = id(&k); return (parse_quote!(#i), Some(t)); }
            if self.db.enums.contains_key(&o) {
                let mut q = p.clone();
                self.flat_variant(&mut q.path);
                return (Expr::Path(q), pty(&o));
            }
            if o == "Ordering" { let mut q = p.clone(); self.flat_variant(&mut q.path); return (Expr::Path(q), pty("Ordering")); }
            if INTS.contains(&o.as_str()) { return (Expr::Path(p.clone()), pty(&o)); }
        }
        if let Some(c) = self.db.consts.get(&l) { let i = id(&l); return (parse_quote!(#i), Some((*c.ty).clone())); }
        if let Some(s) = self.str_of(&Expr::Path(p.clone()), sc) { return (parse_quote!(#s), pty("str")); }
        (Expr::Path(p.clone()), None)
    }
    fn deref_int(&self, e: Expr, t: &Ty) -> Expr {
        if let Some(t) = t { if is_ref(t) { if let Some(n) = tname(&Some(t.clone())) { if INTS.contains(&n.as_str()) { return parse_quote!((*#e)); } } } }
        e
    }
    fn binary(&mut self, b: &ExprBinary, sc: &Scope) -> (Expr, Ty) {
        let whole = Expr::Binary(b.clone());
        if const_only(&whole) {
            if has_shift(&whole) { if let Some((v, sfx)) = const_eval(&whole) { let l = Lit::Int(LitInt::new(&format!("{}{}", v, sfx), Span::call_site())); return (parse_quote!(#l), if sfx.is_empty() { None } else { pty(&sfx) }); } }
            return (parse_quote!((#whole)), None);
        }
        let (l, lt) = self.expr(&b.left, sc);
        let (r, rt) = self.expr(&b.right, sc);
        let op = &b.op;
        let f = match op {
            BinOp::Add(_) | BinOp::AddAssign(_) => "ck_add", BinOp::Sub(_) | BinOp::SubAssign(_) => "ck_sub", BinOp::Mul(_) | BinOp::MulAssign(_) => "ck_mul",
            BinOp::Div(_) | BinOp::DivAssign(_) => "ck_div", BinOp::Rem(_) | BinOp::RemAssign(_) => "ck_rem", BinOp::Shr(_) | BinOp::ShrAssign(_) => "ck_shr", BinOp::Shl(_) | BinOp::ShlAssign(_) => "ck_shl",
            _ => "",
        };
        let assign = matches!(op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::ShrAssign(_) | BinOp::ShlAssign(_));
        if f.is_empty() {
            if matches!(op, BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_)) && tname(&lt).as_deref() != Some("bool") { self.err("bit-assign operator"); }
            if tname(&lt).as_deref() == Some("bool") {
                match op {
                    BinOp::BitAnd(_) => return (parse_quote!({ let ba = #l; let bb = #r; ba && bb }), pty("bool")),
                    BinOp::BitOr(_) => return (parse_quote!({ let ba = #l; let bb = #r; ba || bb }), pty("bool")),
                    BinOp::BitXor(_) => return (parse_quote!({ let ba: bool = #l; let bb: bool = #r; ba != bb }), pty("bool")),
                    BinOp::BitAndAssign(_) => return (parse_quote!({ let bb: bool = #r; #l = #l && bb; }), pty("()")),
                    BinOp::BitOrAssign(_) => return (parse_quote!({ let bb: bool = #r; #l = #l || bb; }), pty("()")),
                    _ => {}
                }
            }
            let t = match op { BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) => lt, _ => pty("bool") };
            let l = if matches!(op, BinOp::And(_) | BinOp::Or(_)) { paren_or(l) } else { paren_cmp(l) };
            let r = if matches!(op, BinOp::And(_) | BinOp::Or(_)) { paren_or(r) } else { paren_cmp(r) };
            return (parse_quote!(#l #op #r), t);
        }
        self.rules.insert("R3 arithmetic operators become checked-arithmetic functions".into());
        let fi = id(f);
        if assign {
            let (l2, _) = self.expr(&b.left, sc);
            let rv = self.deref_int(r, &rt);
            if mentions(&l2, "e") { self.err("compound assignment target uses the environment"); }
            return (parse_quote!(#l2 = #fi(#l, #rv)), pty("()"));
        }
        let t = lt.clone().or(rt.clone()).map(|t| strip_ref(&t));
        let (l, r) = (self.deref_int(l, &lt), self.deref_int(r, &rt));
        (parse_quote!(#fi(#l, #r)), t)
    }
    /// `for x in [a, b, c]`: one copy of the body per element (no invariant is needed)
    fn unrolled(&mut self, f: &ExprForLoop, sc: &Scope) -> Option<(Expr, Ty)> {
        let byref = match strip_paren(&f.expr) { Expr::Reference(_) => true, Expr::MethodCall(m) => m.method == "iter" && m.args.is_empty(), _ => false };
        let ex = peel_iter(&f.expr);
        if f.label.is_some() || jumps(&f.body) { return None; }
        let n = self.loops;
        let (pre, els, et): (Vec<Stmt>, Vec<Expr>, Ty) = match strip_paren(&ex) {
            Expr::Array(a) if a.elems.len() <= 16 => {
                let v = self.exprs(a.elems.iter(), sc);
                let t = v.iter().find_map(|p| p.1.clone());
                let names: Vec<Ident> = (0..v.len()).map(|k| id(&format!("ar{}_{}", n, k))).collect();
                let pre = v.iter().zip(&names).map(|((x, _), nm)| parse_quote!(let #nm = #x;)).collect();
                (pre, names.iter().map(|nm| if byref { parse_quote!(&#nm) } else { parse_quote!(#nm) }).collect(), t)
            }
            Expr::Path(p) => {
                let x = p.path.get_ident()?;
                let Some(Type::Array(ta)) = sc.ty.get(&x.to_string()).cloned().flatten().map(|t| strip_ref(&t)) else { return None };
                let Expr::Lit(ExprLit { lit: Lit::Int(k), .. }) = &ta.len else { return None };
                let k: usize = k.base10_parse().ok()?;
                if k > 16 { return None; }
                let els = (0..k).map(|i| if byref { parse_quote!(&#x[#i]) } else { parse_quote!(#x[#i].clone()) }).collect();
                (vec![], els, Some((*ta.elem).clone()))
            }
            _ => return None,
        };
        self.rules.insert("R8b a loop over a literal array becomes one copy of its body per element".into());
        let et = if byref { et.map(|t| parse_quote!(&#t)) } else { et };
        let mut out: Vec<Stmt> = pre;
        for el in els {
            let mut s2 = sc.clone();
            let mut p = (*f.pat).clone();
            self.pat(&mut p, &et, &mut s2);
            let (bb, _) = self.block(&f.body, &s2);
            let st = bb.stmts;
            out.push(parse_quote!({ let #p = #el; #(#st)* }));
        }
        Some((parse_quote!({ #(#out)* }), pty("()")))
    }
    fn for_loop(&mut self, f: &ExprForLoop, sc: &Scope) -> (Expr, Ty) {
        if let Some(r) = self.unrolled(f, sc) { return r; }
        let lb = &f.label;
        self.rules.insert("R8 for loops become while loops over an explicit position".into());
        let n = self.loops; self.loops += 1;
        let (is, ii, ih) = (id(&format!("it_s{}", n)), id(&format!("it_i{}", n)), id(&format!("it_hi{}", n)));
        let li = Lit::Int(LitInt::new(&n.to_string(), Span::call_site()));
        let mut s2 = sc.clone();
        let mut p = (*f.pat).clone();
        let mut ex = peel_iter(&f.expr);
        let mut rev = false;
        if let Expr::MethodCall(m) = &ex { if m.method == "rev" && m.args.is_empty() { rev = true; let r = peel_iter(&m.receiver); ex = r; } }
        if let Expr::Range(r) = strip_paren(&ex) {
            let (Some(a), Some(b)) = (&r.start, &r.end) else { self.err("open range"); return (parse_quote!(()), None) };
            self.loop_kinds.push("range".into());
            let (a, at) = self.expr(a, sc);
            let (b, bt) = self.expr(b, sc);
            let t = bt.or(at);
            let ty = match &t { Some(t) => { let t = strip_ref(t); Some(quote::quote!(: #t)) } None => None };
            self.pat(&mut p, &t, &mut s2);
            let bind: Vec<Stmt> = if matches!(p, Pat::Wild(_)) { vec![] } else { if rev { let il = id(&format!("it_lo{}", n)); vec![parse_quote!(let #p = ck_sub(ck_add(#il, ck_sub(#ih, 1)), #ii);)] } else { vec![parse_quote!(let #p = #ii;)] } };
            let (bb, _) = self.block(&f.body, &s2);
            let st = bb.stmts;
            let incl = matches!(r.limits, RangeLimits::Closed(_));
            // `0..x.len()` walks x: give the contract the same name for the sequence as in `for _ in x.iter()`
            let mut end = strip_paren(r.end.as_ref().unwrap()).clone();
            if let Expr::Path(pp) = &end { if let Some(x) = pp.path.get_ident().and_then(|i| sc.lens.get(&i.to_string())) { end = parse_quote!(#x.len()); } }
            let walked: Vec<Stmt> = match (&**r.start.as_ref().unwrap(), &end) {
                (Expr::Lit(ExprLit { lit: Lit::Int(z), .. }), Expr::MethodCall(m)) if !incl && z.base10_digits() == "0" && m.method == "len" && m.args.is_empty() && is_place(&m.receiver) => {
                    let (x, xt) = self.expr(&m.receiver, sc);
                    if matches!(tname(&xt).as_deref(), Some("SVec") | Some("SMap")) { vec![parse_quote!(let #is = #x.siter();)] } else { vec![] }
                }
                _ => vec![],
            };
            let hi: Expr = if incl { parse_quote!(ck_add(#b, 1)) } else { b };
            let (lo, a): (Vec<Stmt>, Expr) = if rev { let il = id(&format!("it_lo{}", n)); (vec![parse_quote!(let #il #ty = #a;)], parse_quote!(#il)) } else { (vec![], a) };
            return (parse_quote!({ #(#walked)* #(#lo)* let mut #ii #ty = #a; let #ih #ty = #hi; #lb while #ii < #ih { __loop_start!(#li); #(#bind)* #ii = #ii + 1; #(#st)* __loop_end!(#li); } }), pty("()"));
        }
        self.loop_kinds.push("iter".into());
        // `x.iter().enumerate()`, `(0..).zip(x.iter())`: the position is bound as well
        let mut counted: Option<Type> = None;
        if let Expr::MethodCall(m) = &ex {
            let m = m.clone();
            if m.method == "enumerate" && m.args.is_empty() { counted = pty("usize"); ex = peel_iter(&m.receiver); }
            else if m.method == "zip" && m.args.len() == 1 {
                if let Expr::Range(r) = strip_paren(&m.receiver) {
                    if let (Some(a), None) = (&r.start, &r.end) {
                        if let Expr::Lit(ExprLit { lit: Lit::Int(z), .. }) = strip_paren(a) {
                            if z.base10_digits() == "0" { counted = pty(if z.suffix().is_empty() { "u32" } else { z.suffix() }); ex = peel_iter(&m.args[0]); }
                        }
                    }
                }
            }
        }
        // `a.iter().zip(b.iter())`: one position in both, up to the shorter
        let mut zipped: Option<Expr> = None;
        if let Expr::MethodCall(m) = &ex {
            let m = m.clone();
            if m.method == "zip" && m.args.len() == 1 && counted.is_none() && matches!(p, Pat::Tuple(_)) { zipped = Some(peel_iter(&m.args[0])); ex = peel_iter(&m.receiver); }
        }
        // `m.keys()`, `m.values()`: walk the entries, bind one half
        let mut half: Option<usize> = None;
        if let Expr::MethodCall(m) = &ex {
            if m.args.is_empty() && (m.method == "keys" || m.method == "values") && is_place(&m.receiver) {
                let (_, t) = self.expr(&m.receiver.clone(), sc);
                if tname(&t).as_deref() == Some("SMap") { half = Some(if m.method == "keys" { 0 } else { 1 }); let r = (*m.receiver).clone(); ex = r; }
            }
        }
        let (x, xt) = self.expr(&ex, sc);
        let et = match tname(&xt).as_deref() {
            Some("SVec") | Some("SIter") => targ(&xt, 0),
            Some("SMap") if half.is_some() => targ(&xt, half.unwrap()),
            Some("SMap") => match (targ(&xt, 0), targ(&xt, 1)) { (Some(k), Some(v)) => Some(parse_quote!((#k, #v))), _ => None },
            _ => None,
        };
        let mut zip_pre: Vec<Stmt> = vec![];
        let iz = id(&format!("it_z{}", n));
        let et = match &zipped { Some(z) => {
            let (zx, zt) = self.expr(z, sc);
            zip_pre = vec![parse_quote!(let #iz = #zx.siter();)];
            let zt = match tname(&zt).as_deref() { Some("SVec") => targ(&zt, 0), Some("SMap") => match (targ(&zt, 0), targ(&zt, 1)) { (Some(k), Some(v)) => Some(parse_quote!((#k, #v))), _ => None }, _ => None };
            match (et, zt) { (Some(a), Some(b)) => Some(parse_quote!((#a, #b))), _ => None }
        } None => et };
        let et = match &counted { Some(c) => et.map(|t| parse_quote!((#c, #t))), None => et };
        self.pat(&mut p, &et, &mut s2);
        let (bb, _) = self.block(&f.body, &s2);
        let st = bb.stmts;
        // nothing is left of the body (it only published events): walking the sequence has no effect
        if self.loops == n + 1 && st.iter().all(|s| idle_stmt(s)) && is_place(&ex) && half.is_none() {
            self.loops = n; self.loop_kinds.truncate(n);
            return (parse_quote!({ }), pty("()"));
        }
        let bind: Vec<Stmt> = if matches!(p, Pat::Wild(_)) { vec![] } else {
            let ix: Expr = if rev { parse_quote!(ck_sub(ck_sub(#ih, 1), #ii)) } else { parse_quote!(#ii) };
            let at: Expr = match half { None => parse_quote!(#is.at(#ix)), Some(0) => parse_quote!(#is.at(#ix).0), Some(_) => parse_quote!(#is.at(#ix).1) };
            if rev && (zipped.is_some() || counted.is_some()) { self.err("rev after zip or enumerate"); }
            if zipped.is_some() { vec![parse_quote!(let #p = (#at, #iz.at(#ii));)] } else if let Some(c) = &counted { vec![parse_quote!(let #p = (#ii as #c, #at);)] } else { vec![parse_quote!(let #p = #at;)] } };
        let hi: Expr = if zipped.is_some() { parse_quote!(if #is.len() <= #iz.len() { #is.len() } else { #iz.len() }) } else { parse_quote!(#is.len()) };
        (parse_quote!({ let #is = #x.siter(); #(#zip_pre)* let mut #ii: u32 = 0; let #ih: u32 = #hi; #lb while #ii < #ih { __loop_start!(#li); #(#bind)* #ii = #ii + 1; #(#st)* __loop_end!(#li); } }), pty("()"))
    }
    fn mac(&mut self, m: &Macro, sc: &Scope) -> (Expr, Ty) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let args: Vec<Expr> = match m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) { Ok(a) => a.into_iter().collect(), Err(_) => vec![] };
        struct N;
        impl VisitMut for N {
            fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
                let n = s.ident.to_string();
                let r = match n.as_str() { "Vec" => Some("SVec"), "Map" => Some("SMap"), "String" => Some("SString"), _ => None };
                if let Some(r) = r { s.ident = Ident::new(r, s.ident.span()); }
                visit_mut::visit_path_segment_mut(self, s);
            }
            fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) { for f in s.fields.iter_mut() { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } } visit_mut::visit_expr_struct_mut(self, s); }
        }
        let args: Vec<Expr> = args.into_iter().map(|mut a| { N.visit_expr_mut(&mut a); a }).collect();
        match n.as_str() {
            "panic_with_error" | "panic" | "unreachable" | "todo" | "unimplemented" => { self.rules.insert("R4 panics become a diverging function".into()); let code = if n == "panic_with_error" { err_code(&m.tokens.to_string()) } else { "panic".to_string() }; (parse_quote!({ __panic!(#code); panic_err() }), pty("!")) }
            "vec" => {
                let v = self.exprs(args.iter().skip(1), sc);
                let t = v.iter().find_map(|p| p.1.clone()).map(|t| -> Type { parse_quote!(SVec<#t>) });
                let mut x: Expr = parse_quote!(SVec::new());
                for (a, _) in v { x = parse_quote!(#x.vpush(#a)); }
                (x, t)
            }
            "map" => {
                let mut x: Expr = parse_quote!(SMap::new());
                let mut ty = None;
                for a in args.iter().skip(1) {
                    if let Expr::Tuple(t) = a {
                        let v = self.exprs(t.elems.iter(), sc);
                        if v.len() == 2 { let (k, w) = (v[0].0.clone(), v[1].0.clone()); x = parse_quote!(#x.vset(#k, #w)); if let (Some(a), Some(b)) = (v[0].1.clone(), v[1].1.clone()) { ty = Some(parse_quote!(SMap<#a, #b>)); } }
                    } else { self.err("map! entry"); }
                }
                (x, ty)
            }
            "symbol_short" => { if let Some(s) = args.first().and_then(|a| self.str_of(a, sc)) { (self.sym(s), pty("Symbol")) } else { self.err("symbol_short!"); (parse_quote!(()), None) } }
            "assert" | "debug_assert" | "assert_with_error" => {
                let c = if n == "assert_with_error" { args.get(1) } else { args.first() };
                if let Some(c) = c { let (c, _) = self.expr(c, sc); let code = if n == "assert_with_error" { err_code(&m.tokens.to_string()) } else { "panic".to_string() }; (parse_quote!(if !(#c) { __panic!(#code); panic_err() }), pty("()")) } else { self.err("assert!"); (parse_quote!(()), None) }
            }
            "assert_eq" | "assert_ne" => {
                if args.len() >= 2 { let (a, _) = self.expr(&args[0], sc); let (b, _) = self.expr(&args[1], sc);
                    if n == "assert_eq" { (parse_quote!(if !(#a == #b) { __panic!("panic"); panic_err() }), pty("()")) } else { (parse_quote!(if #a == #b { __panic!("panic"); panic_err() }), pty("()")) } } else { (parse_quote!(()), None) }
            }
            "matches" => {
                let r = m.parse_body_with(|i: parse::ParseStream| { let e: Expr = i.parse()?; let _: Token![,] = i.parse()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g: Option<Expr> = if i.peek(Token![if]) { let _: Token![if] = i.parse()?; Some(i.parse()?) } else { None }; let _: Option<Token![,]> = i.parse()?; Ok((e, p, g)) });
                match r { Ok((e, p, g)) => {
                    let mut mm: ExprMatch = parse_quote!(match #e { #p => true, _ => false });
                    if let Some(g) = g { mm.arms[0].guard = Some((Default::default(), Box::new(g))); }
                    self.expr(&Expr::Match(mm), sc)
                } Err(_) => { self.err("matches!"); (parse_quote!(false), None) } }
            }
            "log" | "debug" => (parse_quote!(()), pty("()")),
            _ => { self.err(format!("macro {}!", n)); (parse_quote!(()), None) }
        }
    }
    fn call(&mut self, c: &ExprCall, sc: &Scope) -> (Expr, Ty) {
        let Expr::Path(p) = &*c.func else { self.err("call through an expression"); return (parse_quote!(()), None) };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = segs.last().unwrap().clone();
        let prev = if segs.len() >= 2 { segs[segs.len() - 2].clone() } else { String::new() };
        if segs.len() == 1 { if let Some((cl, s)) = sc.clos.get(&n).cloned() { let a = self.exprs(c.args.iter(), sc); return self.beta(&cl, &s, a); } }
        if prev == "Symbol" && (n == "new" || n == "short") {
            if let Some(s) = c.args.last().and_then(|a| self.str_of(a, sc)) { return (self.sym(s), pty("Symbol")); }
            self.err("Symbol::new with a computed string");
            return (parse_quote!(()), None);
        }
        if n == "new" && (prev.ends_with("Client") || self.clients.contains(&prev)) {
            let a = self.exprs(c.args.iter().skip(1), sc);
            let a = a.into_iter().map(|p| p.0);
            let cl = id(&prev);
            return (parse_quote!(#cl::new(#(#a),*)), pty(&prev));
        }
        if (prev == "SVec" || prev == "SMap" || prev == "Bytes") && n == "new" {
            let t = p.path.segments[p.path.segments.len() - 2].clone();
            let mut pp = p.clone();
            let mut tt: TypePath = parse_quote!(#t);
            FlatTy.visit_type_path_mut(&mut tt);
            let ts = tt.path.segments[0].clone();
            pp.path.segments.clear();
            pp.path.segments.push(ts.clone());
            pp.path.segments.push(parse_quote!(new));
            return (parse_quote!(#pp()), Some(Type::Path(TypePath { qself: None, path: parse_quote!(#ts) })));
        }
        if prev == "SVec" && n == "from_array" {
            if let Some(Expr::Array(a)) = c.args.last().map(strip_paren) { let mut x: Expr = parse_quote!(SVec::new()); for (y, _) in self.exprs(a.elems.iter(), sc) { x = parse_quote!(#x.vpush(#y)); } return (x, None); }
        }
        if segs.len() == 1 && INTS.contains(&n.as_str()) && c.args.len() == 1 {
            // the `cast` crate: a Result when the value may not fit, the value itself otherwise
            let (a, at) = self.expr(&c.args[0], sc);
            let wide = |t: &str| -> Option<(bool, u32)> { let (sg, b) = t.split_at(1); Some((sg == "i", if b == "size" { return None } else { b.parse().ok()? })) };
            if let (Some((fs, fb)), Some((ts, tb))) = (tname(&at).and_then(|x| if INTS.contains(&x.as_str()) { wide(&x) } else { None }), wide(&n)) {
                let fits = if fs == ts { fb <= tb } else { !fs && fb < tb };
                if !fits && matches!(n.as_str(), "u32" | "u64" | "i128" | "u128" | "i64") {
                    let a = self.deref_int(a, &at);
                    let f = id(&format!("try_{}", n));
                    let ty = pty(&n).unwrap();
                    return (parse_quote!(#f(#a)), Some(parse_quote!(Result<#ty, ()>)));
                }
            }
            let f = id(&format!("as_{}", n));
            return (parse_quote!(#f(#a)), pty(&n));
        }
        if prev == "Into" && n == "into" && c.args.len() == 1 {
            let g = match &segs_args(p) { Some(PathArguments::AngleBracketed(a)) => a.args.first().and_then(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }), _ => None };
            if let Some(g) = g { if tname(&Some(g.clone())).map_or(false, |x| INTS.contains(&x.as_str())) {
                let (a, at) = self.expr(&c.args[0], sc);
                let a = self.deref_int(a, &at);
                return (parse_quote!(as_into::<_, #g>(#a)), Some(g));
            } }
        }
        if INTS.contains(&prev.as_str()) && n == "from" { let (a, at) = self.expr(&c.args[0], sc); if tname(&at).as_deref() == Some("bool") { let ty = pty(&prev).unwrap(); return (parse_quote!((if #a { 1 as #ty } else { 0 as #ty })), Some(ty)); } let f = id(&format!("as_{}", prev)); return (parse_quote!(#f(#a)), pty(&prev)); }
        if (prev == "cmp" && matches!(n.as_str(), "max" | "min")) || (INTS.contains(&prev.as_str()) && SDK_INT.contains(&n.as_str())) {
            let v = self.exprs(c.args.iter(), sc);
            let t = if INTS.contains(&prev.as_str()) { pty(&prev) } else { v.iter().find_map(|p| p.1.clone()).map(|t| strip_ref(&t)) };
            let t = if n.starts_with("checked") { opt_of(t) } else { t };
            let f = id(&format!("ck_{}", n));
            let a: Vec<Expr> = v.into_iter().map(|(x, t)| self.deref_int(x, &t)).collect();
            return (parse_quote!(#f(#(#a),*)), t);
        }
        if matches!(prev.as_str(), "Option" | "Result") && n.chars().next().map_or(false, |ch| ch.is_lowercase()) && !c.args.is_empty() {
            let (r, rest) = (&c.args[0], c.args.iter().skip(1));
            let nm = id(&n);
            let m: ExprMethodCall = parse_quote!((#r).#nm(#(#rest),*));
            return self.mcall(&m, sc);
        }
        if prev == "mem" && matches!(n.as_str(), "swap" | "replace") {
            let v = self.exprs(c.args.iter(), sc);
            let t = v[0].1.clone().map(|t| strip_ref(&t));
            let f = id(&format!("px_{}", n));
            let a = v.into_iter().map(|p| p.0);
            return (parse_quote!(#f(#(#a),*)), if n == "swap" { pty("()") } else { t });
        }
        let ctor = n.chars().next().map_or(false, |ch| ch.is_uppercase());
        if ctor {
            let v = self.exprs(c.args.iter(), sc);
            let t = match n.as_str() { "Some" => opt_of(v[0].1.clone()), "Ok" | "Err" => None, _ => if self.db.enums.contains_key(&prev) { pty(&prev) } else { pty(&n) } };
            let mut f = p.clone();
            if self.db.enums.contains_key(&prev) || prev == "Option" || prev == "Result" || prev.chars().next().map_or(false, |ch| ch.is_uppercase()) { self.flat_variant(&mut f.path); } else { let l = f.path.segments.last().unwrap().clone(); f.path.segments.clear(); f.path.segments.push(l); }
            let a = v.into_iter().map(|p| p.0);
            return (parse_quote!(#f(#(#a),*)), t);
        }
        // crate functions
        let owner_like = prev.chars().next().map_or(false, |ch| ch.is_uppercase());
        let fi = if owner_like { self.resolve_method(Some(&prev), &n, true) } else { self.resolve_free(&segs) };
        if let Some(fi) = fi {
            if owner_like && self.db.fns[fi].sig.receiver().is_some() {
                // Type::method(recv, args): treat as a method call
                let mut it = c.args.iter();
                let (r, rt) = self.expr(it.next().unwrap(), sc);
                let (r, rt) = match r { Expr::Reference(x) => (*x.expr, rt.map(|t| match t { Type::Reference(y) => *y.elem, t => t })), r => (r, rt) };
                let args: Vec<&Expr> = it.collect();
                return self.crate_method(fi, r, rt, args, sc);
            }
            if self.keep.contains(&fi) {
                self.called.insert(self.db.fns[fi].path());
                let a = self.call_args(fi, c.args.iter().collect(), sc);
                let nm = id(&self.emit_name(fi));
                let f: Expr = if owner_like { let o = id(&prev); parse_quote!(#o::#nm) } else { parse_quote!(#nm) };
                return (self.mk_call(f, a), self.ret_ty(fi));
            }
            return self.inline(fi, None, c.args.iter().map(|a| (a, sc)).collect());
        }
        // unknown: leave to the prelude
        let v = self.exprs(c.args.iter(), sc);
        let mut f = p.clone();
        if segs.len() > 1 && !owner_like { let l = f.path.segments.last().unwrap().clone(); f.path.segments.clear(); f.path.segments.push(l); } else { self.flat_variant(&mut f.path); }
        let t = if owner_like && (n == "new" || n.starts_with("from")) { pty(&prev) } else { None };
        (self.mk_call(Expr::Path(f), v.into_iter().map(|p| p.0).collect()), t)
    }
    fn call_args(&mut self, fi: usize, args: Vec<&Expr>, sc: &Scope) -> Vec<Expr> {
        let tys: Vec<Type> = self.db.fns[fi].sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some((*t.ty).clone()) } else { None }).collect();
        args.iter().enumerate().map(|(k, a)| {
            let (x, xt) = self.expr(a, sc);
            if is_e(&x) { return x; }
            match tys.get(k) {
                Some(Type::Reference(r)) if r.mutability.is_some() && !matches!(x, Expr::Reference(_)) => parse_quote!(&mut *#x),
                // auto-deref of && at a call
                Some(Type::Reference(r)) if r.mutability.is_none() => match (&x, &xt) {
                    (Expr::Reference(rx), Some(Type::Reference(o))) if is_ref(&o.elem) => (*rx.expr).clone(),
                    (_, Some(Type::Reference(o))) if o.mutability.is_some() => parse_quote!(&*#x),
                    _ => x,
                },
                _ => x,
            }
        }).collect()
    }
    fn crate_method(&mut self, fi: usize, r: Expr, rt: Ty, args: Vec<&Expr>, sc: &Scope) -> (Expr, Ty) {
        if self.keep.contains(&fi) {
            self.called.insert(self.db.fns[fi].path());
            let a = self.call_args(fi, args, sc);
            let nm = self.emit_name(fi);
            return (self.mk_mcall(r, &nm, None, a), self.ret_ty(fi));
        }
        self.inline(fi, Some((r, rt)), args.into_iter().map(|a| (a, sc)).collect())
    }
    fn as_loop(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let clo = |a: Option<&Expr>, k: usize| -> Option<ExprClosure> { match a { Some(Expr::Closure(c)) if c.inputs.len() == k && !has_return_expr(&c.body) => Some(c.clone()), _ => None } };
        let untype = |p: &Pat| -> Pat { match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() } };
        let acc = self.fresh("acc");
        let item = self.fresh("item");
        let (init, mut body): (Vec<Stmt>, Vec<Stmt>) = match m.method.to_string().as_str() {
            "fold" if m.args.len() == 2 => {
                let c = clo(m.args.iter().nth(1), 2)?;
                let (i, p, b) = (&m.args[0], untype(&c.inputs[1]), &c.body);
                let Pat::Ident(a) = untype(&c.inputs[0]) else { return None };
                let (name, ty): (Ident, Option<proc_macro2::TokenStream>) = (a.ident.clone(), match &c.inputs[0] { Pat::Type(t) => { let t = &t.ty; Some(quote::quote!(: #t)) } _ => None });
                (vec![parse_quote!(let mut #acc #ty = #i;)], vec![parse_quote!(let #p = #item;), parse_quote!(#acc = { let #name = #acc; #b };)])
            }
            "sum" if m.args.is_empty() => {
                let ty: Option<proc_macro2::TokenStream> = m.turbofish.as_ref().and_then(|t| t.args.first()).map(|t| quote::quote!(: #t));
                (vec![parse_quote!(let mut #acc #ty = 0;)], vec![parse_quote!(#acc += #item;)])
            }
            "for_each" if m.args.len() == 1 => {
                let c = clo(m.args.first(), 1)?;
                let (p, b) = (untype(&c.inputs[0]), &c.body);
                (vec![], vec![parse_quote!(let #p = #item;), parse_quote!(#b;)])
            }
            _ => return None,
        };
        let mut src = (*m.receiver).clone();
        loop {
            let Expr::MethodCall(c) = strip_paren(&src).clone() else { break };
            match c.method.to_string().as_str() {
                "map" if c.args.len() == 1 => { let f = clo(c.args.first(), 1)?; let (p, b) = (untype(&f.inputs[0]), &f.body); let mut v: Vec<Stmt> = vec![parse_quote!(let #p = #item;), parse_quote!(let #item = #b;)]; v.extend(body); body = v; src = (*c.receiver).clone(); }
                "filter" if c.args.len() == 1 => { let f = clo(c.args.first(), 1)?; let (p, b) = (untype(&f.inputs[0]), &f.body); let q: Expr = match &p { Pat::Reference(_) => return None, _ => parse_quote!({ let #p = &#item; #b }) }; body = vec![parse_quote!(if #q { #(#body)* })]; src = (*c.receiver).clone(); }
                _ => break,
            }
        }
        let walks = match strip_paren(&src) { Expr::MethodCall(c) => matches!(c.method.to_string().as_str(), "iter" | "into_iter" | "keys" | "values" | "enumerate" | "zip"), Expr::Range(_) => true, _ => false };
        if !walks { return None; }
        let out: Expr = if init.is_empty() { parse_quote!(()) } else { parse_quote!(#acc) };
        Some(parse_quote!({ #(#init)* for #item in #src { #(#body)* } #out }))
    }
    fn mcall(&mut self, m: &ExprMethodCall, sc: &Scope) -> (Expr, Ty) {
        let n = m.method.to_string();
        // fallible conversion from the `cast` crate followed by unwrap
        if matches!(n.as_str(), "unwrap" | "unwrap_optimized" | "expect") {
            if let Expr::Call(c) = strip_paren(&m.receiver) {
                if let Expr::Path(p) = &*c.func {
                    if let Some(i) = p.path.get_ident() {
                        if INTS.contains(&i.to_string().as_str()) && c.args.len() == 1 {
                            let (a, _) = self.expr(&c.args[0], sc);
                            let f = id(&format!("cast_{}", i));
                            return (parse_quote!(#f(#a)), pty(&i.to_string()));
                        }
                    }
                    let sg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if sg.len() == 2 && INTS.contains(&sg[0].as_str()) && sg[1] == "try_from" {
                        let (a, _) = self.expr(&c.args[0], sc);
                        let f = id(&format!("cast_{}", sg[0]));
                        return (parse_quote!(#f(#a)), pty(&sg[0]));
                    }
                }
            }
        }
        // `x.iter().map(f).fold(init, g)`, `.sum()`, `.for_each(g)`: the loop it stands for
        if matches!(n.as_str(), "fold" | "sum" | "for_each") {
            if let Some(b) = self.as_loop(m) { return self.expr(&b, sc); }
        }
        // `(a..=b).contains(&x)`
        if n == "contains" && m.args.len() == 1 {
            if let Expr::Range(r) = strip_paren(&m.receiver) {
                let x = match &m.args[0] { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() };
                if is_place(&x) || const_only(&x) {
                    let hi = |b: &Expr| -> Expr { if matches!(r.limits, RangeLimits::Closed(_)) { parse_quote!(#x <= (#b)) } else { parse_quote!(#x < (#b)) } };
                    let c: Option<Expr> = match (&r.start, &r.end) {
                        (Some(a), Some(b)) => { let h = hi(b); Some(parse_quote!((#a) <= #x && #h)) }
                        (Some(a), None) => Some(parse_quote!((#a) <= #x)),
                        (None, Some(b)) => Some(hi(b)),
                        _ => None,
                    };
                    if let Some(c) = c { let (c, t) = self.expr(&c, sc); return (parse_quote!((#c)), t); }
                }
            }
        }
        let (r, rt) = self.expr(&m.receiver, sc);
        let tn = tname(&rt).unwrap_or_default();
        let args: Vec<&Expr> = m.args.iter().collect();
        // literal receivers need a type to call a method on
        match tn.as_str() {
            "Env" => {
                match n.as_str() {
                    "storage" => return (r, pty("__Storage")),
                    "ledger" => return (r, pty("__Ledger")),
                    "events" => return (r, pty("__Events")),
                    "deployer" => return (r, pty("__Deployer")),
                    "crypto" => return (r, pty("__Crypto")),
                    "clone" => return (r, rt),
                    "current_contract_address" => return (parse_quote!(e.current_contract_address()), pty("Address")),
                    "authorize_as_current_contract" => { self.rules.insert("dropped: authorize_as_current_contract (authorises a sub-invocation; no state)".into()); return (parse_quote!(()), pty("()")); }
                    _ => { let a = self.exprs(m.args.iter(), sc).into_iter().map(|p| p.0).collect(); let t = if n == "invoke_contract" { None } else { None }; return (self.mk_mcall(r, &n, None, a), t); }
                }
            }
            "__Storage" => {
                let t = match n.as_str() { "persistent" => "__Pers", "temporary" => "__Temp", "instance" => "__Inst", _ => { self.err("storage()"); "__Pers" } };
                return (r, pty(t));
            }
            "__Pers" | "__Temp" | "__Inst" => {
                let k = match tn.as_str() { "__Pers" => "pers", "__Temp" => "temp", _ => "inst" };
                if n == "extend_ttl" { self.rules.insert("dropped: extend_ttl (storage time-to-live)".into()); return (parse_quote!(()), pty("()")); }
                let a: Vec<Expr> = self.exprs(m.args.iter(), sc).into_iter().map(|p| p.0).collect();
                let mut tf = m.turbofish.clone();
                if let Some(t) = &mut tf {
                    FlatTy.visit_angle_bracketed_generic_arguments_mut(t);
                    let tt = t.to_token_stream();
                    if sc.generics.iter().any(|g| has_tok(tt.clone(), g)) { tf = None; }
                }
                let vt = tf.as_ref().and_then(|t| t.args.iter().nth(1)).and_then(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None });
                let t = match n.as_str() { "get" => opt_of(vt), "has" => pty("bool"), _ => pty("()") };
                if !matches!(n.as_str(), "get" | "set" | "has" | "remove") { self.err(format!("storage method {}", n)); }
                if matches!(n.as_str(), "has" | "remove") { tf = None; }
                return (self.mk_mcall(r, &format!("{}_{}", k, n), tf, a), t);
            }
            "__Ledger" => {
                let t = match n.as_str() { "timestamp" => pty("u64"), "sequence" => pty("u32"), _ => { self.err(format!("ledger method {}", n)); None } };
                let f = id(&format!("ledger_{}", n));
                return (parse_quote!(e.#f()), t);
            }
            "__Events" => { self.rules.insert("R2 dropped: event publication".into()); return (parse_quote!(()), pty("()")); }
            "__Deployer" => {
                if n == "with_current_contract" { let (a, _) = self.expr(args[0], sc); return (a, pty("__DeployerWith")); }
                self.err(format!("deployer method {}", n));
            }
            "__DeployerWith" => {
                let mut a = vec![r];
                a.extend(self.exprs(m.args.iter(), sc).into_iter().map(|p| p.0));
                let f = match n.as_str() { "deploy" => "deploy_with", "deployed_address" => "deployed_address", _ => { self.err("deployer"); "deploy_with" } };
                return (self.mk_mcall(parse_quote!(e), f, None, a), pty("Address"));
            }
            "__Crypto" => { let a = self.exprs(m.args.iter(), sc).into_iter().map(|p| p.0).collect(); return (self.mk_mcall(parse_quote!(e), &n, None, a), pty("BytesN<32>")); }
            _ => {}
        }
        if tn.ends_with("Client") || self.clients.contains(&tn) {
            let mut a: Vec<Expr> = vec![parse_quote!(e)];
            a.extend(self.exprs(m.args.iter(), sc).into_iter().map(|p| p.0));
            let t = self.cret.get(&format!("{}.{}", tn, n)).cloned();
            self.rules.insert("R7 cross-contract calls become logged environment calls".into());
            return (self.mk_mcall(r, &n, None, a), t);
        }
        // crate methods
        let fi = if !tn.is_empty() { self.resolve_method(Some(&tn), &n, false) } else if !SDK_METHODS.contains(&n.as_str()) { self.resolve_method(None, &n, false) } else { None };
        if let Some(fi) = fi { return self.crate_method(fi, r, rt, args, sc); }
        let inner = targ(&rt, 0);
        if n == "into" && args.is_empty() && INTS.contains(&tn.as_str()) { let r = self.deref_int(r, &rt); return (parse_quote!(#r.vinto()), None); }
        // three-way comparison of integers
        if n == "cmp" && args.len() == 1 && (tn.is_empty() || INTS.contains(&tn.as_str())) {
            let r = self.deref_int(r, &rt);
            let a = match args[0] { Expr::Reference(x) => { let (a, at) = self.expr(&x.expr, sc); self.deref_int(a, &at) } x => { let (a, at) = self.expr(x, sc); if at.as_ref().map_or(true, |t| !is_ref(t)) { parse_quote!((*#a)) } else { self.deref_int(a, &at) } } };
            return (parse_quote!(ck_cmp(#r, #a)), pty("Ordering"));
        }
        match n.as_str() {
            "clone" | "to_owned" => { let t = rt.as_ref().map(strip_ref); return (parse_quote!(#r.vclone()), t); }
            "unwrap" | "unwrap_optimized" | "expect" | "expect_optimized" => return (parse_quote!(px_unwrap(#r)), inner),
            "unwrap_or" => { let (a, at) = self.expr(args[0], sc); return (parse_quote!(px_unwrap_or(#r, #a)), inner.or(at)); }
            "unwrap_or_else" => {
                if let Some((b, bt)) = self.closure_arg(args[0], sc, vec![]) { let v = self.fresh("inl_o"); return (parse_quote!(match #r { Some(#v) => #v, None => #b }), inner.or(bt)); }
                self.err("unwrap_or_else");
            }
            "map" | "and_then" | "is_some_and" => {
                let v = self.fresh("inl_o");
                if let Some((b, bt)) = self.closure_arg(args[0], sc, vec![(parse_quote!(#v), inner.clone())]) {
                    return match n.as_str() {
                        "map" => (parse_quote!(match #r { Some(#v) => Some(#b), None => None }), opt_of(bt)),
                        "and_then" => (parse_quote!(match #r { Some(#v) => #b, None => None }), bt),
                        _ => (parse_quote!(match #r { Some(#v) => #b, None => false }), pty("bool")),
                    };
                }
                self.err(n.clone());
            }
            "map_or" => {
                let v = self.fresh("inl_o");
                let (d, dt) = self.expr(args[0], sc);
                if let Some((b, bt)) = self.closure_arg(args[1], sc, vec![(parse_quote!(#v), inner.clone())]) { return (parse_quote!(match #r { Some(#v) => #b, None => #d }), bt.or(dt)); }
                self.err("map_or");
            }
            "require_auth" => { return (parse_quote!(#r.require_auth(e)), pty("()")); }
            "into_val" | "to_val" => return (parse_quote!(px_val(&#r)), pty("Val")),
            "is_negative" => { let r = self.deref_int(r, &rt); return (parse_quote!(ck_is_negative(#r)), pty("bool")) }
            "is_positive" => { let r = self.deref_int(r, &rt); return (parse_quote!(ck_is_positive(#r)), pty("bool")) }
            "checked_neg" if args.is_empty() => { let r = self.deref_int(r, &rt); return (parse_quote!(ck_checked_sub(0, #r)), opt_of(rt.map(|t| strip_ref(&t)))) }
            "checked_abs" if args.is_empty() => { let r = self.deref_int(r, &rt); return (parse_quote!(ck_checked_abs(#r)), opt_of(rt.map(|t| strip_ref(&t)))) }
            "signum" if args.is_empty() => { let r = self.deref_int(r, &rt); return (parse_quote!(ck_signum(#r)), rt.map(|t| strip_ref(&t))) }
            "then_some" if args.len() == 1 => { let (a, at) = self.expr(args[0], sc); return (parse_quote!((if #r { Some(#a) } else { None })), opt_of(at)); }
            "then" if args.len() == 1 => {
                if let Some((b, bt)) = self.closure_arg(args[0], sc, vec![]) { return (parse_quote!((if #r { Some(#b) } else { None })), opt_of(bt)); }
                self.err("then");
            }
            "any" | "all" if args.len() == 1 => {
                // membership spelled as a search
                if let (Expr::Closure(c), Expr::MethodCall(im)) = (args[0], strip_paren(&m.receiver)) {
                    if let (true, 1, Expr::Binary(b), Some(pn)) = (im.method == "iter", c.inputs.len(), strip_paren(&c.body), c.inputs.first().and_then(simple_pat)) {
                        let is_p = |x: &Expr| text(strip_paren(x)).replace(' ', "").trim_start_matches(|ch| ch == '*' || ch == '&').trim_end_matches(".clone()") == pn;
                        let want = if n == "any" { matches!(b.op, BinOp::Eq(_)) } else { matches!(b.op, BinOp::Ne(_)) };
                        let other = if is_p(&b.left) && !mentions(&b.right, &pn) { Some(&b.right) } else if is_p(&b.right) && !mentions(&b.left, &pn) { Some(&b.left) } else { None };
                        if let (true, Some(o)) = (want, other) {
                            let (v, _) = self.expr(&im.receiver, sc);
                            let (o, ot) = self.expr(o, sc);
                            let o = match &ot { Some(t) if is_ref(t) => o, _ => parse_quote!(&#o) };
                            return (if n == "any" { parse_quote!(#v.contains(#o)) } else { parse_quote!((!#v.contains(#o))) }, pty("bool"));
                        }
                    }
                }
                self.err(format!("iterator {}", n));
            }
            "filter" if args.len() == 1 => {
                let v = self.fresh("inl_o");
                if let Some((b, _)) = self.closure_arg(args[0], sc, vec![(parse_quote!(&#v), inner.clone().map(|t| parse_quote!(&#t)))]) { return (parse_quote!((match #r { Some(#v) => if #b { Some(#v) } else { None }, None => None })), opt_of(inner)); }
                self.err("filter");
            }
            "map_or_else" if args.len() == 2 => {
                let v = self.fresh("inl_o");
                if let (Some((d, dt)), Some((b, bt))) = (self.closure_arg(args[0], sc, vec![]), self.closure_arg(args[1], sc, vec![(parse_quote!(#v), inner.clone())])) { return (parse_quote!(match #r { Some(#v) => #b, None => #d }), bt.or(dt)); }
                self.err("map_or_else");
            }
            "is_none_or" if args.len() == 1 => {
                let v = self.fresh("inl_o");
                if let Some((b, _)) = self.closure_arg(args[0], sc, vec![(parse_quote!(#v), inner.clone())]) { return (parse_quote!((match #r { Some(#v) => #b, None => true })), pty("bool")); }
                self.err("is_none_or");
            }
            "or" if args.len() == 1 => { let (a, at) = self.expr(args[0], sc); let v = self.fresh("inl_o"); return (parse_quote!({ let or_d = #a; match #r { Some(#v) => Some(#v), None => or_d } }), rt.or(at)); }
            "or_else" if args.len() == 1 => {
                let v = self.fresh("inl_o");
                if let Some((b, bt)) = self.closure_arg(args[0], sc, vec![]) { return (parse_quote!((match #r { Some(#v) => Some(#v), None => #b })), rt.or(bt)); }
                self.err("or_else");
            }
            "ok_or" if args.len() == 1 => { let (a, _) = self.expr(args[0], sc); let v = self.fresh("inl_o"); return (parse_quote!((match #r { Some(#v) => Ok(#v), None => Err(#a) })), None); }
            "ok" if args.is_empty() && tn != "Option" => { let v = self.fresh("inl_o"); return (parse_quote!((match #r { Ok(#v) => Some(#v), Err(_) => None })), None); }
            "copied" if args.is_empty() => { let v = self.fresh("inl_o"); return (parse_quote!((match #r { Some(#v) => Some(*#v), None => None })), opt_of(inner.map(|t| strip_ref(&t)))); }
            "cloned" if args.is_empty() => { let v = self.fresh("inl_o"); return (parse_quote!((match #r { Some(#v) => Some((*#v).vclone()), None => None })), opt_of(inner.map(|t| strip_ref(&t)))); }
            "zip" if args.len() == 1 && tn == "Option" => { let (a, at) = self.expr(args[0], sc); let (v, w) = (self.fresh("inl_o"), self.fresh("inl_o")); let t = match (inner, targ(&at, 0)) { (Some(a), Some(b)) => opt_of(Some(parse_quote!((#a, #b)))), _ => None }; return (parse_quote!((match (#r, #a) { (Some(#v), Some(#w)) => Some((#v, #w)), _ => None })), t); }
            "slice" if args.len() == 1 && tn == "SVec" => {
                if let Expr::Range(rg) = strip_paren(args[0]) {
                    let a = match &rg.start { Some(x) => self.expr(x, sc).0, None => parse_quote!(0) };
                    let b = match &rg.end { Some(x) => self.expr(x, sc).0, None => parse_quote!(#r.len()) };
                    let b = if matches!(rg.limits, RangeLimits::Closed(_)) { parse_quote!(ck_add(#b, 1)) } else { b };
                    return (parse_quote!(#r.slice(#a, #b)), rt.map(|t| strip_ref(&t)));
                }
                self.err("slice");
            }
            "abs" => { let r = self.deref_int(r, &rt); return (parse_quote!(ck_abs(#r)), rt.map(|t| strip_ref(&t))) }
            "min" | "max" | "saturating_mul" | "saturating_sub" | "saturating_add" | "pow" | "checked_add" | "checked_sub" | "checked_mul" | "checked_div" | "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "abs_diff" | "rem_euclid" | "div_euclid" | "div_ceil" | "saturating_pow" | "checked_rem" | "checked_pow" => {
                let (a, at) = self.expr(args[0], sc);
                let f = id(&format!("ck_{}", n));
                let r2 = self.deref_int(r, &rt);
                let a2 = self.deref_int(a, &at);
                let t = rt.map(|t| strip_ref(&t)).or(if n.ends_with("pow") { None } else { at });
                let t = if n.starts_with("checked") { opt_of(t) } else { t };
                return (parse_quote!(#f(#r2, #a2)), t);
            }
            "fixed_mul_floor" | "fixed_mul_ceil" | "fixed_div_floor" | "fixed_div_ceil" => {
                let v = self.exprs(m.args.iter(), sc);
                let f = id(&format!("fp_{}", &n[6..]));
                let a: Vec<Expr> = v.into_iter().map(|(x, t)| self.deref_int(x, &t)).collect();
                let r2 = self.deref_int(r, &rt);
                return (parse_quote!(#f(#r2, #(#a),*)), pty("Option<i128>"));
            }
            "to_string" => return (parse_quote!(#r.to_sstring()), pty("SString")),
            "iter" | "into_iter" => return (parse_quote!(#r.siter()), rt),
            _ => {}
        }
        let a = self.exprs(m.args.iter(), sc).into_iter().map(|p| p.0).collect();
        let t: Ty = match (tn.as_str(), n.as_str()) {
            ("SVec", "get") | ("SVec", "first") | ("SVec", "last") | ("SVec", "pop_front") | ("SVec", "pop_back") => opt_of(inner),
            ("SVec", "get_unchecked") | ("SVec", "pop_front_unchecked") | ("SVec", "pop_back_unchecked") | ("SVec", "first_unchecked") | ("SVec", "last_unchecked") => inner,
            ("SMap", "get") => opt_of(targ(&rt, 1)),
            ("SMap", "get_unchecked") => targ(&rt, 1),
            ("SMap", "keys") => inner.map(|t| parse_quote!(SVec<#t>)),
            ("SMap", "values") => targ(&rt, 1).map(|t| parse_quote!(SVec<#t>)),
            (_, "len") => pty("u32"),
            (_, "first_index_of") | (_, "last_index_of") => pty("Option<u32>"),
            (_, "is_empty") | (_, "contains") | (_, "contains_key") | (_, "is_some") | (_, "is_none") => pty("bool"),
            ("Option", "or") => rt.clone(),
            _ => None,
        };
        let mut tf = m.turbofish.clone();
        if let Some(t) = &mut tf { FlatTy.visit_angle_bracketed_generic_arguments_mut(t); }
        (self.mk_mcall(r, &n, tf, a), t)
    }
}
const SDK_INT: &[&str] = &["max", "min", "saturating_mul", "saturating_sub", "saturating_add", "saturating_pow", "pow", "checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem", "checked_pow", "wrapping_add", "wrapping_sub", "wrapping_mul", "abs_diff", "rem_euclid", "div_euclid", "div_ceil", "abs"];
const SDK_METHODS: &[&str] = &["get", "set", "clone", "len", "iter", "push_back", "push_front", "remove", "contains", "is_empty", "unwrap", "unwrap_or", "unwrap_or_else", "unwrap_optimized", "map", "min", "max", "pow", "first", "last", "keys", "values", "insert"];

fn segs_args(p: &ExprPath) -> Option<PathArguments> { let n = p.path.segments.len(); if n < 2 { None } else { Some(p.path.segments[n - 2].arguments.clone()) } }
fn paren_or(e: Expr) -> Expr { match &e { Expr::Binary(_) | Expr::Let(_) => parse_quote!((#e)), _ => e } }
fn paren_cmp(e: Expr) -> Expr { match &e { Expr::Binary(_) | Expr::Cast(_) | Expr::If(_) | Expr::Match(_) | Expr::Block(_) => parse_quote!((#e)), _ => e } }
fn strip_paren(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(p) => strip_paren(&p.expr), _ => e } }
fn simple_pat(p: &Pat) -> Option<String> { match p { Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.to_string()), Pat::Type(t) => simple_pat(&t.pat), Pat::Wild(_) => Some("_".into()), _ => None } }
fn mentions_deep(e: &Expr, n: &str, _s: &Scope) -> bool { mentions(e, n) }

fn print_block(b: &Block) -> String {
    let f: ItemFn = parse_quote!(fn __f() #b);
    prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Fn(f)] })
}

pub fn run(db: &Db, cfg: &Value) -> Value {
    let mut keep: HashMap<usize, Value> = HashMap::new();
    let mut missing: Vec<String> = vec![];
    for c in cfg["contracts"].as_array().unwrap() {
        let p = c["path"].as_str().unwrap();
        let segs: Vec<&str> = p.split("::").collect();
        let name = segs[segs.len() - 1];
        let mut hit = (0..db.fns.len()).find(|&i| db.fns[i].path() == p);
        if hit.is_none() {
            let owner = if segs.len() >= 2 && segs[segs.len() - 2].chars().next().map_or(false, |c| c.is_uppercase()) { Some(segs[segs.len() - 2]) } else { None };
            let cand: Vec<usize> = (0..db.fns.len()).filter(|&i| db.fns[i].name == name && db.fns[i].owner.as_deref() == owner).collect();
            if cand.len() == 1 { hit = Some(cand[0]); }
        }
        match hit { Some(i) => { keep.insert(i, c.clone()); } None => missing.push(p.to_string()) }
    }
    let mut cret = HashMap::new();
    if let Some(m) = cfg["client_returns"].as_object() { for (k, v) in m { if let Ok(t) = parse_str::<Type>(v.as_str().unwrap()) { cret.insert(k.clone(), t); } } }
    let clients: HashSet<String> = cfg["clients"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let mut fns = vec![];
    let mut order: Vec<usize> = keep.keys().copied().collect();
    order.sort();
    let mut all_rules = BTreeSet::new();
    let mut symbols = BTreeSet::new();
    for i in order {
        let c = &keep[&i];
        let f = &db.fns[i];
        let mut tx = Tx {
            db, keep: keep.keys().copied().collect(),
            anchors: c["anchors"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
            cret: cret.clone(), clients: clients.clone(), ctr: 0, loops: 0, loop_kinds: vec![], errs: vec![], inlined: Default::default(), called: Default::default(), rules: Default::default(), stack: vec![i], symbols: Default::default(),
        };
        let mut body = f.block.clone();
        unreturn(&mut body);
        unvalue(&mut body);
        as_for(&mut body);
        let mut sig = f.sig.clone();
        if let Some(o) = &f.owner { let mut v = SelfTy { to: o.clone() }; v.visit_block_mut(&mut body); v.visit_signature_mut(&mut sig); }
        if let Err(m) = untry(&mut body, matches!(&f.sig.output, ReturnType::Type(_, t) if text(&**t).starts_with("Result"))) { tx.err(format!("{}: {}", f.path(), m)); }
        // with a proof at the end of the body, early returns become branches, so that all of them reach it
        if c["end"].as_bool() == Some(true) && { let mut h = RetV(false); h.visit_block(&body); h.0 } {
            if let Ok(v) = elim(&body.stmts) { body.stmts = v; }
        }
        let mut sc = Scope::default();
        let mut params = vec![];
        let want: Vec<String> = c["params"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        let mut recv = Value::Null;
        let typed: Vec<&PatType> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).collect();
        if let Some(r) = sig.receiver() {
            let o: Type = parse_str(f.owner.as_ref().unwrap()).unwrap();
            if r.reference.is_some() {
                if r.mutability.is_some() { recv = json!("&mut self"); sc.bind("self", Some(parse_quote!(&mut #o))); } else { recv = json!("&self"); sc.bind("self", Some(parse_quote!(&#o))); }
            } else { recv = json!("self"); sc.bind("self", Some(o)); }
        }
        let have: Vec<String> = typed.iter().map(|p| simple_pat(&p.pat).unwrap_or_default()).collect();
        if have.len() != want.len() { tx.err(format!("{}: expected parameters {:?}, found {:?}", f.path(), want, have)); }
        let nonenv = |v: &Vec<String>| -> BTreeSet<String> { v.iter().filter(|s| *s != "e" && *s != "env").cloned().collect() };
        let by_name = nonenv(&have) == nonenv(&want);
        let mut muts: Vec<Stmt> = vec![];
        // two-phase renaming so that swaps do not collide
        let mut plan: Vec<(String, String, String)> = vec![];
        for (k, p) in typed.iter().enumerate() {
            let ty = flat((*p.ty).clone());
            let n = have[k].clone();
            let isenv = tname(&Some(ty.clone())).as_deref() == Some("Env");
            let target = if isenv { "e".to_string() } else if by_name { n.clone() } else { want.get(k).cloned().unwrap_or(n.clone()) };
            plan.push((n.clone(), format!("tmp_param_{}", k), target.clone()));
            let tystr = if isenv { "&mut Env".to_string() } else { text(&ty) };
            if let Pat::Ident(pi) = &*p.pat { if pi.mutability.is_some() && !isenv { let t = id(&target); muts.push(parse_quote!(let mut #t = #t;)); } }
            let t2 = if isenv { pty("&mut Env") } else { Some(ty) };
            params.push(json!({"name": if target == "_" { format!("unused_{}", k) } else { target.clone() }, "ty": tystr}));
            sc.bind(&target, t2);
        }
        let changed = plan.iter().any(|(a, _, b)| a != b && a != "_");
        if changed {
            for (a, t, _) in &plan { if a != "_" && !a.is_empty() { rename_block(&mut body, a, t); } }
            for (a, t, b) in &plan { if a != "_" && !a.is_empty() { rename_block(&mut body, t, b); } }
        }
        let (mut b, _) = tx.block(&body, &sc);
        if !muts.is_empty() { muts.extend(b.stmts); b.stmts = muts; }
        let ret = match tx.ret_ty(i) { Some(Type::Tuple(t)) if t.elems.is_empty() => Value::Null, Some(t) => json!(text(&t)), None => Value::Null };
        all_rules.extend(tx.rules.iter().cloned());
        symbols.extend(tx.symbols.iter().cloned());
        fns.push(json!({
            "path": f.path(), "contract": c["path"], "owner": f.owner, "name": f.name, "emit": tx.emit_name(i), "recv": recv, "params": params, "ret": ret,
            "body": print_block(&b), "file": f.file, "line": f.line, "end_line": f.end_line, "errs": tx.errs, "inlined": tx.inlined.iter().collect::<Vec<_>>(), "called": tx.called.iter().collect::<Vec<_>>(),
            "loops": tx.loop_kinds, "generics": text(&sig.generics),
        }));
    }
    // types and constants
    let mut types = String::new();
    let mut tnames = vec![];
    for (n, s) in &db.structs {
        let mut s = s.clone();
        s.attrs.clear();
        s.vis = parse_quote!(pub);
        for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); f.ty = flat(f.ty.clone()); }
        types += &prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Struct(s.clone())] });
        tnames.push(json!({"name": n, "kind": "struct", "fields": s.fields.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), text(&f.ty)])).collect::<Vec<_>>()}));
    }
    for (n, s) in &db.enums {
        let mut s = s.clone();
        s.attrs.clear();
        s.vis = parse_quote!(pub);
        for v in s.variants.iter_mut() { v.attrs.clear(); v.discriminant = None; for f in v.fields.iter_mut() { f.attrs.clear(); f.ty = flat(f.ty.clone()); } }
        types += &prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Enum(s.clone())] });
        tnames.push(json!({"name": n, "kind": "enum"}));
    }
    for (_, a) in &db.aliases {
        let mut a = a.clone();
        a.attrs.clear();
        a.vis = parse_quote!(pub);
        types += &prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Type(a)] });
    }
    let mut consts = String::new();
    let mut cnames = vec![];
    for (n, c) in &db.consts {
        let mut c = c.clone();
        c.attrs.clear();
        c.vis = parse_quote!(pub);
        c.ty = Box::new(flat((*c.ty).clone()));
        struct F;
        impl VisitMut for F { fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { let l = p.path.segments.last().unwrap().clone(); if p.path.segments.len() > 1 && l.ident.to_string().chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) && !INTS.contains(&p.path.segments[0].ident.to_string().as_str()) { p.path.segments.clear(); p.path.segments.push(l); } } }
        F.visit_item_const_mut(&mut c);
        cnames.push(n.clone());
        consts += &prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Const(c)] });
    }
    let mut h: HashMap<u64, String> = HashMap::new();
    let mut errors = db.errors.clone();
    for s in &symbols { if let Some(o) = h.insert(fnv(s), s.clone()) { errors.push(format!("symbol hash collision {} {}", o, s)); } }
    json!({
        "fns": fns, "types": types, "type_names": tnames, "consts": consts, "const_names": cnames, "missing": missing, "errors": errors, "dropped": db.dropped, "rules": all_rules.iter().collect::<Vec<_>>(), "symbols": symbols.iter().collect::<Vec<_>>(),
        "all_fns": db.fns.iter().map(|f| json!({"path": f.path(), "file": f.file, "line": f.line, "end_line": f.end_line, "pub": true})).collect::<Vec<_>>(),
    })
}

/// the error variant a panic names: the last identifier of `panic_with_error!(e, Error::Variant)`
fn err_code(t: &str) -> String {
    t.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|s| !s.is_empty()).last().unwrap_or("panic").to_string()
}
