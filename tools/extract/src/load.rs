use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct FnInfo {
    pub module: String,
    pub owner: Option<String>,
    pub name: String,
    pub sig: Signature,
    pub block: Block,
    pub file: String,
    pub line: usize,
    pub end_line: usize,
}
impl FnInfo {
    pub fn path(&self) -> String {
        let mut s = self.module.clone();
        if let Some(o) = &self.owner {
            if !s.is_empty() { s += "::"; }
            s += o;
        }
        if !s.is_empty() { s += "::"; }
        s + &self.name
    }
}
pub struct Db {
    pub fns: Vec<FnInfo>,
    pub structs: BTreeMap<String, ItemStruct>,
    pub enums: BTreeMap<String, ItemEnum>,
    pub consts: BTreeMap<String, ItemConst>,
    pub aliases: BTreeMap<String, ItemType>,
    pub strs: HashMap<String, String>,
    pub errors: Vec<String>,
    pub dropped: Vec<String>,
    pub uses: HashMap<String, HashMap<String, Vec<String>>>,
}
impl Db {
    pub fn new() -> Self {
        Db { fns: vec![], structs: Default::default(), enums: Default::default(), consts: Default::default(), aliases: Default::default(),
             strs: Default::default(), errors: vec![], dropped: vec![], uses: Default::default() }
    }
}

struct Norm;
impl VisitMut for Norm {
    fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
        let n = s.ident.to_string();
        let r = match n.as_str() { "Vec" => Some("SVec"), "Map" => Some("SMap"), "String" => Some("SString"), _ => None };
        if let Some(r) = r { s.ident = Ident::new(r, s.ident.span()); }
        // the clients of other contracts borrow the environment; here they do not
        if n.ends_with("Client") {
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                if a.args.iter().all(|x| matches!(x, GenericArgument::Lifetime(_))) { s.arguments = PathArguments::None; }
            }
        }
        visit_mut::visit_path_segment_mut(self, s);
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        for f in s.fields.iter_mut() {
            if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        }
        visit_mut::visit_expr_struct_mut(self, s);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
}

fn cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let t = quote::ToTokens::to_token_stream(&a.meta).to_string();
            (t.contains("test") || t.contains("testutils")) && !t.contains("not")
        }
    })
}
fn expand_path(items: &UseTree, pre: Vec<String>, out: &mut HashMap<String, Vec<String>>) {
    match items {
        UseTree::Path(p) => { let mut q = pre; q.push(p.ident.to_string()); expand_path(&p.tree, q, out) }
        UseTree::Name(n) => { let mut q = pre; let mut k = n.ident.to_string(); if k == "self" { k = q.last().cloned().unwrap_or_default(); } else { q.push(k.clone()); } out.insert(k, q); }
        UseTree::Rename(n) => { let mut q = pre; q.push(n.ident.to_string()); out.insert(n.rename.to_string(), q); }
        UseTree::Glob(_) => { }
        UseTree::Group(g) => for t in &g.items { expand_path(t, pre.clone(), out) },
    }
}

pub fn load_crate(db: &mut Db, root: &str, skip: &serde_json::Value) {
    let skip: HashSet<String> = skip.as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let p = PathBuf::from(root);
    let dir = p.parent().unwrap().to_path_buf();
    load_file(db, &p, &dir, "", &skip);
}
fn load_file(db: &mut Db, file: &Path, dir: &Path, module: &str, skip: &HashSet<String>) {
    let src = match std::fs::read_to_string(file) { Ok(s) => s, Err(e) => { db.errors.push(format!("{}: {}", file.display(), e)); return; } };
    let ast = match parse_file(&src) { Ok(a) => a, Err(e) => { db.errors.push(format!("{}: {}", file.display(), e)); return; } };
    load_items(db, ast.items, file, dir, module, skip);
}
/// items declared inside a function body, except constants (they stay where they are): as items of the module
fn nested_items(b: &mut Block) -> Vec<Item> {
    let mut out = vec![];
    b.stmts.retain(|s| match s {
        Stmt::Item(Item::Const(_)) => true,
        Stmt::Item(i @ (Item::Fn(_) | Item::Struct(_) | Item::Enum(_) | Item::Impl(_) | Item::Use(_) | Item::Type(_) | Item::Trait(_))) => { out.push(i.clone()); false }
        _ => true,
    });
    out
}
fn load_items(db: &mut Db, items: Vec<Item>, file: &Path, dir: &Path, module: &str, skip: &HashSet<String>) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if cfg_test(&m.attrs) { continue; }
                let n = m.ident.to_string();
                if skip.contains(&n) { db.dropped.push(format!("module {} ({})", n, file.display())); continue; }
                let sub = if module.is_empty() { n.clone() } else { format!("{}::{}", module, n) };
                if let Some((_, items)) = m.content {
                    load_items(db, items, file, &dir.join(&n), &sub, skip);
                } else {
                    let f1 = dir.join(format!("{}.rs", n));
                    let f2 = dir.join(&n).join("mod.rs");
                    let f = if f1.exists() { f1 } else { f2 };
                    load_file(db, &f, &dir.join(&n), &sub, skip);
                }
            }
            Item::Fn(mut f) => {
                if cfg_test(&f.attrs) { continue; }
                let line = f.sig.ident.span().start().line;
                let end_line = f.block.brace_token.span.close().end().line;
                let inner = nested_items(&mut f.block);
                if !inner.is_empty() { load_items(db, inner, file, dir, module, skip); }
                Norm.visit_item_fn_mut(&mut f);
                db.fns.push(FnInfo { module: module.into(), owner: None, name: f.sig.ident.to_string(), sig: f.sig, block: *f.block, file: file.display().to_string(), line, end_line });
            }
            Item::Impl(im) => {
                if cfg_test(&im.attrs) { continue; }
                let owner = match &*im.self_ty { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => { db.errors.push(format!("{}: unsupported impl", file.display())); continue } };
                for ii in im.items {
                    match ii {
                        ImplItem::Fn(mut f) => {
                            if cfg_test(&f.attrs) { continue; }
                            let line = f.sig.ident.span().start().line;
                            let end_line = f.block.brace_token.span.close().end().line;
                            let inner = nested_items(&mut f.block);
                            if !inner.is_empty() { load_items(db, inner, file, dir, module, skip); }
                            Norm.visit_impl_item_fn_mut(&mut f);
                            db.fns.push(FnInfo { module: module.into(), owner: Some(owner.clone()), name: f.sig.ident.to_string(), sig: f.sig, block: f.block, file: file.display().to_string(), line, end_line });
                        }
                        ImplItem::Const(c) => {
                            // associated const: exposed as Owner::NAME through a free const OWNER__NAME
                            let id = Ident::new(&format!("{}__{}", owner, c.ident), c.ident.span());
                            let (ty, e) = (c.ty, c.expr);
                            let mut k: ItemConst = parse_quote!(pub const #id: #ty = #e;);
                            Norm.visit_item_const_mut(&mut k);
                            db.consts.insert(id.to_string(), k);
                        }
                        _ => {}
                    }
                }
            }
            Item::Struct(mut s) => {
                if cfg_test(&s.attrs) { continue; }
                Norm.visit_item_struct_mut(&mut s);
                db.structs.insert(s.ident.to_string(), s);
            }
            Item::Enum(mut s) => {
                if cfg_test(&s.attrs) { continue; }
                Norm.visit_item_enum_mut(&mut s);
                db.enums.insert(s.ident.to_string(), s);
            }
            Item::Const(mut c) => {
                if cfg_test(&c.attrs) { continue; }
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*c.expr {
                    db.strs.insert(c.ident.to_string(), s.value());
                    continue;
                }
                Norm.visit_item_const_mut(&mut c);
                if let Some(old) = db.consts.get(&c.ident.to_string()) {
                    if quote::ToTokens::to_token_stream(&old.expr).to_string() != quote::ToTokens::to_token_stream(&c.expr).to_string() {
                        db.errors.push(format!("const {} defined twice with different values", c.ident));
                    }
                }
                db.consts.insert(c.ident.to_string(), c);
            }
            Item::Type(mut t) => { if cfg_test(&t.attrs) { continue; } Norm.visit_item_type_mut(&mut t); db.aliases.insert(t.ident.to_string(), t); }
            Item::Use(u) => {
                if cfg_test(&u.attrs) { continue; }
                let m = db.uses.entry(module.to_string()).or_default();
                expand_path(&u.tree, vec![], m);
            }
            Item::Trait(t) => { db.dropped.push(format!("trait declaration {} (its impl is kept as inherent functions)", t.ident)); }
            Item::Macro(m) => { db.dropped.push(format!("macro item {}", quote::ToTokens::to_token_stream(&m.mac.path))); }
            _ => {}
        }
    }
}
