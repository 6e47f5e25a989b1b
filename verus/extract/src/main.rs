//! Extracts functions of the crate into one file for Verus, and puts the
//! contracts of the specification file in front of their bodies.
//!
//!     fm-extract SPEC OUT [NAME=FILE ...]
//!
//! What the extraction changes is described in /verif/DESIGN.md, and is all in
//! `Rewrite` and in the `keep_*` functions below.

use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Spec {
    sections: BTreeMap<String, String>,
    used: BTreeSet<String>,
}

impl Spec {
    fn read(text: &str) -> Self {
        let mut sections = BTreeMap::new();
        let mut key = String::new();
        for line in text.lines() {
            if let Some(k) = line.strip_prefix("@ ") {
                key = k.trim().to_string();
                sections.entry(key.clone()).or_insert_with(String::new);
            } else if !key.is_empty() {
                let s: &mut String = sections.get_mut(&key).unwrap();
                s.push_str(line);
                s.push('\n');
            }
        }
        Spec { sections, used: BTreeSet::new() }
    }

    fn get(&mut self, key: &str) -> Option<String> {
        let s = self.sections.get(key).cloned();
        if s.is_some() {
            self.used.insert(key.to_string());
        }
        s
    }

    fn lines(&self, key: &str) -> BTreeSet<String> {
        self.sections.get(key).map(|s| s.lines().map(|l| l.trim().to_string()).collect()).unwrap_or_default()
    }

    fn words(&self, key: &str) -> BTreeSet<String> {
        self.sections.get(key).map(|s| s.split_whitespace().map(String::from).collect()).unwrap_or_default()
    }
}

/// for PAT in OF BODY
fn desugar(of: TokenStream, pat: &Pat, body: &Block) -> Expr {
    parse_quote!({
        let mut it__ = crate::it::IntoIterator::into_iter(#of);
        __items!();
        loop {
            match it__.next() {
                Some(#pat) => #body
                None => break,
            }
        }
    })
}

/// Whether an expression leaves the function it is in.
struct Leaves(bool);
impl Leaves {
    fn found(e: &Expr) -> bool {
        let mut l = Leaves(false);
        visit::Visit::visit_expr(&mut l, e);
        l.0
    }
}
impl<'ast> visit::Visit<'ast> for Leaves {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
}

/// The rewriting of types and expressions.
struct Rewrite {
    /// `Key` is a trait of the key and the value type in this module.
    lifted: bool,
    /// In the module of `Entry`, storages are storages with entries.
    entries: bool,
}

/// The items of a storage which are put in a trait of their own, because an
/// associated type has a lifetime: the suffix of the trait.
fn group(name: &str) -> Option<&'static str> {
    match name {
        "Occupied" | "Vacant" | "entry" => Some("Entry"),
        "Iter" | "iter" => Some("Iter"),
        "Keys" | "keys" => Some("Keys"),
        "Values" | "values" => Some("Values"),
        "IterMut" | "iter_mut" => Some("IterMut"),
        "ValuesMut" | "values_mut" => Some("ValuesMut"),
        "IntoIter" | "into_iter" => Some("Into"),
        _ => None,
    }
}

const GROUPS: [&str; 7] = ["Entry", "Iter", "Keys", "Values", "IterMut", "ValuesMut", "Into"];

fn is_storage(ident: &Ident) -> bool {
    ident == "MapStorage" || ident == "SetStorage"
}

/// MapStorage<K, V> with the items of a group.
fn to_group(s: &mut PathSegment, suffix: &str, l: Option<Lifetime>) {
    s.ident = format_ident!("{}{}", s.ident, suffix);
    if suffix == "Into" {
        return;
    }
    if let (PathArguments::AngleBracketed(a), Some(l)) = (&mut s.arguments, l) {
        a.args.insert(0, GenericArgument::Lifetime(l));
    }
}

fn lifetime_of(s: &PathSegment) -> Option<Lifetime> {
    match &s.arguments {
        PathArguments::AngleBracketed(a) if a.args.len() == 1 => match &a.args[0] {
            GenericArgument::Lifetime(l) => Some(l.clone()),
            _ => None,
        },
        _ => None,
    }
}

struct RenameLifetime(Lifetime);
impl VisitMut for RenameLifetime {
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if *l == self.0 {
            *l = parse_quote!('this);
        }
    }
}

struct RenameIdent(Ident, Ident);
impl VisitMut for RenameIdent {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if *i == self.0 {
            *i = self.1.clone();
        }
    }
}

struct NameLifetime;
impl VisitMut for NameLifetime {
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if l.ident == "_" {
            *l = parse_quote!('this);
        }
    }
    fn visit_receiver_mut(&mut self, r: &mut Receiver) {
        if let Some((_, l)) = &mut r.reference {
            *l = Some(parse_quote!('this));
            if r.mutability.is_some() {
                r.ty = parse_quote!(&'this mut Self);
            }
        }
    }
}

/// The variables of a function, in order.
#[derive(Default)]
struct Lets(Vec<String>);
impl Lets {
    fn of(b: &Block) -> Vec<String> {
        let mut l = Lets::default();
        visit::Visit::visit_block(&mut l, b);
        l.0
    }
}
impl<'ast> visit::Visit<'ast> for Lets {
    fn visit_local(&mut self, l: &'ast Local) {
        if let Pat::Ident(i) = &l.pat {
            if i.ident != "it__" {
                self.0.push(i.ident.to_string());
            }
        }
        visit::visit_local(self, l);
    }
}

/// Marks where the invariants of loops go.
struct MarkLoops;
impl VisitMut for MarkLoops {
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        let cond = &w.cond;
        *w.cond = parse_quote!(__loop!(#cond));
        self.visit_block_mut(&mut w.body);
    }
    fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) {
        self.visit_block_mut(&mut l.body);
        l.body.stmts.insert(0, parse_quote!(__loop!();));
    }
}

fn put_invariants(text: &str, inv: &str) -> String {
    let text = text.replace("__items !()", "let ghost all__ = it__.rest()");
    let text: &str = &text;
    const MARK: &str = "__loop !(";
    let mut out = String::new();
    let mut rest = text;
    while let Some(at) = rest.find(MARK) {
        out.push_str(&rest[..at]);
        rest = &rest[at + MARK.len()..];
        let mut depth = 1;
        let end = rest
            .char_indices()
            .find(|(_, c)| {
                match c {
                    '(' => depth += 1,
                    ')' => depth -= 1,
                    _ => {}
                }
                depth == 0
            })
            .unwrap()
            .0;
        let cond = &rest[..end];
        rest = &rest[end + 1..];
        if cond.is_empty() {
            // loop { __loop!(); ... }
            let brace = out.rfind('{').unwrap();
            out.insert_str(brace, &format!("\n{inv}"));
            rest = rest.trim_start().trim_start_matches(';');
        } else {
            out.push_str(cond);
            out.push('\n');
            out.push_str(inv);
        }
    }
    out.push_str(rest);
    out
}

fn is_key(path: &Path) -> bool {
    path.segments.last().map_or(false, |s| s.ident == "Key" && s.arguments.is_empty())
}

impl VisitMut for Rewrite {
    fn visit_path_mut(&mut self, p: &mut Path) {
        // ::fixed_map::x is crate::x
        if p.leading_colon.is_some() && p.segments[0].ident == "fixed_map" {
            p.leading_colon = None;
            p.segments[0].ident = format_ident!("crate");
        }
        // The dependency is a module with the contracts assumed of it.
        if p.leading_colon.is_some() && p.segments[0].ident == "hashbrown" {
            p.leading_colon = None;
            let crate_: PathSegment = format_ident!("crate").into();
            p.segments.insert(0, crate_);
        }
        // The iterator traits of std are traits of the same names which have contracts.
        if p.leading_colon.is_some() && p.segments.len() >= 3 && p.segments[0].ident == "core" && p.segments[1].ident == "iter" {
            let name = p.segments[2].ident.to_string();
            if matches!(name.as_str(), "Iterator" | "DoubleEndedIterator" | "ExactSizeIterator" | "IntoIterator" | "FromIterator") {
                p.leading_colon = None;
                p.segments[0].ident = format_ident!("crate");
                p.segments[1].ident = format_ident!("it");
            }
        }
        // So is serde.
        if p.segments.len() > 1 && p.segments[0].ident == "serde" {
            p.leading_colon = None;
            let crate_: PathSegment = format_ident!("crate").into();
            p.segments.insert(0, crate_);
        }
        // K::MapStorage<V> is K::MapStorage
        for s in p.segments.iter_mut() {
            if s.ident == "MapStorage" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    if a.args.len() == 1 {
                        s.arguments = PathArguments::None;
                    }
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_type_path_mut(&mut self, t: &mut TypePath) {
        if let Some(q) = &mut t.qself {
            lift_qself(q, &mut t.path);
            // <X as MapStorage<K, V>>::Vacant<'a> is <X as MapStorageEntry<'a, K, V>>::Vacant
            let n = q.position;
            if n > 0 && t.path.segments.len() > n && is_storage(&t.path.segments[n - 1].ident) {
                if let Some(g) = group(&t.path.segments[n].ident.to_string()) {
                    let l = lifetime_of(&t.path.segments[n]);
                    t.path.segments[n].arguments = PathArguments::None;
                    to_group(&mut t.path.segments[n - 1], g, l);
                }
            }
        } else if t.path.segments.len() == 2 && group(&t.path.segments[1].ident.to_string()).is_some() {
            if lifetime_of(&t.path.segments[1]).is_some() {
                t.path.segments[1].arguments = PathArguments::None;
            }
        }
        visit_mut::visit_type_path_mut(self, t);
    }

    fn visit_expr_path_mut(&mut self, t: &mut ExprPath) {
        let whole = t.path.leading_colon.is_some() || t.path.segments.len() == 2;
        if whole && t.qself.is_none() && t.path.segments.last().unwrap().ident == "entry" {
            if t.path.segments.iter().rev().nth(1).map_or(false, |s| s.ident == "MapStorage") {
                t.path = parse_quote!(crate::map::storage::MapStorageEntry::entry);
            }
        }
        if let Some(q) = &t.qself {
            let n = q.position;
            if n > 0 && t.path.segments.len() > n && is_storage(&t.path.segments[n - 1].ident) {
                if let Some(g) = group(&t.path.segments[n].ident.to_string()) {
                    to_group(&mut t.path.segments[n - 1], g, Some(parse_quote!('_)));
                }
            }
        }
        if let Some(q) = &mut t.qself {
            lift_qself(q, &mut t.path);
        }
        visit_mut::visit_expr_path_mut(self, t);
    }

    fn visit_item_use_mut(&mut self, u: &mut ItemUse) {
        if let UseTree::Path(p) = &u.tree {
            if p.ident == "serde" {
                let tree = &u.tree;
                *u = parse_quote!(use crate::#tree;);
            }
        }
    }

    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        if self.lifted && is_key(&b.path) {
            let last = b.path.segments.last_mut().unwrap();
            last.arguments = PathArguments::AngleBracketed(parse_quote!(<V>));
        }
        if self.entries && b.path.segments.last().unwrap().ident == "MapStorage" {
            let last = b.path.segments.last_mut().unwrap();
            last.ident = format_ident!("MapStorageEntry");
            if let PathArguments::AngleBracketed(a) = &mut last.arguments {
                a.args.insert(0, parse_quote!('a));
            }
        }
        visit_mut::visit_trait_bound_mut(self, b);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Array(a) = t {
            if let Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) = &a.len {
                if let Ok(n) = n.base10_parse::<usize>() {
                    let elem = &a.elem;
                    let elems = (0..n).map(|_| quote!(#elem,));
                    *t = parse_quote!((#(#elems)*));
                }
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // for_each(|x| b) is for x in it { b }, if b does not return.
        if let Expr::MethodCall(m) = &*e {
            if m.method == "for_each" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.len() == 1 && !Leaves::found(&c.body) {
                        let (of, pat, body) = (&m.receiver, &c.inputs[0], &c.body);
                        *e = desugar(quote!(#of), pat, &parse_quote!({ #body; }));
                    }
                }
            }
        }
        // while let p = e b is loop { match e { p => b, _ => break } }
        if let Expr::While(w) = &*e {
            if let (None, Expr::Let(l)) = (&w.label, &*w.cond) {
                let (pat, of, body) = (&l.pat, &l.expr, &w.body);
                *e = parse_quote!(loop {
                    match #of {
                        #pat => #body
                        _ => break,
                    }
                });
            }
        }
        // A for loop is what the reference says it is.
        if let Expr::ForLoop(f) = &*e {
            if f.label.is_none() {
                let of = &f.expr;
                *e = desugar(quote!(#of), &f.pat, &f.body);
            }
        }
        if let Expr::Array(a) = e {
            let elems = a.elems.iter();
            *e = parse_quote!((#(#elems,)*));
        }
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let Pat::Slice(s) = p {
            let elems = s.elems.iter();
            *p = parse_quote!((#(#elems,)*));
        }
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if name == "debug_assert" || name == "assert" {
                // The assertion is an obligation.
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    m.mac.parse_body_with(punctuated::Punctuated::parse_terminated).unwrap();
                let cond = &args[0];
                *s = parse_quote!(crate::obligation(#cond););
            }
        }
    }

    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

/// `<T as Key>::MapStorage<V>` is `<T as Key<V>>::MapStorage`.
fn lift_qself(q: &QSelf, path: &mut Path) {
    if q.position == 0 || path.segments.len() <= q.position {
        return;
    }
    let key = q.position - 1;
    let next = path.segments[q.position].clone();
    if path.segments[key].ident == "Key" && next.ident == "MapStorage" {
        if let PathArguments::AngleBracketed(a) = &next.arguments {
            if a.args.len() == 1 {
                let mut a = a.clone();
                a.colon2_token = None;
                path.segments[key].arguments = PathArguments::AngleBracketed(a);
                path.segments[q.position].arguments = PathArguments::None;
            }
        }
    }
}

fn last(path: &Path) -> String {
    path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn self_name(t: &Type) -> String {
    match t {
        Type::Path(p) => last(&p.path),
        Type::Reference(r) if r.mutability.is_some() => format!("&mut {}", self_name(&r.elem)),
        Type::Reference(r) => format!("&{}", self_name(&r.elem)),
        t => t.to_token_stream().to_string().replace(' ', ""),
    }
}

/// A line of the index, from which the driver tells what a failure is about.
struct Function {
    path: String,
    start: usize,
    end: usize,
    /// Whether it has a contract of its own, or that of its trait.
    spec: bool,
    body: bool,
    /// Whether there are loops without invariants, or closures.
    opaque: bool,
    calls: BTreeSet<String>,
    operators: BTreeSet<String>,
}

#[derive(Default)]
struct Calls {
    names: BTreeSet<String>,
    operators: BTreeSet<String>,
    closures: usize,
    loops: usize,
}

impl<'ast> visit::Visit<'ast> for Calls {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        self.names.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.names.insert(last(&p.path));
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_bin_op(&mut self, o: &'ast BinOp) {
        self.operators.insert(o.to_token_stream().to_string());
    }
    fn visit_un_op(&mut self, o: &'ast UnOp) {
        self.operators.insert(o.to_token_stream().to_string());
    }
    fn visit_expr_cast(&mut self, c: &'ast ExprCast) {
        self.operators.insert("as".into());
        visit::visit_expr_cast(self, c);
    }
    fn visit_expr_if(&mut self, i: &'ast ExprIf) {
        self.operators.insert("if".into());
        visit::visit_expr_if(self, i);
    }
    fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
        self.operators.insert("match".into());
        visit::visit_expr_match(self, m);
    }
    fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
        self.operators.insert("=".into());
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) {
        self.operators.insert("?".into());
        visit::visit_expr_try(self, t);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        self.operators.insert(format!("{}!", last(&m.path)));
    }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        self.closures += 1;
        visit::visit_expr_closure(self, c);
    }
    fn visit_expr_while(&mut self, w: &'ast ExprWhile) {
        self.loops += 1;
        visit::visit_expr_while(self, w);
    }
    fn visit_expr_loop(&mut self, w: &'ast ExprLoop) {
        self.loops += 1;
        visit::visit_expr_loop(self, w);
    }
    fn visit_expr_for_loop(&mut self, w: &'ast ExprForLoop) {
        self.loops += 1;
        visit::visit_expr_for_loop(self, w);
    }
}

struct Extract {
    spec: Spec,
    out: String,
    module: Vec<String>,
    drop_fns: BTreeSet<String>,
    drop_types: BTreeSet<String>,
    drop_items: BTreeSet<String>,
    traits: BTreeSet<String>,
    trusted: BTreeSet<String>,
    keep_derives: bool,
    lifted: bool,
    hashbrown: bool,
    functions: Vec<Function>,
}

impl Extract {
    fn path(&self, name: &str) -> String {
        let mut v = self.module.clone();
        v.push(name.to_string());
        v.join("::")
    }

    fn drops(&self, name: &str) -> bool {
        self.drop_items.contains(name)
            || self.module.last().map_or(false, |m| self.drop_items.contains(&format!("{m}::{name}")))
    }

    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }

    /// The traits made of a storage are in scope everywhere.
    fn uses(&mut self) {
        let (m, s) = if self.lifted { ("map", "MapStorage") } else { ("set", "SetStorage") };
        for g in GROUPS {
            if self.lifted || g == "Iter" || g == "Into" {
                let _ = writeln!(self.out, "pub use crate::{m}::storage::{s}{g};");
            }
        }
        self.out.push_str("pub use crate::it::{Iterator, DoubleEndedIterator, ExactSizeIterator, IntoIterator, FromIterator, From};\n");
    }

    fn put(&mut self, tokens: impl ToTokens) {
        let _ = writeln!(self.out, "{}", pretty(&tokens.to_token_stream()));
    }

    fn rewrite(&self) -> Rewrite {
        Rewrite { lifted: self.lifted, entries: self.module.last().map_or(false, |m| m == "entry") }
    }

    fn items(&mut self, items: Vec<Item>) {
        for item in items {
            self.item(item);
        }
    }

    fn has_cfg(attrs: &[Attribute], what: &str) -> bool {
        attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains(what))
    }

    fn item(&mut self, mut item: Item) {
        match &mut item {
            Item::Mod(_) | Item::Macro(_) | Item::ExternCrate(_) => {}
            Item::Use(u) => {
                let text = u.to_token_stream().to_string();
                let other = if self.lifted { "set ::" } else { "map ::" };
                let hides = self.drop_items.iter().any(|d| text.split_whitespace().any(|w| w == d));
                let hides = hides || text.contains("MapStorageEntry");
                if hides || text.contains(other) || !self.hashbrown && Self::has_cfg(&u.attrs, "hashbrown") {
                    return;
                }
                // The modules are rebuilt with their names; what is not extracted is not imported.
                if text.contains("crate ::") || text.contains("core :: mem") || text.contains("core :: hash") || text.contains("self ::") || text.contains("super ::") {
                    u.attrs.clear();
                    self.put(&*u);
                }
            }
            Item::Const(c) if c.ident == "_" => {
                // The block a derive macro expands to.
                if let Expr::Block(b) = &*c.expr {
                    let name = b.block.stmts.iter().rev().find_map(|s| match s {
                        Stmt::Item(Item::Impl(i)) if i.trait_.as_ref().map_or(false, |t| last(&t.1) == "Key") => {
                            Some(self_name(&i.self_ty))
                        }
                        _ => None,
                    });
                    let Some(name) = name else { return };
                    if self.drops(&name) {
                        return;
                    }
                    let module = format!("of_{name}");
                    if !self.spec.sections.contains_key(&format!("mod {}", self.path(&module))) {
                        return;
                    }
                    let opaque = self.spec.get(&format!("opaque {name}")).is_some();
                    let _ = writeln!(self.out, "pub mod {module} {{\nuse vstd::prelude::*;\nuse super::*;");
                    self.uses();
                    self.module.push(module);
                    if let Some(s) = self.spec.get(&format!("mod {}", self.module.join("::"))) {
                        self.out.push_str(&s);
                    }
                    let items = b.block.stmts.iter().filter_map(|s| match s {
                        Stmt::Item(i) => Some(i.clone()),
                        _ => None,
                    });
                    if !opaque {
                        self.items(items.collect());
                    }
                    self.module.pop();
                    self.out.push_str("}\n");
                }
            }
            Item::Const(c) => {
                self.rewrite().visit_item_const_mut(c);
                c.vis = parse_quote!(pub);
                self.put(&*c);
            }
            Item::Struct(s) => {
                let name = s.ident.to_string();
                if self.drops(&name) {
                    return;
                }
                let derives = self.derives(&s.attrs);
                self.rewrite().visit_item_struct_mut(s);
                s.vis = parse_quote!(pub);
                self.more_bounds(&format!("where {}", self.path(&name)), &mut s.generics);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                }
                let rejects = self.rejects(&s.generics);
                self.put(quote!(#derives #rejects #s));
            }
            Item::Enum(e) => {
                let name = e.ident.to_string();
                if self.drops(&name) {
                    return;
                }
                let derives = self.derives(&e.attrs);
                self.rewrite().visit_item_enum_mut(e);
                e.vis = parse_quote!(pub);
                self.more_bounds(&format!("where {}", self.path(&name)), &mut e.generics);
                let rejects = self.rejects(&e.generics);
                self.put(quote!(#derives #rejects #e));
            }
            Item::Type(t) => {
                // Aliases of the types of the dependency, and of iterators.
                let asked = self.spec.get(&format!("emit type {}", self.path(&t.ident.to_string()))).is_some();
                if asked || t.ty.to_token_stream().to_string().starts_with(":: hashbrown") {
                    self.rewrite().visit_item_type_mut(t);
                    t.vis = parse_quote!(pub);
                    self.put(&*t);
                }
            }
            Item::Trait(t) => self.trait_(t),
            Item::Impl(i) => self.impl_(i),
            Item::Fn(f) => {
                let name = f.sig.ident.to_string();
                if Self::has_cfg(&f.attrs, "test") || self.drop_fns.contains(&name) {
                    return;
                }
                self.rewrite().visit_item_fn_mut(f);
                let path = self.path(&name);
                let spec = self.spec.get(&format!("fn {path}"));
                self.function(&path, quote!(pub), &f.sig, Some(&f.block), spec);
            }
            _ => {}
        }
    }

    /// What Verus wants to know of the type parameters of derived types.
    fn rejects(&self, g: &Generics) -> TokenStream {
        let params = g.type_params().map(|p| &p.ident).filter(|_| self.keep_derives || self.module.last().map_or(false, |m| m == "hashbrown"));
        quote!(#(#[verifier::reject_recursive_types(#params)])*)
    }

    fn more_bounds(&mut self, key: &str, g: &mut Generics) {
        if let Some(bounds) = self.spec.get(key) {
            let w: WhereClause = parse_str(&format!("where {bounds}")).unwrap();
            match &mut g.where_clause {
                Some(have) => have.predicates.extend(w.predicates),
                none => *none = Some(w),
            }
        }
    }

    /// Enums which are keys are compared by the contracts.
    fn derives(&self, _attrs: &[Attribute]) -> TokenStream {
        if self.keep_derives && self.module.len() == 1 {
            quote!(#[derive(Clone, Copy, PartialEq, Eq)])
        } else {
            quote!()
        }
    }

    fn function(&mut self, path: &str, vis: TokenStream, sig: &Signature, body: Option<&Block>, spec: Option<String>) {
        let mut sig = sig.clone();
        if let Some(bounds) = self.spec.get(&format!("where fn {path}")) {
            let w: WhereClause = parse_str(&format!("where {bounds}")).unwrap();
            if bounds.contains("'this") {
                NameLifetime.visit_signature_mut(&mut sig);
                sig.generics.params.push(parse_quote!('this));
            }
            sig.generics.make_where_clause().predicates.extend(w.predicates);
        }
        sig.constness = sig.constness.filter(|_| true);
        for (n, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                if let Pat::Wild(_) = &*t.pat {
                    let name = format_ident!("_p{}", n);
                    t.pat = parse_quote!(#name);
                }
            }
        }
        // fn f(mut x: T) is fn f(x__: T) { let mut x = x__; }
        let mut moved: Vec<Stmt> = Vec::new();
        for a in sig.inputs.iter_mut() {
            if let (FnArg::Typed(t), true) = (a, body.is_some()) {
                if let Pat::Ident(i) = &mut *t.pat {
                    if i.mutability.take().is_some() {
                        let name = i.ident.clone();
                        let outer = format_ident!("{}__", name);
                        i.ident = outer.clone();
                        moved.push(parse_quote!(let mut #name = #outer;));
                    }
                }
            }
        }
        let body = body.map(|b| {
            let mut b = b.clone();
            b.stmts.splice(0..0, moved);
            b
        });
        let body = body.as_ref();
        // $1 is the name of the first parameter after the receiver.
        let mut names = Vec::new();
        for a in sig.inputs.iter() {
            if let FnArg::Typed(t) = a {
                names.push(match &*t.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    p => p.to_token_stream().to_string(),
                });
            }
        }
        // $v1 is the name of the first variable.
        let vars = body.map(Lets::of).unwrap_or_default();
        let fill = |text: String| {
            let mut text = text;
            for (n, name) in vars.iter().enumerate() {
                text = text.replace(&format!("$v{}", n + 1), name);
            }
            for (n, name) in names.iter().enumerate() {
                text = text.replace(&format!("${}", n + 1), name);
            }
            text
        };
        let spec = spec.map(fill);
        let mut body = body.cloned();
        let invariant = self.spec.get(&format!("loop {path}")).map(fill);
        if let (Some(_), Some(b)) = (&invariant, &mut body) {
            MarkLoops.visit_block_mut(b);
        }
        let body = body.as_ref();
        let mut calls = Calls::default();
        if let Some(b) = body {
            visit::Visit::visit_block(&mut calls, b);
        }
        let has_spec = spec.is_some() || path.starts_with('<');
        let start = self.line();
        let wher = sig.generics.where_clause.take();
        let output = std::mem::replace(&mut sig.output, ReturnType::Default);
        let head = quote!(#vis #sig);
        let ret = match (&output, &spec) {
            (ReturnType::Type(_, t), Some(_)) => quote!(-> (r: #t)),
            (o, _) => quote!(#o),
        };
        if self.trusted.contains(path) {
            self.out.push_str("#[verifier::external_body]\n");
        }
        let _ = writeln!(self.out, "{} {} {}", pretty(&head), pretty(&ret), pretty(&wher.to_token_stream()));
        if let Some(spec) = spec {
            self.out.push_str(&spec);
        }
        match body {
            Some(b) => {
                let mut text = pretty(&b.to_token_stream());
                let before = self.spec.get(&format!("before {path}")).map(fill);
                let after = self.spec.get(&format!("after {path}")).map(fill);
                if before.is_some() || after.is_some() {
                    let before = before.unwrap_or_default();
                    text = match after {
                        Some(after) => {
                            format!("{{ proof {{ {before} }}\nlet r = {text};\nproof {{ {after} }}\nr }}")
                        }
                        None => format!("{{ proof {{ {before} }}\n{text} }}"),
                    };
                }
                // The invariant of a loop goes in front of its body.
                match &invariant {
                    Some(inv) => text = put_invariants(&text, inv),
                    None => text = text.replace("__items !();", ""),
                }
                let _ = writeln!(self.out, "{text}");
            }
            None => self.out.push_str(";\n"),
        }
        let end = self.line();
        self.functions.push(Function {
            path: path.to_string(),
            start,
            end,
            spec: has_spec,
            body: body.is_some(),
            opaque: calls.closures > 0 || calls.loops > 0 && invariant.is_none(),
            calls: calls.names,
            operators: calls.operators,
        });
    }

    fn keep_fn(&self, name: &str) -> bool {
        !self.drop_fns.contains(name)
    }

    fn trait_(&mut self, t: &mut ItemTrait) {
        let name = t.ident.to_string();
        if !self.traits.contains(&name) {
            return;
        }
        self.rewrite().visit_item_trait_mut(t);
        let mut t = t.clone();
        let mut items = std::mem::take(&mut t.items);
        if is_storage(&t.ident) {
            let mut rest = Vec::new();
            let mut groups: BTreeMap<&str, Vec<TraitItem>> = BTreeMap::new();
            for i in items {
                let g = match &i {
                    TraitItem::Type(t) => group(&t.ident.to_string()),
                    TraitItem::Fn(f) => group(&f.sig.ident.to_string()),
                    _ => None,
                };
                match g {
                    Some(g) => groups.entry(g).or_default().push(i),
                    None => rest.push(i),
                }
            }
            items = rest;
            let params: Vec<_> = t.generics.type_params().map(|p| p.ident.clone()).collect();
            for (g, members) in groups {
                let l = if g == "Into" { quote!() } else { quote!('this,) };
                let group_name = format_ident!("{}{}", t.ident, g);
                let ident = &t.ident;
                let bounds = params.iter().filter(|_| g != "Into").map(|p| quote!(#p: 'this,));
                let head = if g == "Entry" {
                    quote!(pub trait #group_name<#l #(#params),*>: #ident<#(#params),*> where #(#bounds)*)
                } else {
                    let ident = format_ident!("{ident}Seq");
                    quote!(pub trait #group_name<#l #(#params),*>: crate::order::#ident<#(#params),*> where #(#bounds)*)
                };
                let _ = writeln!(self.out, "{} {{", pretty(&head));
                for e in members {
                    match e {
                        TraitItem::Type(mut t) => {
                            let named = t.generics.lifetimes().next().map(|l| l.lifetime.clone());
                            t.generics = Generics::default();
                            if let Some(named) = named {
                                RenameLifetime(named).visit_trait_item_type_mut(&mut t);
                            }
                            t.attrs.clear();
                            // An iterator is an iterator from both ends, for the contracts.
                            t.bounds = t
                                .bounds
                                .into_iter()
                                .filter(|b| !b.to_token_stream().to_string().ends_with("Clone"))
                                .collect();
                            self.put(t);
                        }
                        TraitItem::Fn(mut f) => {
                            if g != "Into" {
                                NameLifetime.visit_signature_mut(&mut f.sig);
                            }
                            let path = format!("{}::{}", name, f.sig.ident);
                            let spec = self.spec.get(&format!("fn {path}"));
                            self.function(&path, quote!(), &f.sig, None, spec);
                        }
                        _ => {}
                    }
                }
                self.out.push_str("}\n");
            }
        }
        let generics = &t.generics;
        let wher = &t.generics.where_clause;
        let supers = &t.supertraits;
        let ident = &t.ident;
        let lifted = self.lifted && name == "Key";
        let gen = if lifted { quote!(<V>) } else { quote!(#generics) };
        let mut sup = supers.to_token_stream();
        if !supers.iter().any(|s| s.to_token_stream().to_string().contains("Sized")) {
            sup = if supers.is_empty() { quote!(Sized) } else { quote!(#sup + Sized) };
        }
        let _ = writeln!(self.out, "{} {{", pretty(&quote!(pub trait #ident #gen : #sup #wher)));
        if let Some(s) = self.spec.get(&format!("trait {name}")) {
            self.out.push_str(&s);
        }
        for item in items {
            match item {
                TraitItem::Type(mut ty) => {
                    if self.drop_types.contains(&ty.ident.to_string()) {
                        continue;
                    }
                    if ty.ident == "MapStorage" {
                        if !self.lifted {
                            continue;
                        }
                        ty.generics = Generics::default();
                        ty.bounds = parse_quote!(crate::map::MapStorage<Self, V>);
                    }
                    if ty.ident == "SetStorage" && self.lifted {
                        continue;
                    }
                    ty.attrs.clear();
                    self.put(ty);
                }
                TraitItem::Fn(f) => {
                    let fname = f.sig.ident.to_string();
                    if !self.keep_fn(&fname) {
                        continue;
                    }
                    let spec = self.spec.get(&format!("fn {name}::{fname}"));
                    self.function(&format!("{name}::{fname}"), quote!(), &f.sig, f.default.as_ref(), spec);
                }
                _ => {}
            }
        }
        self.out.push_str("}\n");
    }

    fn impl_(&mut self, i: &mut ItemImpl) {
        let ty = self_name(&i.self_ty);
        if self.drops(&ty) {
            return;
        }
        let tr = i.trait_.as_ref().map(|t| last(&t.1));
        if let Some(tr) = &tr {
            let of_group = tr.starts_with("MapStorage") || tr.starts_with("SetStorage");
            if !self.traits.contains(tr) && !of_group {
                return;
            }
            if tr.ends_with("Iterator") && tr != "FromIterator" && self.spec.get(&format!("emit {tr} for {}", self.path(&ty))).is_none() {
                return;
            }
            if Self::has_cfg(&i.attrs, "serde") {
                if self.spec.get("emit serde").is_none() && !self.spec.used.contains("emit serde") {
                    return;
                }
                if tr == "Deserialize" {
                    // The visitor is an item of the function.
                    let inner = i.items.iter().filter_map(|f| match f {
                        ImplItem::Fn(f) => Some(f.block.stmts.clone()),
                        _ => None,
                    });
                    let inner = inner.flatten().filter_map(|s| match s {
                        Stmt::Item(i) => Some(i),
                        _ => None,
                    });
                    self.items(inner.collect());
                    return;
                }
            }
        }
        let attrs = std::mem::take(&mut i.attrs);
        let _ = attrs;
        self.rewrite().visit_item_impl_mut(i);
        let mut i = i.clone();
        let mut items = std::mem::take(&mut i.items);
        if let Some(storage) = tr.clone().filter(|t| t == "MapStorage" || t == "SetStorage") {
            let mut rest = Vec::new();
            let mut groups: BTreeMap<&str, Vec<ImplItem>> = BTreeMap::new();
            for i in items {
                let g = match &i {
                    ImplItem::Type(t) => group(&t.ident.to_string()),
                    ImplItem::Fn(f) => group(&f.sig.ident.to_string()),
                    _ => None,
                };
                match g {
                    Some(g) => groups.entry(g).or_default().push(i),
                    None => rest.push(i),
                }
            }
            items = rest;
            for (g, members) in groups {
                // The iterators of some storages are made by std.
                let emit = g == "Entry" || self.spec.get(&format!("emit {storage}{g} for {}", self.path(&ty))).is_some();
                if !emit {
                    continue;
                }
                let mut e = i.clone();
                e.items = members;
                let params: Vec<Ident> = e.generics.type_params().map(|p| p.ident.clone()).collect();
                let last = e.trait_.as_mut().unwrap().1.segments.last_mut().unwrap();
                to_group(last, g, Some(parse_quote!('this)));
                if g != "Into" {
                    e.generics.params.insert(0, parse_quote!('this));
                    let wher = e.generics.make_where_clause();
                    for p in params {
                        wher.predicates.push(parse_quote!(#p: 'this));
                    }
                }
                for i in e.items.iter_mut() {
                    match i {
                        ImplItem::Type(t) => {
                            let named = t.generics.lifetimes().next().map(|l| l.lifetime.clone());
                            t.generics = Generics::default();
                            if let Some(named) = named {
                                RenameLifetime(named).visit_type_mut(&mut t.ty);
                            }
                        }
                        ImplItem::Fn(f) if g != "Into" => NameLifetime.visit_signature_mut(&mut f.sig),
                        _ => {}
                    }
                }
                self.impl_(&mut e);
            }
        }
        let what = match &tr {
            Some(tr) => format!("impl {} for {}", tr, self.path(&ty)),
            None => format!("impl {}", self.path(&ty)),
        };
        let key = format!("where {what}");
        if self.spec.sections.get(&key).map_or(false, |b| b.contains("'this")) && !i.generics.lifetimes().any(|l| l.lifetime.ident == "this") {
            i.generics.params.insert(0, parse_quote!('this));
            NameLifetime.visit_type_mut(&mut i.self_ty);
        }
        self.more_bounds(&key, &mut i.generics);
        let (_, _, wher) = i.generics.split_for_impl();
        let gen = &i.generics;
        let mut g2 = gen.clone();
        g2.where_clause = None;
        let self_ty = &i.self_ty;
        let head = match &i.trait_ {
            Some((_, p, _)) => {
                let mut p = p.clone();
                if tr.as_deref() == Some("Key") && self.lifted {
                    let mut g = g2.clone();
                    g.params.push(parse_quote!(V));
                    p.segments.last_mut().unwrap().arguments = PathArguments::AngleBracketed(parse_quote!(<V>));
                    quote!(impl #g #p for #self_ty #wher)
                } else {
                    quote!(impl #g2 #p for #self_ty #wher)
                }
            }
            None => quote!(impl #g2 #self_ty #wher),
        };
        let _ = writeln!(self.out, "{} {{", pretty(&head));
        let first = tr.is_some() || !self.spec.used.contains(&what);
        if let Some(s) = self.spec.get(&what).filter(|_| first) {
            self.out.push_str(&s);
        }
        for item in items {
            match item {
                ImplItem::Type(mut t) => {
                    if self.drop_types.contains(&t.ident.to_string()) {
                        continue;
                    }
                    if t.ident == "MapStorage" {
                        if !self.lifted {
                            continue;
                        }
                        t.generics = Generics::default();
                    }
                    if t.ident == "SetStorage" && self.lifted {
                        continue;
                    }
                    self.put(t);
                }
                ImplItem::Fn(mut f) => {
                    let name = f.sig.ident.to_string();
                    if !self.keep_fn(&name) {
                        continue;
                    }
                    // Verus wants the type parameter to be named as in the trait.
                    let named = match tr.as_deref() {
                        Some("FromIterator") => Some("Items"),
                        Some("Visitor") => Some("Access"),
                        Some("Serialize") => Some("Serde"),
                        _ => None,
                    };
                    if let Some(named) = named {
                        let own = f.sig.generics.type_params().next().map(|p| p.ident.clone());
                        if let Some(own) = own {
                            RenameIdent(own, format_ident!("{named}")).visit_impl_item_fn_mut(&mut f);
                        }
                    }
                    if tr.is_none() && group(&name).is_some() {
                        let path = self.path(&format!("{ty}::{name}"));
                        if !self.spec.sections.contains_key(&format!("where fn {path}")) {
                            continue;
                        }
                    }
                    let path = match &tr {
                        Some(tr) => format!("<{} as {}>::{}", self.path(&ty), tr, name),
                        None => self.path(&format!("{ty}::{name}")),
                    };
                    let spec = self.spec.get(&format!("fn {path}"));
                    let vis = if tr.is_none() { quote!(pub) } else { quote!() };
                    self.function(&path, vis, &f.sig, Some(&f.block), spec);
                }
                _ => {}
            }
        }
        self.out.push_str("}\n");
    }
}

/// One statement per line.
fn pretty(tokens: &TokenStream) -> String {
    let mut out = String::new();
    fn go(ts: TokenStream, out: &mut String) {
        use proc_macro2::{Delimiter, Spacing, TokenTree};
        let mut glue = true;
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Brace => (" {\n", "\n}\n"),
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if !glue && g.delimiter() == Delimiter::None {
                        out.push(' ');
                    }
                    out.push_str(a);
                    go(g.stream(), out);
                    out.push_str(b);
                    glue = false;
                }
                TokenTree::Punct(p) => {
                    if !glue && p.as_char() != ',' && p.as_char() != ';' {
                        out.push(' ');
                    }
                    out.push(p.as_char());
                    glue = p.spacing() == Spacing::Joint || p.as_char() == '\'';
                    if p.as_char() == ';' {
                        out.push('\n');
                        glue = true;
                    }
                }
                t => {
                    if !glue {
                        out.push(' ');
                    }
                    out.push_str(&t.to_string());
                    glue = false;
                }
            }
        }
    }
    go(tokens.clone(), &mut out);
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let spec = Spec::read(&std::fs::read_to_string(&args[1]).expect("specification"));
    let mut x = Extract {
        drop_fns: spec.words("drop functions"),
        drop_types: spec.words("drop types"),
        drop_items: spec.words("drop items"),
        traits: spec.words("traits"),
        trusted: spec.lines("trusted"),
        keep_derives: false,
        lifted: false,
        hashbrown: false,
        spec,
        out: String::new(),
        module: Vec::new(),
        functions: Vec::new(),
    };
    let prelude = x.spec.get("prelude").unwrap_or_default();
    x.out.push_str(&prelude);
    let words = x.spec.get("words").unwrap_or_default();
    x.out.push_str(&words);
    x.hashbrown = args.iter().any(|a| a.starts_with("hashbrown="));
    x.lifted = x.traits.contains("MapStorage");
    let mut depth: Vec<String> = Vec::new();
    for a in &args[3..] {
        let (name, file) = a.split_once('=').unwrap();
        let shapes = name.ends_with('!');
        let name = name.trim_end_matches('!');
        if file.is_empty() {
            // Closes a module.
            assert_eq!(depth.pop().as_deref(), Some(name));
            x.module.pop();
            x.out.push_str("}\n");
            continue;
        }
        let nested = file.starts_with('<');
        let file = file.trim_start_matches('<');
        let text = std::fs::read_to_string(file).expect(file);
        let parsed = match parse_file(&text) {
            Ok(p) => p,
            Err(e) => panic!("{file}: {e}"),
        };
        x.keep_derives = shapes;
        let _ = writeln!(x.out, "pub mod {name} {{\nuse vstd::prelude::*;");
        if name != "storage" {
            x.uses();
        } else {
            x.out.push_str("use crate::it::Iterator;\n");
        }
        x.module.push(name.to_string());
        if let Some(s) = x.spec.get(&format!("mod {}", x.module.join("::"))) {
            x.out.push_str(&s);
        }
        x.items(parsed.items);
        if nested {
            depth.push(name.to_string());
        } else {
            x.module.pop();
            x.out.push_str("}\n");
        }
    }
    let tail = x.spec.get("end").unwrap_or_default();
    x.out.push_str(&tail);
    std::fs::write(&args[2], &x.out).unwrap();
    let mut index = String::new();
    for f in &x.functions {
        let calls: Vec<&str> = f.calls.iter().map(|s| s.as_str()).collect();
        let _ = writeln!(
            index,
            "{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
            f.start, f.end, f.path, f.spec as u8, f.body as u8, f.opaque as u8, calls.join(","),
            f.operators.iter().map(|s| s.as_str()).collect::<Vec<_>>().join(" ")
        );
    }
    std::fs::write(format!("{}.index", args[2]), index).unwrap();
    for k in x.spec.sections.keys() {
        let special = ["prelude", "end", "traits", "trusted"].contains(&k.as_str()) || k.starts_with("drop");
        if !special && !x.spec.used.contains(k) {
            eprintln!("lost anchor: {k}");
        }
    }
}
