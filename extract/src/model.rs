//! Source model: files, structs, functions of the crate under verification.
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{BTreeMap, HashMap};
use syn::spanned::Spanned;
use syn::*;

pub struct Src {
    pub path: String,
    pub text: String,
    pub modpath: Vec<String>,
    /// instantiated from the sources of a dependency
    pub dep: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Free,
    Inherent,
    TraitImpl,
}

pub struct Func {
    pub key: String,
    pub kind: Kind,
    pub owner: Option<String>,
    pub name: String,
    pub emit_name: String,
    pub src: usize,
    pub sig: Signature,
    pub block: Block,
    pub impl_generics: Option<Generics>,
    pub trait_name: Option<String>,
    pub trait_full: Option<String>,
    pub self_ty: Option<Type>,
    pub assoc: HashMap<String, Type>,
    pub span: (usize, usize),
    pub line: usize,
}

pub struct StructDef {
    pub item: ItemStruct,
    pub src: usize,
}

pub struct Marker {
    /// `unsafe impl<T: ..> Send/Sync for X`
    pub trait_name: String,
    pub ty: String,
    pub arg0: String,
    pub bounds: BTreeMap<String, Vec<String>>,
    pub src: usize,
    pub line: usize,
}

#[derive(Default)]
pub struct Model {
    pub srcs: Vec<Src>,
    pub funcs: Vec<Func>,
    pub structs: Vec<StructDef>,
    pub types: Vec<(usize, ItemType)>,
    pub consts: Vec<(usize, ItemConst)>,
    pub uses: Vec<(usize, ItemUse)>,
    pub markers: Vec<Marker>,
    pub skipped: Vec<String>,
    /// children modules by module path
    pub mods: Vec<Vec<String>>,
}

pub fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

pub fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

pub fn head(t: &Type) -> Option<String> {
    match t {
        Type::Reference(r) => head(&r.elem),
        Type::Paren(p) => head(&p.elem),
        Type::Group(p) => head(&p.elem),
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Slice(_) => Some("[]".into()),
        Type::Array(_) => Some("[;]".into()),
        Type::Ptr(_) => Some("*".into()),
        _ => None,
    }
}

pub fn peel(t: &Type) -> &Type {
    match t {
        Type::Reference(r) => peel(&r.elem),
        Type::Paren(p) => peel(&p.elem),
        Type::Group(p) => peel(&p.elem),
        x => x,
    }
}

pub fn is_ref(t: &Type) -> bool {
    match t {
        Type::Reference(_) => true,
        Type::Paren(p) => is_ref(&p.elem),
        Type::Group(p) => is_ref(&p.elem),
        _ => false,
    }
}

/// generic argument `n` (types only) of the last path segment
pub fn garg(t: &Type, n: usize) -> Option<Type> {
    if let Type::Path(p) = peel(t) {
        if let PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments {
            return a
                .args
                .iter()
                .filter_map(|x| match x {
                    GenericArgument::Type(t) => Some(t.clone()),
                    _ => None,
                })
                .nth(n);
        }
    }
    None
}

fn is_test_cfg(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && toks(a).contains("test"))
}

fn norm_trait(p: &Path) -> String {
    let seg = p.segments.last().unwrap();
    let mut s = seg.ident.to_string();
    if let PathArguments::AngleBracketed(a) = &seg.arguments {
        let args: Vec<String> = a
            .args
            .iter()
            .filter(|x| !matches!(x, GenericArgument::Lifetime(_)))
            .map(|x| {
                let mut t = String::new();
                let raw = toks(x);
                // drop lifetimes
                let parts: Vec<&str> = raw.split_whitespace().collect();
                let mut i = 0;
                while i < parts.len() {
                    if parts[i].starts_with('\'') {
                        i += 1;
                        if i < parts.len() && parts[i] == "," {
                            i += 1;
                        }
                        continue;
                    }
                    t.push_str(parts[i]);
                    i += 1;
                }
                t
            })
            .collect();
        if !args.is_empty() {
            s.push_str(&format!("<{}>", args.join(",")));
        }
    }
    s
}

pub fn sanitize(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii_alphanumeric() || c == '_' {
            o.push(c)
        } else if !o.ends_with('_') {
            o.push('_')
        }
    }
    o
}

/// identifiers `T` and `S` outside of string literals replaced by the types they stand for
fn instantiate(t: &str) -> String {
    let mut t = t.replace("<P::P as PinnedVec<T>>::SliceIter<'_>", "It<&[ConcurrentElement<T>]>").replace("<P::P as PinnedVec<T>>::SliceIter", "It").replace("Item = &mut T", "Item = &T");
    t.push(' ');
    let (mut o, mut cur, mut lit) = (String::new(), String::new(), false);
    for c in t.chars() {
        if !lit && (c.is_alphanumeric() || c == '_') {
            cur.push(c);
            continue;
        }
        match cur.as_str() {
            // the parameter of `ConcurrentElement` introduced above stays
            "T" if o.ends_with("ConcurrentElement<") => o.push('T'),
            "T" => o.push_str("ConcurrentElement<T>"),
            "S" => o.push_str("ConcurrentVecState"),
            x => o.push_str(x),
        }
        cur.clear();
        if c == '"' {
            lit = !lit;
        }
        o.push(c);
    }
    o
}

/// the text of `f` with the drop of a guard bound as `Some(_handle)` written out at the end of its scope
fn guards(src: &str, f: &ImplItemFn) -> String {
    struct G<'s>(&'s str, Vec<(usize, usize, String)>);
    impl<'s> G<'s> {
        fn scope(&mut self, b: &Block) {
            let Some(Stmt::Expr(e, semi)) = b.stmts.last() else { return };
            let (a, z) = rng(e.span());
            match e {
                Expr::Return(r) => {
                    let (x, y) = r.expr.as_ref().map_or((z, z), |e| rng(e.span()));
                    self.1.push((a, z, format!("let __ret = {}; _handle.drop(); return __ret", if x == y { "()" } else { &self.0[x..y] })));
                }
                _ if semi.is_none() => self.1.push((a, z, format!("let __ret = {}; _handle.drop(); __ret", &self.0[a..z]))),
                _ => {}
            }
        }
    }
    impl<'s, 'a> syn::visit::Visit<'a> for G<'s> {
        fn visit_arm(&mut self, a: &'a Arm) {
            if toks(&a.pat) == "Some (_handle)" {
                if let Expr::Block(b) = &*a.body {
                    self.scope(&b.block);
                }
            }
            syn::visit::visit_arm(self, a);
        }
        fn visit_expr_if(&mut self, i: &'a ExprIf) {
            if let Expr::Let(l) = &*i.cond {
                if toks(&l.pat) == "Some (_handle)" {
                    self.scope(&i.then_branch);
                }
            }
            syn::visit::visit_expr_if(self, i);
        }
    }
    let mut g = G(src, vec![]);
    syn::visit::Visit::visit_impl_item_fn(&mut g, f);
    let (a, b) = (rng(f.sig.span()).0, rng(f.span()).1);
    let mut out = String::new();
    let mut at = a;
    g.1.sort();
    for (x, y, t) in g.1 {
        out.push_str(&src[at..x]);
        out.push_str(&t);
        at = y;
    }
    out.push_str(&src[at..b]);
    out
}

impl Model {
    pub fn load(root: &str) -> std::result::Result<Model, String> {
        let mut m = Model::default();
        m.load_mod(root, "lib.rs", vec![], root.to_string())?;
        Ok(m)
    }

    fn load_mod(&mut self, root: &str, rel: &str, modpath: Vec<String>, dir: String) -> std::result::Result<(), String> {
        let path = format!("{root}/{rel}");
        let text = std::fs::read_to_string(&path).map_err(|e| format!("{path}: {e}"))?;
        let file = syn::parse_file(&text).map_err(|e| format!("{path}: {e}"))?;
        let idx = self.srcs.len();
        self.srcs.push(Src {
            path: rel.to_string(),
            text,
            modpath: modpath.clone(),
            dep: false,
        });
        self.mods.push(modpath.clone());
        self.items(root, idx, &file.items, &modpath, &dir)
    }

    /// The functions `keep` of the inherent impl blocks of `PinnedConcurrentCol<T, P, S>` in the sources of
    /// orx-pinned-concurrent-col, instantiated with `T := ConcurrentElement<T>`, `S := ConcurrentVecState`
    /// (identifier by identifier; `<P::P as PinnedVec<T>>::SliceIter<'_>` := `It<&[ConcurrentElement<T>]>`;
    /// `iter_mut` yields shared references: exclusive access is part of the world).
    pub fn load_dep(&mut self, dir: &str, keep: &dyn Fn(&str) -> bool) -> std::result::Result<(), String> {
        let read = |n: &str| {
            let p = format!("{dir}/{n}");
            std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))
        };
        let errs = read("errors.rs")?;
        let col = read("col.rs")?;
        let file = syn::parse_file(&col).map_err(|e| format!("col.rs: {e}"))?;
        let mut text = errs;
        let mut lines = HashMap::new();
        for it in &file.items {
            let Item::Impl(im) = it else { continue };
            let dropping = im.trait_.as_ref().map_or(false, |t| t.1.is_ident("Drop"));
            if im.trait_.is_some() && !dropping || head(&im.self_ty).as_deref() != Some("PinnedConcurrentCol") {
                continue;
            }
            text.push_str("\nimpl<T, P> PinnedConcurrentCol<ConcurrentElement<T>, P, ConcurrentVecState>\nwhere\n    P: ConcurrentPinnedVec<ConcurrentElement<T>>,\n{\n");
            for i in &im.items {
                let ImplItem::Fn(f) = i else { continue };
                let key = format!("PinnedConcurrentCol::{}", f.sig.ident);
                if !keep(&key) {
                    self.skipped.push(format!("dependency {key}"));
                    continue;
                }
                lines.insert(f.sig.ident.to_string(), f.sig.ident.span().start().line);
                let (a, b) = (rng(f.sig.span()).0, rng(f.span()).1);
                text.push_str("    pub ");
                let mut t = instantiate(&col[a..b]);
                for (a, b) in [
                    // the pinned vec of the concurrent pinned vec is a parameter of the prelude's types
                    ("fn into_inner(", "fn into_inner<Q: IntoConcurrentPinnedVec<ConcurrentElement<T>, ConPinnedVec = P>>("),
                    ("-> P::P", "-> Q"),
                    ("<P::P as PseudoDefault>::pseudo_default()", "Q::pseudo_default()"),
                    ("core::mem::swap(&mut inner, &mut self.con_pinned_vec)", "inner.exchange(&mut self.con_pinned_vec)"),
                    ("fill_memory_with().is_some()", "fill_memory_with::<T>().is_some()"),
                    ("[no_gap_len].into_iter().fold(capacity, usize::min)", "if no_gap_len < capacity { no_gap_len } else { capacity }"),
                ] {
                    t = t.replace(a, b);
                }
                if f.sig.ident == "into_inner" {
                    // the bound on the parameter is above; `mut self` is a local of the body
                    if let (Some(x), Some(y)) = (t.find("where"), t.find('{')) {
                        t.replace_range(x..y, "");
                        let z = t.find('{').unwrap();
                        t = format!("{}{{ let mut this = self;{}", &t[..z].replace("mut self", "self"), t[z + 1..].replace("self.", "this."));
                    }
                }
                text.push_str(&t);
                text.push('\n');
            }
            text.push_str("}\n");
        }
        let file = syn::parse_file(&text).map_err(|e| format!("instantiated col.rs: {e}"))?;
        let idx = self.srcs.len();
        self.srcs.push(Src {
            path: "orx-pinned-concurrent-col/col.rs".into(),
            text,
            modpath: vec!["dep".into()],
            dep: true,
        });
        self.mods.push(vec!["dep".into()]);
        self.items("", idx, &file.items, &["dep".to_string()], "")?;
        for f in self.funcs.iter_mut().filter(|f| f.src == idx) {
            f.line = lines.get(&f.name).copied().unwrap_or(0);
        }
        Ok(())
    }

    /// The functions `keep` of orx-concurrent-option. Mechanical changes to their text: the drop of a lock
    /// guard at the end of its scope is written out; `&*`, `&mut *` and `*` of `self.value.get()` are left to
    /// the pointer type of the prelude; `&mut T` of an element's content is `Slot`; `&mut self` is `&self`
    /// (exclusive access is part of the world).
    pub fn load_opt(&mut self, dir: &str, keep: &dyn Fn(&str) -> bool) -> std::result::Result<(), String> {
        let mut text = String::from("use core::sync::atomic::Ordering;\n");
        let mut lines = HashMap::new();
        for n in ["states.rs", "handle.rs", "mut_handle.rs", "concurrent_option.rs", "new.rs", "concurrent.rs", "option.rs", "with_order.rs", "raw.rs", "exclusive.rs", "drop.rs"] {
            let p = format!("{dir}/{n}");
            let src = std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?;
            let file = syn::parse_file(&src).map_err(|e| format!("{p}: {e}"))?;
            for it in &file.items {
                match it {
                    Item::Const(c) if n == "states.rs" && toks(&c.ty) == "Ordering" => {
                        text.push_str(&src[rng(c.span()).0..rng(c.span()).1]);
                        text.push('\n');
                    }
                    Item::Impl(im) => {
                        let h = head(&im.self_ty).unwrap_or_default();
                        let dropping = im.trait_.as_ref().map_or(false, |t| t.1.is_ident("Drop"));
                        if im.trait_.as_ref().map_or(false, |t| t.1.is_ident("Send") || t.1.is_ident("Sync")) {
                            // the auto traits of an element are those of its option
                            text.push_str(&src[rng(im.span()).0..rng(im.span()).1]);
                            text.push('\n');
                            continue;
                        }
                        if im.trait_.is_some() && !dropping {
                            continue;
                        }
                        let open = match h.as_str() {
                            "State" => "impl State {\n",
                            "Handle" => "impl<'a> Handle<'a> {\n",
                            "MutHandle" => "impl<'a, T> MutHandle<'a, T> {\n",
                            "ConcurrentOption" if garg(&im.self_ty, 0).map_or(false, |t| toks(&t) == "T") => "impl<T> ConcurrentOption<T> {\n",
                            _ => continue,
                        };
                        let mut body = String::new();
                        for i in &im.items {
                            let ImplItem::Fn(f) = i else { continue };
                            let key = format!("{h}::{}", f.sig.ident);
                            if !keep(&key) {
                                self.skipped.push(format!("dependency {key}"));
                                continue;
                            }
                            lines.insert(key, (n, f.sig.ident.span().start().line));
                            let mut t = guards(&src, f);
                            for (a, b) in [("&mut *self.value.get()", "self.value.get()"), ("&*self.value.get()", "self.value.get()"), ("(*self.value.get())", "self.value.get()"), ("&mut self", "&self"), ("-> &mut T", "-> Slot")] {
                                t = t.replace(a, b);
                            }
                            // a user closure on the content of the element
                            if t.contains("F: FnMut(&mut T)") {
                                t = t.replace("F: FnMut(&mut T)", "F: Fn(&mut T)").replace(" mut f: F", " f: F").replace("f(x);", "x.apply(f);");
                            }
                            // the replaced value is dropped
                            t = t.replace("let _old = core::mem::replace(x, value);", "x.put(value);");
                            body.push_str("    pub ");
                            body.push_str(&t);
                            body.push('\n');
                        }
                        if !body.is_empty() {
                            text.push_str(open);
                            text.push_str(&body);
                            text.push_str("}\n");
                        }
                    }
                    _ => {}
                }
            }
        }
        let file = syn::parse_file(&text).map_err(|e| format!("instantiated orx-concurrent-option: {e}"))?;
        let idx = self.srcs.len();
        self.srcs.push(Src {
            path: "orx-concurrent-option".into(),
            text,
            modpath: vec!["opt".into()],
            dep: true,
        });
        self.mods.push(vec!["opt".into()]);
        self.items("", idx, &file.items, &["opt".to_string()], "")?;
        for f in self.funcs.iter_mut().filter(|f| f.src == idx) {
            f.line = lines.get(&f.key).map_or(0, |x| x.1);
        }
        Ok(())
    }

    /// `vec_range_limits` of orx-pinned-vec. Mechanical change to its text: bounds are passed by value.
    pub fn load_pvec(&mut self, dir: &str, keep: &dyn Fn(&str) -> bool) -> std::result::Result<(), String> {
        let p = format!("{dir}/utils/slice.rs");
        let src = std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?;
        let file = syn::parse_file(&src).map_err(|e| format!("{p}: {e}"))?;
        let mut text = String::new();
        let mut line = 0;
        for it in &file.items {
            let Item::Fn(f) = it else { continue };
            if f.sig.ident != "vec_range_limits" || !keep("::vec_range_limits") {
                continue;
            }
            line = f.sig.ident.span().start().line;
            let mut t = src[rng(f.sig.span()).0..rng(f.span()).1].to_string();
            for (a, b) in [("use core::ops::Bound::*;", ""), ("Included(&", "Bound::Included("), ("Excluded(&", "Bound::Excluded(")] {
                t = t.replace(a, b);
            }
            for v in ["Included(", "Excluded(", "Unbounded"] {
                let v = &v;
                t = t.replace(&format!(" {v}"), &format!(" Bound::{v}"));
            }
            text.push_str("pub ");
            text.push_str(&t);
            text.push('\n');
        }
        let file = syn::parse_file(&text).map_err(|e| format!("orx-pinned-vec: {e}"))?;
        let idx = self.srcs.len();
        self.srcs.push(Src {
            path: "orx-pinned-vec/utils/slice.rs".into(),
            text,
            modpath: vec!["pvec".into()],
            dep: true,
        });
        self.mods.push(vec!["pvec".into()]);
        self.items("", idx, &file.items, &["pvec".to_string()], "")?;
        for f in self.funcs.iter_mut().filter(|f| f.src == idx) {
            f.line = line;
        }
        Ok(())
    }

    fn items(&mut self, root: &str, idx: usize, items: &[Item], modpath: &[String], dir: &str) -> std::result::Result<(), String> {
        for it in items {
            match it {
                Item::Mod(m) => {
                    if is_test_cfg(&m.attrs) {
                        continue;
                    }
                    let mut mp = modpath.to_vec();
                    mp.push(m.ident.to_string());
                    match &m.content {
                        Some((_, _items)) => {
                            self.skipped.push(format!("inline module {}", mp.join("::")));
                        }
                        None => {
                            let base = if modpath.is_empty() { String::new() } else { format!("{}/", modpath.join("/")) };
                            let a = format!("{base}{}.rs", m.ident);
                            let b = format!("{base}{}/mod.rs", m.ident);
                            let rel = if std::path::Path::new(&format!("{root}/{a}")).exists() { a } else { b };
                            self.load_mod(root, &rel, mp, dir.to_string())?;
                        }
                    }
                }
                Item::Use(u) => self.uses.push((idx, u.clone())),
                Item::Struct(s) => self.structs.push(StructDef { item: s.clone(), src: idx }),
                Item::Type(t) => self.types.push((idx, t.clone())),
                Item::Fn(f) => {
                    let name = f.sig.ident.to_string();
                    let span = rng(f.span());
                    self.funcs.push(Func {
                        key: format!("::{name}"),
                        kind: Kind::Free,
                        owner: None,
                        emit_name: name.clone(),
                        name,
                        src: idx,
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        impl_generics: None,
                        trait_name: None,
                        trait_full: None,
                        self_ty: None,
                        assoc: HashMap::new(),
                        span,
                        line: f.sig.ident.span().start().line,
                    });
                }
                Item::Impl(im) => self.imp(idx, im),
                Item::Const(c) => self.consts.push((idx, c.clone())),
                other => self.skipped.push(format!("item {}", toks(other).chars().take(60).collect::<String>())),
            }
        }
        Ok(())
    }

    fn imp(&mut self, idx: usize, im: &ItemImpl) {
        let owner = head(&im.self_ty).unwrap_or("?".into());
        let mut assoc = HashMap::new();
        for i in &im.items {
            if let ImplItem::Type(t) = i {
                assoc.insert(t.ident.to_string(), t.ty.clone());
            }
        }
        if let Some((_, p, _)) = &im.trait_ {
            let tn = p.segments.last().unwrap().ident.to_string();
            if tn == "Send" || tn == "Sync" {
                let mut bounds: BTreeMap<String, Vec<String>> = BTreeMap::new();
                let mut add = |n: String, bs: &syn::punctuated::Punctuated<TypeParamBound, Token![+]>| {
                    let e = bounds.entry(n).or_default();
                    for b in bs {
                        if let TypeParamBound::Trait(t) = b {
                            e.push(t.path.segments.last().unwrap().ident.to_string());
                        }
                    }
                };
                for g in &im.generics.params {
                    if let GenericParam::Type(t) = g {
                        add(t.ident.to_string(), &t.bounds);
                    }
                }
                if let Some(w) = &im.generics.where_clause {
                    for p in &w.predicates {
                        if let WherePredicate::Type(t) = p {
                            add(toks(&t.bounded_ty), &t.bounds);
                        }
                    }
                }
                self.markers.push(Marker {
                    trait_name: tn,
                    ty: owner,
                    arg0: garg(&im.self_ty, 0).map(|t| toks(&t)).unwrap_or_default(),
                    bounds,
                    src: idx,
                    line: im.impl_token.span.start().line,
                });
                return;
            }
        }
        for i in &im.items {
            match i {
                ImplItem::Fn(f) => {
                    if is_test_cfg(&f.attrs) {
                        continue;
                    }
                    let name = f.sig.ident.to_string();
                    let (key, kind, emit) = match &im.trait_ {
                        None => (format!("{owner}::{name}"), Kind::Inherent, name.clone()),
                        Some((_, p, _)) => {
                            let k = format!("{} for {owner}::{name}", norm_trait(p));
                            let e = format!("t_{}", sanitize(&k));
                            (k, Kind::TraitImpl, e)
                        }
                    };
                    self.funcs.push(Func {
                        key,
                        kind,
                        owner: Some(owner.clone()),
                        name,
                        emit_name: emit,
                        src: idx,
                        sig: f.sig.clone(),
                        block: f.block.clone(),
                        impl_generics: Some(im.generics.clone()),
                        trait_name: im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string()),
                        trait_full: im.trait_.as_ref().map(|(_, p, _)| norm_trait(p)),
                        self_ty: Some((*im.self_ty).clone()),
                        assoc: assoc.clone(),
                        span: rng(f.span()),
                        line: f.sig.ident.span().start().line,
                    });
                }
                ImplItem::Type(_) => {}
                other => self.skipped.push(format!("impl item {}", toks(other).chars().take(60).collect::<String>())),
            }
        }
    }
}
