//! A small syntactic type inference: which of the handful of receiver types (Option, iterator, element,
//! ..) an expression has. It only decides how a combinator with a closure literal is written out; where it
//! knows nothing the call stays a call.
use crate::model::{peel, toks};
use std::collections::HashMap;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Unk,
    Opt(Box<Ty>),
    It(Box<Ty>),
    Elem,
    COpt,
    Vecc,
    Slice,
    Core,
    Num,
    Bool,
    Tup(Vec<Ty>),
}
use Ty::*;

pub type Env = HashMap<String, Ty>;

fn opt(t: Ty) -> Ty {
    Opt(Box::new(t))
}
fn it(t: Ty) -> Ty {
    It(Box::new(t))
}

pub fn of(e: &Expr, env: &Env) -> Ty {
    match e {
        Expr::Paren(p) => of(&p.expr, env),
        Expr::Group(p) => of(&p.expr, env),
        Expr::Reference(r) => of(&r.expr, env),
        Expr::Unsafe(u) => block(&u.block, env),
        Expr::Block(b) => block(&b.block, env),
        Expr::Try(t) => match of(&t.expr, env) {
            Opt(x) => *x,
            _ => Unk,
        },
        Expr::Path(p) => p.path.get_ident().and_then(|i| env.get(&i.to_string())).cloned().unwrap_or(Unk),
        Expr::Tuple(t) => Tup(t.elems.iter().map(|x| of(x, env)).collect()),
        Expr::Lit(ExprLit { lit: Lit::Int(_), .. }) => Num,
        Expr::Lit(ExprLit { lit: Lit::Bool(_), .. }) => Bool,
        Expr::Binary(b) => match b.op {
            BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => Bool,
            BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) => Num,
            _ => Unk,
        },
        Expr::Field(f) => {
            let n = toks(&f.member);
            match (of(&f.base, env), n.as_str()) {
                (Elem, "0") => COpt,
                (Slice, "vec") => Vecc,
                (Vecc, "core") => Core,
                (Slice, "a") | (Slice, "len") => Num,
                (Tup(v), i) => i.parse::<usize>().ok().and_then(|i| v.get(i).cloned()).unwrap_or(Unk),
                _ => Unk,
            }
        }
        Expr::Index(i) => match of(&i.expr, env) {
            Vecc | Slice => Elem,
            _ => Unk,
        },
        Expr::Range(_) => it(Num),
        Expr::Call(c) => {
            if let Expr::Path(p) = &*c.func {
                let l = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if l == "Some" && c.args.len() == 1 {
                    return opt(of(&c.args[0], env));
                }
                return RET.with(|r| r.borrow().get(&l).cloned()).unwrap_or(Unk);
            }
            Unk
        }
        Expr::If(i) => block(&i.then_branch, env),
        Expr::MethodCall(c) => {
            let r = of(&c.receiver, env);
            let n = c.method.to_string();
            match (r, n.as_str()) {
                (Core, "get") | (Vecc, "get") | (Slice, "get") => opt(Elem),
                (Core, "iter") | (Core, "iter_mut") | (Core, "iter_over_range") | (Vecc, "iter") | (Slice, "iter") => it(Elem),
                (Core, "single_item_as_ref") => Elem,
                (Vecc, "slice") | (Vecc, "as_slice") | (Slice, "slice") => Slice,
                (Vecc, "len") | (Slice, "len") | (Vecc, "capacity") | (Core, "capacity") | (Vecc, "reserved_len") => Num,
                (Slice, "idx") | (Vecc, "index_of") | (Slice, "index_of") => opt(Num),
                (Vecc, "get_cloned") | (Vecc, "get_copied") | (Slice, "get_cloned") | (Slice, "get_copied") => opt(Unk),
                (Vecc, "mut_handle") => opt(Unk),
                (COpt, "clone_into_option" | "replace" | "mut_handle" | "map" | "get_raw" | "get_raw_with_order" | "get_raw_mut" | "get_raw_mut_with_order" | "as_ref" | "as_ref_with_order" | "take") => opt(Unk),
                (COpt, "is_some" | "is_none" | "is_some_and" | "set_some" | "update_if_some") => Bool,
                (Elem, "addr") => Num,
                (Num, "checked_sub" | "checked_add") => opt(Num),
                (Num, "min" | "max" | "saturating_sub" | "saturating_add" | "wrapping_sub" | "wrapping_add" | "div_ceil") => Num,
                (It(x), "next") => Opt(x),
                (It(x), "skip" | "take" | "filter" | "take_while" | "by_ref" | "into_iter") => It(x),
                (It(x), "enumerate") => it(Tup(vec![Num, *x])),
                (It(x), "zip") => it(Tup(vec![*x, Unk])),
                (It(_), "map" | "filter_map" | "flat_map") => it(Unk),
                (It(_), "position") => opt(Num),
                (It(_), "any" | "all") => Bool,
                (It(_), "count" | "len") => Num,
                (Opt(x), "expect" | "unwrap" | "unwrap_or" | "unwrap_or_else" | "unwrap_unchecked") => *x,
                (Opt(x), "filter" | "or" | "or_else" | "as_ref" | "copied" | "cloned") => Opt(x),
                (Opt(_), "map" | "and_then" | "and") => opt(Unk),
                (Opt(x), "flatten") => match *x {
                    Opt(y) => Opt(y),
                    _ => opt(Unk),
                },
                (Opt(_), "is_some" | "is_none" | "is_some_and") => Bool,
                (Bool, "then" | "then_some") => opt(closure_ret(c.args.first(), env)),
                // names that only one of the types has
                (_, "then") if matches!(c.args.first(), Some(Expr::Closure(k)) if k.inputs.is_empty()) => opt(closure_ret(c.args.first(), env)),
                (Vecc | Slice, "split_first" | "split_last") => opt(Tup(vec![Elem, Slice])),
                (Vecc | Slice, "split_at") => Tup(vec![Slice, Slice]),
                (_, "next") | (_, "mut_handle") | (_, "clone_into_option") | (_, "checked_sub") | (_, "checked_add") | (_, "first") | (_, "last") => opt(Unk),
                _ => RET.with(|r| r.borrow().get(&n).cloned()).unwrap_or(Unk),
            }
        }
        _ => Unk,
    }
}
thread_local! {
    /// return types of the helper functions of the crate (those without contract), by name
    pub static RET: std::cell::RefCell<HashMap<String, Ty>> = Default::default();
}
fn closure_ret(e: Option<&Expr>, env: &Env) -> Ty {
    match e {
        Some(Expr::Closure(c)) => of(&c.body, env),
        Some(e) => of(e, env),
        None => Unk,
    }
}
fn block(b: &Block, env: &Env) -> Ty {
    match b.stmts.last() {
        Some(Stmt::Expr(e, None)) => {
            let mut env = env.clone();
            for s in &b.stmts {
                if let Stmt::Local(l) = s {
                    if let Some(i) = &l.init {
                        let t = of(&i.expr, &env);
                        bind(&l.pat, t, &mut env);
                    }
                }
            }
            of(e, &env)
        }
        _ => Unk,
    }
}

pub fn bind(p: &Pat, t: Ty, env: &mut Env) {
    match p {
        Pat::Ident(i) => {
            env.insert(i.ident.to_string(), t);
        }
        Pat::Type(pt) => {
            let t = if t == Unk { of_type(&pt.ty, &HashMap::new()) } else { t };
            bind(&pt.pat, t, env)
        }
        Pat::Paren(x) => bind(&x.pat, t, env),
        Pat::Reference(r) => bind(&r.pat, t, env),
        Pat::Tuple(x) => {
            let ts = match t {
                Tup(v) if v.len() == x.elems.len() => v,
                _ => vec![Unk; x.elems.len()],
            };
            for (q, t) in x.elems.iter().zip(ts) {
                bind(q, t, env)
            }
        }
        Pat::TupleStruct(x) => {
            let inner = match (x.path.segments.last().map(|s| s.ident.to_string()).as_deref(), t) {
                (Some("Some"), Opt(t)) => *t,
                _ => Unk,
            };
            for q in &x.elems {
                bind(q, inner.clone(), env)
            }
        }
        Pat::Slice(x) => {
            for q in &x.elems {
                bind(q, Unk, env)
            }
        }
        Pat::Or(x) => {
            for q in &x.cases {
                bind(q, t.clone(), env)
            }
        }
        _ => {}
    }
}

/// `gens`: item type texts of the generic iterators
pub fn of_type(t: &Type, gens: &HashMap<String, String>) -> Ty {
    let s = toks(peel(t)).replace(' ', "");
    of_text(&s, gens)
}
fn of_text(s: &str, gens: &HashMap<String, String>) -> Ty {
    let s = s.trim_start_matches('&');
    let s = if s.starts_with('\'') { s.trim_start_matches('\'').trim_start_matches(|c: char| c.is_alphanumeric() || c == '_') } else { s };
    if let Some(item) = gens.get(s) {
        return it(of_text(item, &HashMap::new()));
    }
    let s = s.rsplit_once("::").filter(|(a, _)| !a.contains('<')).map(|x| x.1).unwrap_or(s);
    if s.starts_with("ConcurrentElement") {
        Elem
    } else if s.starts_with("ConcurrentVec<") {
        Vecc
    } else if s.starts_with("ConcurrentSlice") {
        Slice
    } else if s.starts_with("Option<") {
        opt(of_text(&s[7..s.len().saturating_sub(1)], gens))
    } else if s == "usize" {
        Num
    } else if s == "bool" {
        Bool
    } else if let Some(i) = s.find("Item=") {
        if s.starts_with("impl") {
            let r = &s[i + 5..];
            return it(of_text(r, &HashMap::new()));
        }
        Unk
    } else {
        Unk
    }
}

/// item types of generic parameters bounded by an iterator trait
pub fn iter_generics(sig: &Signature) -> HashMap<String, String> {
    let mut m = HashMap::new();
    let mut add = |name: String, bs: &punctuated::Punctuated<TypeParamBound, Token![+]>| {
        for b in bs {
            if let TypeParamBound::Trait(t) = b {
                let s = t.path.segments.last().unwrap();
                if s.ident.to_string().ends_with("Iterator") && s.ident != "IntoIterator" {
                    if let PathArguments::AngleBracketed(ab) = &s.arguments {
                        for g in &ab.args {
                            if let GenericArgument::AssocType(a) = g {
                                if a.ident == "Item" {
                                    m.insert(name.clone(), toks(&a.ty).replace(' ', ""));
                                }
                            }
                        }
                    }
                }
            }
        }
    };
    for g in &sig.generics.params {
        if let GenericParam::Type(t) = g {
            add(t.ident.to_string(), &t.bounds);
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                add(toks(&t.bounded_ty).replace(' ', ""), &t.bounds);
            }
        }
    }
    m
}

pub fn env_of(sig: &Signature, self_ty: Option<&str>) -> Env {
    let mut env = Env::new();
    let g = iter_generics(sig);
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(_) => {
                let t = match self_ty {
                    Some("ConcurrentVec") => Vecc,
                    Some("ConcurrentSlice") => Slice,
                    Some("ConcurrentElement") => Elem,
                    _ => Unk,
                };
                env.insert("self".into(), t);
            }
            FnArg::Typed(t) => {
                let x = of_type(&t.ty, &g);
                let x = if toks(peel(&t.ty)) == "Self" { env.get("self").cloned().unwrap_or(Unk) } else { x };
                bind(&t.pat, x, &mut env);
            }
        }
    }
    env
}
