//! Mechanical extraction: /repo/src -> one Verus file.
//!
//! The text of every function body is copied from the source; all changes are local text edits
//! applied by byte range (see EDITS in /verif/DESIGN.md). Contracts come from /verif/contracts.
mod contract;
mod model;
mod ty;
use contract::Contract;
use model::*;
use proc_macro2::Span;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

type Res<T> = std::result::Result<T, String>;

#[derive(Clone, Debug)]
struct Edit {
    s: usize,
    e: usize,
    class: u8, // 0 closer, 1 opener, 2 replace
    t: String,
}

fn apply(text: &str, a: usize, b: usize, edits: &[Edit]) -> Res<String> {
    let mut v: Vec<(usize, &Edit)> = edits.iter().enumerate().filter(|(_, x)| x.s >= a && x.e <= b).collect();
    v.sort_by_key(|(i, x)| (x.s, x.class, *i));
    let mut out = String::new();
    let mut pos = a;
    for (_, x) in v {
        if x.s < pos {
            return Err(format!("overlapping edits at {}: {:?}", x.s, x.t));
        }
        out.push_str(&text[pos..x.s]);
        out.push_str(&x.t);
        pos = x.e;
    }
    out.push_str(&text[pos..b]);
    Ok(out)
}

struct World<'m> {
    m: &'m Model,
    contracts: BTreeMap<String, Contract>,
    free: HashMap<String, usize>,
    owned: HashMap<(String, String), usize>, // (type, fn) -> func idx (inherent)
    inlinable: HashSet<usize>,
    stub_names: HashSet<String>,
    /// names of functions whose contract allows documented panics: their callers say whether they may panic
    pan_names: HashSet<String>,
    /// functions of the dependency called through a function of the prelude that adds ghost code
    wrapped: HashSet<String>,
    /// add `assert(false)` at the end of every function and loop body (all of these must fail)
    vacuity: bool,
}

/// Visitor collecting the edits of one function (or signature, struct, ...)
struct Ed<'w, 'm> {
    w: &'w World<'m>,
    src: usize,
    edits: Vec<Edit>,
    err: Option<String>,
    self_name: Option<String>,
    scope: usize, // 0 = function, >0 closure depth
    c: Option<&'w Contract>,
    closures: usize,
    loops: usize,
    loop_kinds: Vec<String>,
    fn_params: HashSet<String>,
    self_ty: Option<String>,
    assoc: HashMap<String, String>,
    ren: Vec<(String, String)>,
    inlined: Vec<String>,
    calls: BTreeSet<String>,
    depth: usize,
    uid: usize,
    clo_spec_missing: bool,
    env: ty::Env,
    clo_param: Option<ty::Ty>,
}

fn ident_like(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

/// replace whole identifiers
fn rename(text: &str, ren: &[(String, String)]) -> String {
    if ren.is_empty() {
        return text.to_string();
    }
    let mut out = String::new();
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if ident_like(cs[i]) && !cs[i].is_ascii_digit() {
            let mut j = i;
            while j < cs.len() && ident_like(cs[j]) {
                j += 1;
            }
            let id: String = cs[i..j].iter().collect();
            let dot = i > 0 && cs[i - 1] == '.' && !(i > 1 && cs[i - 2] == '.');
            match ren.iter().find(|(a, _)| *a == id) {
                Some((_, b)) if !dot => out.push_str(b),
                _ => out.push_str(&id),
            }
            i = j;
        } else {
            out.push(cs[i]);
            i += 1;
        }
    }
    out
}

impl<'w, 'm> Ed<'w, 'm> {
    fn new(w: &'w World<'m>, src: usize, c: Option<&'w Contract>) -> Self {
        Ed {
            w,
            src,
            edits: vec![],
            self_name: None,
            err: None,
            scope: 0,
            c,
            closures: 0,
            loops: 0,
            loop_kinds: vec![],
            fn_params: HashSet::new(),
            self_ty: None,
            assoc: HashMap::new(),
            ren: vec![],
            inlined: vec![],
            calls: BTreeSet::new(),
            depth: 0,
            uid: 0,
            clo_spec_missing: false,
            env: Default::default(),
            clo_param: None,
        }
    }
    fn text(&self) -> &'m str {
        &self.w.m.srcs[self.src].text
    }
    fn slice(&self, s: Span) -> &'m str {
        let (a, b) = rng(s);
        &self.text()[a..b]
    }
    fn open(&mut self, at: usize, t: impl Into<String>) {
        self.edits.push(Edit { s: at, e: at, class: 1, t: t.into() });
    }
    fn close(&mut self, at: usize, t: impl Into<String>) {
        self.edits.push(Edit { s: at, e: at, class: 0, t: t.into() });
    }
    fn repl(&mut self, a: usize, b: usize, t: impl Into<String>) {
        self.edits.push(Edit { s: a, e: b, class: 2, t: t.into() });
    }
    fn fail(&mut self, m: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(m.into());
        }
    }
    fn wargs(&self) -> &'static str {
        if self.scope == 0 {
            "Tracked(__w)"
        } else {
            "Tracked(&mut __w)"
        }
    }
    fn panics(&self) -> String {
        match self.c.and_then(|c| c.panics.clone()) {
            Some(_) => "may_panic".into(),
            None => "false".into(),
        }
    }
    /// further argument of calls of `name`: may the caller panic
    fn pan_arg(&self, name: &str) -> String {
        if self.w.pan_names.contains(name) { format!(", Ghost({})", self.panics()) } else { String::new() }
    }
    fn macros(&self, t: &str, snap: Option<&str>) -> String {
        let mut s = t.replace("$o", "old(__w)@").replace("$n", "final(__w)@").replace("$w", "__w@");
        if let Some(x) = snap {
            s = s.replace("$s", x);
        }
        s
    }
    fn ctext(&self, t: &str) -> String {
        rename(t, &self.ren)
    }
    fn add_world(&mut self, name: &str, close: usize, nargs: usize, trailing: bool) {
        let w = format!("{}{}", self.wargs(), self.pan_arg(name));
        let t = if nargs == 0 || trailing { w.to_string() } else { format!(", {w}") };
        self.close(close, t);
    }
    /// root mapping of external paths
    fn root(&mut self, p: &Path, call: bool) {
        if let Some(first) = p.segments.first() {
            let r = first.ident.to_string();
            let (a, _) = rng(first.ident.span());
            if p.segments.len() > 1 {
                if r == "core" || r == "std" {
                    let (x, y) = rng(first.ident.span());
                    let s = if let Some(lc) = &p.leading_colon { rng(lc.span()).0 } else { x };
                    self.repl(s, y, "crate::stub::xcore");
                } else if r == "alloc" {
                    let (x, y) = rng(first.ident.span());
                    self.repl(x, y, "crate::stub::xalloc");
                } else if r.starts_with("orx_") {
                    let last = p.segments.last().unwrap();
                    let (b, _) = rng(last.ident.span());
                    self.repl(a, b, "crate::stub::");
                } else if r == "crate" || r == "super" {
                    let last = p.segments.last().unwrap();
                    let prev = &p.segments[p.segments.len() - 2].ident.to_string();
                    // keep `crate::a::Type::assoc`
                    let cut = if prev.chars().next().map_or(false, |c| c.is_uppercase()) {
                        rng(p.segments[p.segments.len() - 2].ident.span()).0
                    } else {
                        rng(last.ident.span()).0
                    };
                    self.repl(a, cut, "");
                } else if r == "Self" && !self.assoc.is_empty() && !call && p.segments.len() == 2 {
                    let n = p.segments[1].ident.to_string();
                    if let Some(t) = self.assoc.get(&n) {
                        let (x, y) = rng(p.span());
                        let t = t.clone();
                        self.repl(x, y, t);
                    }
                }
            }
        }
    }
    fn user_fn(&self, e: &Expr) -> bool {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                return self.fn_params.contains(&i.to_string());
            }
        }
        false
    }

    fn closure(&mut self, c: &ExprClosure) {
        let k = self.closures;
        self.closures += 1;
        self.uid += 1;
        let spec = self.c.and_then(|c| c.closures.get(&k));
        let snap = format!("__sn{}_{}", self.depth, self.uid);
        let w = if self.scope == 0 { "__w@" } else { "__w@" };
        let (a, b) = rng(c.span());
        let mut head = format!("{{ let {snap}: Ghost<WS> = Ghost({w}); ");
        let snap = format!("{snap}@");
        if c.capture.is_some() {
            head.push_str("move ");
        }
        let (o1, o2) = (rng(c.or1_token.span).1, rng(c.or2_token.span).0);
        let params_src = self.text()[o1..o2].to_string();
        // actual parameter names; canonical names in the spec
        let actual: Vec<String> = c
            .inputs
            .iter()
            .map(|p| match p {
                Pat::Ident(i) => i.ident.to_string(),
                Pat::Type(t) => match &*t.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => "_".into(),
                },
                _ => "_".into(),
            })
            .collect();
        let mut ren = self.ren.clone();
        let mut params = params_src.clone();
        let mut spec_text = String::new();
        let mut ret = String::new();
        let mut start = String::new();
        match spec {
            Some(sp) => {
                let canon: Vec<String> = sp
                    .params
                    .as_ref()
                    .map(|p| {
                        split_top(p).iter().map(|x| x.split(':').next().unwrap().trim().to_string()).collect()
                    })
                    .unwrap_or_default();
                if sp.params.is_some() {
                    if canon.len() != actual.len() {
                        self.fail("closure parameter count differs from the contract");
                    }
                    for (x, y) in canon.iter().zip(actual.iter()) {
                        if x != y && y != "_" {
                            ren.push((x.clone(), y.clone()));
                        }
                    }
                    params = rename(sp.params.as_ref().unwrap(), &ren);
                }
                let saved = std::mem::replace(&mut self.ren, ren);
                if let Some(r) = &sp.ret {
                    ret = format!(" -> ({r})");
                }
                if !sp.requires.is_empty() {
                    spec_text.push_str("\n requires ");
                    for x in &sp.requires {
                        spec_text.push_str(&self.ctext(&self.macros(&x.text, Some(&snap))));
                        spec_text.push_str(",\n ");
                    }
                }
                if !sp.ensures.is_empty() {
                    spec_text.push_str("\n ensures ");
                    for x in &sp.ensures {
                        spec_text.push_str(&self.ctext(&self.macros(&x.text, Some(&snap))));
                        spec_text.push_str(",\n ");
                    }
                }
                if let Some(s) = &sp.start {
                    start = self.ctext(&self.macros(s, Some(&snap)));
                }
                self.ren = saved;
            }
            None => self.clo_spec_missing = true,
        }
        let (ba, bb) = rng(c.body.span());
        head.push_str(&format!("|{params}|{ret}{spec_text} {{ let tracked mut __w = World::resume({snap}); {start} "));
        self.repl(a, ba, head);
        let saved_env = self.env.clone();
        let t = self.clo_param.take().unwrap_or(ty::Ty::Unk);
        for (i, p) in c.inputs.iter().enumerate() {
            ty::bind(p, if i + 1 == c.inputs.len() { t.clone() } else { ty::Ty::Unk }, &mut self.env);
        }
        self.scope += 1;
        self.visit_expr(&c.body);
        self.scope -= 1;
        self.env = saved_env;
        self.close(bb, " } }");
        debug_assert!(bb == b);
    }

    fn loop_spec(&mut self, k: usize, kind: &str, itv: &str) -> (String, String, String, String) {
        // (before, clauses, bstart, bend)
        let spec = self.c.and_then(|c| c.loops.get(&k));
        self.loop_kinds.push(kind.to_string());
        let sub = |me: &Self, t: &str| -> String {
            let t = t
                .replace("$it", itv)
                .replace("$k", &format!("__n{}_{k}", me.depth))
                .replace("$b", &format!("__b{}_{k}", me.depth));
            me.ctext(&me.macros(&t, Some(&format!("__s{}_{k}", me.depth))))
        };
        let mut cl = String::new();
        let mut before = String::new();
        let mut bs = String::new();
        let mut be = String::new();
        let mut inv: Vec<String> = vec![];
        let mut dec: Option<String> = None;
        if kind == "F" {
            let (s, n) = (format!("__s{}_{k}", self.depth), format!("__n{}_{k}", self.depth));
            inv.push(format!("0 <= {n} <= {s}.len()"));
            inv.push(format!("{itv}.seq() == {s}.skip({n})"));
            dec = Some(format!("{s}.len() - {n}"));
        }
        let mut ens = vec![];
        if let Some(sp) = spec {
            for x in &sp.inv {
                inv.push(sub(self, &x.text));
            }
            for x in &sp.ens {
                ens.push(sub(self, &x.text));
            }
            if let Some(d) = &sp.dec {
                dec = Some(sub(self, d));
            }
            before = sp.before.as_ref().map(|x| sub(self, x)).unwrap_or_default();
            bs = sp.bstart.as_ref().map(|x| sub(self, x)).unwrap_or_default();
            be = sp.bend.as_ref().map(|x| sub(self, x)).unwrap_or_default();
        }
        if let Some(sp) = spec {
            if !sp.invx.is_empty() {
                cl.push_str("\n invariant_except_break ");
                for x in &sp.invx {
                    cl.push_str(&sub(self, &x.text));
                    cl.push_str(",\n ");
                }
            }
        }
        if !inv.is_empty() {
            cl.push_str("\n invariant ");
            for x in &inv {
                cl.push_str(x);
                cl.push_str(",\n ");
            }
        }
        if kind == "F" {
            ens.insert(0, format!("__n{}_{k} == __s{}_{k}.len()", self.depth, self.depth));
        }
        if !ens.is_empty() && !(kind == "L") {
            cl.push_str("\n ensures ");
            for x in &ens {
                cl.push_str(x);
                cl.push_str(",\n ");
            }
        }
        if let Some(d) = dec {
            cl.push_str(&format!("\n decreases {d},\n "));
        }
        if self.w.vacuity {
            let mark = format!("\n proof {{ assert(false); }} /*VAC loop {k}*/\n");
            // the end of the body of a `loop` may be unreachable: probe its start
            if kind == "L" {
                bs.push_str(&mark);
            } else {
                be.push_str(&mark);
            }
        }
        (before, cl, bs, be)
    }

    /// the edited text of an expression that will be emitted a second time
    fn sub_text(&self, e: &Expr) -> Res<String> {
        let mut s = Ed::new(self.w, self.src, self.c);
        s.self_name = self.self_name.clone();
        s.scope = self.scope;
        s.closures = 1000;
        s.loops = 1000;
        s.fn_params = self.fn_params.clone();
        s.self_ty = self.self_ty.clone();
        s.assoc = self.assoc.clone();
        s.ren = self.ren.clone();
        s.depth = self.depth;
        s.env = self.env.clone();
        s.uid = 1000 + self.uid;
        s.visit_expr(e);
        if let Some(e) = s.err {
            return Err(e);
        }
        if s.closures > 1000 || s.loops > 1000 {
            return Err("closure or loop in a match arm that is emitted twice".into());
        }
        let (a, b) = rng(e.span());
        apply(self.text(), a, b, &s.edits)
    }
    /// `P if G => A, .., _ => B` becomes `P => if G { A } else { B }, .., _ => B` where no arm in
    /// between can match what P matches
    fn guarded_match(&mut self, m: &ExprMatch) {
        for a in &m.attrs {
            self.visit_attribute(a);
        }
        self.visit_expr(&m.expr);
        let mt = ty::of(&m.expr, &self.env);
        for (i, arm) in m.arms.iter().enumerate() {
            self.visit_pat(&arm.pat);
            ty::bind(&arm.pat, mt.clone(), &mut self.env);
            if let Some((_, g)) = &arm.guard {
                let mut rest = None;
                for b in &m.arms[i + 1..] {
                    if disjoint(&arm.pat, &b.pat) {
                        continue;
                    }
                    if b.guard.is_none() && matches!(b.pat, Pat::Wild(_)) {
                        rest = Some(&b.body);
                    }
                    break;
                }
                let t = match rest.map(|r| self.sub_text(r)) {
                    Some(Ok(t)) => t,
                    // left as it is
                    _ => {
                        self.visit_expr(g);
                        self.visit_expr(&arm.body);
                        continue;
                    }
                };
                let (_, pe) = rng(arm.pat.span());
                let (ga, gb) = rng(g.span());
                let (ba, bb) = rng(arm.body.span());
                self.repl(pe, ga, " => { if (");
                self.visit_expr(g);
                self.repl(gb, ba, ") { ");
                self.visit_expr(&arm.body);
                self.close(bb, format!(" }} else {{ {t} }} }}"));
            } else {
                self.visit_expr(&arm.body);
            }
        }
    }
    fn has_break(b: &Block) -> bool {
        struct B(bool, usize);
        impl<'a> Visit<'a> for B {
            fn visit_expr_break(&mut self, _: &'a ExprBreak) {
                if self.1 == 0 {
                    self.0 = true
                }
            }
            fn visit_expr_for_loop(&mut self, i: &'a ExprForLoop) {
                self.1 += 1;
                visit::visit_expr_for_loop(self, i);
                self.1 -= 1;
            }
            fn visit_expr_while(&mut self, i: &'a ExprWhile) {
                self.1 += 1;
                visit::visit_expr_while(self, i);
                self.1 -= 1;
            }
            fn visit_expr_loop(&mut self, i: &'a ExprLoop) {
                self.1 += 1;
                visit::visit_expr_loop(self, i);
                self.1 -= 1;
            }
            fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        }
        let mut x = B(false, 0);
        x.visit_block(b);
        x.0
    }

    fn strip_exhaust(cl: String, brk: bool) -> String {
        // with a `break` in the body the loop need not exhaust the iterator
        if brk {
            let mut out = String::new();
            let mut lines: Vec<&str> = cl.split('\n').collect();
            let mut i = 0;
            while i < lines.len() {
                if lines[i].trim_start().starts_with("ensures __n") {
                    // drop only the exhaustion clause
                    let has_more = i + 1 < lines.len() && !lines[i + 1].trim().is_empty() && !lines[i + 1].trim_start().starts_with("decreases");
                    lines[i] = if has_more { " ensures " } else { "" };
                }
                out.push_str(lines[i]);
                out.push('\n');
                i += 1;
            }
            out
        } else {
            cl
        }
    }

    fn for_loop(&mut self, f: &ExprForLoop) {
        if f.label.is_some() {
            self.fail("labelled loop");
        }
        let (fa, _) = rng(f.for_token.span);
        let (_, bb) = rng(f.body.span());
        self.emit_for(fa, bb, &f.pat, &f.expr, Err(&f.body));
    }

    /// a `for` loop (body: block) or `iterator.for_each(|pat| body)` (body: expression)
    fn emit_for(&mut self, fa: usize, end: usize, pat: &Pat, expr: &Expr, body: std::result::Result<&Expr, &Block>) {
        let k = self.loops;
        self.loops += 1;
        let d = self.depth;
        let itv = format!("__it{d}_{k}");
        let (before, cl, bs, be) = self.loop_spec(k, "F", &itv);
        let brk = body.err().map_or(false, Self::has_break);
        let cl = Self::strip_exhaust(cl, brk);
        let (ea, eb) = rng(expr.span());
        let (ba, bb) = match body {
            Ok(e) => rng(e.span()),
            Err(b) => rng(b.span()),
        };
        let pt = match pat {
            Pat::Type(t) => self.slice(t.pat.span()).to_string(),
            p => self.slice(p.span()).to_string(),
        };
        self.repl(fa, ea, format!("{{ let mut {itv} = ("));
        self.visit_expr(expr);
        let t = ty::of(expr, &self.env);
        ty::bind(pat, if let ty::Ty::It(x) = t { *x } else { ty::Ty::Unk }, &mut self.env);
        let w = self.wargs();
        self.repl(
            eb,
            ba,
            format!(
                ").w_into_iter({w}); let ghost __s{d}_{k} = {itv}.seq(); let ghost mut __n{d}_{k}: int = 0; let ghost __b{d}_{k} = __w@;\n {before}\n loop {cl} {{ match {itv}.w_next({w}) {{ Some({pt}) => {{ proof {{ __n{d}_{k} = __n{d}_{k} + 1; }} {bs} "
            ),
        );
        match body {
            Ok(e) => {
                self.visit_expr(e);
                self.repl(bb, end, format!("; {be} }}, None => break, }} }} }}"));
            }
            Err(b) => {
                self.visit_block(b);
                self.close(bb, format!(" {be} }}, None => break, }} }} }}"));
            }
        }
    }

    /// `iterator.take_while(|pat| cond).count()`
    fn emit_count(&mut self, a: usize, b: usize, c: &ExprClosure, expr: &Expr) {
        let k = self.loops;
        self.loops += 1;
        let d = self.depth;
        let itv = format!("__it{d}_{k}");
        let (before, cl, bs, be) = self.loop_spec(k, "F", &itv);
        let cl = Self::strip_exhaust(cl, true);
        let (ea, eb) = rng(expr.span());
        let (ba, bb) = rng(c.body.span());
        let pt = match &c.inputs[0] {
            Pat::Type(t) => self.slice(t.pat.span()).to_string(),
            p => self.slice(p.span()).to_string(),
        };
        self.repl(a, ea, format!("{{ let mut __cnt: usize = 0; {{ let mut {itv} = ("));
        self.visit_expr(expr);
        let t = ty::of(expr, &self.env);
        ty::bind(&c.inputs[0], if let ty::Ty::It(x) = t { *x } else { ty::Ty::Unk }, &mut self.env);
        let w = self.wargs();
        self.repl(
            eb,
            ba,
            format!(
                ").w_into_iter({w}); let ghost __s{d}_{k} = {itv}.seq(); let ghost mut __n{d}_{k}: int = 0; let ghost __b{d}_{k} = __w@;\n {before}\n loop {cl} {{ match {itv}.w_next({w}) {{ Some(__item) => {{ let {pt} = &__item; proof {{ __n{d}_{k} = __n{d}_{k} + 1; }} {bs} if !("
            ),
        );
        self.visit_expr(&c.body);
        self.repl(bb, b, format!(") {{ break; }} __cnt += 1; {be} }}, None => break, }} }} }} __cnt }}"));
    }

    fn while_loop(&mut self, f: &ExprWhile) {
        let k = self.loops;
        self.loops += 1;
        let d = self.depth;
        if f.label.is_some() {
            self.fail("labelled loop");
        }
        let (wa, _) = rng(f.while_token.span);
        let (ca, cb) = rng(f.cond.span());
        let (ba, bb) = rng(f.body.span());
        if let Expr::Let(l) = &*f.cond {
            // while let Some(p) = it.next()
            if let (Pat::TupleStruct(ts), Expr::MethodCall(mc)) = (&*l.pat, &*l.expr) {
                if ts.path.is_ident("Some") && mc.method == "next" && ts.elems.len() == 1 {
                    if let Expr::Path(p) = &*mc.receiver {
                        let itv = toks(p);
                        let pat = self.slice(ts.elems[0].span()).to_string();
                        let (before, cl, bs, be) = self.loop_spec(k, "F", &itv);
                        let cl = Self::strip_exhaust(cl, Self::has_break(&f.body));
                        let w = self.wargs();
                        let it = ty::of(&l.expr, &self.env);
                        ty::bind(&l.pat, it, &mut self.env);
                        self.repl(wa, ba, format!("{{ let ghost __s{d}_{k} = {itv}.seq(); let ghost mut __n{d}_{k}: int = 0; let ghost __b{d}_{k} = __w@;\n {before}\n loop {cl} {{ match {itv}.w_next({w}) {{ Some({pat}) => {{ proof {{ __n{d}_{k} = __n{d}_{k} + 1; }} {bs} "));
                        self.visit_block(&f.body);
                        self.close(bb, format!(" {be} }}, None => break, }} }} }}"));
                        return;
                    }
                }
            }
            let _ = (ca, cb);
            self.fail("while let");
            return;
        }
        let (before, cl, bs, be) = self.loop_spec(k, "W", "__none");
        self.open(wa, format!("{{ let ghost __b{d}_{k} = __w@; {before}\n "));
        self.visit_expr(&f.cond);
        self.repl(cb, ba, format!(" {cl} "));
        let (o, c) = (rng(f.body.brace_token.span.open()).1, rng(f.body.brace_token.span.close()).0);
        self.open(o, format!(" {bs} "));
        self.visit_block(&f.body);
        self.close(c, format!(" {be} "));
        self.close(bb, " }");
    }

    fn loop_loop(&mut self, f: &ExprLoop) {
        let k = self.loops;
        self.loops += 1;
        let d = self.depth;
        if f.label.is_some() {
            self.fail("labelled loop");
        }
        let (wa, we) = rng(f.loop_token.span);
        let (ba, _) = rng(f.body.span());
        let (before, cl, bs, be) = self.loop_spec(k, "L", "__none");
        self.open(wa, format!("{{ let ghost __b{d}_{k} = __w@; {before}\n "));
        self.repl(we, ba, format!(" {cl} "));
        let (o, c) = (rng(f.body.brace_token.span.open()).1, rng(f.body.brace_token.span.close()).0);
        self.open(o, format!(" {bs} "));
        self.visit_block(&f.body);
        self.close(c, format!(" {be} "));
        self.close(rng(f.body.span()).1, " }");
    }

    fn mac(&mut self, m: &Macro) -> bool {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let (a, b) = rng(m.span());
        let parse = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
        let pan = self.panics();
        match name.as_str() {
            "assert" | "debug_assert" => {
                let args = match parse {
                    Ok(x) => x,
                    Err(e) => {
                        self.fail(format!("assert!: {e}"));
                        return true;
                    }
                };
                let cond = &args[0];
                let (ca, cb) = rng(cond.span());
                self.repl(a, ca, "crate::stub::rt_assert(");
                self.visit_expr(cond);
                self.repl(cb, b, format!(", Ghost({pan}))"));
                true
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let args = match parse {
                    Ok(x) if x.len() >= 2 => x,
                    _ => {
                        self.fail("assert_eq!");
                        return true;
                    }
                };
                let (la, lb) = rng(args[0].span());
                let (ra, rb) = rng(args[1].span());
                let neg = if name.ends_with("ne") { "!" } else { "" };
                self.repl(a, la, format!("crate::stub::rt_assert({neg}crate::stub::PartialEq::w_eq(&("));
                self.visit_expr(&args[0]);
                self.repl(lb, ra, "), &(");
                self.visit_expr(&args[1]);
                let w = self.wargs();
                self.repl(rb, b, format!("), {w}), Ghost({pan}))"));
                true
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.repl(a, b, format!("crate::stub::rt_panic(Ghost({pan}))"));
                true
            }
            "write" => {
                let args = match parse {
                    Ok(x) if x.len() >= 2 => x,
                    _ => {
                        self.fail("write!");
                        return true;
                    }
                };
                let f = self.slice(args[0].span()).to_string();
                let lit = match &args[1] {
                    Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                    _ => {
                        self.fail("write! without literal");
                        return true;
                    }
                };
                let mut pieces: Vec<String> = vec![];
                let mut rest = lit.as_str();
                let mut argi = 2;
                let w = self.wargs();
                let mut ok = true;
                while !rest.is_empty() {
                    match rest.find('{') {
                        Some(i) => {
                            if rest[i..].starts_with("{{") || rest[..i].contains('}') {
                                ok = false;
                                break;
                            }
                            if i > 0 {
                                pieces.push(format!("{f}.w_lit({:?}, {w})", &rest[..i]));
                            }
                            let j = match rest[i..].find('}') {
                                Some(j) => i + j,
                                None => {
                                    ok = false;
                                    break;
                                }
                            };
                            let spec = &rest[i + 1..j];
                            let (nm, fm) = match spec.split_once(':') {
                                Some((n, f)) => (n, f),
                                None => (spec, ""),
                            };
                            if fm != "?" {
                                ok = false;
                                break;
                            }
                            let arg = if nm.is_empty() {
                                if argi >= args.len() {
                                    ok = false;
                                    break;
                                }
                                argi += 1;
                                self.slice(args[argi - 1].span()).to_string()
                            } else {
                                nm.to_string()
                            };
                            if !arg.chars().all(ident_like) {
                                ok = false;
                                break;
                            }
                            pieces.push(format!("{f}.w_dbg({arg}, {w})"));
                            rest = &rest[j + 1..];
                        }
                        None => {
                            if rest.contains('}') {
                                ok = false;
                            }
                            pieces.push(format!("{f}.w_lit({rest:?}, {w})"));
                            break;
                        }
                    }
                }
                if !ok || pieces.is_empty() {
                    self.fail("write! format not supported");
                    return true;
                }
                // short circuit on the first error, as write! does
                let mut t = pieces.pop().unwrap();
                while let Some(p) = pieces.pop() {
                    t = format!("match {p} {{ Ok(_) => {t}, Err(__e) => Err(__e) }}");
                }
                self.repl(a, b, format!("({t})"));
                true
            }
            "matches" => {
                // matches!(e, pat if guard): parsed from the source text so that positions are kept
                let parts = m.parse_body_with(|p: parse::ParseStream| {
                    let e: Expr = p.parse()?;
                    p.parse::<Token![,]>()?;
                    let pat = Pat::parse_multi_with_leading_vert(p)?;
                    let g: Option<Expr> = if p.peek(Token![if]) {
                        p.parse::<Token![if]>()?;
                        Some(p.parse()?)
                    } else {
                        None
                    };
                    let _ = p.parse::<Option<Token![,]>>()?;
                    Ok((e, pat, g))
                });
                match parts {
                    Ok((e, pat, g)) => {
                        let (ea, eb) = rng(e.span());
                        let (pa, pb) = rng(pat.span());
                        self.repl(a, ea, "(match ");
                        self.visit_expr(&e);
                        let t = ty::of(&e, &self.env);
                        self.repl(eb, pa, " { ");
                        self.visit_pat(&pat);
                        ty::bind(&pat, t, &mut self.env);
                        match &g {
                            Some(g) => {
                                let (ga, gb) = rng(g.span());
                                self.repl(pb, ga, " => (");
                                self.visit_expr(g);
                                self.repl(gb, b, "), _ => false })");
                            }
                            None => self.repl(pb, b, " => true, _ => false })"),
                        }
                    }
                    Err(e) => self.fail(format!("matches!: {e}")),
                }
                true
            }
            other => {
                self.fail(format!("macro {other}!"));
                true
            }
        }
    }

    /// combinators with a closure literal are written out; returns false if the call stays a call
    fn combinator(&mut self, c: &ExprMethodCall) -> bool {
        let name = c.method.to_string();
        let (ca, cb) = rng(c.span());
        let (_, re) = rng(c.receiver.span());
        let rt = ty::of(&c.receiver, &self.env);
        let is_opt = matches!(rt, ty::Ty::Opt(_));
        let clo = |i: usize| match c.args.iter().nth(i) {
            Some(Expr::Closure(k)) if !leaves(&k.body) => Some(k),
            _ => None,
        };
        let pat_of = |me: &Self, k: &ExprClosure| match &k.inputs[0] {
            Pat::Type(t) => me.slice(t.pat.span()).to_string(),
            p => me.slice(p.span()).to_string(),
        };
        let payload = match &rt {
            ty::Ty::Opt(x) => (**x).clone(),
            t => t.clone(),
        };
        // option
        match (name.as_str(), c.args.len()) {
            ("and_then" | "map" | "is_some_and" | "filter", 1) if is_opt || name == "and_then" => {
                if let Some(k) = clo(0).filter(|k| k.inputs.len() == 1) {
                    let pat = pat_of(self, k);
                    let (ba, bb) = rng(k.body.span());
                    self.open(ca, "(match ");
                    self.visit_expr(&c.receiver);
                    ty::bind(&k.inputs[0], payload, &mut self.env);
                    self.repl(re, ba, match name.as_str() {
                        "map" => format!(" {{ Some({pat}) => Some("),
                        "filter" => format!(" {{ Some(__ov) => {{ let {pat} = &__ov; if "),
                        _ => format!(" {{ Some({pat}) => "),
                    });
                    self.visit_expr(&k.body);
                    self.repl(bb, cb, match name.as_str() {
                        "map" => "), None => None })",
                        "filter" => " { Some(__ov) } else { None } }, None => None })",
                        "is_some_and" => ", None => false })",
                        _ => ", None => None })",
                    });
                    return true;
                }
                if let Some(Expr::Path(p)) = c.args.first() {
                    let user = self.user_fn(&c.args[0]);
                    if (user || is_fn_path(p)) && name != "filter" {
                        let (pa, pb) = rng(p.span());
                        let w = self.wargs();
                        self.open(ca, "(match ");
                        self.visit_expr(&c.receiver);
                        let f = if user { format!("{{ crate::stub::w_user({w}); {}(__ov) }}", self.slice(p.span())) } else { self.path_call(p, "__ov") };
                        self.repl(re, pa, " { Some(__ov) => ");
                        self.repl(pa, pb, match name.as_str() {
                            "map" => format!("Some({f})"),
                            _ => f,
                        });
                        self.repl(pb, cb, if name == "is_some_and" { ", None => false })" } else { ", None => None })" });
                        return true;
                    }
                }
            }
            ("map_or", 2) if is_opt && is_pure(&c.args[0]) => {
                if let Some(k) = clo(1).filter(|k| k.inputs.len() == 1) {
                    let pat = pat_of(self, k);
                    let (ba, bb) = rng(k.body.span());
                    let d = match self.sub_text(&c.args[0]) {
                        Ok(d) => d,
                        Err(_) => return false,
                    };
                    self.open(ca, "(match ");
                    self.visit_expr(&c.receiver);
                    ty::bind(&k.inputs[0], payload, &mut self.env);
                    self.repl(re, ba, format!(" {{ Some({pat}) => "));
                    self.visit_expr(&k.body);
                    self.repl(bb, cb, format!(", None => {d} }})"));
                    return true;
                }
            }
            ("map_or_else", 2) if is_opt => {
                if let (Some(d), Some(k)) = (clo(0).filter(|k| k.inputs.is_empty()), clo(1).filter(|k| k.inputs.len() == 1)) {
                    let pat = pat_of(self, k);
                    let (da, db) = rng(d.body.span());
                    let (ba, bb) = rng(k.body.span());
                    self.open(ca, "(match ");
                    self.visit_expr(&c.receiver);
                    self.repl(re, da, " { None => ");
                    self.visit_expr(&d.body);
                    ty::bind(&k.inputs[0], payload, &mut self.env);
                    self.repl(db, ba, format!(", Some({pat}) => "));
                    self.visit_expr(&k.body);
                    self.repl(bb, cb, " })");
                    return true;
                }
            }
            ("unwrap_or_else" | "or_else", 1) if is_opt => {
                if let Some(k) = clo(0).filter(|k| k.inputs.is_empty()) {
                    let (ba, bb) = rng(k.body.span());
                    self.open(ca, "(match ");
                    self.visit_expr(&c.receiver);
                    self.repl(re, ba, if name == "or_else" { " { Some(__ov) => Some(__ov), None => " } else { " { Some(__ov) => __ov, None => " });
                    self.visit_expr(&k.body);
                    self.repl(bb, cb, " })");
                    return true;
                }
            }
            ("flatten", 0) if matches!(&rt, ty::Ty::Opt(x) if matches!(**x, ty::Ty::Opt(_))) => {
                self.open(ca, "(match ");
                self.visit_expr(&c.receiver);
                self.repl(re, cb, " { Some(__ov) => __ov, None => None })");
                return true;
            }
            ("then", 1) => {
                if let Some(k) = clo(0).filter(|k| k.inputs.is_empty()) {
                    let (ba, bb) = rng(k.body.span());
                    self.open(ca, "(if ");
                    self.visit_expr(&c.receiver);
                    self.repl(re, ba, " { Some(");
                    self.visit_expr(&k.body);
                    self.repl(bb, cb, ") } else { None })");
                    return true;
                }
            }
            ("then_some", 1) => {
                let (xa, xb) = rng(c.args[0].span());
                self.open(ca, "({ let __c = ");
                self.visit_expr(&c.receiver);
                self.repl(re, xa, "; let __ov = ");
                self.visit_expr(&c.args[0]);
                self.repl(xb, cb, "; if __c { Some(__ov) } else { None } })");
                return true;
            }
            ("count", 0) => {
                // number of leading items with the property
                if let Expr::MethodCall(t) = &*c.receiver {
                    if t.method == "take_while" && t.args.len() == 1 {
                        if let Some(Expr::Closure(k)) = t.args.first() {
                            if k.inputs.len() == 1 && !leaves(&k.body) {
                                self.emit_count(ca, cb, k, &t.receiver);
                                return true;
                            }
                        }
                    }
                }
            }
            ("for_each", 1) => {
                if let Some(k) = clo(0).filter(|k| k.inputs.len() == 1) {
                    self.emit_for(ca, cb, &k.inputs[0], &c.receiver, Ok(&k.body));
                    return true;
                }
            }
            _ => {}
        }
        // element: acquire, run the body, release
        if name == "map" && c.args.len() == 1 && (rt == ty::Ty::Elem || self.c.map_or(false, |c| c.locks)) {
            if let Some(k) = clo(0).filter(|k| k.inputs.len() == 1) {
                let pat = pat_of(self, k);
                self.uid += 1;
                let ev = format!("__pe{}_{}", self.depth, self.uid);
                let (ba, bb) = rng(k.body.span());
                self.open(ca, format!("({{ let {ev} = &("));
                self.visit_expr(&c.receiver);
                ty::bind(&k.inputs[0], ty::Ty::Unk, &mut self.env);
                let w = self.wargs();
                self.repl(re, ba, format!("); let {pat} = {ev}.w_peek({w}); let __pr = "));
                self.visit_expr(&k.body);
                self.repl(bb, cb, format!("; {ev}.w_unpeek({w}); __pr }})"));
                return true;
            }
            let f = match &c.args[0] {
                Expr::Reference(r) => &*r.expr,
                e => e,
            };
            if self.user_fn(f) {
                self.uid += 1;
                let ev = format!("__pe{}_{}", self.depth, self.uid);
                let fname = self.slice(f.span()).to_string();
                self.open(ca, format!("({{ let {ev} = &("));
                self.visit_expr(&c.receiver);
                let w = self.wargs();
                self.repl(re, cb, format!("); let __pv = {ev}.w_peek({w}); crate::stub::w_user({w}); let __pr = {fname}(__pv); {ev}.w_unpeek({w}); __pr }})"));
                return true;
            }
        }
        false
    }

    /// `Type::method(arg)`
    fn path_call(&mut self, p: &ExprPath, arg: &str) -> String {
        let (a, b) = rng(p.span());
        let (la, _) = rng(p.path.segments.last().unwrap().ident.span());
        let mut e = Ed::new(self.w, self.src, None);
        e.self_name = self.self_name.clone();
        e.self_ty = self.self_ty.clone();
        e.root(&p.path, true);
        e.open(la, "w_");
        let n = p.path.segments.len();
        let q = p.path.segments[n - 2].ident.to_string();
        let q = if q == "Self" { self.self_ty.clone().unwrap_or(q) } else { q };
        if let Some(&i) = self.w.owned.get(&(q, p.path.segments[n - 1].ident.to_string())) {
            self.calls.insert(self.w.m.funcs[i].key.clone());
        }
        let t = apply(self.text(), a, b, &e.edits).unwrap_or_default();
        let w = self.wargs();
        format!("{t}({arg}, {w})")
    }

    /// a function path given where the contract describes a closure
    fn closure_path(&mut self, p: &ExprPath) {
        let k = self.closures;
        self.closures += 1;
        self.uid += 1;
        let var = format!("__sn{}_{}", self.depth, self.uid);
        let snap = format!("{var}@");
        let (a, b) = rng(p.span());
        let sp = match self.c.and_then(|c| c.closures.get(&k)).filter(|s| s.params.as_ref().map_or(false, |p| split_top(p).len() == 1)) {
            Some(s) => s,
            None => {
                self.clo_spec_missing = true;
                self.fail("function given as argument where the contract has no closure");
                return;
            }
        };
        let params = rename(sp.params.as_ref().unwrap(), &self.ren);
        let arg = params.split(':').next().unwrap().trim().to_string();
        let mut spec = String::new();
        for (kw, l) in [("requires", &sp.requires), ("ensures", &sp.ensures)] {
            if !l.is_empty() {
                spec.push_str(&format!("\n {kw} "));
                for x in l {
                    spec.push_str(&self.ctext(&self.macros(&x.text, Some(&snap))));
                    spec.push_str(",\n ");
                }
            }
        }
        let ret = sp.ret.as_ref().map(|r| format!(" -> ({r})")).unwrap_or_default();
        self.scope += 1;
        let call = self.path_call(p, &arg);
        self.scope -= 1;
        self.repl(a, b, format!("{{ let {var}: Ghost<WS> = Ghost(__w@); |{params}|{ret}{spec} {{ let tracked mut __w = World::resume({snap}); {call} }} }}"));
    }

    #[allow(dead_code)]
    fn closure_one_ident(c: &ExprClosure) -> Option<String> {
        if c.inputs.len() != 1 {
            return None;
        }
        match &c.inputs[0] {
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => Some(i.ident.to_string()),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(i) => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        }
    }

    fn inline_body(&mut self, idx: usize) -> Res<String> {
        let f = &self.w.m.funcs[idx];
        if self.depth > 3 {
            return Err("inlining too deep".into());
        }
        let mut ed = Ed::new(self.w, f.src, self.c);
        ed.depth = self.depth + 1;
        ed.uid = self.uid + 100;
        ed.scope = self.scope;
        ed.closures = self.closures;
        ed.loops = self.loops;
        ed.ren = self.ren.clone();
        ed.env = ty::env_of(&f.sig, f.owner.as_deref());
        ed.fn_params = fn_params_of(&f.sig, f.impl_generics.as_ref());
        ed.self_ty = self.self_ty.clone();
        if f.owner.is_some() && f.owner != self.self_ty {
            ed.self_name = f.owner.clone();
        }
        ed.visit_block(&f.block);
        if let Some(e) = ed.err {
            return Err(e);
        }
        self.closures = ed.closures;
        self.loops = ed.loops;
        self.loop_kinds.extend(ed.loop_kinds);
        self.uid = ed.uid;
        self.clo_spec_missing |= ed.clo_spec_missing;
        self.inlined.push(f.key.clone());
        self.inlined.extend(ed.inlined);
        self.calls.extend(ed.calls);
        let (a, b) = rng(f.block.span());
        apply(&self.w.m.srcs[f.src].text, a, b, &ed.edits)
    }

    /// `recv.helper(args)`: the body of the helper with `self` renamed; only bodies without loops and
    /// closures, into which no text of the caller's contract is spliced
    fn try_inline_on(&mut self, idx: usize, c: &ExprMethodCall) -> bool {
        let f = &self.w.m.funcs[idx];
        let mut params = vec![];
        for a in &f.sig.inputs {
            if let FnArg::Typed(t) = a {
                let (x, y) = rng(t.pat.span());
                params.push(self.w.m.srcs[f.src].text[x..y].to_string());
            }
        }
        if params.len() != c.args.len() || self.depth > 3 {
            return false;
        }
        let mut ed = Ed::new(self.w, f.src, self.c);
        ed.depth = self.depth + 1;
        ed.uid = self.uid + 100;
        ed.scope = self.scope;
        ed.closures = self.closures;
        ed.loops = self.loops;
        ed.env = ty::env_of(&f.sig, f.owner.as_deref());
        ed.fn_params = fn_params_of(&f.sig, f.impl_generics.as_ref());
        ed.self_ty = f.owner.clone();
        ed.self_name = f.owner.clone();
        ed.visit_block(&f.block);
        if ed.err.is_some() || ed.closures != self.closures || ed.loops != self.loops || has_return(&f.block) {
            return false;
        }
        let (a, b) = rng(f.block.span());
        let text = match apply(&self.w.m.srcs[f.src].text, a, b, &ed.edits) {
            Ok(t) => t,
            Err(_) => return false,
        };
        let me = format!("__self{}", ed.uid);
        let text = rename(&text, &[("self".to_string(), me.clone())]);
        let uid = ed.uid;
        let (inl, calls, miss) = (ed.inlined, ed.calls, ed.clo_spec_missing);
        self.uid = uid;
        self.clo_spec_missing |= miss;
        self.inlined.push(f.key.clone());
        self.inlined.extend(inl);
        self.calls.insert(f.key.clone());
        self.calls.extend(calls);
        let (ca, cb) = rng(c.span());
        let (_, re) = rng(c.receiver.span());
        let by_ref = f.sig.receiver().map_or(false, |r| r.reference.is_some());
        self.open(ca, format!("({{ let {me} = {}(", if by_ref { "&" } else { "" }));
        self.visit_expr(&c.receiver);
        let mut pre = String::from(")");
        let mut pos = re;
        for (i, e) in c.args.iter().enumerate() {
            let (x, y) = rng(e.span());
            self.repl(pos, x, format!("{pre}; let __a{uid}_{i} = "));
            self.visit_expr(e);
            pre.clear();
            pos = y;
        }
        pre.push_str("; ");
        for (i, p) in params.iter().enumerate() {
            pre.push_str(&format!("let {p} = __a{uid}_{i}; "));
        }
        self.repl(pos, cb, format!("{pre}{text} }})"));
        true
    }

    /// call of a crate function without contract: replace the call by its body
    fn try_inline(&mut self, idx: usize, call: Span, args: &punctuated::Punctuated<Expr, Token![,]>) -> bool {
        if !self.w.inlinable.contains(&idx) {
            return false;
        }
        let f = &self.w.m.funcs[idx];
        let params: Vec<String> = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => Some(self.w.m.srcs[f.src].text[rng(t.pat.span()).0..rng(t.pat.span()).1].to_string()),
                _ => None,
            })
            .collect();
        if params.len() != args.len() {
            return false;
        }
        let (a, b) = rng(call);
        let mut pos = a;
        let mut pre = String::from("({ ");
        for (i, (p, e)) in params.iter().zip(args.iter()).enumerate() {
            let (x, y) = rng(e.span());
            pre.push_str(&format!("let __a{}_{i} = ", self.depth));
            let _ = p;
            self.repl(pos, x, pre.clone());
            self.visit_expr(e);
            pre = "; ".into();
            pos = y;
        }
        for (i, p) in params.iter().enumerate() {
            pre.push_str(&format!("let {p} = __a{}_{i}; ", self.depth));
        }
        match self.inline_body(idx) {
            Ok(t) => self.repl(pos, b, format!("{pre} {t} }})")),
            Err(e) => self.fail(e),
        }
        true
    }
}

/// no value matches both patterns (different constructors, syntactically)
fn disjoint(a: &Pat, b: &Pat) -> bool {
    fn ctor(p: &Pat) -> Option<String> {
        match p {
            Pat::TupleStruct(t) => t.path.segments.last().map(|s| s.ident.to_string()),
            Pat::Path(t) => t.path.segments.last().map(|s| s.ident.to_string()),
            Pat::Ident(i) if i.ident.to_string().starts_with(char::is_uppercase) && i.subpat.is_none() => Some(i.ident.to_string()),
            Pat::Paren(p) => ctor(&p.pat),
            _ => None,
        }
    }
    match (a, b) {
        (Pat::Tuple(x), Pat::Tuple(y)) if x.elems.len() == y.elems.len() => x.elems.iter().zip(&y.elems).any(|(p, q)| disjoint(p, q)),
        _ => matches!((ctor(a), ctor(b)), (Some(x), Some(y)) if x != y),
    }
}
fn split_top(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut d = 0i32;
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '<' | '(' | '[' => d += 1,
            '>' | ')' | ']' => d -= 1,
            ',' if d == 0 => {
                out.push(cur.trim().to_string());
                cur.clear();
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() {
        out.push(cur.trim().to_string());
    }
    out
}

fn bound_is_fn(bs: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> bool {
    bs.iter().any(|b| match b {
        TypeParamBound::Trait(t) => t.path.segments.last().map_or(false, |s| s.ident == "Fn" || s.ident == "FnMut" || s.ident == "FnOnce"),
        _ => false,
    })
}

fn fn_params_of(sig: &Signature, _ig: Option<&Generics>) -> HashSet<String> {
    let mut gens = HashSet::new();
    for g in &sig.generics.params {
        if let GenericParam::Type(t) = g {
            if bound_is_fn(&t.bounds) {
                gens.insert(t.ident.to_string());
            }
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if bound_is_fn(&t.bounds) {
                    gens.insert(toks(&t.bounded_ty));
                }
            }
        }
    }
    let mut out = HashSet::new();
    for i in &sig.inputs {
        if let FnArg::Typed(t) = i {
            let isf = match peel(&t.ty) {
                Type::ImplTrait(x) => bound_is_fn(&x.bounds),
                x => gens.contains(&toks(x)),
            };
            if isf {
                if let Pat::Ident(p) = &*t.pat {
                    out.insert(p.ident.to_string());
                }
            }
        }
    }
    out
}

/// evaluation has no effect and cannot fail
fn is_pure(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Path(_) => true,
        Expr::Paren(p) => is_pure(&p.expr),
        Expr::Unary(u) => is_pure(&u.expr),
        Expr::Tuple(t) => t.elems.iter().all(is_pure),
        _ => false,
    }
}
/// `Type::method`
fn is_fn_path(p: &ExprPath) -> bool {
    let n = p.path.segments.len();
    p.qself.is_none()
        && n >= 2
        && p.path.segments[n - 1].ident.to_string().starts_with(char::is_lowercase)
        && p.path.segments[n - 2].ident.to_string().starts_with(char::is_uppercase)
}
/// contains a `return` or `?` of the closure itself
fn leaves(e: &Expr) -> bool {
    struct R(bool);
    impl<'a> Visit<'a> for R {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut r = R(false);
    r.visit_expr(e);
    r.0
}

fn is_int_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(_), .. }) | Expr::Lit(ExprLit { lit: Lit::Bool(_), .. }) => true,
        Expr::Paren(p) => is_int_lit(&p.expr),
        _ => false,
    }
}

impl<'ast, 'w, 'm> Visit<'ast> for Ed<'w, 'm> {
    fn visit_attribute(&mut self, i: &'ast Attribute) {
        let (a, b) = rng(i.span());
        self.repl(a, b, "");
    }
    fn visit_path(&mut self, p: &'ast Path) {
        self.root(p, false);
        visit::visit_path(self, p);
    }
    fn visit_path_segment(&mut self, s: &'ast PathSegment) {
        if s.ident == "Self" {
            if let Some(n) = self.self_name.clone() {
                let (a, b) = rng(s.ident.span());
                self.repl(a, b, n);
            }
        }
        if s.ident == "FnMut" {
            let (a, b) = rng(s.ident.span());
            self.repl(a, b, "Fn");
        }
        visit::visit_path_segment(self, s);
    }
    fn visit_type_bare_fn(&mut self, t: &'ast TypeBareFn) {
        // a function pointer is some closure
        let (a, b) = rng(t.fn_token.span);
        self.repl(a, b, "impl Fn");
        visit::visit_type_bare_fn(self, t);
    }
    fn visit_type_impl_trait(&mut self, t: &'ast TypeImplTrait) {
        for b in &t.bounds {
            if let TypeParamBound::Trait(tb) = b {
                let seg = tb.path.segments.last().unwrap();
                if seg.ident == "Iterator" || seg.ident == "ExactSizeIterator" || seg.ident == "DoubleEndedIterator" {
                    if let PathArguments::AngleBracketed(ab) = &seg.arguments {
                        for g in &ab.args {
                            if let GenericArgument::AssocType(at) = g {
                                if at.ident == "Item" {
                                    let (a, b) = rng(t.span());
                                    let (x, y) = rng(at.ty.span());
                                    self.repl(a, x, "It<");
                                    self.visit_type(&at.ty);
                                    self.repl(y, b, ">");
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
        visit::visit_type_impl_trait(self, t);
    }
    fn visit_local(&mut self, l: &'ast Local) {
        for a in &l.attrs {
            self.visit_attribute(a);
        }
        if let Pat::Slice(ps) = &l.pat {
            let names: Option<Vec<String>> = ps
                .elems
                .iter()
                .map(|p| match p {
                    Pat::Ident(i) => Some(toks(i)),
                    Pat::Wild(_) => Some("_".into()),
                    _ => None,
                })
                .collect();
            if let (Some(names), Some(init)) = (names, &l.init) {
                self.uid += 1;
                let arr = format!("__arr{}_{}", self.depth, self.uid);
                let (a, b) = rng(ps.span());
                self.repl(a, b, arr.clone());
                self.visit_expr(&init.expr);
                let end = rng(l.span()).1;
                let mut t = String::new();
                for (i, n) in names.iter().enumerate() {
                    if n != "_" {
                        t.push_str(&format!(" let {n} = {arr}[{i}];"));
                    }
                }
                self.close(end, t);
                return;
            }
            self.fail("slice pattern");
        }
        if let Some(i) = &l.init {
            if i.diverge.is_some() {
                // let-else: keep
            }
        }
        self.visit_pat(&l.pat);
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
            if let Some((_, d)) = &i.diverge {
                self.visit_expr(d);
            }
        }
        let t = l.init.as_ref().map_or(ty::Ty::Unk, |i| ty::of(&i.expr, &self.env));
        ty::bind(&l.pat, t, &mut self.env);
    }
    fn visit_item(&mut self, i: &'ast Item) {
        // `use module::Type;` in a body: the names of the prelude are in scope anyway
        fn plain(t: &UseTree, module: bool) -> bool {
            match t {
                UseTree::Path(p) => plain(&p.tree, p.ident.to_string().chars().all(|c| !c.is_uppercase())),
                UseTree::Name(n) => module && n.ident.to_string().starts_with(|c: char| c.is_uppercase()),
                UseTree::Group(g) => g.items.iter().all(|t| plain(t, module)),
                _ => false,
            }
        }
        match i {
            Item::Use(u) if plain(&u.tree, false) => {
                let (a, b) = rng(u.span());
                self.repl(a, b, "");
            }
            _ => self.fail("nested item"),
        }
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        self.mac(m);
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::MethodCall(c) => {
                let name = c.method.to_string();
                let (ma, _) = rng(c.method.span());
                let (po, pc) = (rng(c.paren_token.span.open()).0, rng(c.paren_token.span.close()).0);
                let (_, _) = rng(c.span());
                if self.combinator(c) {
                    return;
                }
                // helper functions without contract
                if let Expr::Path(p) = &*c.receiver {
                    if p.path.is_ident("self") {
                        if let Some(st) = &self.self_ty {
                            if let Some(&i) = self.w.owned.get(&(st.clone(), name.clone())) {
                                self.calls.insert(self.w.m.funcs[i].key.clone());
                                let inl = self.try_inline(i, c.span(), &c.args);
                                if inl {
                                    return;
                                }
                            }
                        }
                    }
                }
                if !self.w.stub_names.contains(&format!("w_{name}")) {
                    // a helper method without contract of another object
                    let mut c2 = self.w.m.funcs.iter().enumerate().filter(|(_, f)| f.owner.is_some() && f.sig.ident == name.as_str());
                    if let (Some((i, f)), None) = (c2.next(), c2.next()) {
                        if self.w.inlinable.contains(&i) && f.sig.receiver().map_or(false, |r| r.mutability.is_none()) && self.try_inline_on(i, c) {
                            return;
                        }
                    }
                }
                self.calls.insert(format!(".{name}"));
                self.visit_expr(&c.receiver);
                if name == "expect" && self.c.map_or(false, |c| c.panics.is_some()) && c.args.len() == 1 {
                    let p = self.panics();
                    self.repl(ma, ma + name.len(), "w_expect_p");
                    self.visit_expr(&c.args[0]);
                    let w = self.wargs();
                    self.close(pc, format!(", Ghost({p}), {w}"));
                    return;
                }
                self.open(ma, "w_");
                if let Some(t) = &c.turbofish {
                    self.visit_angle_bracketed_generic_arguments(t);
                }
                let elem = match ty::of(&c.receiver, &self.env) {
                    ty::Ty::It(x) | ty::Ty::Opt(x) => Some(*x),
                    _ => None,
                };
                for a in &c.args {
                    match a {
                        Expr::Closure(_) => self.clo_param = elem.clone(),
                        Expr::Path(p) if is_fn_path(p) => {
                            self.closure_path(p);
                            continue;
                        }
                        _ => {}
                    }
                    self.visit_expr(a);
                }
                self.add_world(&name, pc, c.args.len(), c.args.trailing_punct());
            }
            Expr::Let(l) => {
                visit::visit_expr(self, e);
                let t = ty::of(&l.expr, &self.env);
                ty::bind(&l.pat, t, &mut self.env);
            }
            Expr::Match(m) if !m.arms.iter().any(|a| a.guard.is_some()) => {
                for a in &m.attrs {
                    self.visit_attribute(a);
                }
                self.visit_expr(&m.expr);
                let t = ty::of(&m.expr, &self.env);
                for arm in &m.arms {
                    self.visit_pat(&arm.pat);
                    ty::bind(&arm.pat, t.clone(), &mut self.env);
                    self.visit_expr(&arm.body);
                }
            }
            Expr::Call(c) => {
                let (ca, cb) = rng(c.span());
                let pc = rng(c.paren_token.span.close()).0;
                if self.user_fn(&c.func) {
                    let w = self.wargs();
                    self.open(ca, format!("({{ crate::stub::w_user({w}); "));
                    for a in &c.args {
                        self.visit_expr(a);
                    }
                    self.close(cb, " })");
                    return;
                }
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap();
                    let ln = last.ident.to_string();
                    let lower = ln.chars().next().map_or(false, |c| c.is_lowercase() || c == '_');
                    let n = p.path.segments.len();
                    let mut world = false;
                    if lower {
                        if n == 1 && p.qself.is_none() {
                            if let Some(&i) = self.w.free.get(&ln) {
                                self.calls.insert(self.w.m.funcs[i].key.clone());
                                if self.try_inline(i, c.span(), &c.args) {
                                    return;
                                }
                                world = true;
                            } else if self.w.stub_names.contains(&format!("w_{ln}")) {
                                world = true;
                            }
                        } else {
                            let q = p.path.segments[n - 2].ident.to_string();
                            let q = if q == "Self" { self.self_ty.clone().unwrap_or(q) } else { q };
                            if let Some(&i) = self.w.owned.get(&(q.clone(), ln.clone())) {
                                self.calls.insert(self.w.m.funcs[i].key.clone());
                                let has_self = self.w.m.funcs[i].sig.receiver().is_some();
                                if !has_self && self.try_inline(i, c.span(), &c.args) {
                                    return;
                                }
                            } else if q.chars().next().map_or(false, |c| c.is_lowercase()) {
                                // module path of a crate function
                                if let Some(&i) = self.w.free.get(&ln) {
                                    self.calls.insert(self.w.m.funcs[i].key.clone());
                                    if self.try_inline(i, c.span(), &c.args) {
                                        return;
                                    }
                                }
                            }
                            world = true;
                        }
                    }
                    self.root(&p.path, true);
                    if let Some(q) = &p.qself {
                        self.visit_type(&q.ty);
                    }
                    for s in &p.path.segments {
                        self.visit_path_arguments(&s.arguments);
                    }
                    if world {
                        let (la, _) = rng(last.ident.span());
                        self.open(la, "w_");
                    }
                    for a in &c.args {
                        self.visit_expr(a);
                    }
                    if world {
                        self.add_world(&last.ident.to_string(), pc, c.args.len(), c.args.trailing_punct());
                    }
                    return;
                }
                visit::visit_expr(self, e);
            }
            Expr::Macro(m) => {
                self.mac(&m.mac);
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && !is_int_lit(&b.left) && !is_int_lit(&b.right) => {
                let (a, z) = rng(b.span());
                let (_, le) = rng(b.left.span());
                let (rs, _) = rng(b.right.span());
                let neg = if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" };
                self.open(a, format!("({neg}crate::stub::PartialEq::w_eq(&("));
                self.visit_expr(&b.left);
                self.repl(le, rs, "), &(");
                self.visit_expr(&b.right);
                let w = self.wargs();
                self.close(z, format!("), {w}))"));
            }
            Expr::Index(i) => {
                let (a, z) = rng(i.span());
                let (_, be) = rng(i.expr.span());
                let (is, ie) = rng(i.index.span());
                self.open(a, "(*(");
                self.visit_expr(&i.expr);
                self.repl(be, is, ").w_index(");
                self.visit_expr(&i.index);
                let w = format!("{}{}", self.wargs(), self.pan_arg("index"));
                self.repl(ie, z, format!(", {w}))"));
            }
            Expr::Range(r) => {
                let (a, z) = rng(r.span());
                let (da, db) = match &r.limits {
                    RangeLimits::HalfOpen(t) => rng(t.span()),
                    RangeLimits::Closed(t) => rng(t.span()),
                };
                let closed = matches!(r.limits, RangeLimits::Closed(_));
                let name = match (&r.start, &r.end, closed) {
                    (Some(_), Some(_), false) => "Range { start: ",
                    (Some(_), Some(_), true) => "RangeInclusive { start: ",
                    (Some(_), None, _) => "RangeFrom { start: ",
                    (None, Some(_), false) => "RangeTo { end: ",
                    (None, Some(_), true) => "RangeToInclusive { end: ",
                    (None, None, _) => "RangeFull",
                };
                self.open(a, format!("(crate::stub::{name}"));
                if let Some(s) = &r.start {
                    self.visit_expr(s);
                }
                self.repl(da, db, if r.start.is_some() && r.end.is_some() { ", end: " } else { "" });
                if let Some(s) = &r.end {
                    self.visit_expr(s);
                }
                self.close(z, if r.start.is_none() && r.end.is_none() { ")" } else { " })" });
            }
            Expr::Reference(r) => {
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*r.expr {
                    if let Expr::Path(_) = &**expr {
                        let (a, z) = rng(r.span());
                        let (x, y) = rng(expr.span());
                        let w = self.wargs();
                        let f = if r.mutability.is_some() { "w_deref_mut" } else { "w_deref" };
                        self.repl(a, x, format!("crate::stub::{f}("));
                        self.visit_expr(expr);
                        if y == z {
                            self.close(y, format!(", {w})"));
                        } else {
                            self.repl(y, z, format!(", {w})"));
                        }
                        return;
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::Match(m) if m.arms.iter().any(|a| a.guard.is_some()) => self.guarded_match(m),
            Expr::Closure(c) => self.closure(c),
            Expr::ForLoop(f) => self.for_loop(f),
            Expr::While(f) => self.while_loop(f),
            Expr::Loop(f) => self.loop_loop(f),
            Expr::Async(_) | Expr::Await(_) | Expr::TryBlock(_) => self.fail("unsupported expression"),
            _ => visit::visit_expr(self, e),
        }
    }
}

fn main() {
    let mut args: HashMap<String, String> = HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        args.insert(k.trim_start_matches("--").to_string(), v);
    }
    match run(&args) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("extract: {e}");
            std::process::exit(3);
        }
    }
}

fn has_return(b: &Block) -> bool {
    struct R(bool);
    impl<'a> Visit<'a> for R {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut r = R(false);
    r.visit_block(b);
    r.0
}

/// functions without contract that are called by name in `b`, each name once
fn helpers_of(w: &World, b: &Block) -> Vec<usize> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
            self.0.push(c.method.to_string());
            visit::visit_expr_method_call(self, c);
        }
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if let Expr::Path(p) = &*c.func {
                self.0.push(p.path.segments.last().unwrap().ident.to_string());
            }
            visit::visit_expr_call(self, c);
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    let mut out = vec![];
    for n in v.0 {
        for (i, f) in w.m.funcs.iter().enumerate() {
            if f.name == n && w.inlinable.contains(&i) && !out.contains(&i) {
                out.push(i);
            }
        }
    }
    out
}
fn locals_of(b: &Block) -> Vec<String> {
    struct L(Vec<String>);
    impl<'a> Visit<'a> for L {
        fn visit_local(&mut self, l: &'a Local) {
            struct P<'x>(&'x mut Vec<String>);
            impl<'a, 'x> Visit<'a> for P<'x> {
                fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                    let s = p.ident.to_string();
                    if !self.0.contains(&s) {
                        self.0.push(s);
                    }
                }
            }
            P(&mut self.0).visit_pat(&l.pat);
            visit::visit_local(self, l);
        }
    }
    let mut l = L(vec![]);
    l.visit_block(b);
    l.0
}

fn run(args: &HashMap<String, String>) -> Res<()> {
    let repo = args.get("repo").ok_or("--repo")?;
    let cdir = args.get("contracts").ok_or("--contracts")?;
    let pdir = args.get("prelude").ok_or("--prelude")?;
    let bounded: HashSet<String> = args.get("bounded").map(|b| b.split('|').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let alt: HashMap<String, usize> = args
        .get("script")
        .map(|b| b.split('|').filter_map(|x| x.rsplit_once('=')).filter_map(|(k, n)| Some((k.to_string(), n.parse().ok()?))).collect())
        .unwrap_or_default();
    let m = Model::load(repo)?;
    let mut contracts = BTreeMap::new();
    let mut files: Vec<_> = std::fs::read_dir(cdir).map_err(|e| e.to_string())?.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "vc")).collect();
    files.sort();
    for f in files {
        let t = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
        for c in contract::parse(&f.file_name().unwrap().to_string_lossy(), &t) {
            if contracts.insert(c.key.clone(), c.clone()).is_some() {
                return Err(format!("duplicate contract {}", c.key));
            }
        }
    }
    let mut m = m;
    if let Some(d) = args.get("dep") {
        m.load_dep(d, &|k| contracts.contains_key(k))?;
    }
    if let Some(d) = args.get("opt") {
        m.load_opt(d, &|k| contracts.contains_key(k))?;
    }
    if let Some(d) = args.get("pvec") {
        m.load_pvec(d, &|k| contracts.contains_key(k))?;
    }
    let m = m;
    let stub = std::fs::read_to_string(format!("{pdir}/stub.rs")).map_err(|e| e.to_string())?;
    let glue = std::fs::read_to_string(format!("{pdir}/glue.rs")).map_err(|e| e.to_string())?;
    let mut stub_names: HashSet<String> = HashSet::new();
    {
        let mut prev = String::new();
        let mut cur = String::new();
        for ch in stub.chars().chain(" ".chars()) {
            if ident_like(ch) {
                cur.push(ch);
            } else if !cur.is_empty() {
                if ["struct", "enum", "fn", "trait", "type", "const", "mod"].contains(&prev.as_str()) {
                    stub_names.insert(cur.clone());
                }
                prev = std::mem::take(&mut cur);
            }
        }
    }
    let mut free = HashMap::new();
    let mut owned = HashMap::new();
    for (i, f) in m.funcs.iter().enumerate() {
        match f.kind {
            Kind::Free => {
                free.insert(f.name.clone(), i);
            }
            Kind::Inherent => {
                // several impl blocks may define the same name for different type arguments
                owned.insert((f.owner.clone().unwrap(), f.name.clone()), i);
            }
            _ => {}
        }
    }
    let mut inlinable = HashSet::new();
    for (i, f) in m.funcs.iter().enumerate() {
        let simple = f.sig.inputs.iter().all(|a| match a {
            FnArg::Receiver(_) => true,
            FnArg::Typed(t) => matches!(&*t.pat, Pat::Ident(_)),
        });
        if !m.srcs[f.src].dep && f.kind != Kind::TraitImpl && !contracts.contains_key(&f.key) && !has_return(&f.block) && simple {
            inlinable.insert(i);
        }
    }
    ty::RET.with(|r| {
        for &i in &inlinable {
            if let ReturnType::Type(_, t) = &m.funcs[i].sig.output {
                let g = ty::iter_generics(&m.funcs[i].sig);
                let t = ty::of_type(t, &g);
                let mut r = r.borrow_mut();
                let e = r.entry(m.funcs[i].name.clone()).or_insert(t.clone());
                if *e != t {
                    *e = ty::Ty::Unk;
                }
            }
        }
    });
    let pan_names = m.funcs.iter().filter(|f| !m.srcs[f.src].dep && (f.kind != Kind::TraitImpl || f.name == "index") && contracts.get(&f.key).map_or(false, |c| c.panics.is_some())).map(|f| f.name.clone()).collect();
    let wrapped = m.funcs.iter().filter(|f| m.srcs[f.src].dep && glue.contains(&format!("d_{}(", f.name))).map(|f| f.name.clone()).collect();
    let w = World { m: &m, contracts, free, owned, inlinable, stub_names, pan_names, wrapped, vacuity: args.get("vacuity").is_some() };

    let mut out = String::new();
    let mut jf = vec![];
    let mut jc = vec![];
    let line_of = |s: &str| s.matches('\n').count() + 1;
    out.push_str("#![allow(unused, non_camel_case_types, non_snake_case, unused_unsafe, dead_code)]\nuse vstd::prelude::*;\nverus! {\n");
    let p0 = line_of(&out);
    out.push_str(&stub);
    out.push_str(&std::fs::read_to_string(format!("{pdir}/consistent.rs")).map_err(|e| format!("consistent.rs: {e}"))?);
    out.push_str(&std::fs::read_to_string(format!("{pdir}/protocol.rs")).map_err(|e| format!("protocol.rs: {e}"))?);
    let p1 = line_of(&out);
    out.push_str("\npub mod krate {\nuse vstd::prelude::*;\nuse crate::stub::*;\nbroadcast use {crate::stub::ax_all};\n");
    let modname = |i: usize| {
        let mp = &m.srcs[i].modpath;
        if mp.is_empty() { "m_lib".to_string() } else { format!("m_{}", mp.join("_")) }
    };
    for i in 0..m.srcs.len() {
        out.push_str(&format!("pub use {}::*;\n", modname(i)));
    }
    let g0 = line_of(&out);
    out.push_str(&glue);
    let g1 = line_of(&out);
    let mut seen_keys: BTreeSet<String> = BTreeSet::new();
    let mut dropped_uses: Vec<String> = vec![];
    for (si, src) in m.srcs.iter().enumerate() {
        out.push_str(&format!("\npub mod {} {{\n// extracted from src/{}\nuse vstd::prelude::*;\nuse crate::stub::*;\nuse crate::krate::*;\nbroadcast use {{crate::stub::ax_all, crate::stub::lem_eid, crate::krate::ax_glue}};\n", modname(si), src.path));
        // uses
        let mut imported: HashSet<String> = HashSet::new();
        for (_, u) in m.uses.iter().filter(|(i, _)| *i == si) {
            let mut leaves: Vec<(Vec<String>, String)> = vec![];
            fn go(t: &UseTree, pre: Vec<String>, o: &mut Vec<(Vec<String>, String)>) {
                match t {
                    UseTree::Path(p) => {
                        let mut q = pre;
                        q.push(p.ident.to_string());
                        go(&p.tree, q, o)
                    }
                    UseTree::Name(n) => {
                        let mut q = pre;
                        if n.ident == "self" {
                            let a = q.last().cloned().unwrap_or_default();
                            o.push((q, a));
                        } else {
                            q.push(n.ident.to_string());
                            o.push((q, n.ident.to_string()));
                        }
                    }
                    UseTree::Rename(r) => {
                        let mut q = pre;
                        q.push(r.ident.to_string());
                        o.push((q, r.rename.to_string()));
                    }
                    UseTree::Glob(_) => o.push((pre, "*".into())),
                    UseTree::Group(g) => {
                        for x in &g.items {
                            go(x, pre.clone(), o)
                        }
                    }
                }
            }
            go(&u.tree, vec![], &mut leaves);
            for (p, alias) in leaves {
                let root = p[0].as_str();
                let leaf = p.last().unwrap().clone();
                let stmt = match root {
                    "core" | "std" if leaf == "Ordering" || ["atomic", "cmp", "mem", "fmt", "ops", "marker"].contains(&leaf.as_str()) || p.len() > 2 && p[1] == "fmt" && leaf == "Result" => {
                        let ok = matches!(p[1..].join("::").as_str(), "cmp" | "cmp::Ordering" | "sync::atomic" | "sync::atomic::Ordering" | "mem" | "fmt" | "fmt::Result" | "ops" | "marker");
                        if ok { Some(format!("use crate::stub::xcore::{} as {alias};\n", p[1..].join("::"))) } else { None }
                    }
                    "core" | "std" | "alloc" => {
                        if alias != leaf && w.stub_names.contains(&leaf) { Some(format!("use crate::stub::{leaf} as {alias};\n")) } else { None }
                    }
                    r if r.starts_with("orx_") => {
                        if alias != leaf && w.stub_names.contains(&leaf) { Some(format!("use crate::stub::{leaf} as {alias};\n")) } else { None }
                    }
                    _ => {
                        if alias != leaf { Some(format!("use crate::krate::{leaf} as {alias};\n")) } else { None }
                    }
                };
                match stmt {
                    Some(s) => {
                        if imported.insert(alias) {
                            out.push_str(&s);
                        }
                    }
                    None => dropped_uses.push(format!("{}: {}", src.path, p.join("::"))),
                }
            }
        }
        // consts
        for (_, c) in m.consts.iter().filter(|(i, _)| *i == si) {
            let t = toks(&c.ty).replace("& str", "&'static str");
            out.push_str(&format!("pub const {}: {} = {};\n", c.ident, t, &src.text[rng(c.expr.span()).0..rng(c.expr.span()).1]));
        }
        // type aliases
        for (_, t) in m.types.iter().filter(|(i, _)| *i == si) {
            let (a, b) = rng(t.span());
            let mut ed = Ed::new(&w, si, None);
            for x in &t.attrs {
                ed.visit_attribute(x);
            }
            let (ta, _) = rng(t.type_token.span);
            ed.repl(a.max(t.attrs.last().map_or(a, |x| rng(x.span()).1)), ta, "pub ");
            ed.visit_type(&t.ty);
            out.push_str(&apply(&src.text, a, b, &ed.edits)?);
            out.push('\n');
        }
        // structs
        for s in m.structs.iter().filter(|s| s.src == si) {
            let mut ed = Ed::new(&w, si, None);
            let it = &s.item;
            let (a, b) = rng(it.span());
            let (sa, _) = rng(it.struct_token.span);
            ed.repl(a, sa, "pub ");
            for f in it.fields.iter() {
                let (fa, _) = rng(f.span());
                let end = match &f.ident {
                    Some(i) => rng(i.span()).0,
                    None => rng(f.ty.span()).0,
                };
                ed.repl(fa, end, "pub ");
                ed.visit_type(&f.ty);
            }
            ed.visit_generics(&it.generics);
            out.push_str(&apply(&src.text, a, b, &ed.edits)?);
            out.push('\n');
        }
        // functions
        for (_fi, f) in m.funcs.iter().enumerate().filter(|(_, f)| f.src == si) {
            let c = w.contracts.get(&f.key);
            seen_keys.insert(f.key.clone());
            // the first proof script, from the requested one on, that fits the text
            let first = alt.get(&f.key).copied().unwrap_or(0);
            let scripts: Vec<&Contract> = c.map(|c| std::iter::once(c).chain(&c.alts).collect()).unwrap_or_default();
            let mut script = first;
            let mut e = emit_fn(&w, f, scripts.get(first).copied().or(c), &bounded);
            if e.0 == "lost" {
                for (i, c) in scripts.iter().enumerate().skip(first + 1) {
                    let x = emit_fn(&w, f, Some(c), &bounded);
                    if x.0 != "lost" {
                        e = x;
                        script = i;
                        break;
                    }
                }
            }
            let (st, reason, text, clauses, extra) = e;
            let l0 = line_of(&out);
            out.push_str(&text);
            let l1 = line_of(&out);
            for (a, b, kind, props, ct) in clauses {
                jc.push(json!({"start": l0 + a, "end": l0 + b, "key": f.key, "kind": kind, "props": props, "text": ct}));
            }
            let mut props: BTreeSet<String> = c.map(|c| c.props.iter().cloned().collect()).unwrap_or_default();
            if let Some(c) = c {
                for x in c.ensures.iter().chain(c.requires.iter()) {
                    props.extend(x.props.iter().cloned());
                }
                for l in c.loops.values() {
                    for x in l.inv.iter().chain(l.ens.iter()) {
                        props.extend(x.props.iter().cloned());
                    }
                }
            }
            jf.push(json!({"key": f.key, "file": if src.dep { src.path.clone() } else { format!("src/{}", src.path) }, "line": f.line, "start": l0, "end": l1, "status": st, "reason": reason, "props": props,
                "inlined": extra.0, "calls": extra.1, "script": script, "scripts": scripts.len(), "lines": src.text[f.span.0..f.span.1].matches('\n').count() + 1}));
        }
        out.push_str("}\n");
    }
    // marker obligations
    out.push_str("\npub mod m_markers {\nuse vstd::prelude::*;\npub ghost struct Caps { pub send: bool, pub sync: bool }\n");
    let mut jm = vec![];
    // without an `unsafe impl` of its own, an element that is just an option has the auto traits of the option
    let plain = m.structs.iter().any(|s| s.item.ident == "ConcurrentElement" && s.item.fields.len() == 1 && s.item.fields.iter().all(|f| head(&f.ty).as_deref() == Some("ConcurrentOption")));
    let marks: Vec<(&str, &Marker)> = m.markers.iter().filter_map(|mk| match mk.ty.as_str() {
        "ConcurrentOption" => (plain && !m.markers.iter().any(|x| x.ty == "ConcurrentElement" && x.trait_name == mk.trait_name)).then_some(("ConcurrentElement", mk)),
        x => Some((x, mk)),
    }).collect();
    for (mty, mk) in marks {
        let bs = mk.bounds.get(&mk.arg0).cloned().unwrap_or_default();
        let mut req: Vec<&str> = vec!["true"];
        if bs.iter().any(|b| b == "Send") {
            req.push("t.send");
        }
        if bs.iter().any(|b| b == "Sync") {
            req.push("t.sync");
        }
        let need = match (mk.trait_name.as_str(), mty) {
            ("Sync", "ConcurrentVec") | ("Sync", "ConcurrentElement") => "t.send && t.sync",
            ("Send", "ConcurrentVec") | ("Send", "ConcurrentElement") => "t.send",
            (_, "ConcurrentSlice") => "t.send && t.sync",
            ("Send", "ElementValuesIter") => "t.send",
            ("Sync", "ElementValuesIter") => "t.sync",
            _ => "t.send && t.sync",
        };
        let l0 = line_of(&out);
        out.push_str(&format!(
            "/// `unsafe impl {} for {}` at src/{}:{}\npub proof fn marker_{}_{}_{}(t: Caps)\n  requires {},\n  ensures {need},\n{{{}}}\n",
            mk.trait_name,
            mty,
            m.srcs[mk.src].path,
            mk.line,
            mk.trait_name,
            mty,
            jm.len(),
            req.join(" && "),
            if w.vacuity { " assert(false); /*VAC end*/ " } else { " " }
        ));
        let l1 = line_of(&out);
        jm.push(json!({"trait": mk.trait_name, "ty": mty, "bounds": bs}));
        jf.push(json!({"key": format!("unsafe impl {} for {}", mk.trait_name, mty), "file": if m.srcs[mk.src].dep { m.srcs[mk.src].path.clone() } else { format!("src/{}", m.srcs[mk.src].path) }, "line": mk.line, "start": l0, "end": l1, "status": "verified", "reason": "", "props": ["C15"], "inlined": [], "calls": [], "lines": 1}));
    }
    out.push_str("}\n");
    out.push_str("} // mod krate\n");
    if let Ok(can) = std::fs::read_to_string(format!("{pdir}/canaries.rs")) {
        let l0 = line_of(&out);
        out.push_str(&can);
        let l1 = line_of(&out);
        jf.push(json!({"key": "@canaries", "file": "prelude/canaries.rs", "line": 1, "start": l0, "end": l1, "status": "canary", "reason": "", "props": [], "inlined": [], "calls": [], "lines": 0}));
    }
    out.push_str("fn main() {}\n} // verus!\n");
    let missing: Vec<&String> = w.contracts.keys().filter(|k| !seen_keys.contains(*k)).collect();
    std::fs::write(args.get("out").ok_or("--out")?, &out).map_err(|e| e.to_string())?;
    let map = json!({"functions": jf, "clauses": jc, "missing": missing, "skipped": m.skipped, "markers": jm,
        "prelude": [p0, p1], "glue": [g0, g1], "dropped_uses": dropped_uses});
    std::fs::write(args.get("map").ok_or("--map")?, serde_json::to_string_pretty(&map).unwrap()).map_err(|e| e.to_string())?;
    Ok(())
}

type Clauses = Vec<(usize, usize, &'static str, Vec<String>, String)>;

fn uses_ident(ty: &str, id: &str) -> bool {
    let parts: Vec<String> = {
        let mut v = vec![];
        let mut cur = String::new();
        for c in ty.chars() {
            if ident_like(c) || c == '\'' {
                cur.push(c)
            } else {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
            }
        }
        if !cur.is_empty() {
            v.push(cur);
        }
        v
    };
    parts.iter().any(|p| p == id)
}

fn emit_fn(w: &World, f: &Func, c: Option<&Contract>, bounded: &HashSet<String>) -> (String, String, String, Clauses, (Vec<String>, Vec<String>)) {
    let src = &w.m.srcs[f.src];
    let text = &src.text;
    let mut status = "verified".to_string();
    let mut reason = String::new();
    // ---- renames
    let mut ren: Vec<(String, String)> = vec![];
    let actual_args: Vec<String> = f
        .sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => Some(i.ident.to_string()),
                _ => Some("_".into()),
            },
            _ => None,
        })
        .collect();
    let mut lost: Option<String> = None;
    if let Some(c) = c {
        if c.args.len() != actual_args.len() {
            lost = Some(format!("argument count {} differs from the contract's {}", actual_args.len(), c.args.len()));
        } else {
            for (a, b) in c.args.iter().zip(actual_args.iter()) {
                if a != b && b != "_" {
                    ren.push((a.clone(), b.clone()));
                }
            }
        }
        if !c.locals.is_empty() {
            let mut al = locals_of(&f.block);
            // and those of helpers that are going to be inlined
            for i in helpers_of(w, &f.block) {
                al.extend(locals_of(&w.m.funcs[i].block));
            }
            let mut miss: Vec<&String> = c.locals.iter().filter(|x| !al.contains(x)).collect();
            let extra: Vec<&String> = al.iter().filter(|x| !c.locals.contains(x)).collect();
            if miss.len() != extra.len() {
                // only the locals that the proof text mentions are needed
                miss.retain(|x| c.mentions(x));
            }
            if !miss.is_empty() {
                if miss.len() == extra.len() {
                    for (a, b) in miss.iter().zip(extra.iter()) {
                        ren.push(((*a).clone(), (*b).clone()));
                    }
                } else {
                    lost = Some(format!("locals {:?} of the contract not found", miss));
                }
            }
        }
    }
    let mut assoc: HashMap<String, String> = HashMap::new();
    // ---- header
    let hdr = || -> Res<(String, String)> {
        let mut ed = Ed::new(w, f.src, None);
        for (k, t) in &f.assoc {
            let (a, b) = rng(t.span());
            let mut e2 = Ed::new(w, f.src, None);
            e2.visit_type(t);
            ed.assoc.insert(k.clone(), apply(text, a, b, &e2.edits)?);
        }
        let mut imp = String::new();
        let mut moved: Vec<String> = vec![];
        let mut fn_where: Vec<String> = vec![];
        if let (Some(g), Some(st)) = (&f.impl_generics, &f.self_ty) {
            ed.visit_generics(g);
            ed.visit_type(st);
            let (sa, sb) = rng(st.span());
            let stt = apply(text, sa, sb, &ed.edits)?;
            let mut keep = vec![];
            for p in &g.params {
                let (a, b) = rng(p.span());
                let t = apply(text, a, b, &ed.edits)?;
                let id = match p {
                    GenericParam::Type(t) => t.ident.to_string(),
                    GenericParam::Const(t) => t.ident.to_string(),
                    GenericParam::Lifetime(l) => l.lifetime.to_string(),
                };
                let raw = toks(st).replace("' ", "'");
                if uses_ident(&raw, &id) || uses_ident(&stt, &id) {
                    keep.push(t)
                } else {
                    moved.push(t)
                }
            }
            imp = format!("impl<{}> {}", keep.join(", "), stt);
            if let Some(wc) = &g.where_clause {
                let mut ps = vec![];
                for p in &wc.predicates {
                    let (a, b) = rng(p.span());
                    let t = apply(text, a, b, &ed.edits)?;
                    let names: Vec<String> = moved.iter().map(|m| m.split(':').next().unwrap().replace("const", "").trim().to_string()).collect();
                    if names.iter().any(|n| uses_ident(&t, n)) {
                        fn_where.push(t)
                    } else {
                        ps.push(t)
                    }
                }
                if !ps.is_empty() {
                    imp.push_str(&format!(" where {}", ps.join(", ")));
                }
            }
        }
        // signature
        let mut es = Ed::new(w, f.src, None);
        es.assoc = ed.assoc.clone();
        let sig = &f.sig;
        es.visit_generics(&sig.generics);
        for i in &sig.inputs {
            if let FnArg::Typed(t) = i {
                es.visit_type(&t.ty);
            }
        }
        if let ReturnType::Type(_, t) = &sig.output {
            es.visit_type(t);
        }
        if let Some(e) = es.err {
            return Err(e);
        }
        let mut gens: Vec<String> = vec![];
        let mut lts: Vec<String> = vec![];
        for p in &sig.generics.params {
            let (a, b) = rng(p.span());
            let t = apply(text, a, b, &es.edits)?;
            if matches!(p, GenericParam::Lifetime(_)) { lts.push(t) } else { gens.push(t) }
        }
        for mv in moved {
            if mv.starts_with('\'') { lts.insert(0, mv) } else { gens.insert(0, mv) }
        }
        let mut all = lts;
        all.extend(gens);
        let fp = fn_params_of(sig, None);
        let mut params = vec![];
        for i in &sig.inputs {
            match i {
                FnArg::Receiver(r) => {
                    let (a, b) = rng(r.span());
                    params.push(text[a..b].to_string());
                }
                FnArg::Typed(t) => {
                    let (a, b) = rng(t.ty.span());
                    let ty = apply(text, a, b, &es.edits)?;
                    let mut pat = text[rng(t.pat.span()).0..rng(t.pat.span()).1].to_string();
                    if pat == "_" {
                        pat = format!("_p{}", params.len());
                    }
                    if let Pat::Ident(pi) = &*t.pat {
                        if fp.contains(&pi.ident.to_string()) {
                            pat = pi.ident.to_string();
                        }
                    }
                    params.push(format!("{pat}: {ty}"));
                }
            }
        }
        params.push("Tracked(__w): Tracked<&mut World>".into());
        if c.map_or(false, |c| c.panics.is_some()) && w.pan_names.contains(&f.name) {
            params.push("Ghost(__mp): Ghost<bool>".into());
        }
        let name = if f.kind == Kind::TraitImpl {
            if f.trait_name.as_deref() == Some("PartialEq") { format!("w_eq__{}", sanitize(f.trait_full.as_deref().unwrap_or("")).trim_end_matches('_')) } else { format!("w_{}", f.name) }
        } else if w.m.srcs[f.src].dep && w.wrapped.contains(&f.name) {
            format!("d_{}", f.name)
        } else {
            format!("w_{}", f.name)
        };
        let g = if all.is_empty() { String::new() } else { format!("<{}>", all.join(", ")) };
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => {
                let (a, b) = rng(t.span());
                format!(" -> (r: {})", apply(text, a, b, &es.edits)?)
            }
        };
        let mut wh: Vec<String> = fn_where;
        if let Some(wc) = &sig.generics.where_clause {
            for p in &wc.predicates {
                let (a, b) = rng(p.span());
                wh.push(apply(text, a, b, &es.edits)?);
            }
        }
        let whs = if wh.is_empty() { String::new() } else { format!("\n  where {}", wh.join(", ")) };
        // type parameters of the trait that the function does not mention
        let body_text = toks(&f.block);
        let others = all.clone();
        let all: Vec<String> = all
            .into_iter()
            .filter(|p| {
                let id = p.split(':').next().unwrap().trim().to_string();
                f.impl_generics.is_none() || sig.generics.params.iter().any(|q| toks(q).split(':').next().unwrap().replace("' ", "'").trim() == id) || id.starts_with('\'') || id.starts_with("const")
                    || params.iter().any(|x| uses_ident(x, &id)) || others.iter().any(|x| x != p && uses_ident(x, &id)) || uses_ident(&ret, &id) || wh.iter().any(|x| uses_ident(x, &id)) || uses_ident(&body_text, &id)
            })
            .collect();
        let g = if all.is_empty() { String::new() } else { format!("<{}>", all.join(", ")) };
        assoc = ed.assoc.clone();
        Ok((imp, format!("pub fn {name}{g}({}){ret}{whs}", params.join(", "))))
    }();
    let (imp, sigt) = match hdr {
        Ok(x) => x,
        Err(e) => {
            return ("lost".into(), format!("signature: {e}"), String::new(), vec![], (vec![], vec![]));
        }
    };
    // ---- body
    let mut ed = Ed::new(w, f.src, c);
    ed.fn_params = fn_params_of(&f.sig, f.impl_generics.as_ref());
    ed.self_ty = f.owner.clone();
    ed.ren = ren.clone();
    ed.assoc = assoc;
    ed.env = ty::env_of(&f.sig, f.owner.as_deref());
    ed.visit_block(&f.block);
    let mut body = String::new();
    if let Some(e) = &ed.err {
        lost = Some(e.clone());
    }
    if let Some(c) = c {
        let want: Vec<String> = c.loops.values().map(|l| l.kind.clone()).collect();
        if lost.is_none() && ed.loop_kinds != want {
            lost = Some(format!("loop structure {:?} differs from the contract's {:?}", ed.loop_kinds, want));
        }
        if lost.is_none() && ed.closures != c.closures.len() {
            lost = Some(format!("number of closures {} differs from the contract's {}", ed.closures, c.closures.len()));
        }
    }
    // calls of crate functions without contract that could not be inlined
    if lost.is_none() {
        for k in &ed.calls {
            if let Some(i) = w.m.funcs.iter().position(|g| &g.key == k) {
                if !w.contracts.contains_key(k) && !w.inlinable.contains(&i) {
                    lost = Some(format!("calls {k}, which has no contract"));
                }
            }
        }
    }
    match apply(text, rng(f.block.span()).0, rng(f.block.span()).1, &ed.edits) {
        Ok(t) => body = t,
        Err(e) => lost = Some(e),
    }
    let c = match c {
        Some(c) => c,
        None => {
            let st = if ed.inlined.is_empty() { "nocontract" } else { "nocontract" };
            return (st.into(), "no contract; inlined at its call sites".into(), String::new(), vec![], (ed.inlined, ed.calls.into_iter().collect()));
        }
    };
    let mut ext = false;
    if let Some(r) = &c.trusted {
        status = "trusted".into();
        reason = r.clone();
        ext = true;
    } else if let Some(r) = &c.bounded {
        status = "bounded".into();
        reason = r.clone();
        ext = true;
    } else if bounded.contains(&f.key) {
        status = "bounded".into();
        reason = "the verifier's front end rejects the extracted text".into();
        ext = true;
    } else if let Some(r) = lost {
        status = "lost".into();
        reason = r;
        ext = true;
    }
    // ---- assemble
    let mut t = String::new();
    let mut cl: Clauses = vec![];
    if ext && sigt.contains("FnX(") {
        // the verifier has no function pointer types: nothing can be stated about this function
        return (status, reason, format!("// {} -- src/{}:{} (not expressible)\n", f.key, src.path, f.line), cl, (ed.inlined, ed.calls.into_iter().collect()));
    }
    t.push_str(&format!("/// {} -- src/{}:{}\n", f.key, src.path, f.line));
    if !imp.is_empty() {
        t.push_str(&imp);
        t.push_str(" {\n");
    }
    for a in &c.attrs {
        t.push_str(a);
        t.push('\n');
    }
    if ext {
        t.push_str("#[verifier::external_body]\n");
    }
    t.push_str(&sigt);
    t.push('\n');
    let m2 = Ed::new(w, f.src, Some(c));
    for (kw, list) in [("requires", &c.requires), ("ensures", &c.ensures)] {
        let pan = c.panics.as_ref().filter(|_| kw == "requires" && w.pan_names.contains(&f.name));
        if list.is_empty() && pan.is_none() {
            continue;
        }
        t.push_str(&format!("  {kw}\n"));
        if let Some(p) = pan {
            t.push_str(&format!("    ({}) ==> __mp, // documented panics are possible only where the caller documents them\n", rename(&m2.macros(p, None), &ren)));
        }
        for x in list.iter() {
            let a = t.matches('\n').count();
            t.push_str(&format!("    {},\n", rename(&m2.macros(&x.text, None), &ren)));
            let b = t.matches('\n').count() - 1;
            cl.push((a, b, if kw == "requires" { "requires" } else { "ensures" }, x.props.clone(), x.text.clone()));
        }
    }
    if let Some(d) = &c.decreases {
        t.push_str(&format!("  decreases {d}\n"));
    }
    // a function that returns some closure: the hidden type has to be determined by the body
    let hidden = sigt.rsplit_once("-> (r: ").filter(|x| x.1.starts_with("Option<impl Fn() -> ")).and_then(|x| x.1.split("\n  where").next()).and_then(|x| x.trim().strip_suffix(">)")).and_then(|x| x.strip_prefix("Option<impl Fn() -> ")).map(|x| x.to_string());
    if let (Some(x), false) = (&hidden, ext) {
        if let [syn::Stmt::Expr(e, None)] = &f.block.stmts[..] {
            if toks(e) == "None" {
                body = format!("{{ if false {{ Some(|| -> (e: {x}) requires false {{ vstd::pervasive::unreached() }}) }} else {{ None }} }}");
            }
        }
    }
    if ext {
        match hidden {
            Some(x) => t.push_str(&format!("{{ if true {{ unimplemented!() }} Some(|| -> {x} {{ unimplemented!() }}) }}\n")),
            None => t.push_str("{ unimplemented!() }\n"),
        }
    } else {
        let start = c.start.as_ref().map(|s| rename(&m2.macros(s, None), &ren)).unwrap_or_default();
        let start = match &c.panics {
            Some(p) => format!("let ghost may_panic: bool = ({}); {start}", rename(&m2.macros(p, None), &ren)),
            None => start,
        };
        let mut end = c.end.as_ref().map(|s| rename(&m2.macros(s, None), &ren)).unwrap_or_default();
        if c.locks {
            end.push_str(" proof { crate::stub::release_handles(old(__w)@.held, __w); }");
        }
        if w.vacuity {
            end.push_str("\n proof { assert(false); } /*VAC end*/\n");
        }
        if end.is_empty() {
            if start.is_empty() {
                t.push_str(&body);
            } else {
                t.push_str(&format!("{{ {start}\n {body} }}"));
            }
        } else {
            t.push_str(&format!("{{ {start}\n let r = {body};\n {end}\n r }}"));
        }
        t.push('\n');
    }
    if !imp.is_empty() {
        t.push_str("}\n");
    }
    (status, reason, t, cl, (ed.inlined, ed.calls.into_iter().collect()))
}
