//! Mechanical lowering of function bodies into the Rust subset Verus accepts,
//! inserting the contract overlay's annotations as it goes.
use crate::overlay::FnAnn;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn norm<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

#[derive(Clone)]
pub enum Src {
    Slice(Expr),
    SliceMut(Expr),
    Range(Expr, Expr, bool /*incl*/, bool /*rev*/),
    Chars(Expr),
    Owned(Expr),
    Custom(Expr),
    Zip(Box<Src>, Box<Src>),
    Concat(Expr, Expr),
}

pub enum Ad {
    Map(Expr),
    Filter(Expr),
    Cloned,
    Copied,
    Enumerate,
    FilterMap(Expr),
}

pub enum Term {
    Collect,
    Count,
    Position(Expr),
    All(Expr),
    Any(Expr),
    Sum,
    Find(Expr),
}

pub struct Lower<'a> {
    pub ann: Option<&'a FnAnn>,
    pub anns: Vec<String>,
    pub loop_no: usize,
    pub closure_no: usize,
    /// functions of the repository
    pub fn_names: BTreeSet<String>,
    pub seen: BTreeMap<String, usize>,
    pub used: BTreeSet<String>,
    pub custom: BTreeSet<String>,
    pub ref_params: BTreeSet<String>,
    pub rename: HashMap<String, String>,
    pub notes: Vec<String>,
    pub loop_kinds: Vec<String>,
    /// the function returns an `Option`: `?` gives `None` on
    pub ret_option: bool,
    pub rws: Vec<(Expr, Expr)>,
    pub dvals: HashMap<String, String>,
}

pub fn rename_text(t: &str, m: &HashMap<String, String>) -> String {
    if m.is_empty() {
        return t.to_string();
    }
    let mut out = String::new();
    let mut w = String::new();
    let mut prev_dot = false;
    let flush = |w: &mut String, out: &mut String, prev_dot: bool| {
        if !w.is_empty() {
            match m.get(w.as_str()) {
                Some(r) if !prev_dot => out.push_str(r),
                _ => out.push_str(w),
            }
            w.clear();
        }
    };
    for c in t.chars() {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            let had = !w.is_empty();
            flush(&mut w, &mut out, prev_dot);
            if had || !c.is_whitespace() {
                prev_dot = c == '.' && !(prev_dot && !had);
                if c == '.' && out.ends_with('.') {
                    prev_dot = false;
                }
            }
            out.push(c);
        }
    }
    flush(&mut w, &mut out, prev_dot);
    out
}

impl<'a> Lower<'a> {
    fn mark(&mut self, text: &str) -> Stmt {
        let t = rename_text(text, &self.rename);
        let n = self.anns.len();
        self.anns.push(t);
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        parse2(quote! { __vx_ann!(#lit); }).unwrap()
    }
    fn hdr(&mut self, text: &str) -> Stmt {
        let t = rename_text(text, &self.rename);
        let n = self.anns.len();
        self.anns.push(t);
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        parse2(quote! { __vx_hdr!(#lit); }).unwrap()
    }

    /// Replaces `&p` inside a pattern; returns rebinding statements.
    fn pat(&mut self, p: &mut Pat) -> Vec<Stmt> {
        let mut out = Vec::new();
        self.pat_in(p, false, &mut out);
        out
    }
    fn pat_in(&mut self, p: &mut Pat, under: bool, out: &mut Vec<Stmt>) {
        match p {
            Pat::Reference(r) => {
                let mut inner = (*r.pat).clone();
                self.pat_in(&mut inner, true, out);
                *p = inner;
            }
            Pat::Ident(id) => {
                if under {
                    let n = id.ident.clone();
                    let m = id.mutability;
                    id.mutability = None;
                    out.push(parse2(quote! { let #m #n = *#n; }).unwrap());
                } else if id.by_ref.is_some() {
                    // `ref x`: match ergonomics on a borrowed scrutinee
                    id.by_ref = None;
                    self.notes.push("ref-binding".into());
                }
                if let Some((_, sub)) = &mut id.subpat {
                    self.pat_in(sub, under, out);
                }
            }
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|e| self.pat_in(e, under, out)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|e| self.pat_in(e, under, out)),
            Pat::Struct(t) => t.fields.iter_mut().for_each(|e| self.pat_in(&mut e.pat, under, out)),
            Pat::Paren(q) => {
                let mut inner = (*q.pat).clone();
                self.pat_in(&mut inner, under, out);
                *p = inner;
            }
            Pat::Or(o) => o.cases.iter_mut().for_each(|e| self.pat_in(e, under, out)),
            Pat::Type(t) => self.pat_in(&mut t.pat, under, out),
            _ => {}
        }
    }

    /// `let PAT = EXPR` with tuples split.
    fn bind(&mut self, p: &Pat, e: TokenStream) -> Vec<Stmt> {
        let mut p = p.clone();
        if let Pat::Type(t) = &p {
            let inner = (*t.pat).clone();
            p = inner;
        }
        if let Pat::Wild(_) = &p {
            return vec![];
        }
        if let (Pat::Tuple(t), Ok(Expr::Tuple(te))) = (&p, parse2::<Expr>(e.clone())) {
            if t.elems.len() == te.elems.len() {
                let mut v = Vec::new();
                let es: Vec<_> = te.elems.iter().cloned().collect();
                for (i, q) in t.elems.iter().enumerate() {
                    let ei = &es[i];
                    v.extend(self.bind(q, quote! { #ei }));
                }
                return v;
            }
        }
        // `&p` against a reference-valued place: deref directly when simple
        if let Pat::Reference(r) = &p {
            if let Pat::Ident(id) = &*r.pat {
                if let Ok(Expr::Reference(er)) = parse2::<Expr>(e.clone()) {
                    let inner = &er.expr;
                    return vec![parse2(quote! { let #id = #inner; }).unwrap()];
                }
            }
        }
        let post = self.pat(&mut p);
        let mut v: Vec<Stmt> = vec![parse2(quote! { let #p = #e; }).unwrap()];
        v.extend(post);
        v
    }

    fn strip(e: &Expr) -> Expr {
        match e {
            Expr::Paren(p) => Self::strip(&p.expr),
            Expr::Group(p) => Self::strip(&p.expr),
            _ => e.clone(),
        }
    }

    fn is_custom(&self, e: &Expr) -> bool {
        let s = norm(&Self::strip(e));
        if self.custom.contains(&s) {
            return true;
        }
        if let Some(a) = self.ann {
            if a.custom_iter.iter().any(|c| rename_text(c, &self.rename) == s) {
                return true;
            }
        }
        false
    }

    fn source(&self, e: &Expr) -> Option<Src> {
        let e = Self::strip(e);
        match &e {
            Expr::Range(r) => {
                let (s, t) = (r.start.as_ref()?, r.end.as_ref()?);
                Some(Src::Range(
                    (**s).clone(),
                    (**t).clone(),
                    matches!(r.limits, RangeLimits::Closed(_)),
                    false,
                ))
            }
            Expr::MethodCall(m) if m.args.is_empty() => match m.method.to_string().as_str() {
                "iter" => {
                    if self.is_custom(&m.receiver) {
                        return Some(Src::Custom(e.clone()));
                    }
                    Some(Src::Slice((*m.receiver).clone()))
                }
                "lines" => Some(Src::Custom(e.clone())),
                "iter_mut" => Some(Src::SliceMut((*m.receiver).clone())),
                "into_iter" => match self.source(&m.receiver) {
                    Some(r @ Src::Range(..)) => Some(r),
                    _ => {
                        if let Expr::Path(_) = Self::strip(&m.receiver) {
                            if self.ref_params.contains(&norm(&m.receiver)) {
                                return Some(Src::Slice((*m.receiver).clone()));
                            }
                        }
                        Some(Src::Owned((*m.receiver).clone()))
                    }
                },
                "chars" => Some(Src::Chars((*m.receiver).clone())),
                "rev" => match self.source(&m.receiver)? {
                    Src::Range(a, b, i, r) => Some(Src::Range(a, b, i, !r)),
                    _ => None,
                },
                _ => None,
            },
            Expr::MethodCall(m) if m.method == "zip" && m.args.len() == 1 => {
                let a = self.source(&m.receiver)?;
                let b = self.for_source(&m.args[0])?;
                Some(Src::Zip(Box::new(a), Box::new(b)))
            }
            Expr::MethodCall(m) if m.method == "chain" && m.args.len() == 1 => {
                match (self.source(&m.receiver)?, self.for_source(&m.args[0])?) {
                    (Src::Slice(a), Src::Slice(b)) => Some(Src::Concat(a, b)),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// Source of a `for` loop without adapters.
    fn for_source(&self, e: &Expr) -> Option<Src> {
        if let Some(s) = self.source(e) {
            return Some(s);
        }
        let e = Self::strip(e);
        match &e {
            Expr::Reference(r) if r.mutability.is_some() => Some(Src::SliceMut((*r.expr).clone())),
            Expr::Reference(r) => Some(Src::Slice((*r.expr).clone())),
            Expr::Path(_) if self.ref_params.contains(&norm(&e)) => Some(Src::Slice(e.clone())),
            Expr::Path(_) if self.is_custom(&e) => Some(Src::Custom(e.clone())),
            Expr::Path(_) | Expr::Call(_) | Expr::Field(_) => Some(Src::Owned(e.clone())),
            Expr::MethodCall(m)
                if !matches!(
                    m.method.to_string().as_str(),
                    "map" | "filter" | "enumerate" | "cloned" | "copied" | "rev" | "zip" | "skip" | "take" | "chain" | "filter_map" | "windows" | "chunks" | "drain" | "bytes"
                ) =>
            {
                Some(Src::Owned(e.clone()))
            }
            _ => None,
        }
    }

    fn adapters(&self, e: &Expr, for_loop: bool) -> Option<(Src, Vec<Ad>)> {
        if let Some(s) = if for_loop { self.for_source(e) } else { self.source(e) } {
            return Some((s, vec![]));
        }
        let e = Self::strip(e);
        if let Expr::MethodCall(m) = &e {
            let (s, mut v) = self.adapters(&m.receiver, false)?;
            let a = match (m.method.to_string().as_str(), m.args.len()) {
                ("map", 1) => Ad::Map(m.args[0].clone()),
                ("filter", 1) => Ad::Filter(m.args[0].clone()),
                ("filter_map", 1) => Ad::FilterMap(m.args[0].clone()),
                ("cloned", 0) => Ad::Cloned,
                ("copied", 0) => Ad::Copied,
                ("enumerate", 0) => {
                    if v.iter().any(|a| matches!(a, Ad::Filter(_) | Ad::FilterMap(_))) {
                        return None;
                    }
                    Ad::Enumerate
                }
                _ => return None,
            };
            v.push(a);
            return Some((s, v));
        }
        None
    }

    fn chain(&self, e: &ExprMethodCall) -> Option<(Src, Vec<Ad>, Term)> {
        let t = match (e.method.to_string().as_str(), e.args.len()) {
            ("collect", 0) => Term::Collect,
            ("count", 0) => Term::Count,
            ("position", 1) => Term::Position(e.args[0].clone()),
            ("all", 1) => Term::All(e.args[0].clone()),
            ("any", 1) => Term::Any(e.args[0].clone()),
            ("find", 1) => Term::Find(e.args[0].clone()),
            ("sum", 0) => Term::Sum,
            _ => return None,
        };
        let (s, a) = self.adapters(&e.receiver, false)?;
        Some((s, a, t))
    }

    /// `map`, `and_then`, `map_or`, … of an `Option`: the match that they are.
    fn option_call(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let nargs = match (name.as_str(), m.args.len()) {
            ("map" | "and_then" | "filter" | "is_some_and" | "is_none_or", 1) | ("map_or", 2) => 1,
            ("unwrap_or_else" | "or_else", 1) => 0,
            ("or", 1) => {
                let recv = self.lowered((*m.receiver).clone());
                let d = self.lowered(m.args[0].clone());
                return Some(parse_quote! { { let __r = #recv; let __d = #d; match __r { Some(__o) => Some(__o), None => __d } } });
            }
            _ => return None,
        };
        // a chain over an iterator is something else
        let mut r = Self::strip(&m.receiver);
        loop {
            r = match r {
                Expr::MethodCall(x) => {
                    if ["iter", "iter_mut", "into_iter", "chars", "char_indices", "lines", "bytes", "windows", "chunks", "drain", "split", "keys", "values", "enumerate", "zip", "rev"].contains(&x.method.to_string().as_str()) {
                        // `.max()` and the like of a chain give an `Option`, but the chain is not ours to lower
                        return None;
                    }
                    Self::strip(&x.receiver)
                }
                Expr::Range(_) => return None,
                _ => break,
            }
        }
        let f = m.args.last().unwrap().clone();
        match Self::strip(&f) {
            Expr::Closure(c) => {
                let mut h = crate::HasReturn(false);
                syn::visit::Visit::visit_expr(&mut h, &c.body);
                if h.0 || c.inputs.len() != nargs || c.inputs.iter().any(|p| !matches!(p, Pat::Ident(_) | Pat::Wild(_) | Pat::Reference(_) | Pat::Tuple(_))) {
                    return None;
                }
            }
            Expr::Path(p) if nargs == 1 && (p.path.segments.len() > 1 || self.fn_names.contains(&norm(&p))) => {}
            _ => return None,
        }
        let recv = self.lowered((*m.receiver).clone());
        if nargs == 0 {
            let Expr::Closure(c) = Self::strip(&f) else { return None };
            let b = self.lowered((*c.body).clone());
            return Some(if name == "or_else" {
                parse_quote! { match #recv { Some(__o) => Some(__o), None => { #b } } }
            } else {
                parse_quote! { match #recv { Some(__o) => __o, None => { #b } } }
            });
        }
        let (st, b) = self.apply(&f, quote! { __o }, name == "filter");
        Some(match name.as_str() {
            "map" => parse_quote! { match #recv { Some(__o) => { #(#st)* Some(#b) } None => None } },
            "and_then" => parse_quote! { match #recv { Some(__o) => { #(#st)* #b } None => None } },
            "filter" => parse_quote! { match #recv { Some(__o) => { #(#st)* if #b { Some(__o) } else { None } } None => None } },
            "is_some_and" => parse_quote! { match #recv { Some(__o) => { #(#st)* #b } None => false } },
            "is_none_or" => parse_quote! { match #recv { Some(__o) => { #(#st)* #b } None => true } },
            _ => {
                let d = self.lowered(m.args[0].clone());
                parse_quote! { { let __r = #recv; let __d = #d; match __r { Some(__o) => { #(#st)* #b } None => __d } } }
            }
        })
    }

    fn loop_ann(&self, n: usize) -> crate::overlay::LoopAnn {
        self.ann.and_then(|a| a.loops.get(&n).cloned()).unwrap_or_default()
    }

    /// Emits the loop over a source. `body(self, item)` makes the body statements.
    fn emit_loop(
        &mut self,
        n: usize,
        src: Src,
        label: &Option<Label>,
        body: &mut dyn FnMut(&mut Self, TokenStream, TokenStream) -> Vec<Stmt>,
    ) -> Vec<Stmt> {
        let la = self.loop_ann(n);
        self.used.insert(format!("loop{}", n));
        let k = format_ident!("__k{}", n);
        let e = format_ident!("__e{}", n);
        let s = format_ident!("__s{}", n);
        let m = format_ident!("__m{}", n);
        let it = format_ident!("__it{}", n);
        let mut pre: Vec<Stmt> = Vec::new();
        let mut auto_inv = String::new();
        let mut auto_dec = String::new();
        let mut dval = String::new();
        let mut hi = String::new();
        let mut item: TokenStream;
        let cond: TokenStream;
        let mut incr: Vec<Stmt> = vec![];
        let mut head: Vec<Stmt> = vec![];
        let mut incr_first = false;
        match src {
            Src::Slice(r) => {
                self.loop_kinds.push("slice".into());
                let r = self.lowered(r);
                if matches!(Self::strip(&r), Expr::MethodCall(_) | Expr::Call(_)) {
                    // a temporary that lives as long as the loop
                    let t = format_ident!("__r{}", n);
                    pre.push(parse2(quote! { let #t = #r; }).unwrap());
                    pre.push(parse2(quote! { let #s = crate::vx::AsSl::vx_sl(&(#t)); }).unwrap());
                } else {
                    pre.push(parse2(quote! { let #s = crate::vx::AsSl::vx_sl(&(#r)); }).unwrap());
                }
                pre.push(parse2(quote! { let #e: usize = #s.len(); }).unwrap());
                pre.push(parse2(quote! { let mut #k: usize = 0; }).unwrap());
                cond = quote! { #k < #e };
                item = quote! { &#s[#k] };
                incr.push(parse2(quote! { #k = #k + 1; }).unwrap());
                auto_inv = format!("0 <= {k} <= {e}, {e} == {s}@.len(),");
                auto_dec = format!("{e} as int - {k} as int");
                dval = format!("({k} as int)");
            }
            Src::SliceMut(r) => {
                self.loop_kinds.push("slicemut".into());
                // `place.iter_mut()` or `place[a..].iter_mut()`
                let r = Self::strip(&r);
                let (base, lo): (Expr, TokenStream) = match &r {
                    Expr::Index(ix) => match Self::strip(&ix.index) {
                        Expr::Range(rg) if rg.end.is_none() && rg.start.is_some() => {
                            let st = rg.start.unwrap();
                            ((*ix.expr).clone(), quote! { #st })
                        }
                        _ => (r.clone(), quote! { 0 }),
                    },
                    _ => (r.clone(), quote! { 0 }),
                };
                let base = self.lowered(base);
                pre.push(parse2(quote! { let #e: usize = #base.len(); }).unwrap());
                pre.push(parse2(quote! { let mut #k: usize = #lo; }).unwrap());
                if !lo.is_empty() && lo.to_string() != "0" {
                    pre.push(parse2(quote! { if #k > #e { crate::vx::vx_panic() } }).unwrap());
                }
                cond = quote! { #k < #e };
                item = quote! { &mut #base[#k] };
                incr.push(parse2(quote! { #k = #k + 1; }).unwrap());
                auto_inv = format!("{lo} <= {k} <= {e}, {e} == {}@.len(),", base.to_token_stream());
                auto_dec = format!("{e} as int - {k} as int");
                dval = format!("({k} as int)");
            }
            Src::Range(a, b, incl, rev) => {
                let a = self.lowered(a);
                let b = self.lowered(b);
                // the counter's first value is part of the loop's structure: the annotations speak of the counter
                let from = a.to_token_stream().to_string();
                let kind = if rev { "rev" } else { "range" };
                self.loop_kinds.push(if from.parse::<usize>().is_ok() && from != "0" { format!("{kind}({from})") } else { kind.to_string() });
                if !rev && !incl {
                    pre.push(parse2(quote! { let mut #k = #a; }).unwrap());
                    pre.push(parse2(quote! { let #e = #b; }).unwrap());
                    cond = quote! { #k < #e };
                    item = quote! { #k };
                    incr.push(parse2(quote! { #k = #k + 1; }).unwrap());
                    let at = a.to_token_stream().to_string();
                    auto_inv = format!("{at} <= {k}, {k} <= {e} || {k} == {at},");
                    if !simple(&a) {
                        auto_inv = String::new();
                    }
                    auto_dec = format!("{e} as int - {k} as int");
                    dval = format!("({k} as int)");
                } else if !rev {
                    pre.push(parse2(quote! { let mut #k = #a; }).unwrap());
                    pre.push(parse2(quote! { let #e = #b; }).unwrap());
                    pre.push(parse2(quote! { let mut #m: bool = #k <= #e; }).unwrap());
                    cond = quote! { #m };
                    item = quote! { #k };
                    incr.push(parse2(quote! { if #k < #e { #k = #k + 1; } else { #m = false; } }).unwrap());
                    let at = a.to_token_stream().to_string();
                    hi = format!("({e} as int + 1)");
                    auto_inv = format!("{m} ==> {k} <= {e}, !{m} ==> {k} >= {e},");
                    if simple(&a) {
                        auto_inv.push_str(&format!(" {at} <= {k}, {k} <= {e} || {k} == {at},"));
                    }
                    auto_dec = format!("(if {m} {{ {e} as int - {k} as int + 1 }} else {{ 0 }})");
                    dval = format!(
                        "(if {m} {{ {k} as int }} else if {k} <= {e} {{ {k} as int + 1 }} else {{ {k} as int }})"
                    );
                } else {
                    // reversed: counts down, decrement first
                    incr_first = true;
                    pre.push(parse2(quote! { let #e = #a; }).unwrap());
                    if incl {
                        pre.push(parse2(quote! { let mut #k = #b + 1; }).unwrap());
                    } else {
                        pre.push(parse2(quote! { let mut #k = #b; }).unwrap());
                    }
                    cond = quote! { #k > #e };
                    item = quote! { #k };
                    head.push(parse2(quote! { #k = #k - 1; }).unwrap());
                    auto_inv = format!("{k} >= {e} || {k} == {},", b.to_token_stream());
                    if !simple(&b) || incl {
                        auto_inv = String::new();
                    }
                    auto_dec = format!("{k} as int - {e} as int");
                    dval = format!("({k} as int)");
                }
            }
            Src::Chars(r) => {
                self.loop_kinds.push("chars".into());
                let r = self.lowered(r);
                pre.push(parse2(quote! { let #s = crate::vx::AsChars::vx_chars(&(#r)); }).unwrap());
                pre.push(parse2(quote! { let #e: usize = #s.len(); }).unwrap());
                pre.push(parse2(quote! { let mut #k: usize = 0; }).unwrap());
                cond = quote! { #k < #e };
                item = quote! { #s[#k] };
                incr.push(parse2(quote! { #k = #k + 1; }).unwrap());
                auto_inv = format!("0 <= {k} <= {e}, {e} == {s}@.len(),");
                auto_dec = format!("{e} as int - {k} as int");
                dval = format!("({k} as int)");
            }
            Src::Owned(r) => {
                self.loop_kinds.push("owned".into());
                let r = self.lowered(r);
                pre.push(parse2(quote! { let mut #it = crate::vx::owned_iter(#r); }).unwrap());
                cond = quote! { #it.has_next() };
                item = quote! { #it.take_next() };
                auto_inv = format!("{it}.wf(),");
                auto_dec = format!("{it}@.len() - {it}.pos()");
                dval = format!("{it}.pos()");
                let f = format_ident!("__q{}", n);
                pre.push(self.mark(&format!("let ghost {f} = {it}@;")));
                auto_inv.push_str(&format!(" {it}@ == {f},"));
            }
            Src::Custom(r) => {
                self.loop_kinds.push("custom".into());
                let r = self.lowered(r);
                pre.push(parse2(quote! { let mut #it = #r; }).unwrap());
                pre.push(parse2(quote! { let mut #m = #it.next(); }).unwrap());
                cond = quote! { #m.is_some() };
                item = quote! { #m.unwrap() };
                incr.push(parse2(quote! { #m = #it.next(); }).unwrap());
                dval = format!("{it}");
            }
            Src::Zip(a, b) => {
                self.loop_kinds.push("zip".into());
                match (*a, *b) {
                    (Src::Slice(a), Src::Slice(b)) => {
                        let t = format_ident!("__t{}", n);
                        let a = self.lowered(a);
                        let b = self.lowered(b);
                        pre.push(parse2(quote! { let #s = crate::vx::AsSl::vx_sl(&(#a)); }).unwrap());
                        pre.push(parse2(quote! { let #t = crate::vx::AsSl::vx_sl(&(#b)); }).unwrap());
                        pre.push(parse2(quote! { let #e: usize = if #s.len() < #t.len() { #s.len() } else { #t.len() }; }).unwrap());
                        pre.push(parse2(quote! { let mut #k: usize = 0; }).unwrap());
                        item = quote! { (&#s[#k], &#t[#k]) };
                        auto_inv = format!("0 <= {k} <= {e}, {e} <= {s}@.len(), {e} <= {t}@.len(), {e} == {s}@.len() || {e} == {t}@.len(),");
                    }
                    _ => {
                        self.notes.push("unsupported zip".into());
                        item = quote! { () };
                        pre.push(parse2(quote! { let #e: usize = 0; }).unwrap());
                        pre.push(parse2(quote! { let mut #k: usize = 0; }).unwrap());
                    }
                }
                cond = quote! { #k < #e };
                incr.push(parse2(quote! { #k = #k + 1; }).unwrap());
                auto_dec = format!("{e} as int - {k} as int");
                dval = format!("({k} as int)");
            }
            Src::Concat(a, b) => {
                self.loop_kinds.push("concat".into());
                let a = self.lowered(a);
                let b = self.lowered(b);
                pre.push(parse2(quote! { let #s = crate::vx::concat(crate::vx::AsSl::vx_sl(&(#a)), crate::vx::AsSl::vx_sl(&(#b))); }).unwrap());
                pre.push(parse2(quote! { let #e: usize = #s.len(); }).unwrap());
                pre.push(parse2(quote! { let mut #k: usize = 0; }).unwrap());
                cond = quote! { #k < #e };
                item = quote! { &#s[#k] };
                incr.push(parse2(quote! { #k = #k + 1; }).unwrap());
                auto_inv = format!("0 <= {k} <= {e}, {e} == {s}@.len(),");
                auto_dec = format!("{e} as int - {k} as int");
                dval = format!("({k} as int)");
            }
        }
        let _ = &mut item;
        let pos = quote! { #k };
        self.dvals.insert(format!("__d{}", n), dval.clone());
        self.dvals.insert(format!("__h{}", n), if hi.is_empty() { format!("({e} as int)") } else { hi });
        let sub = |t: &str| t.to_string();
        let mut stmts = pre;
        if !la.before.is_empty() {
            let t = sub(&la.before);
            stmts.push(self.mark(&t));
        }
        let mut inner: Vec<Stmt> = Vec::new();
        inner.push(Stmt::Item(Item::Verbatim(quote! {}))); // placeholder for hdr
        inner.extend(head);
        let bstmts = body(self, item, pos);
        // continue => increment first
        let mut blk = Block { brace_token: Default::default(), stmts: bstmts };
        terminate(&mut blk.stmts);
        if !incr_first && !(incr.is_empty() && la.end.is_empty()) {
            let mut i: Vec<Stmt> = Vec::new();
            if !la.end.is_empty() {
                let t = sub(&la.end);
                i.push(self.mark(&t));
            }
            i.extend(incr.clone());
            let mut c = Continue { incr: i, label: label.clone(), depth: 0 };
            c.visit_block_mut(&mut blk);
        }
        if !la.start.is_empty() {
            let t = sub(&la.start);
            inner.push(self.mark(&t));
        }
        inner.extend(blk.stmts);
        if !la.end.is_empty() {
            let t = sub(&la.end);
            inner.push(self.mark(&t));
        }
        inner.extend(incr);
        let h = self.header(&sub(&la.header), &auto_inv, &auto_dec);
        inner[0] = self.hdr(&h);
        let mut w: ExprWhile = parse2(quote! { while #cond { } }).unwrap();
        w.label = label.clone();
        w.body.stmts = inner;
        stmts.push(Stmt::Expr(Expr::While(w), None));
        if !la.after.is_empty() {
            let t = sub(&la.after);
            stmts.push(self.mark(&t));
        }
        stmts
    }

    fn header(&self, user: &str, auto_inv: &str, auto_dec: &str) -> String {
        let mut inv = String::new();
        let mut other = String::new();
        let mut exc = String::new();
        let mut cur_inv = true;
        let mut cur_exc = false;
        let mut has_dec = false;
        for l in user.lines() {
            let t = l.trim_start();
            if t.starts_with("invariant_except_break") || t.starts_with("ensures") || t.starts_with("decreases") {
                cur_inv = false;
                cur_exc = t.starts_with("invariant_except_break");
                if t.starts_with("decreases") {
                    has_dec = true;
                }
            } else if t == "invariant" {
                cur_inv = true;
                continue;
            }
            if cur_inv {
                inv.push_str(l);
                inv.push('\n');
            } else if cur_exc {
                exc.push_str(l);
                exc.push('\n');
            } else {
                other.push_str(l);
                other.push('\n');
            }
        }
        let mut s = exc;
        if !(auto_inv.trim().is_empty() && inv.trim().is_empty()) {
            s.push_str("invariant\n");
            if !auto_inv.is_empty() {
                s.push_str("    ");
                s.push_str(auto_inv);
                s.push('\n');
            }
            s.push_str(&inv);
        }
        s.push_str(&other);
        if !has_dec && !auto_dec.is_empty() {
            s.push_str(&format!("decreases {}\n", auto_dec));
        }
        s
    }

    fn lowered(&mut self, e: Expr) -> Expr {
        let mut e = e;
        self.visit_expr_mut(&mut e);
        e
    }

    /// Applies a closure (or fn path) argument to an item.
    fn apply(&mut self, f: &Expr, item: TokenStream, byref: bool) -> (Vec<Stmt>, Expr) {
        match Self::strip(f) {
            Expr::Closure(c) => {
                let p = c.inputs.first().cloned().expect("closure arg");
                let it = if byref && !item.to_string().starts_with('&') { quote! { &#item } } else { item };
                let b = self.bind(&p, it);
                let e = self.lowered((*c.body).clone());
                (b, e)
            }
            p => {
                let it = if byref { quote! { &#item } } else { item };
                (vec![], parse2(quote! { #p(#it) }).unwrap())
            }
        }
    }

    fn chain_body(
        &mut self,
        ads: &[Ad],
        item: TokenStream,
        pos: &TokenStream,
        n: usize,
        fin: &mut dyn FnMut(&mut Self, TokenStream) -> Vec<Stmt>,
    ) -> Vec<Stmt> {
        if ads.is_empty() {
            return fin(self, item);
        }
        match &ads[0] {
            Ad::Map(f) => {
                let (mut b, e) = self.apply(f, item, false);
                let y = format_ident!("__y{}_{}", n, ads.len());
                b.push(parse2(quote! { let #y = #e; }).unwrap());
                b.extend(self.chain_body(&ads[1..], quote! { #y }, pos, n, fin));
                b
            }
            Ad::Filter(f) => {
                let (mut b, e) = self.apply(f, item.clone(), true);
                let inner = self.chain_body(&ads[1..], item, pos, n, fin);
                let mut f: ExprIf = parse2(quote! { if #e { } }).unwrap();
                f.then_branch.stmts = inner;
                b.push(Stmt::Expr(Expr::If(f), None));
                b
            }
            Ad::FilterMap(f) => {
                let (mut b, e) = self.apply(f, item, false);
                let y = format_ident!("__y{}_{}", n, ads.len());
                let inner = self.chain_body(&ads[1..], quote! { #y }, pos, n, fin);
                let mut f: ExprIf = parse2(quote! { if let Some(#y) = #e { } }).unwrap();
                f.then_branch.stmts = inner;
                b.push(Stmt::Expr(Expr::If(f), None));
                b
            }
            Ad::Cloned => {
                let y = format_ident!("__y{}_{}", n, ads.len());
                let mut b: Vec<Stmt> = vec![parse2(quote! { let #y = (#item).clone(); }).unwrap()];
                b.extend(self.chain_body(&ads[1..], quote! { #y }, pos, n, fin));
                b
            }
            Ad::Copied => {
                let it = quote! { *(#item) };
                self.chain_body(&ads[1..], it, pos, n, fin)
            }
            Ad::Enumerate => {
                let it = quote! { (#pos, #item) };
                self.chain_body(&ads[1..], it, pos, n, fin)
            }
        }
    }

    fn lower_chain(&mut self, m: &ExprMethodCall, src: Src, ads: Vec<Ad>, term: Term) -> Expr {
        let n = self.loop_no;
        self.loop_no += 1;
        let acc = format_ident!("__acc{}", n);
        let idx = format_ident!("__i{}", n);
        let mut pre: Vec<Stmt> = Vec::new();
        // item type of the collection, when the turbofish names it
        let mut ty = quote! {};
        if let (Term::Collect, Some(tf)) = (&term, &m.turbofish) {
            if let Some(GenericArgument::Type(t)) = tf.args.first() {
                if !norm(t).contains("_>") {
                    ty = quote! { : #t };
                }
            }
        }
        if let Some(t) = self.ann.and_then(|a| a.types.get(&acc.to_string())) {
            let t: Type = parse_str(t).unwrap();
            ty = quote! { : #t };
        }
        pre.push(
            parse2(match &term {
                Term::Collect => quote! { let mut #acc #ty = Vec::new(); },
                Term::Count => quote! { let mut #acc: usize = 0; },
                Term::Position(_) => quote! { let mut #acc: Option<usize> = None; },
                Term::All(_) => quote! { let mut #acc: bool = true; },
                Term::Any(_) => quote! { let mut #acc: bool = false; },
                Term::Sum => quote! { let mut #acc #ty = 0; },
                Term::Find(_) => quote! { let mut #acc #ty = None; },
            })
            .unwrap(),
        );
        let needs_idx = matches!(term, Term::Position(_)) && !ads.is_empty();
        if needs_idx {
            pre.push(parse2(quote! { let mut #idx: usize = 0; }).unwrap());
        }
        let at = self.loop_kinds.len();
        let name = match term {
            Term::Collect => "collect",
            Term::Count => "count",
            Term::Position(_) => "position",
            Term::All(_) => "all",
            Term::Any(_) => "any",
            Term::Sum => "sum",
            Term::Find(_) => "find",
        };
        let st = self.emit_loop(n, src, &None, &mut |me, item, pos| {
            let pos2 = pos.clone();
            me.chain_body(&ads, item, &pos, n, &mut |me, item| match &term {
                Term::Collect => vec![parse2(quote! { #acc.push(#item); }).unwrap()],
                Term::Count => vec![parse2(quote! { #acc = #acc + 1; }).unwrap()],
                Term::Sum => vec![parse2(quote! { #acc = #acc + #item; }).unwrap()],
                Term::Position(f) => {
                    let (mut b, e) = me.apply(f, item, false);
                    if needs_idx {
                        b.push(parse2(quote! { if #e { #acc = Some(#idx); break; } }).unwrap());
                        b.push(parse2(quote! { #idx = #idx + 1; }).unwrap());
                    } else {
                        b.push(parse2(quote! { if #e { #acc = Some(#pos2); break; } }).unwrap());
                    }
                    b
                }
                Term::All(f) => {
                    let (mut b, e) = me.apply(f, item, false);
                    b.push(parse2(quote! { if !(#e) { #acc = false; break; } }).unwrap());
                    b
                }
                Term::Any(f) => {
                    let (mut b, e) = me.apply(f, item, false);
                    b.push(parse2(quote! { if #e { #acc = true; break; } }).unwrap());
                    b
                }
                Term::Find(f) => {
                    let (mut b, e) = me.apply(f, item.clone(), true);
                    b.push(parse2(quote! { if #e { #acc = Some(#item); break; } }).unwrap());
                    b
                }
            })
        });
        if let Some(k) = self.loop_kinds.get_mut(at) {
            *k = format!("{}:{}", name, k);
        }
        pre.extend(st);
        pre.push(Stmt::Expr(parse_quote! { #acc }, None));
        block_expr(pre)
    }

    fn lower_for(&mut self, f: &ExprForLoop) -> Vec<Stmt> {
        let n = self.loop_no;
        match self.adapters(&f.expr, true) {
            Some((src, ads)) => {
                self.loop_no += 1;
                let pat = (*f.pat).clone();
                let body = f.body.clone();
                self.emit_loop(n, src, &f.label, &mut |me, item, pos| {
                    me.chain_body(&ads, item, &pos, n, &mut |me, item| {
                        let mut v = me.bind(&pat, item);
                        let mut b = body.clone();
                        me.visit_block_mut(&mut b);
                        v.extend(b.stmts);
                        v
                    })
                })
            }
            None => {
                self.notes.push(format!("unsupported for source {}", norm(&f.expr)));
                let mut g = f.clone();
                visit_mut::visit_expr_for_loop_mut(self, &mut g);
                vec![Stmt::Expr(Expr::ForLoop(g), None)]
            }
        }
    }

    fn lower_macro(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || -> Vec<Expr> {
            m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default()
        };
        Some(match name.as_str() {
            "println" | "print" | "eprintln" | "eprint" | "dbg" => parse_quote! { () },
            "panic" | "unreachable" | "unimplemented" | "todo" => parse_quote! { crate::vx::vx_panic() },
            "assert" | "debug_assert" => {
                let c = self.lowered(args().into_iter().next()?);
                parse_quote! { if !(#c) { crate::vx::vx_panic() } }
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args();
                let (x, y) = (a.first()?.clone(), a.get(1)?.clone());
                let c = self.lowered(parse_quote! { #x == #y });
                parse_quote! { if !(#c) { crate::vx::vx_panic() } }
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = args();
                let (x, y) = (a.first()?.clone(), a.get(1)?.clone());
                let c = self.lowered(parse_quote! { #x == #y });
                parse_quote! { if #c { crate::vx::vx_panic() } }
            }
            "vec" => {
                // lower the arguments
                let ts = m.tokens.clone();
                if let Ok(rep) = parse2::<ExprRepeat>(quote! { [#ts] }) {
                    let mut rep = rep;
                    visit_mut::visit_expr_repeat_mut(self, &mut rep);
                    let (a, b) = (rep.expr, rep.len);
                    return Some(parse_quote! { vec![#a; #b] });
                }
                let a: Vec<Expr> = args().into_iter().map(|e| self.lowered(e)).collect();
                parse_quote! { vec![#(#a),*] }
            }
            "json" => self.lower_json(m.tokens.clone())?,
            // a formatter is taken to be the text written so far: nothing, so writing gives the text
            "format" | "write" => {
                let mut a = args();
                if name == "write" {
                    if !matches!(a.first(), Some(Expr::Path(p)) if p.path.is_ident("f")) {
                        return None;
                    }
                    a.remove(0);
                }
                let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = a.first() else { return None };
                let mut parts: Vec<Expr> = Vec::new();
                let (mut lit, mut used) = (String::new(), 1);
                let text = f.value();
                let mut it = text.chars().peekable();
                while let Some(c) = it.next() {
                    if (c == '{' || c == '}') && it.peek() == Some(&c) {
                        it.next();
                        lit.push(c);
                    } else if c == '{' {
                        let mut name = String::new();
                        loop {
                            match it.next()? {
                                '}' => break,
                                x => name.push(x),
                            }
                        }
                        let e: Expr = if name.is_empty() {
                            used += 1;
                            self.lowered(a.get(used - 1)?.clone())
                        } else {
                            // anything but a plain name has formatting options
                            Expr::Path(parse_str::<ExprPath>(&name).ok().filter(|p| p.path.get_ident().is_some())?)
                        };
                        if !lit.is_empty() {
                            let l = std::mem::take(&mut lit);
                            parts.push(parse_quote! { crate::vx::str_lit(#l) });
                        }
                        parts.push(parse_quote! { crate::vx::Shown::vx_show(&(#e)) });
                    } else {
                        lit.push(c);
                    }
                }
                if !lit.is_empty() || parts.is_empty() {
                    parts.push(parse_quote! { crate::vx::str_lit(#lit) });
                }
                let mut it = parts.into_iter();
                let mut e = it.next().unwrap();
                for p in it {
                    e = parse_quote! { crate::vx::str_cat(#e, #p) };
                }
                e
            }
            "matches" => {
                let ts = m.tokens.clone();
                let (e, p) = {
                    struct M(Expr, Pat);
                    impl parse::Parse for M {
                        fn parse(i: parse::ParseStream) -> Result<Self> {
                            let e = i.parse()?;
                            i.parse::<Token![,]>()?;
                            let p = Pat::parse_multi_with_leading_vert(i)?;
                            let _ = i.parse::<Option<Token![,]>>();
                            Ok(M(e, p))
                        }
                    }
                    let mm: M = parse2(ts).ok()?;
                    (mm.0, mm.1)
                };
                self.lowered(parse_quote! { match #e { #p => true, _ => false } })
            }
            _ => return None,
        })
    }
}

fn str_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}

/// `Some("x")` or `"x"`, possibly alternatives: (in an Option, literals)
fn str_pat(p: &Pat) -> Option<(bool, Vec<Lit>)> {
    match p {
        Pat::Lit(l) => match &l.lit {
            Lit::Str(_) => Some((false, vec![l.lit.clone()])),
            _ => None,
        },
        Pat::Paren(q) => str_pat(&q.pat),
        Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => str_pat(&t.elems[0]).map(|(_, l)| (true, l)),
        Pat::Or(o) => {
            let mut r: Option<(bool, Vec<Lit>)> = None;
            for c in &o.cases {
                let (b, l) = str_pat(c)?;
                match &mut r {
                    None => r = Some((b, l)),
                    Some((rb, rl)) if *rb == b => rl.extend(l),
                    _ => return None,
                }
            }
            r
        }
        _ => None,
    }
}

/// A match on string literals as a chain of comparisons, in the same order.
fn str_match(m: &ExprMatch) -> Option<Expr> {
    let mut arms: Vec<&Arm> = m.arms.iter().collect();
    let last = arms.pop()?;
    let mut tail: TokenStream = match &last.pat {
        Pat::Wild(_) if last.guard.is_none() => {
            let b = &last.body;
            quote! { { #b } }
        }
        _ => return None,
    };
    for a in arms.iter().rev() {
        let (opt, lits) = str_pat(&a.pat)?;
        let b = &a.body;
        let mut c: TokenStream = quote! {};
        for (i, l) in lits.iter().enumerate() {
            let t = if opt { quote! { crate::vx::opt_str_is(&__o, #l) } } else { quote! { crate::vx::str_is(&__o, #l) } };
            c = if i == 0 { t } else { quote! { #c || #t } };
        }
        if let Some((_, g)) = &a.guard {
            c = quote! { (#c) && (#g) };
        }
        tail = quote! { if #c { #b } else #tail };
    }
    let x = &m.expr;
    parse2(quote! { { let __o = #x; #tail } }).ok()
}

impl<'a> Lower<'a> {
    /// `json!(..)`: an object of key: value pairs, an array, or a serializable expression
    fn lower_json(&mut self, ts: TokenStream) -> Option<Expr> {
        use proc_macro2::{Delimiter, TokenTree};
        let v: Vec<TokenTree> = ts.clone().into_iter().collect();
        if v.len() == 1 {
            match &v[0] {
                TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                    let mut st: Vec<Stmt> = vec![];
                    for part in split_commas(g.stream()) {
                        let c = part.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ':'))?;
                        let k: TokenStream = part[..c].iter().cloned().collect();
                        let val: TokenStream = part[c + 1..].iter().cloned().collect();
                        let key: Expr = parse2(k).ok()?;
                        if !str_lit(&key) {
                            return None;
                        }
                        let x = self.lower_json(val)?;
                        st.push(parse2(quote! { __j.insert_lit(#key, #x); }).ok()?);
                    }
                    return parse2(quote! { { let mut __j = crate::vx::JMap::new(); #(#st)* crate::vx::Value::Object(__j) } }).ok();
                }
                TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => {
                    let mut xs = vec![];
                    for part in split_commas(g.stream()) {
                        let t: TokenStream = part.into_iter().collect();
                        xs.push(self.lower_json(t)?);
                    }
                    return parse2(quote! { crate::vx::Value::Array(vec![#(#xs),*]) }).ok();
                }
                TokenTree::Ident(i) if i == "null" => return parse2(quote! { crate::vx::Value::Null }).ok(),
                _ => {}
            }
        }
        let x = self.lowered(parse2(ts).ok()?);
        // a lowered chain: name its result
        parse2(quote! { crate::vx::ToJ::vx_j(&(#x)) }).ok()
    }
}

fn split_commas(ts: TokenStream) -> Vec<Vec<proc_macro2::TokenTree>> {
    let mut out = vec![vec![]];
    let mut depth = 0i32;
    let mut prev_colon = false;
    for t in ts {
        if let proc_macro2::TokenTree::Punct(p) = &t {
            match p.as_char() {
                // turbofish
                '<' if prev_colon || depth > 0 => depth += 1,
                '>' if depth > 0 => depth -= 1,
                ',' if depth == 0 => {
                    out.push(vec![]);
                    continue;
                }
                _ => {}
            }
            prev_colon = p.as_char() == ':';
        } else {
            prev_colon = false;
        }
        out.last_mut().unwrap().push(t);
    }
    if out.last().unwrap().is_empty() {
        out.pop();
    }
    out
}

/// A loop body's final expression is a unit value: it gets its semicolon.
fn terminate(stmts: &mut Vec<Stmt>) {
    if let Some(Stmt::Expr(e, semi @ None)) = stmts.last_mut() {
        if !matches!(e, Expr::If(_) | Expr::While(_) | Expr::Loop(_) | Expr::Match(_) | Expr::Block(_) | Expr::ForLoop(_)) {
            *semi = Some(Default::default());
        }
    }
}

fn block_expr(stmts: Vec<Stmt>) -> Expr {
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts } })
}

fn simple(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Paren(p) => simple(&p.expr),
        Expr::Binary(b) => simple(&b.left) && simple(&b.right) && matches!(b.op, BinOp::Add(_) | BinOp::Sub(_)),
        Expr::Field(f) => simple(&f.base),
        _ => false,
    }
}

/// `continue` of the lowered loop performs the increment first.
struct Continue {
    incr: Vec<Stmt>,
    label: Option<Label>,
    depth: usize,
}
impl VisitMut for Continue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => {
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
            }
            Expr::Closure(_) => {}
            Expr::Continue(c) => {
                let mine = match (&c.label, &self.label) {
                    (None, _) => self.depth == 0,
                    (Some(l), Some(m)) => l.ident == m.name.ident,
                    _ => false,
                };
                if mine {
                    let i = &self.incr;
                    let c = c.clone();
                    *e = parse2(quote! { { #(#i)* #c } }).unwrap();
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn obviously_native(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Cast(_) => true,
        Expr::Paren(p) => obviously_native(&p.expr),
        Expr::Unary(u) => match u.op {
            UnOp::Neg(_) => true,
            _ => obviously_native(&u.expr),
        },
        Expr::Binary(_) => true,
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "len" | "ntokens" | "count" | "is_some" | "is_none" | "n_long_tokens"),
        Expr::Path(p) => p
            .path
            .segments
            .last()
            .map(|s| s.ident.to_string().chars().next().unwrap().is_uppercase())
            .unwrap_or(false),
        _ => false,
    }
}

// --- expression rewriting rules with metavariables `__a`, `__b`, ... ---
fn matches(p: &TokenStream, t: &TokenStream) -> bool {
    norm(p) == norm(t)
}

fn rw_match(pat: &Expr, e: &Expr, b: &mut HashMap<String, Expr>) -> bool {
    let pat = Lower::strip(pat);
    if let Expr::Path(p) = &pat {
        if let Some(id) = p.path.get_ident() {
            let s = id.to_string();
            if s.starts_with("__") {
                if let Some(old) = b.get(&s) {
                    return norm(old) == norm(e);
                }
                b.insert(s, e.clone());
                return true;
            }
        }
    }
    let e = Lower::strip(e);
    match (&pat, &e) {
        (Expr::MethodCall(p), Expr::MethodCall(q)) => {
            p.method == q.method
                && p.args.len() == q.args.len()
                && rw_match(&p.receiver, &q.receiver, b)
                && p.args.iter().zip(q.args.iter()).all(|(x, y)| rw_match(x, y, b))
        }
        (Expr::Call(p), Expr::Call(q)) => {
            p.args.len() == q.args.len()
                && rw_match(&p.func, &q.func, b)
                && p.args.iter().zip(q.args.iter()).all(|(x, y)| rw_match(x, y, b))
        }
        (Expr::Reference(p), Expr::Reference(q)) => p.mutability.is_some() == q.mutability.is_some() && rw_match(&p.expr, &q.expr, b),
        (Expr::Unary(p), Expr::Unary(q)) => norm(&p.op) == norm(&q.op) && rw_match(&p.expr, &q.expr, b),
        (Expr::Binary(p), Expr::Binary(q)) => {
            norm(&p.op) == norm(&q.op) && rw_match(&p.left, &q.left, b) && rw_match(&p.right, &q.right, b)
        }
        (Expr::Index(p), Expr::Index(q)) => rw_match(&p.expr, &q.expr, b) && rw_match(&p.index, &q.index, b),
        (Expr::Field(p), Expr::Field(q)) => norm(&p.member) == norm(&q.member) && rw_match(&p.base, &q.base, b),
        (Expr::Cast(p), Expr::Cast(q)) => norm(&p.ty) == norm(&q.ty) && rw_match(&p.expr, &q.expr, b),
        (Expr::Closure(p), Expr::Closure(q)) => {
            p.inputs.len() == q.inputs.len() && p.inputs.iter().zip(q.inputs.iter()).all(|(x, y)| norm(x) == norm(y)) && rw_match(&p.body, &q.body, b)
        }
        (Expr::Try(p), Expr::Try(q)) => rw_match(&p.expr, &q.expr, b),
        (Expr::Range(p), Expr::Range(q)) => {
            let o = |x: &Option<Box<Expr>>, y: &Option<Box<Expr>>, b: &mut HashMap<String, Expr>| match (x, y) {
                (Some(x), Some(y)) => rw_match(x, y, b),
                (None, None) => true,
                _ => false,
            };
            norm(&p.limits) == norm(&q.limits) && o(&p.start, &q.start, b) && o(&p.end, &q.end, b)
        }
        (Expr::Path(p), Expr::Path(q)) => {
            // fully qualified or imported: compare the last segments
            let a: Vec<String> = p.path.segments.iter().map(|s| norm(s)).collect();
            let c: Vec<String> = q.path.segments.iter().map(|s| norm(s)).collect();
            let n = a.len().min(c.len());
            a[a.len() - n..] == c[c.len() - n..]
        }
        _ => matches(&pat.to_token_stream(), &e.to_token_stream()),
    }
}

struct Subst<'b>(&'b HashMap<String, Expr>);
impl<'b> VisitMut for Subst<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(id) = p.path.get_ident() {
                if let Some(r) = self.0.get(&id.to_string()) {
                    *e = r.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub const SHIMS: &[&str] = &["Cow", "File", "SeekFrom", "HashMap", "HashSet", "BufReader", "BufWriter", "Rng"];

pub fn shim_path(p: &mut Path) {
    if p.segments.len() > 1 && p.segments[0].ident == "serde_json" {
        p.segments[0].ident = format_ident!("vx");
        p.segments.insert(0, parse_quote!(crate));
        return;
    }
    if p.segments.first().map(|s| s.ident == "std").unwrap_or(false) {
        if let Some(i) = p.segments.iter().position(|s| SHIMS.contains(&s.ident.to_string().as_str())) {
            let segs: Vec<PathSegment> = p.segments.iter().skip(i).cloned().collect();
            let mut q: Path = parse_quote!(crate::vx);
            for s in segs {
                q.segments.push(s);
            }
            *p = q;
        }
    }
}

impl<'a> VisitMut for Lower<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // explicit rewriting rules first (dependency shims)
        for i in 0..self.rws.len() {
            let (p, r) = self.rws[i].clone();
            let mut b = HashMap::new();
            if rw_match(&p, e, &mut b) {
                self.used.insert(format!("rw{}", i));
                for v in b.values_mut() {
                    self.visit_expr_mut(v);
                }
                let mut r = r;
                Subst(&b).visit_expr_mut(&mut r);
                *e = r;
                return;
            }
        }
        match e {
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                // a byte string is the array of its bytes
                let v = b.value();
                *e = parse2(quote! { &[#(#v),*] }).unwrap();
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                let st = self.lower_for(&f);
                *e = parse2(quote! { { #(#st)* } }).unwrap();
            }
            Expr::While(_) | Expr::Loop(_) => {
                let n = self.loop_no;
                self.loop_no += 1;
                // `loop { if c { break; } .. }` is `while !c { .. }`
                if let Expr::Loop(l) = e {
                    if l.label.is_none() {
                        if let Some(Stmt::Expr(Expr::If(i), _)) = l.body.stmts.first() {
                            let brk = i.else_branch.is_none()
                                && !matches!(&*i.cond, Expr::Let(_))
                                && i.then_branch.stmts.len() == 1
                                && matches!(&i.then_branch.stmts[0], Stmt::Expr(Expr::Break(b), _) if b.expr.is_none() && b.label.is_none());
                            if brk {
                                let c = &i.cond;
                                let c: Expr = match &**c {
                                    Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => match &**expr {
                                        Expr::Paren(p) => (*p.expr).clone(),
                                        x => x.clone(),
                                    },
                                    Expr::Binary(b) => {
                                        let (l, r) = (&b.left, &b.right);
                                        match b.op {
                                            BinOp::Eq(_) => parse_quote! { #l != #r },
                                            BinOp::Ne(_) => parse_quote! { #l == #r },
                                            _ => parse_quote! { !(#c) },
                                        }
                                    }
                                    c => parse_quote! { !(#c) },
                                };
                                let rest = &l.body.stmts[1..];
                                *e = parse_quote! { while #c { #(#rest)* } };
                            }
                        }
                    }
                }
                self.loop_kinds.push(match e {
                    Expr::While(w) if matches!(&*w.cond, Expr::Let(_)) => "while let".into(),
                    Expr::While(_) => "while".into(),
                    _ => "loop".into(),
                });
                self.used.insert(format!("loop{}", n));
                visit_mut::visit_expr_mut(self, e);
                let la = self.loop_ann(n);
                let mut inner: Vec<Stmt> = Vec::new();
                let h = self.header(&la.header, "", "");
                inner.push(self.hdr(&h));
                if !la.start.is_empty() {
                    inner.push(self.mark(&la.start));
                }
                let body = match e {
                    Expr::While(w) => &mut w.body,
                    Expr::Loop(l) => &mut l.body,
                    _ => unreachable!(),
                };
                inner.extend(std::mem::take(&mut body.stmts));
                terminate(&mut inner);
                if !la.end.is_empty() {
                    inner.push(self.mark(&la.end));
                }
                body.stmts = inner;
                if !la.before.is_empty() || !la.after.is_empty() {
                    let b = self.mark(&la.before);
                    let a = self.mark(&la.after);
                    *e = parse2(quote! { { #b #e #a } }).unwrap();
                }
            }
            Expr::MethodCall(m) => {
                if m.method == "retain" && m.args.len() == 1 {
                    let m = m.clone();
                    let n = self.loop_no;
                    self.loop_no += 1;
                    let recv = self.lowered((*m.receiver).clone());
                    let f = m.args[0].clone();
                    let src: Expr = parse_quote! { crate::vx::take_vec(&mut #recv) };
                    let y = format_ident!("__y{}", n);
                    let st = self.emit_loop(n, Src::Owned(src), &None, &mut |me, item, _pos| {
                        let mut v: Vec<Stmt> = vec![parse2(quote! { let #y = #item; }).unwrap()];
                        let (b, e) = me.apply(&f, quote! { #y }, true);
                        v.extend(b);
                        v.push(parse2(quote! { if #e { #recv.push(#y); } }).unwrap());
                        v
                    });
                    *e = parse2(quote! { { #(#st)* } }).unwrap();
                    return;
                }
                if let Some((s, a, t)) = self.chain(m) {
                    let m = m.clone();
                    *e = self.lower_chain(&m, s, a, t);
                    return;
                }
                if let Some(x) = self.option_call(m) {
                    *e = x;
                    return;
                }
                // a function handed over as a value is known as little as a closure
                self.closure_no += m.args.iter().filter(|a| matches!(a, Expr::Path(p) if p.path.segments.len() == 1 && self.fn_names.contains(&norm(p)))).count();
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                match self.lower_macro(&mac) {
                    Some(x) => *e = x,
                    None => {
                        self.notes.push(format!("macro {}", norm(&mac.path)));
                    }
                }
            }
            Expr::If(i) => {
                // patterns in the condition
                let mut post = Vec::new();
                if let Expr::Let(l) = &mut *i.cond {
                    post = self.pat(&mut l.pat);
                }
                visit_mut::visit_expr_mut(self, e);
                if let Expr::If(i) = e {
                    if !post.is_empty() {
                        let old = std::mem::take(&mut i.then_branch.stmts);
                        i.then_branch.stmts = post;
                        i.then_branch.stmts.extend(old);
                    }
                }
            }
            Expr::Match(m) if m.arms.iter().any(|a| str_pat(&a.pat).is_some()) => {
                match str_match(m) {
                    Some(x) => *e = self.lowered(x),
                    None => self.notes.push("match on string literals".into()),
                }
            }
            Expr::Match(m) => {
                let mut posts = Vec::new();
                let refs = self.notes.iter().filter(|n| *n == "ref-binding").count();
                for a in m.arms.iter_mut() {
                    posts.push(self.pat(&mut a.pat));
                }
                if self.notes.iter().filter(|n| *n == "ref-binding").count() > refs {
                    self.notes.retain(|n| n != "ref-binding");
                    let x = &m.expr;
                    m.expr = Box::new(parse2(quote! { &(#x) }).unwrap());
                }
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Match(m) = e {
                    for (a, p) in m.arms.iter_mut().zip(posts) {
                        if !p.is_empty() {
                            let b = &a.body;
                            *a.body = parse2(quote! { { #(#p)* #b } }).unwrap();
                        }
                    }
                }
            }
            Expr::Index(ix) if str_lit(&ix.index) => {
                let b = self.lowered((*ix.expr).clone());
                let k = &ix.index;
                *e = parse2(quote! { #b.at(#k) }).unwrap();
            }
            Expr::Assign(a) if matches!(&*a.left, Expr::Index(ix) if str_lit(&ix.index)) => {
                let Expr::Index(ix) = &*a.left else { unreachable!() };
                let b = self.lowered((*ix.expr).clone());
                let k = &ix.index;
                let r = self.lowered((*a.right).clone());
                *e = parse2(quote! { { let __v = #r; #b.put(#k, __v); } }).unwrap();
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let native = obviously_native(&b.left) || obviously_native(&b.right);
                let ne = matches!(b.op, BinOp::Ne(_));
                visit_mut::visit_expr_mut(self, e);
                if !native {
                    if let Expr::Binary(b) = e {
                        let (l, r) = (&b.left, &b.right);
                        *e = if ne {
                            parse2(quote! { !crate::vx::VEq::vx_eq(&(#l), &(#r)) }).unwrap()
                        } else {
                            parse2(quote! { crate::vx::VEq::vx_eq(&(#l), &(#r)) }).unwrap()
                        };
                    }
                }
            }
            Expr::Try(t) => {
                let x = self.lowered((*t.expr).clone());
                *e = if self.ret_option {
                    parse2(quote! { match #x { Some(__v) => __v, None => { return None; } } }).unwrap()
                } else {
                    parse2(quote! { match #x { Ok(__v) => __v, Err(__e) => { return Err(__e); } } }).unwrap()
                };
            }
            Expr::Closure(c) => {
                let n = self.closure_no;
                self.closure_no += 1;
                let mut posts = Vec::new();
                for p in c.inputs.iter_mut() {
                    posts.extend(self.pat(p));
                }
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Closure(c) = e {
                    if !posts.is_empty() {
                        let b = &c.body;
                        *c.body = parse2(quote! { { #(#posts)* #b } }).unwrap();
                    }
                    if let Some(h) = self.ann.and_then(|a| a.closures.get(&n).cloned()) {
                        // the overlay gives the typed header: `|x: T| -> (r: U) ensures ..`
                        self.used.insert(format!("closure{}", n));
                        let b = &c.body;
                        let a1 = self.mark_expr(&h);
                        let blk: Expr = match &**b {
                            Expr::Block(_) => (**b).clone(),
                            _ => parse2(quote! { { #b } }).unwrap(),
                        };
                        *e = parse2(quote! { __vx_closure!(#a1, #blk) }).unwrap();
                    }
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = Vec::new();
        for st in old {
            // anchors
            let text = norm(&st);
            let mut before = Vec::new();
            let mut after = Vec::new();
            if let Some(a) = self.ann {
                for (i, at) in a.ats.iter().enumerate() {
                    let p: String = rename_text(&at.pat, &self.rename).chars().filter(|c| !c.is_whitespace()).collect();
                    if text.starts_with(&p) {
                        let c = self.seen.entry(format!("at{}", i)).or_insert(0);
                        if *c == at.nth {
                            self.used.insert(format!("at{}", i));
                            if at.before {
                                before.push(at.text.clone());
                            } else {
                                after.push(at.text.clone());
                            }
                        }
                        *c += 1;
                    }
                }
            }
            for t in before {
                let m = self.mark(&t);
                out.push(m);
            }
            match st {
                Stmt::Expr(Expr::ForLoop(f), _) => {
                    let v = self.lower_for(&f);
                    out.push(Stmt::Expr(block_expr(v), None));
                }
                Stmt::Macro(m) => {
                    let name = norm(&m.mac.path);
                    match self.lower_macro(&m.mac) {
                        Some(e) => {
                            if norm(&e) != "()" {
                                match (&e, m.semi_token) {
                                    (Expr::If(_), _) => out.push(Stmt::Expr(e, None)),
                                    (_, s) => out.push(Stmt::Expr(e, s)),
                                }
                            }
                        }
                        None => {
                            if name != "__vx_ann" {
                                self.notes.push(format!("macro {}", name));
                            }
                            out.push(Stmt::Macro(m));
                        }
                    }
                }
                Stmt::Local(mut l) => {
                    l.attrs.clear();
                    if let (Pat::Ident(id), Some(a)) = (&l.pat, self.ann) {
                        let name = id.ident.to_string();
                        for (k, t) in &a.types {
                            if rename_text(k, &self.rename) == name {
                                let t: Type = parse_str(t).unwrap();
                                let p = l.pat.clone();
                                l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(t) });
                                break;
                            }
                        }
                    }
                    let post = self.pat(&mut l.pat);
                    visit_mut::visit_local_mut(self, &mut l);
                    // hoist a lowered chain block: `let p = { stmts; acc };`
                    let mut hoisted = false;
                    if let Some(init) = &mut l.init {
                        if init.diverge.is_none() {
                            if let Expr::Block(bl) = &*init.expr {
                                let is_chain = bl.block.stmts.last().map(|s| norm(s).starts_with("__acc")).unwrap_or(false);
                                if is_chain {
                                    let mut ss = bl.block.stmts.clone();
                                    let last = ss.pop().unwrap();
                                    out.extend(ss);
                                    init.expr = Box::new(parse2(last.to_token_stream()).unwrap());
                                    out.push(Stmt::Local(l.clone()));
                                    hoisted = true;
                                }
                            }
                        }
                    }
                    if !hoisted {
                        out.push(Stmt::Local(l));
                    }
                    out.extend(post);
                }
                Stmt::Expr(mut e, semi) => {
                    self.visit_expr_mut(&mut e);
                    // a hoistable tail chain
                    if semi.is_none() {
                        if let Expr::Block(bl) = &e {
                            let is_chain = bl.label.is_none()
                                && bl.block.stmts.last().map(|s| norm(s).starts_with("__acc")).unwrap_or(false);
                            if is_chain {
                                out.extend(bl.block.stmts.clone());
                                for t in after {
                                    let m = self.mark(&t);
                                    out.push(m);
                                }
                                continue;
                            }
                        }
                    }
                    out.push(Stmt::Expr(e, semi));
                }
                other => out.push(other),
            }
            for t in after {
                let m = self.mark(&t);
                out.push(m);
            }
        }
        b.stmts = out;
    }

    /// `std::a::b::Shim::x` names the shim of vx.rs.
    fn visit_path_mut(&mut self, p: &mut Path) {
        shim_path(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
    }
}

impl<'a> Lower<'a> {
    fn mark_expr(&mut self, text: &str) -> TokenStream {
        let t = rename_text(text, &self.rename);
        let n = self.anns.len();
        self.anns.push(t);
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        quote! { #lit }
    }
}
