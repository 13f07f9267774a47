mod lower;
mod overlay;
mod print;

use lower::{norm, Lower};
use overlay::{FnAnn, Overlay};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Module {
    name: String, // e.g. input::util
    file: File,
}

fn load_modules(src: &str) -> Vec<Module> {
    let mut out = Vec::new();
    let text = std::fs::read_to_string(format!("{}/main.rs", src)).expect("main.rs");
    let file = parse_file(&text).expect("parse main.rs");
    collect(src, "", &file, &mut out);
    out.push(Module { name: "main".into(), file });
    out
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && norm(&a.meta).contains("test"))
}

fn collect(dir: &str, prefix: &str, file: &File, out: &mut Vec<Module>) {
    for it in &file.items {
        if let Item::Mod(m) = it {
            if is_test(&m.attrs) {
                continue;
            }
            let name = if prefix.is_empty() { m.ident.to_string() } else { format!("{}::{}", prefix, m.ident) };
            if let Some((_, items)) = &m.content {
                let f = File { shebang: None, attrs: vec![], items: items.clone() };
                out.push(Module { name, file: f });
                continue;
            }
            let p1 = format!("{}/{}.rs", dir, m.ident);
            let p2 = format!("{}/{}/mod.rs", dir, m.ident);
            let p = if std::path::Path::new(&p1).exists() { p1 } else { p2 };
            let text = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {}", p, e));
            let f = parse_file(&text).unwrap_or_else(|e| panic!("{}: {}", p, e));
            collect(&format!("{}/{}", dir, m.ident), &name, &f, out);
            out.push(Module { name, file: f });
        }
    }
}

#[derive(Clone)]
struct FnSrc {
    module: String,
    key: String, // Type::name or name
    sig: Signature,
    block: Block,
    imp: Option<ItemImpl>, // header only
    line: usize,
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => norm(t),
    }
}

fn functions(m: &Module) -> Vec<FnSrc> {
    let mut out = Vec::new();
    for it in &m.file.items {
        match it {
            Item::Fn(f) if !is_test(&f.attrs) => out.push(FnSrc {
                module: m.name.clone(),
                key: f.sig.ident.to_string(),
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                imp: None,
                line: f.sig.ident.span().start().line,
            }),
            Item::Impl(im) if !is_test(&im.attrs) => {
                let ty = type_name(&im.self_ty);
                for i in &im.items {
                    if let ImplItem::Fn(f) = i {
                        out.push(FnSrc {
                            module: m.name.clone(),
                            key: format!("{}::{}", ty, f.sig.ident),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                            imp: Some(im.clone()),
                            line: f.sig.ident.span().start().line,
                        });
                    }
                }
            }
            _ => {}
        }
    }
    out
}

struct Binders(Vec<String>);
impl<'ast> Visit<'ast> for Binders {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let s = p.ident.to_string();
        if !s.chars().next().unwrap().is_uppercase() {
            self.0.push(s);
        }
        visit::visit_pat_ident(self, p);
    }
}

fn binders(f: &FnSrc) -> Vec<String> {
    let mut b = Binders(vec![]);
    b.visit_signature(&f.sig);
    b.visit_block(&f.block);
    b.0
}

/// Source text identity of a function, names of locals included.
fn fn_text(f: &FnSrc) -> String {
    let mut b = f.block.clone();
    // comments are not tokens; nothing to strip
    let _ = &mut b;
    format!("{}{}", norm(&f.sig), norm(&b))
}

fn rename_map(base: &[String], cur: &[String]) -> HashMap<String, String> {
    let mut m = HashMap::new();
    if base == cur {
        return m;
    }
    // LCS alignment, then positional mapping inside equal-length gaps
    let (n, k) = (base.len(), cur.len());
    let mut t = vec![vec![0usize; k + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..k).rev() {
            t[i][j] = if base[i] == cur[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let (mut gi, mut gj) = (vec![], vec![]);
    let flush = |gi: &mut Vec<usize>, gj: &mut Vec<usize>, m: &mut HashMap<String, String>| {
        if gi.len() == gj.len() {
            for (a, b) in gi.iter().zip(gj.iter()) {
                m.entry(base[*a].clone()).or_insert(cur[*b].clone());
            }
        }
        gi.clear();
        gj.clear();
    };
    while i < n || j < k {
        if i < n && j < k && base[i] == cur[j] {
            flush(&mut gi, &mut gj, &mut m);
            i += 1;
            j += 1;
        } else if j >= k || (i < n && t[i + 1][j] >= t[i][j + 1]) {
            gi.push(i);
            i += 1;
        } else {
            gj.push(j);
            j += 1;
        }
    }
    flush(&mut gi, &mut gj, &mut m);
    // a name still bound in the current text keeps its meaning
    m.retain(|a, b| a != b && !cur.contains(a));
    m
}

fn pub_struct(s: &ItemStruct) -> String {
    let mut s = s.clone();
    let copy = s.attrs.iter().any(|a| a.path().is_ident("derive") && norm(&a.meta).contains("Copy"));
    s.attrs.clear();
    s.vis = parse_quote!(pub);
    for f in s.fields.iter_mut() {
        f.attrs.clear();
        f.vis = parse_quote!(pub);
    }
    let mut p = print::Printer::new(&[], 1);
    p.stream(s.to_token_stream(), true);
    format!("{}{}\n", if copy { "    #[derive(Clone, Copy)]\n" } else { "" }, p.out.trim_end())
}

fn pub_enum(s: &ItemEnum) -> String {
    let mut s = s.clone();
    let copy = s.attrs.iter().any(|a| a.path().is_ident("derive") && norm(&a.meta).contains("Copy"));
    // `==` of a derived PartialEq on unit variants is equality
    let eq = derives(&s.attrs, "PartialEq") && derives(&s.attrs, "Eq") && s.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
    s.attrs.clear();
    s.vis = parse_quote!(pub);
    for v in s.variants.iter_mut() {
        v.attrs.clear();
        for f in v.fields.iter_mut() {
            f.attrs.clear();
        }
    }
    let mut p = print::Printer::new(&[], 1);
    p.stream(s.to_token_stream(), true);
    format!("{}{}\n", match (copy, eq) {
        (true, true) => "    #[derive(Clone, Copy, PartialEq, Eq, Structural)]\n",
        (true, false) => "    #[derive(Clone, Copy)]\n",
        (false, true) => "    #[derive(PartialEq, Eq, Structural)]\n",
        _ => "",
    }, p.out.trim_end())
}

/// serde's derived serialization of an enum of unit variants: the (renamed) variant name
fn tojson_impl(s: &ItemEnum) -> String {
    if s.variants.iter().any(|v| !matches!(v.fields, Fields::Unit)) {
        return String::new();
    }
    let find = |attrs: &[Attribute], key: &str| -> Option<String> {
        let mut r = None;
        for a in attrs.iter().filter(|a| a.path().is_ident("serde")) {
            let _ = a.parse_nested_meta(|m| {
                if m.path.is_ident(key) {
                    let l: LitStr = m.value()?.parse()?;
                    r = Some(l.value());
                } else if m.input.peek(Token![=]) {
                    let _: Expr = m.value()?.parse()?;
                }
                Ok(())
            });
        }
        r
    };
    let all = find(&s.attrs, "rename_all");
    let snake = |n: &str, sep: char| -> String {
        let mut o = String::new();
        for (i, c) in n.char_indices() {
            if c.is_uppercase() && i > 0 {
                o.push(sep);
            }
            o.push(c.to_ascii_lowercase());
        }
        o
    };
    let mut arms = String::new();
    for v in &s.variants {
        let n = v.ident.to_string();
        let name = match find(&v.attrs, "rename") {
            Some(r) => r,
            None => match all.as_deref() {
                None | Some("PascalCase") => n.clone(),
                Some("lowercase") => n.to_lowercase(),
                Some("UPPERCASE") => n.to_uppercase(),
                Some("snake_case") => snake(&n, '_'),
                Some("kebab-case") => snake(&n, '-'),
                Some("SCREAMING_SNAKE_CASE") => snake(&n, '_').to_uppercase(),
                Some("camelCase") => format!("{}{}", n[..1].to_lowercase(), &n[1..]),
                _ => return String::new(),
            },
        };
        arms.push_str(&format!("{}::{} => crate::vx::JV::Str({:?}@), ", s.ident, n, name));
    }
    format!(
        "    impl crate::vx::ToJ for {} {{ open spec fn j(&self) -> crate::vx::JV {{ match *self {{ {} }} }}\n        #[verifier::external_body] fn vx_j(&self) -> (r: crate::vx::Value) {{ unimplemented!() }} }}\n",
        s.ident, arms
    )
}

fn derives(attrs: &[Attribute], what: &str) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derive") && {
            let n = norm(&a.meta);
            n.split(|c: char| !c.is_alphanumeric()).any(|w| w == what)
        }
    })
}

fn clone_impl(id: &Ident, g: &Generics) -> String {
    let (ig, tg, w) = g.split_for_impl();
    format!(
        "    impl{} Clone for {}{} {} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n",
        ig.to_token_stream(), id, tg.to_token_stream(), w.to_token_stream()
    )
}

struct Args(HashMap<String, String>);
impl Args {
    fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or(d.to_string())
    }
}

fn subst_assoc(sig: &mut Signature, imp: &ItemImpl) {
    let mut m: HashMap<String, Type> = HashMap::new();
    for i in &imp.items {
        if let ImplItem::Type(t) = i {
            m.insert(t.ident.to_string(), t.ty.clone());
        }
    }
    struct V(HashMap<String, Type>);
    impl visit_mut::VisitMut for V {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                let s = norm(&p.path);
                if let Some(r) = s.strip_prefix("Self::").and_then(|x| self.0.get(x)) {
                    *t = r.clone();
                    return;
                }
            }
            visit_mut::visit_type_mut(self, t);
        }
    }
    use visit_mut::VisitMut;
    V(m).visit_signature_mut(sig);
}

struct Calls(BTreeSet<String>);
impl<'ast> Visit<'ast> for Calls {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        self.0.insert(c.method.to_string());
        for a in &c.args {
            if let Expr::Path(p) = a {
                self.0.insert(p.path.segments.last().unwrap().ident.to_string());
            }
        }
        visit::visit_expr_method_call(self, c);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        if let Ok(a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for e in &a {
                self.visit_expr(e);
            }
        }
    }
}

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut a = Args(HashMap::new());
    while let Some(k) = it.next() {
        a.0.insert(k.trim_start_matches("--").to_string(), it.next().unwrap_or_default());
    }
    let src = a.get("src", "/repo/src");
    let specs = a.get("specs", "/verif/specs");
    match cmd.as_str() {
        "extract" => extract(&a, &src, &specs),
        "baseline" => baseline(&src, &specs),
        _ => {
            eprintln!("usage: vx extract|baseline --src DIR --specs DIR --out FILE --map FILE [--props C01,C02] [--stub a,b]");
            std::process::exit(2);
        }
    }
}

/// string literals of one or two ASCII characters
fn short_literals(b: &syn::Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_lit_str(&mut self, l: &'a syn::LitStr) {
            let v = l.value();
            if !v.is_empty() && v.len() <= 2 && v.is_ascii() && v.chars().all(|c| c == '\n' || !c.is_control()) {
                self.0.insert(v);
            }
        }
    }
    let mut v = V(BTreeSet::new());
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

fn baseline(src: &str, specs: &str) {
    let mods = load_modules(src);
    let mut m = serde_json::Map::new();
    let names: BTreeSet<String> = mods.iter().flat_map(functions).map(|f| f.sig.ident.to_string()).collect();
    for md in &mods {
        for f in functions(md) {
            let mut lw = new_lower(None, &f, HashMap::new(), &[]);
            lw.fn_names = names.clone();
            let mut b = f.block.clone();
            Canon.visit_block_mut(&mut b);
            visit_mut::VisitMut::visit_block_mut(&mut lw, &mut b);
            m.insert(
                format!("{}::{}", md.name, f.key),
                json!({"text": fn_text(&f), "binders": binders(&f), "loops": lw.loop_kinds, "closures": lw.closure_no, "calls": calls(&f), "returns": returns(&f.block)}),
            );
        }
    }
    std::fs::write(format!("{}/baseline.json", specs), serde_json::to_string_pretty(&Value::Object(m)).unwrap() + "\n").unwrap();
}

fn calls(f: &FnSrc) -> Vec<String> {
    let mut c = Calls(BTreeSet::new());
    c.visit_block(&f.block);
    c.0.into_iter().collect()
}

fn new_lower<'a>(ann: Option<&'a FnAnn>, f: &FnSrc, rename: HashMap<String, String>, rws: &[(String, String)]) -> Lower<'a> {
    let mut custom = BTreeSet::new();
    let mut refs = BTreeSet::new();
    let mut gen = BTreeSet::new();
    for g in f.sig.generics.params.iter().chain(f.imp.iter().flat_map(|i| i.generics.params.iter())) {
        if let GenericParam::Type(t) = g {
            gen.insert(t.ident.to_string());
        }
    }
    for p in &f.sig.inputs {
        if let FnArg::Typed(t) = p {
            let name = norm(&t.pat);
            let mut ty = &*t.ty;
            let mut by_ref = false;
            while let Type::Reference(r) = ty {
                by_ref = true;
                ty = &*r.elem;
            }
            if by_ref {
                refs.insert(name.clone());
            }
            if let Type::ImplTrait(_) = ty {
                custom.insert(name.clone());
            }
            if let Type::Path(p) = ty {
                if p.path.get_ident().map(|i| gen.contains(&i.to_string())).unwrap_or(false) {
                    custom.insert(name.clone());
                }
            }
        }
    }
    Lower {
        ann,
        anns: vec![],
        loop_no: 0,
        closure_no: 0,
        fn_names: BTreeSet::new(),
        seen: BTreeMap::new(),
        used: BTreeSet::new(),
        custom,
        ref_params: refs,
        rename,
        notes: vec![],
        loop_kinds: vec![],
        ret_option: f.sig.output.to_token_stream().to_string().trim_start_matches("-> ").starts_with("Option"),
        dvals: HashMap::new(),
        rws: rws
            .iter()
            .map(|(p, r)| {
                (
                    parse_str::<Expr>(p).unwrap_or_else(|e| panic!("bad rw pattern {}: {}", p, e)),
                    parse_str::<Expr>(r).unwrap_or_else(|e| panic!("bad rw replacement {}: {}", r, e)),
                )
            })
            .collect(),
    }
}

fn extract(a: &Args, src: &str, specs: &str) {
    let props: BTreeSet<String> = a.get("props", "").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let ov: Overlay = overlay::load(specs, &props);
    let vacuity = a.get("vacuity", "") == "1";
    let stubs: BTreeSet<String> = a.get("stub", "").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let base: Value = std::fs::read_to_string(format!("{}/baseline.json", specs))
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(json!({}));
    let mods = load_modules(src);
    let vxlib = std::fs::read_to_string(format!("{}/vx.rs", specs)).expect("vx.rs");
    let mut out = String::new();
    out.push_str("#![allow(unused, dead_code, non_snake_case, unused_parens, unused_braces, unreachable_code)]\n");
    out.push_str(&vxlib);
    let mut fmap: Vec<Value> = Vec::new();
    // module tree: nested modules are emitted flat inside their parent
    let mut names: Vec<String> = mods.iter().map(|m| m.name.clone()).collect();
    for f in &ov.fns {
        if !names.contains(&f.module) {
            names.push(f.module.clone());
        }
    }
    for m in ov.preludes.keys() {
        if !m.is_empty() && !names.contains(m) {
            names.push(m.clone());
        }
    }
    names.sort();
    // all repo function names, to find calls of uncontracted helpers
    let mut repo_fns: HashMap<String, Vec<FnSrc>> = HashMap::new();
    for m in &mods {
        for f in functions(m) {
            repo_fns.entry(f.sig.ident.to_string()).or_default().push(f);
        }
    }
    let contracted: BTreeSet<String> = ov.fns.iter().map(|f| f.name.rsplit("::").next().unwrap().to_string()).collect();

    let mut open: Vec<String> = Vec::new();
    let close_to = |open: &mut Vec<String>, out: &mut String, target: &[String]| {
        while !(open.len() <= target.len() && open[..] == target[..open.len()]) {
            open.pop();
            out.push_str("}\n");
        }
    };
    for name in &names {
        let has_fns = ov.fns.iter().any(|f| &f.module == name);
        if !has_fns && !ov.preludes.contains_key(name) {
            continue;
        }
        let path: Vec<String> = name.split("::").map(|s| s.to_string()).collect();
        let parent = &path[..path.len() - 1];
        close_to(&mut open, &mut out, parent);
        while open.len() < path.len() {
            let seg = path[open.len()].clone();
            out.push_str(&format!("pub mod {} {{\n", if seg == "main" { "main_mod" } else { &seg }));
            open.push(seg);
        }
        out.push_str("use vstd::prelude::*;\nverus! {\n");
        if let Some(p) = ov.preludes.get(name) {
            out.push_str(p);
        }
        let md = mods.iter().find(|m| &m.name == name);
        if let Some(md) = md {
            for it in &md.file.items {
                match it {
                    Item::Struct(s) if !is_test(&s.attrs) => {
                        if ov.typereplace.contains(&format!("{}::{}", name, s.ident)) {
                            continue;
                        }
                        out.push_str(&pub_struct(s));
                        if derives(&s.attrs, "Clone") && !derives(&s.attrs, "Copy") {
                            out.push_str(&clone_impl(&s.ident, &s.generics));
                        }
                    }
                    Item::Enum(s) if !is_test(&s.attrs) => {
                        if ov.typereplace.contains(&format!("{}::{}", name, s.ident)) {
                            continue;
                        }
                        out.push_str(&pub_enum(s));
                        if derives(&s.attrs, "Serialize") {
                            out.push_str(&tojson_impl(s));
                        }
                        if derives(&s.attrs, "Clone") && !derives(&s.attrs, "Copy") {
                            out.push_str(&clone_impl(&s.ident, &s.generics));
                        }
                    }
                    Item::Const(c) => {
                        let mut c = c.clone();
                        c.vis = parse_quote!(pub);
                        c.attrs.clear();
                        let mut p = print::Printer::new(&[], 1);
                        p.stream(c.to_token_stream(), true);
                        out.push_str(&p.out);
                        out.push('\n');
                    }
                    _ => {}
                }
            }
        }
        let fsrcs: Vec<FnSrc> = md.map(functions).unwrap_or_default();
        for ann in ov.fns.iter().filter(|f| &f.module == name) {
            let key = format!("{}::{}", name, ann.name);
            let relevant = props.is_empty() || ann.props.iter().any(|p| props.contains(p));
            let cand: Vec<&FnSrc> = fsrcs.iter().filter(|f| f.key == ann.name).collect();
            let Some(f) = cand.first().cloned() else {
                fmap.push(json!({"fn": key, "props": ann.props, "relevant": relevant, "missing": true}));
                continue;
            };
            let text = fn_text(f);
            let b = &base[&key];
            let changed = b["text"].as_str().map(|t| t != text).unwrap_or(true);
            let cur_binders = binders(f);
            let base_binders: Vec<String> = b["binders"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or(cur_binders.clone());
            let ren = rename_map(&base_binders, &cur_binders);
            // calls of repo functions that have no contract and were not called at the baseline
            let base_calls: BTreeSet<String> = b["calls"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
            let new_helpers: Vec<String> = calls(f).into_iter().filter(|c| repo_fns.contains_key(c) && !contracted.contains(c) && !base_calls.contains(c)).collect();
            let mut f2 = f.clone();
            let mut inlined = Vec::new();
            let _ = new_helpers;
            for _ in 0..4 {
                let nh = new_helpers_now(&f2, &repo_fns, &contracted, &base_calls);
                inline_calls(&mut f2, &nh, &repo_fns, &mut inlined);
            }
            Canon.visit_block_mut(&mut f2.block);
            let left: Vec<String> = new_helpers_now(&f2, &repo_fns, &contracted, &base_calls);
            let mut rws: Vec<(String, String)> = ann.rws.iter().map(|(p, r)| (lower::rename_text(p, &ren), lower::rename_text(r, &ren))).collect();
            for (m, p, r) in &ov.rws {
                if m.is_empty() || m == name {
                    rws.push((p.clone(), r.clone()));
                }
            }
            let mut lw = new_lower(Some(ann), &f2, ren.clone(), &rws);
            lw.fn_names = repo_fns.keys().cloned().collect();
            let mut block = f2.block.clone();
            let stub = stubs.contains(&key) || ann.trusted.is_some() || !relevant;
            visit_mut::VisitMut::visit_block_mut(&mut lw, &mut block);
            if vacuity && !stub {
                let m: Stmt = mark(&mut lw, "assert(false); // VACUITY");
                block.stmts.insert(0, m);
            }
            // what short string literals consist of
            if !stub {
                let lits = short_literals(&f2.block);
                if !lits.is_empty() {
                    let t: Vec<String> = lits.iter().map(|l| format!("reveal_strlit({:?});", l)).collect();
                    let m: Stmt = mark(&mut lw, &format!("proof {{ {} }}", t.join(" ")));
                    block.stmts.insert(0, m);
                }
            }
            // start / end annotations
            if !ann.start.is_empty() {
                let m: Stmt = mark(&mut lw, &ann.start);
                block.stmts.insert(0, m);
            }
            if !ann.end.is_empty() {
                // an early return that the baseline does not have ends the function as its end does
                if returns(&f2.block) > b["returns"].as_u64().unwrap_or(u64::MAX) {
                    end_at_returns(&mut block, &ann.end, &f2, &mut lw);
                }
                let m: Stmt = mark(&mut lw, &ann.end);
                let tail = matches!(block.stmts.last(), Some(Stmt::Expr(e, None)) if !matches!(e, Expr::Return(_)) && !matches!(f.sig.output, ReturnType::Default));
                if tail {
                    let t = block.stmts.pop().unwrap();
                    let r = quote::format_ident!("{}", "__ret");
                    let ty = ret_type(f);
                    let s: Stmt = parse2(quote! { let #r #ty = #t; }).unwrap();
                    block.stmts.push(s);
                    block.stmts.push(m);
                    block.stmts.push(Stmt::Expr(parse_quote!(#r), None));
                } else {
                    block.stmts.push(m);
                }
            }
            let mut lost: Vec<String> = Vec::new();
            for n in ann.loops.keys() {
                if !lw.used.contains(&format!("loop{}", n)) {
                    lost.push(format!("loop {}", n));
                }
            }
            for n in ann.closures.keys() {
                if !lw.used.contains(&format!("closure{}", n)) {
                    lost.push(format!("closure {}", n));
                }
            }
            for (i, at) in ann.ats.iter().enumerate() {
                if !lw.used.contains(&format!("at{}", i)) {
                    lost.push(format!("anchor {:?}", at.pat));
                }
            }
            let base_loops: Vec<String> = b["loops"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or(lw.loop_kinds.clone());
            let mut sig = f.sig.clone();
            if let Some(im) = &f.imp {
                subst_assoc(&mut sig, im);
            }
            let attrs = ann.attrs.clone();
            let spec = lower::rename_text(&ann.spec, &ren);
            let start_line = out.lines().count() + 1;
            let imp_open = match &f.imp {
                Some(im) => {
                    let g = &im.generics;
                    let (ig, _, w) = g.split_for_impl();
                    let st = &im.self_ty;
                    if ann.keep_impl {
                        let tr = im.trait_.as_ref().map(|t| t.1.to_token_stream().to_string()).unwrap_or_default();
                        format!("impl{} {} for {} {} {{\n", ig.to_token_stream(), tr, st.to_token_stream(), w.to_token_stream())
                    } else {
                        format!("impl{} {} {} {{\n", ig.to_token_stream(), st.to_token_stream(), w.to_token_stream())
                    }
                }
                None => String::new(),
            };
            out.push_str(&format!("// ==== {} (source line {})\n", key, f.line));
            out.push_str(&imp_open);
            for l in attrs.lines() {
                out.push_str(&format!("    {}\n", l));
            }
            if stub {
                out.push_str("    #[verifier::external_body]\n");
            } else if !attrs.contains("loop_isolation") {
                out.push_str("    #[verifier::loop_isolation(false)]\n    #[verifier::allow_complex_invariants]\n");
            }
            // signature
            let id = &sig.ident;
            let (ig, _, w) = sig.generics.split_for_impl();
            let ins = &sig.inputs;
            let inputs = ins.to_token_stream();
            let vis = if ann.keep_impl { "" } else { "pub " };
            let ret = match &sig.output {
                ReturnType::Default => String::new(),
                ReturnType::Type(_, t) => match &ann.ret {
                    Some(r) => format!(" -> ({}: {})", r, t.to_token_stream()),
                    None => format!(" -> {}", t.to_token_stream()),
                },
            };
            match &ann.sig {
                Some(s) => out.push_str(&format!("    {}\n", lower::rename_text(s, &ren))),
                None => out.push_str(&format!("    {}fn {}{}({}){} {}\n", vis, id, ig.to_token_stream(), inputs, ret, w.to_token_stream())),
            }
            for l in spec.lines() {
                out.push_str(&format!("        {}\n", l));
            }
            if stub {
                out.push_str("    { unimplemented!() }\n");
            } else {
                let anns: Vec<String> = lw.anns.iter().map(|a| lower::rename_text(a, &lw.dvals)).collect();
                let mut p = print::Printer::new(&anns, 1);
                p.stream(block.to_token_stream(), true);
                out.push_str(p.out.trim_end());
                out.push('\n');
            }
            if f.imp.is_some() {
                out.push_str("}\n");
            }
            let end_line = out.lines().count();
            fmap.push(json!({
                "fn": key, "props": ann.props, "relevant": relevant, "missing": false,
                "start": start_line, "end": end_line, "stub": stub && ann.trusted.is_none() && relevant,
                "assumed": stub && ann.trusted.is_none() && !relevant,
                "trusted": ann.trusted, "changed": changed, "lost": lost, "notes": lw.notes,
                "rename": ren, "helpers_inlined": inlined, "helpers_left": left,
                "new_closures": lw.closure_no as u64 > b["closures"].as_u64().unwrap_or(u64::MAX),
                "loops": lw.loop_kinds, "base_loops": base_loops, "src_line": f.line,
            }));
        }
        out.push_str("} // verus!\n");
    }
    close_to(&mut open, &mut out, &[]);
    out.push_str("fn main() {}\n");
    std::fs::write(a.get("out", "/tmp/vx_out.rs"), &out).unwrap();
    std::fs::write(a.get("map", "/tmp/vx_map.json"), serde_json::to_string_pretty(&json!({"functions": fmap})).unwrap()).unwrap();
}

fn mark(lw: &mut Lower, t: &str) -> Stmt {
    let t = lower::rename_text(t, &lw.rename);
    let n = lw.anns.len();
    lw.anns.push(t);
    let lit = proc_macro2::Literal::usize_unsuffixed(n);
    parse2(quote! { __vx_ann!(#lit); }).unwrap()
}

fn new_helpers_now(f: &FnSrc, repo: &HashMap<String, Vec<FnSrc>>, contracted: &BTreeSet<String>, base: &BTreeSet<String>) -> Vec<String> {
    calls(f).into_iter().filter(|c| repo.contains_key(c) && !contracted.contains(c) && !base.contains(c)).collect()
}

fn returns(b: &Block) -> u64 {
    struct V(u64);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
            self.0 += 1;
            visit::visit_expr_return(self, r);
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut v = V(0);
    v.visit_block(b);
    v.0
}

/// `: T` where the function's result type can be written in its body
fn ret_type(f: &FnSrc) -> proc_macro2::TokenStream {
    let mut sig = f.sig.clone();
    if let Some(im) = &f.imp {
        subst_assoc(&mut sig, im);
    }
    match &sig.output {
        ReturnType::Type(_, t) if !has_impl(t) => quote! { : #t },
        _ => quote! {},
    }
}

/// Puts the end annotation before `if c { ..; return x; }` at the top level where all it names is in scope.
fn end_at_returns(block: &mut Block, text: &str, f: &FnSrc, lw: &mut Lower) {
    let mut known = Binders(vec![]);
    known.visit_signature(&f.sig);
    let mut scope: BTreeSet<String> = known.0.into_iter().collect();
    let mut inner = Binders(vec![]);
    inner.visit_block(&f.block);
    let text2 = lower::rename_text(text, &lw.rename);
    let words: BTreeSet<String> = text2.split(|c: char| !c.is_alphanumeric() && c != '_').map(|s| s.to_string()).collect();
    let need: Vec<String> = inner.0.iter().filter(|n| words.contains(*n)).cloned().collect();
    for s in block.stmts.iter_mut() {
        if let Stmt::Local(l) = s {
            let mut v = Binders(vec![]);
            v.visit_pat(&l.pat);
            scope.extend(v.0);
        }
        if let Stmt::Expr(Expr::If(i), _) = s {
            if need.iter().all(|n| scope.contains(n)) {
                if let Some(Stmt::Expr(Expr::Return(ExprReturn { expr: Some(e), .. }), _)) = i.then_branch.stmts.last() {
                    let e = e.clone();
                    i.then_branch.stmts.pop();
                    let m = mark(lw, text);
                    let ty = ret_type(f);
                    i.then_branch.stmts.push(parse2(quote! { let __ret #ty = #e; }).unwrap());
                    i.then_branch.stmts.push(m);
                    i.then_branch.stmts.push(parse_quote! { return __ret; });
                }
            }
        }
    }
}

/// `let mut it = e; .. while let Some(p) = it.next() { .. }`, where `it` has no
/// other use, is `for p in e { .. }`.
struct Canon;
impl VisitMut for Canon {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        loop {
            let mut hit = None;
            'find: for (i, s) in b.stmts.iter().enumerate() {
                let Stmt::Local(Local { pat: Pat::Ident(PatIdent { ident, mutability: Some(_), subpat: None, .. }), init: Some(init), .. }) = s else { continue };
                if init.diverge.is_some() || b.stmts.iter().map(|s| uses(s, ident)).sum::<usize>() != 1 {
                    continue;
                }
                // what lies between may not touch what the iterator is made of; keep to adjacent statements and plain `let`s
                for j in i + 1..b.stmts.len() {
                    if let Stmt::Expr(Expr::While(w), _) = &b.stmts[j] {
                        if let Expr::Let(l) = &*w.cond {
                            if let (Pat::TupleStruct(p), Expr::MethodCall(m)) = (&*l.pat, &*l.expr) {
                                if p.path.is_ident("Some") && p.elems.len() == 1 && m.method == "next" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(q) if q.path.is_ident(ident)) {
                                    hit = Some((i, j));
                                    break 'find;
                                }
                            }
                        }
                        continue 'find;
                    }
                    if !matches!(&b.stmts[j], Stmt::Local(_)) {
                        continue 'find;
                    }
                }
            }
            let Some((i, j)) = hit else { return };
            let Stmt::Local(Local { init: Some(init), .. }) = b.stmts[i].clone() else { unreachable!() };
            let Stmt::Expr(Expr::While(w), _) = b.stmts[j].clone() else { unreachable!() };
            let Expr::Let(l) = *w.cond else { unreachable!() };
            let Pat::TupleStruct(p) = *l.pat else { unreachable!() };
            let (pat, src, body, label) = (&p.elems[0], &init.expr, &w.body, &w.label);
            b.stmts[j] = Stmt::Expr(parse_quote! { #label for #pat in #src #body }, None);
            b.stmts.remove(i);
        }
    }
}

fn uses(s: &Stmt, id: &Ident) -> usize {
    struct V<'a>(&'a Ident, usize);
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_expr_path(&mut self, p: &'ast ExprPath) {
            self.1 += p.path.is_ident(self.0) as usize;
        }
        fn visit_macro(&mut self, m: &'ast Macro) {
            self.1 += 2 * m.tokens.to_string().contains(&self.0.to_string()) as usize;
        }
    }
    let mut v = V(id, 0);
    v.visit_stmt(s);
    v.1
}

/// Inlines calls of helpers that the overlay does not know.
fn inline_calls(f: &mut FnSrc, names: &[String], repo: &HashMap<String, Vec<FnSrc>>, done: &mut Vec<String>) {
    let mut b = f.block.clone();
    let mut il = Inline { f, names, repo, done, n: 0 };
    VisitMut::visit_block_mut(&mut il, &mut b);
    InlineClosures(&mut il).visit_block_mut(&mut b);
    f.block = b;
}

struct Inline<'a> {
    f: &'a FnSrc,
    names: &'a [String],
    repo: &'a HashMap<String, Vec<FnSrc>>,
    done: &'a mut Vec<String>,
    n: usize,
}

/// A place that names itself: `x`, `self.a.b`.
fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}

fn place_root(e: &Expr) -> String {
    match e {
        Expr::Field(f) => place_root(&f.base),
        e => norm(e),
    }
}

struct HasReturn(bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}

/// `if c { return a; } rest` is `if c { a } else { rest }`; a final `return x;` is `x`.
fn tail_form(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut out = Vec::new();
    for (i, s) in stmts.iter().enumerate() {
        let last = i + 1 == stmts.len();
        if last {
            out.push(match s {
                Stmt::Expr(e, semi) => match tail_expr(e) {
                    Some(e) => {
                        let ret = matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) || matches!(s, Stmt::Expr(Expr::Return(_), _));
                        Stmt::Expr(e, if ret { None } else { *semi })
                    }
                    None => return None,
                },
                s => s.clone(),
            });
            break;
        }
        let mut h = HasReturn(false);
        h.visit_stmt(s);
        if h.0 {
            if let Stmt::Expr(Expr::If(x), _) = s {
                if x.else_branch.is_none() && matches!(x.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
                    let c = &x.cond;
                    let a = tail_form(&x.then_branch.stmts)?;
                    let r = tail_form(&stmts[i + 1..])?;
                    out.push(Stmt::Expr(parse_quote! { if #c { #(#a)* } else { #(#r)* } }, None));
                    return Some(out);
                }
            }
            return None;
        }
        out.push(s.clone());
    }
    Some(out)
}

fn tail_expr(e: &Expr) -> Option<Expr> {
    Some(match e {
        Expr::Return(r) => match &r.expr {
            Some(x) => tail_expr(x)?,
            None => parse_quote!(()),
        },
        Expr::If(x) if x.else_branch.is_some() => {
            let c = &x.cond;
            let a = tail_form(&x.then_branch.stmts)?;
            let b = tail_expr(&x.else_branch.as_ref().unwrap().1)?;
            parse_quote! { if #c { #(#a)* } else #b }
        }
        Expr::Block(x) if x.label.is_none() => {
            let a = tail_form(&x.block.stmts)?;
            parse_quote! { { #(#a)* } }
        }
        Expr::Match(m) => {
            let mut m = m.clone();
            for a in &mut m.arms {
                *a.body = tail_expr(&a.body)?;
            }
            Expr::Match(m)
        }
        e => {
            let mut h = HasReturn(false);
            h.visit_expr(e);
            if h.0 {
                return None;
            }
            e.clone()
        }
    })
}

struct NoLifetimes;
impl VisitMut for NoLifetimes {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        t.lifetime = None;
        visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if l.ident != "static" {
            *l = Lifetime::new("'_", l.span());
        }
    }
}

fn has_impl(t: &Type) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_type_impl_trait(&mut self, _: &'ast TypeImplTrait) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_type(t);
    v.0
}

/// Replaces a parameter by the place it stands for.
struct PlaceSubst<'a> {
    name: &'a str,
    place: &'a Expr,
    by: Option<bool>, // reference: Some(mutable)
    bad: bool,
}
impl<'a> PlaceSubst<'a> {
    fn is(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.is_ident(self.name),
            _ => false,
        }
    }
}
impl<'a> VisitMut for PlaceSubst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let place = self.place.clone();
        match e {
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) if self.by.is_some() && self.is(expr) => {
                *e = place;
                return;
            }
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                *m.receiver = place;
                for a in &mut m.args {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Field(f) if self.is(&f.base) => {
                *f.base = place;
                return;
            }
            Expr::Index(f) if self.is(&f.expr) => {
                *f.expr = place;
                self.visit_expr_mut(&mut f.index);
                return;
            }
            Expr::Path(_) if self.is(e) => {
                *e = match self.by {
                    None => place,
                    Some(true) => parse_quote!(&mut #place),
                    Some(false) => parse_quote!(&#place),
                };
                return;
            }
            Expr::Struct(s) => {
                for f in &s.fields {
                    if f.colon_token.is_none() && matches!(&f.member, Member::Named(i) if i == self.name) {
                        self.bad = true;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if ["println", "print", "eprintln", "eprint"].iter().any(|n| m.path.is_ident(n)) {
            return; // dropped
        }
        if m.tokens.to_string().contains(self.name) {
            self.bad = true;
        }
    }
}

impl<'a> Inline<'a> {
    fn helper(&self, e: &Expr) -> Option<(FnSrc, Vec<Expr>)> {
        let same = |h: &FnSrc| h.module == self.f.module;
        let own = |h: &FnSrc| match (&h.imp, &self.f.imp) {
            (Some(a), Some(b)) => norm(&a.self_ty) == norm(&b.self_ty),
            _ => false,
        };
        let pick = |name: &str, ok: &dyn Fn(&FnSrc) -> bool| -> Option<FnSrc> {
            if !self.names.iter().any(|n| n == name) {
                return None;
            }
            let v: Vec<&FnSrc> = self.repo.get(name)?.iter().filter(|h| same(h) && ok(h)).collect();
            if v.len() == 1 {
                Some(v[0].clone())
            } else {
                None
            }
        };
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let h = match seg.as_slice() {
                    [n] => pick(n, &|h| h.imp.is_none())?,
                    [t, n] => {
                        let me = self.f.imp.as_ref().map(|i| type_name(&i.self_ty)).unwrap_or_default();
                        if t != "Self" && *t != me {
                            return None;
                        }
                        pick(n, &|h| own(h) && h.sig.receiver().is_none())?
                    }
                    _ => return None,
                };
                Some((h, c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(m) if norm(&m.receiver) == "self" => {
                let mine = self.f.sig.receiver()?;
                mine.reference.as_ref()?;
                let h = pick(&m.method.to_string(), &|h| own(h) && h.sig.receiver().map(|r| r.reference.is_some()).unwrap_or(false))?;
                Some((h, m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }

    fn body(&mut self, h: &FnSrc, args: &[Expr], tries: bool) -> Option<Expr> {
        let params: Vec<PatType> = h.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t.clone()) } else { None }).collect();
        let generics: Vec<String> = h.sig.generics.params.iter().filter(|g| !matches!(g, GenericParam::Lifetime(_))).map(|g| match g {
            GenericParam::Type(t) => t.ident.to_string(),
            GenericParam::Const(c) => c.ident.to_string(),
            _ => String::new(),
        }).collect();
        let mentions = |t: String| t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| generics.iter().any(|g| g == w));
        if params.len() != args.len() || mentions(h.block.to_token_stream().to_string()) {
            return None;
        }
        let mut blk = h.block.clone();
        let mut hr = HasReturn(false);
        if tries {
            // the `?` in it leaves the caller all the same
            let mut c = blk.clone();
            StripTry.visit_block_mut(&mut c);
            hr.visit_block(&c);
            if hr.0 {
                return None;
            }
        } else {
            hr.visit_block(&blk);
            if hr.0 {
                blk.stmts = tail_form(&blk.stmts)?;
            }
        }
        let mut locals = Binders(vec![]);
        locals.visit_block(&blk);
        let mut first: Vec<Stmt> = Vec::new();
        let mut second: Vec<Stmt> = Vec::new();
        for (p, a) in params.iter().zip(args) {
            let Pat::Ident(pi) = &*p.pat else { return None };
            let name = pi.ident.to_string();
            let (by, place) = match a {
                Expr::Reference(r) => (Some(r.mutability.is_some()), (*r.expr).clone()),
                e => (None, e.clone()),
            };
            let others = args.iter().filter(|x| x.to_token_stream().to_string() != a.to_token_stream().to_string()).any(|x| {
                let t = x.to_token_stream().to_string();
                t.contains("& mut") && t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == place_root(&place))
            });
            if pi.mutability.is_none() && is_place(&place) && !others && !locals.0.contains(&name) && !locals.0.contains(&place_root(&place)) {
                // the parameter is another name of the place; a parameter of the same name shadows nothing
                if params.iter().any(|q| norm(&q.pat) == place_root(&place)) && place_root(&place) != name {
                    return None;
                }
                let mut s = PlaceSubst { name: &name, place: &place, by, bad: false };
                let mut b2 = blk.clone();
                if by.is_some() || norm(&place) != name {
                    s.visit_block_mut(&mut b2);
                }
                if !s.bad {
                    blk = b2;
                    continue;
                }
            }
            if matches!(by, Some(true)) {
                return None;
            }
            self.n += 1;
            let h = quote::format_ident!("__h{}", self.n);
            let mut ty = (*p.ty).clone();
            NoLifetimes.visit_type_mut(&mut ty);
            if has_impl(&ty) || mentions(ty.to_token_stream().to_string()) {
                first.push(parse_quote! { let #h = #a; });
            } else {
                first.push(parse_quote! { let #h: #ty = #a; });
            }
            let pat = &p.pat;
            second.push(parse_quote! { let #pat = #h; });
        }
        let st = &blk.stmts;
        if first.is_empty() && st.len() == 1 {
            if let Stmt::Expr(e, None) = &st[0] {
                return Some(parse_quote! { (#e) });
            }
        }
        Some(parse_quote! { { #(#first)* #(#second)* #(#st)* } })
    }
}

struct StripTry;
impl VisitMut for StripTry {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            *e = (*t.expr).clone();
        }
    }
}

/// `Option` both, or the same kind of `Result` with the same error
fn same_failure(a: &ReturnType, b: &ReturnType) -> bool {
    let f = |r: &ReturnType| -> Option<String> {
        let ReturnType::Type(_, t) = r else { return None };
        let Type::Path(p) = &**t else { return None };
        let l = p.path.segments.last()?;
        let PathArguments::AngleBracketed(x) = &l.arguments else { return Some(norm(p)) };
        let pre: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        Some(format!("{}/{}", pre.join("::"), x.args.iter().skip(1).map(|x| norm(x)).collect::<Vec<_>>().join(",")))
    };
    matches!((f(a), f(b)), (Some(x), Some(y)) if x == y)
}

struct CallsOf<'x, 'a> {
    name: &'x Ident,
    h: &'x FnSrc,
    il: &'x mut Inline<'a>,
}
impl<'x, 'a> VisitMut for CallsOf<'x, 'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) {
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if let Some(b) = self.il.body(self.h, &args, false) {
                    *e = b;
                }
            }
        }
    }
}

impl<'a> Inline<'a> {
    /// A closure that is bound to a name and only ever called is its body.
    fn closures(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if let Stmt::Local(Local { pat: Pat::Ident(pi), init: Some(init), .. }) = &b.stmts[i] {
                if let Expr::Closure(c) = &*init.expr {
                    if let Some(rest) = self.closure(&pi.ident, c, &b.stmts[i + 1..]) {
                        let name = pi.ident.to_string();
                        if !self.done.contains(&name) {
                            self.done.push(name);
                        }
                        b.stmts.truncate(i);
                        b.stmts.extend(rest);
                        continue;
                    }
                }
            }
            i += 1;
        }
    }

    fn closure(&mut self, name: &Ident, c: &ExprClosure, rest: &[Stmt]) -> Option<Vec<Stmt>> {
        if c.asyncness.is_some() || c.capture.is_some() {
            return None;
        }
        let mut params: Vec<FnArg> = Vec::new();
        let mut own = Binders(vec![]);
        for p in &c.inputs {
            own.visit_pat(p);
            params.push(match p {
                Pat::Type(t) => FnArg::Typed(t.clone()),
                Pat::Ident(_) => FnArg::Typed(parse_quote! { #p: _ }),
                _ => return None,
            });
        }
        let body = &c.body;
        let block: Block = match &**body {
            Expr::Block(x) if x.label.is_none() => x.block.clone(),
            x => parse_quote! { { #x } },
        };
        // what the body names outside itself must still mean the same where it is called
        own.visit_block(&block);
        let mut later = Binders(vec![]);
        for s in rest {
            later.visit_stmt(s);
        }
        let text = block.to_token_stream().to_string();
        let words: BTreeSet<&str> = text.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
        if later.0.iter().any(|n| words.contains(n.as_str()) && !own.0.contains(n)) {
            return None;
        }
        let h = FnSrc { module: self.f.module.clone(), key: name.to_string(), sig: parse_quote! { fn __closure(#(#params),*) }, block, imp: None, line: 0 };
        let mut rest = rest.to_vec();
        for s in rest.iter_mut() {
            CallsOf { name, h: &h, il: self }.visit_stmt_mut(s);
        }
        if rest.iter().any(|s| uses(s, name) > 0) {
            return None;
        }
        Some(rest)
    }
}

struct InlineClosures<'x, 'a>(&'x mut Inline<'a>);
impl<'x, 'a> VisitMut for InlineClosures<'x, 'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.0.closures(b);
        visit_mut::visit_block_mut(self, b);
    }
}

impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // a helper handed over as a value is the closure that calls it
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                if let Expr::Path(p) = a {
                    let n = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                    let one = self.repo.get(&n).map(|v| v.iter().all(|h| h.sig.receiver().is_none() && h.sig.inputs.len() == 1)).unwrap_or(false);
                    if one && self.names.contains(&n) {
                        self.n += 1;
                        let v = quote::format_ident!("__h{}", self.n);
                        *a = parse_quote! { |#v| #p(#v) };
                    }
                }
            }
        }
        // `helper(..)?` where the helper itself ends with an error the way its caller does
        if let Expr::Try(t) = e {
            if let Some((h, args)) = self.helper(&t.expr) {
                if same_failure(&h.sig.output, &self.f.sig.output) {
                    let mut args = args;
                    args.iter_mut().for_each(|a| self.visit_expr_mut(a));
                    if let Some(b) = self.body(&h, &args, true) {
                        let name = h.sig.ident.to_string();
                        if !self.done.contains(&name) {
                            self.done.push(name);
                        }
                        *t.expr = b;
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some((h, args)) = self.helper(e) {
            let name = h.sig.ident.to_string();
            if let Some(b) = self.body(&h, &args, false) {
                *e = b;
                if !self.done.contains(&name) {
                    self.done.push(name);
                }
            }
        }
    }
}
