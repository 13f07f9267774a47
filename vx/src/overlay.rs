//! Parser of the contract overlays (/verif/specs/*.vs).
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct LoopAnn {
    pub header: String,
    pub start: String,
    pub end: String,
    pub before: String,
    pub after: String,
}

#[derive(Clone, Debug)]
pub struct AtAnn {
    pub before: bool,
    pub pat: String,
    pub nth: usize,
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct FnAnn {
    pub module: String,
    pub name: String, // e.g. TokenSet::add_token or find_paragraph_end
    pub ret: Option<String>,
    pub props: Vec<String>,
    pub attrs: String,
    pub spec: String,
    pub loops: BTreeMap<usize, LoopAnn>,
    pub closures: BTreeMap<usize, String>,
    pub start: String,
    pub end: String,
    pub ats: Vec<AtAnn>,
    pub rws: Vec<(String, String)>,
    pub trusted: Option<String>,
    pub sig: Option<String>,
    pub custom_iter: Vec<String>,
    pub keep_impl: bool,
    pub types: BTreeMap<String, String>,
    pub file: String,
    pub line: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Overlay {
    pub preludes: BTreeMap<String, String>, // module -> text
    pub fns: Vec<FnAnn>,
    pub typereplace: Vec<String>, // module::Type provided by the prelude
    pub rws: Vec<(String, String, String)>, // module, from, to
}

fn unquote(s: &str) -> (String, usize) {
    // "text" [n]
    let s = s.trim();
    let rest = s.strip_prefix('"').expect("expected quoted anchor");
    let end = rest.rfind('"').expect("unterminated anchor");
    let n = rest[end + 1..].trim();
    (
        rest[..end].to_string(),
        if n.is_empty() { 0 } else { n.parse().unwrap() },
    )
}

/// `props`: the properties asked for; a line `%C05,C15 text` is kept only for those, `%!C05 text` for all others.
pub fn load(dir: &str, props: &std::collections::BTreeSet<String>) -> Overlay {
    let mut o = Overlay::default();
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map(|x| x == "vs").unwrap_or(false))
        .collect();
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let mut t = String::new();
        for line in text.lines() {
            match line.strip_prefix('%') {
                Some(r) => {
                    let (ps, body) = r.split_once(char::is_whitespace).unwrap_or((r, ""));
                    let (not, ps) = match ps.strip_prefix('!') {
                        Some(x) => (true, x),
                        None => (false, ps),
                    };
                    if (props.is_empty() || ps.split(',').any(|p| props.contains(p))) != not {
                        t.push_str(body);
                    }
                }
                None => t.push_str(line),
            }
            t.push('\n');
        }
        parse(&mut o, &f.to_string_lossy(), &t);
    }
    o
}

fn parse(o: &mut Overlay, file: &str, text: &str) {
    let mut module = String::new();
    let mut cur: Option<FnAnn> = None;
    // sections: list of (directive, arg, body)
    let mut sections: Vec<(String, String, String, usize)> = Vec::new();
    for (ln, line) in text.lines().enumerate() {
        if let Some(rest) = line.strip_prefix('@') {
            let (d, a) = match rest.find(char::is_whitespace) {
                Some(i) => (rest[..i].to_string(), rest[i..].trim().to_string()),
                None => (rest.trim().to_string(), String::new()),
            };
            sections.push((d, a, String::new(), ln + 1));
        } else if let Some(l) = sections.last_mut() {
            l.2.push_str(line);
            l.2.push('\n');
        }
    }
    for (d, a, body, ln) in sections {
        match d.as_str() {
            "module" => {
                if let Some(f) = cur.take() {
                    o.fns.push(f);
                }
                module = a.clone();
            }
            "prelude" => {
                if let Some(f) = cur.take() {
                    o.fns.push(f);
                }
                o.preludes.entry(module.clone()).or_default().push_str(&body);
            }
            "typereplace" => o.typereplace.push(format!("{}::{}", module, a)),
            "fn" => {
                if let Some(f) = cur.take() {
                    o.fns.push(f);
                }
                let (name, ret) = match a.split_once("->") {
                    Some((n, r)) => (n.trim().to_string(), Some(r.trim().to_string())),
                    None => (a.clone(), None),
                };
                cur = Some(FnAnn {
                    module: module.clone(),
                    name,
                    ret,
                    file: file.to_string(),
                    line: ln,
                    ..Default::default()
                });
            }
            "rw" if cur.is_none() => {
                let (p, r) = a.split_once("=>").expect("rw needs =>");
                o.rws.push((module.clone(), p.trim().to_string(), r.trim().to_string()));
            }
            "comment" => {}
            _ => {
                let f = cur
                    .as_mut()
                    .unwrap_or_else(|| panic!("{}:{}: @{} outside @fn", file, ln, d));
                match d.as_str() {
                    "props" => f.props = a.split_whitespace().map(|s| s.to_string()).collect(),
                    "attr" => {
                        f.attrs.push_str(&a);
                        f.attrs.push('\n')
                    }
                    "spec" => f.spec = body,
                    "sig" => f.sig = Some(a.clone()),
                    "start" => f.start = body,
                    "end" => f.end = body,
                    "trusted" => f.trusted = Some(a),
                    "type" => {
                        let (n, t) = a.split_once(char::is_whitespace).unwrap();
                        f.types.insert(n.to_string(), t.trim().to_string());
                    }
                    "keepimpl" => f.keep_impl = true,
                    "customiter" => f.custom_iter.push(a),
                    "rw" => {
                        let (p, r) = a.split_once("=>").expect("rw needs =>");
                        f.rws.push((p.trim().to_string(), r.trim().to_string()));
                    }
                    "before" | "after" => {
                        let (pat, nth) = unquote(&a);
                        f.ats.push(AtAnn {
                            before: d == "before",
                            pat,
                            nth,
                            text: body,
                        });
                    }
                    "closure" => {
                        f.closures.insert(a.parse().unwrap(), body);
                    }
                    "loop" => {
                        let mut it = a.split_whitespace();
                        let n: usize = it.next().unwrap().parse().unwrap();
                        let l = f.loops.entry(n).or_default();
                        match it.next() {
                            None => l.header = body,
                            Some("start") => l.start = body,
                            Some("end") => l.end = body,
                            Some("before") => l.before = body,
                            Some("after") => l.after = body,
                            Some(x) => panic!("{}:{}: bad loop section {}", file, ln, x),
                        }
                    }
                    x => panic!("{}:{}: unknown directive @{}", file, ln, x),
                }
            }
        }
    }
    if let Some(f) = cur.take() {
        o.fns.push(f);
    }
}
