//! Token printer: one statement per line, annotation markers expanded.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub out: String,
    indent: usize,
    anns: &'a [String],
    at_line_start: bool,
    prev_joint: bool,
    prev_ident: bool,
}

impl<'a> Printer<'a> {
    pub fn new(anns: &'a [String], indent: usize) -> Self {
        Printer { out: String::new(), indent, anns, at_line_start: true, prev_joint: false, prev_ident: false }
    }
    fn nl(&mut self) {
        if !self.at_line_start {
            self.out.push('\n');
        }
        self.at_line_start = true;
        self.prev_joint = false;
    }
    fn w(&mut self, s: &str, space: bool) {
        if self.at_line_start {
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.at_line_start = false;
        } else if space {
            self.out.push(' ');
        }
        self.out.push_str(s);
    }
    fn raw(&mut self, text: &str) {
        self.nl();
        for l in text.lines() {
            if l.trim().is_empty() {
                continue;
            }
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.out.push_str(l);
            self.out.push('\n');
        }
        self.at_line_start = true;
    }
    pub fn stream(&mut self, ts: TokenStream, brace: bool) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            // marker: __vx_ann ! ( n ) ;
            if let TokenTree::Ident(id) = &v[i] {
                if id == "__vx_ann" && i + 2 < v.len() {
                    if let TokenTree::Group(g) = &v[i + 2] {
                        let n: usize = g.stream().to_string().trim().parse().unwrap();
                        let t = self.anns[n].clone();
                        self.raw(&t);
                        i += 3;
                        if i < v.len() {
                            if let TokenTree::Punct(p) = &v[i] {
                                if p.as_char() == ';' {
                                    i += 1;
                                }
                            }
                        }
                        continue;
                    }
                }
            }
            if let TokenTree::Ident(id) = &v[i] {
                if id == "__vx_closure" && i + 2 < v.len() {
                    if let TokenTree::Group(g) = &v[i + 2] {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let n: usize = inner[0].to_string().parse().unwrap();
                        let t = self.anns[n].clone();
                        let sp = !self.prev_joint;
                        self.w(t.trim(), sp);
                        self.stream(inner[2..].iter().cloned().collect(), true);
                        self.prev_ident = true;
                        i += 3;
                        continue;
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        // header marker?
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut rest = g.stream();
                        let mut is_loop = false;
                        if inner.len() >= 4 {
                            if let TokenTree::Ident(id) = &inner[0] {
                                if id == "__vx_hdr" {
                                    if let TokenTree::Group(gg) = &inner[2] {
                                        let n: usize = gg.stream().to_string().trim().parse().unwrap();
                                        let t = self.anns[n].clone();
                                        is_loop = true;
                                        self.indent += 1;
                                        self.raw(&t);
                                        self.indent -= 1;
                                        rest = inner[4..].iter().cloned().collect();
                                    }
                                }
                            }
                        }
                        if rest.is_empty() {
                            self.w("{ }", true);
                            self.prev_joint = false;
                            self.prev_ident = true;
                        } else {
                            self.w("{", true);
                            self.nl();
                            self.indent += 1;
                            self.stream(rest, true);
                            self.nl();
                            self.indent -= 1;
                            self.w("}", false);
                            self.prev_joint = false;
                            self.prev_ident = true;
                        }
                        // Verus does not parse a loop followed directly by a block
                        if let Some(TokenTree::Group(n)) = v.get(i + 1) {
                            if is_loop && n.delimiter() == Delimiter::Brace {
                                self.w(";", false);
                            }
                        }
                        // newline after a block unless followed by else / . / , / ; / ) / ?
                        let cont = match v.get(i + 1) {
                            Some(TokenTree::Ident(id)) => id == "else",
                            Some(TokenTree::Punct(_)) => {
                                let c = if let Some(TokenTree::Punct(p)) = v.get(i + 1) { p.as_char() } else { ' ' };
                                c != '*' && c != '&' && c != '#'
                            }
                            Some(TokenTree::Group(_)) => false,
                            _ => true,
                        };
                        if !cont {
                            self.nl();
                        }
                    }
                    d => {
                        let (o, c) = match d {
                            Delimiter::Parenthesis => ("(", ")"),
                            Delimiter::Bracket => ("[", "]"),
                            _ => ("", ""),
                        };
                        let sp = !self.prev_ident && !self.prev_joint;
                        self.w(o, sp);
                        self.prev_joint = true;
                        self.stream(g.stream(), false);
                        self.w(c, false);
                        self.prev_joint = false;
                        self.prev_ident = true;
                    }
                },
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    let sp = !self.prev_joint;
                    self.w(&s, sp);
                    self.prev_joint = false;
                    self.prev_ident = !matches!(s.as_str(), "return" | "in" | "if" | "match" | "let" | "while" | "else" | "mut" | "ref" | "break");
                }
                TokenTree::Literal(l) => {
                    let sp = !self.prev_joint;
                    self.w(&l.to_string(), sp);
                    self.prev_joint = false;
                    self.prev_ident = true;
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    let sp = !self.prev_joint && !matches!(c, ',' | ';' | '.' | '?' | ':');
                    self.w(&c.to_string(), sp);
                    self.prev_joint = p.spacing() == Spacing::Joint || matches!(c, '\'');
                    if c == '.' {
                        self.prev_joint = true;
                    }
                    self.prev_ident = false;
                    if c == ':' && p.spacing() == Spacing::Alone {
                        // path separators glue to the next token; type colons keep a space
                        let prev_colon = i > 0 && matches!(&v[i-1], TokenTree::Punct(q) if q.as_char() == ':' && q.spacing() == Spacing::Joint);
                        if prev_colon {
                            self.prev_joint = true;
                        }
                    }
                    if brace && (c == ';' || c == ',') {
                        self.nl();
                    }
                }
            }
            i += 1;
        }
    }
}
