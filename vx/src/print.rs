//! Token stream -> text, one statement a line, with the marker texts put in.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub marks: &'a [String],
    pub out: String,
    ind: usize,
    bol: bool,
    glue: bool,
}

fn mark_at(v: &[TokenTree], i: usize, name: &str) -> Option<usize> {
    // NAME ! ( k ) ;
    if v.len() < i + 4 {
        return None;
    }
    match (&v[i], &v[i + 1], &v[i + 2], &v[i + 3]) {
        (TokenTree::Ident(id), TokenTree::Punct(_), TokenTree::Group(g), TokenTree::Punct(_))
            if id == name =>
        {
            g.stream().to_string().trim_end_matches("usize").parse().ok()
        }
        _ => None,
    }
}

impl<'a> Printer<'a> {
    pub fn new(marks: &'a [String]) -> Self {
        Printer { marks, out: String::new(), ind: 0, bol: true, glue: true }
    }
    fn nl(&mut self) {
        if !self.bol {
            self.out.push('\n');
        }
        self.bol = true;
        self.glue = true;
    }
    fn word(&mut self, s: &str) {
        if self.bol {
            for _ in 0..self.ind {
                self.out.push_str("    ");
            }
        } else if !self.glue {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.bol = false;
        self.glue = false;
    }
    fn raw_lines(&mut self, s: &str) {
        self.nl();
        for l in s.lines() {
            for _ in 0..self.ind {
                self.out.push_str("    ");
            }
            self.out.push_str(l);
            self.out.push('\n');
        }
        self.bol = true;
        self.glue = true;
    }
    pub fn ts(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let Some(k) = mark_at(&v, i, "__vx_mark") {
                let m = self.marks[k].clone();
                self.raw_lines(&m);
                i += 4;
                continue;
            }
            match &v[i] {
                TokenTree::Ident(id) => self.word(&id.to_string()),
                TokenTree::Literal(l) => self.word(&l.to_string()),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if matches!(c, ',' | ';' | '.' | '?') && !self.bol {
                        self.glue = true;
                    }
                    self.word(&c.to_string());
                    if p.spacing() == Spacing::Joint || c == '\'' || c == '.' {
                        self.glue = true;
                    }
                    if c == ';' {
                        self.nl();
                    }
                }
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut skip = 0;
                        if let Some(k) = mark_at(&inner, 0, "__vx_loop") {
                            let m = self.marks[k].clone();
                            self.ind += 1;
                            self.raw_lines(&m);
                            self.ind -= 1;
                            skip = 4;
                        }
                        if inner.is_empty() {
                            self.word("{}");
                            i += 1;
                            continue;
                        }
                        self.word("{");
                        self.nl();
                        self.ind += 1;
                        self.ts(inner[skip..].iter().cloned().collect());
                        self.nl();
                        self.ind -= 1;
                        self.word("}");
                        // keep `} else`, `})`, `}.x` on the line; otherwise a new statement
                        match v.get(i + 1) {
                            Some(TokenTree::Ident(id)) if id == "else" => {}
                            Some(TokenTree::Punct(p)) if p.as_char() != '*' && p.as_char() != '&' => {}
                            None => {}
                            _ => self.nl(),
                        }
                    }
                    d => {
                        let (o, c) = match d {
                            Delimiter::Parenthesis => ("(", ")"),
                            Delimiter::Bracket => ("[", "]"),
                            _ => ("", ""),
                        };
                        if !self.bol {
                            let last = self.out.chars().last().unwrap_or(' ');
                            if last.is_alphanumeric() || last == '_' || last == '>' || last == '!' {
                                // calls; harmless after keywords
                                let kw = ["if", "match", "in", "return", "while", "let", "mut", "as", "else"];
                                let w: String = self.out.chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                                let w: String = w.chars().rev().collect();
                                if !kw.contains(&w.as_str()) {
                                    self.glue = true;
                                }
                            }
                        }
                        self.word(o);
                        self.glue = true;
                        self.ts(g.stream());
                        if !self.bol {
                            self.glue = true;
                        }
                        self.word(c);
                    }
                },
            }
            i += 1;
        }
    }
}
