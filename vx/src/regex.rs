//! Regular expressions of the code: `Regex::new(LITERAL).unwrap()` becomes
//! `vx_regex(Ghost(Pat { .. }))` with the parsed literal, and `r.replace_all(s, |c| BODY)` becomes
//! the loop over the matches that replace_all() runs.
use syn::visit_mut::{self, VisitMut};

#[derive(Clone, Debug, PartialEq)]
enum Rx {
    Nil,
    C(char),
    R(char, char),
    Ws,
    Word,
    Digit,
    NotNl,
    Not(Box<Rx>),
    Alt(Box<Rx>, Box<Rx>),
    Cat(Vec<Rx>),
    Star(Box<Rx>, bool),
    Grp(Box<Rx>),
}

struct P {
    c: Vec<char>,
    i: usize,
    /// (?s): a dot is any character
    dotall: bool,
}

impl P {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn alt(&mut self) -> Option<Rx> {
        let a = self.cat()?;
        if self.peek() == Some('|') {
            self.i += 1;
            let b = self.alt()?;
            return Some(Rx::Alt(Box::new(a), Box::new(b)));
        }
        Some(a)
    }
    fn cat(&mut self) -> Option<Rx> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let a = self.atom()?;
            self.quant(a, &mut v)?;
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { Rx::Cat(v) })
    }
    fn quant(&mut self, a: Rx, v: &mut Vec<Rx>) -> Option<()> {
        let (lo, hi) = match self.peek() {
            Some('*') => (0, None),
            Some('+') => (1, None),
            Some('?') => (0, Some(1)),
            Some('{') => {
                let j = (self.i..self.c.len()).find(|j| self.c[*j] == '}')?;
                let t: String = self.c[self.i + 1..j].iter().collect();
                self.i = j;
                match t.split_once(',') {
                    None => {
                        let n: usize = t.parse().ok()?;
                        (n, Some(n))
                    }
                    Some((a, "")) => (a.parse().ok()?, None),
                    Some((a, b)) => (a.parse().ok()?, Some(b.parse().ok()?)),
                }
            }
            _ => {
                v.push(a);
                return Some(());
            }
        };
        self.i += 1;
        let lazy = self.peek() == Some('?');
        if lazy {
            self.i += 1;
        }
        if matches!(self.peek(), Some('*' | '+' | '?' | '{')) || lo > 8 || hi.map_or(false, |h: usize| h > 8 || h < lo) {
            return None;
        }
        // a group that is repeated has no text of its own
        let a = if let (Rx::Grp(_), false) = (&a, (lo, hi) == (1, Some(1))) { Rx::Cat(vec![a]) } else { a };
        for _ in 0..lo {
            v.push(a.clone());
        }
        match hi {
            None => v.push(Rx::Star(Box::new(a), lazy)),
            Some(h) => {
                for _ in lo..h {
                    v.push(Rx::Alt(Box::new(a.clone()), Box::new(Rx::Nil)));
                }
            }
        }
        Some(())
    }
    fn esc(&mut self) -> Option<Rx> {
        let c = self.peek()?;
        self.i += 1;
        Some(match c {
            's' => Rx::Ws,
            'w' => Rx::Word,
            'd' => Rx::Digit,
            'S' => Rx::Not(Box::new(Rx::Ws)),
            'W' => Rx::Not(Box::new(Rx::Word)),
            'D' => Rx::Not(Box::new(Rx::Digit)),
            'n' => Rx::C('\n'),
            'r' => Rx::C('\r'),
            't' => Rx::C('\t'),
            c if c.is_ascii_punctuation() && c != '<' && c != '>' => Rx::C(c),
            _ => return None,
        })
    }
    fn atom(&mut self) -> Option<Rx> {
        let c = self.peek()?;
        self.i += 1;
        Some(match c {
            '.' if self.dotall => Rx::Alt(Box::new(Rx::NotNl), Box::new(Rx::C('\n'))),
            '.' => Rx::NotNl,
            '\\' => self.esc()?,
            '(' => {
                let mut grp = true;
                if self.peek() == Some('?') {
                    if self.c.get(self.i + 1) != Some(&':') {
                        return None;
                    }
                    self.i += 2;
                    grp = false;
                }
                let a = self.alt()?;
                if self.peek() != Some(')') {
                    return None;
                }
                self.i += 1;
                if grp { Rx::Grp(Box::new(a)) } else { Rx::Cat(vec![a]) }
            }
            '[' => self.class()?,
            '*' | '+' | '?' | '{' | '}' | ']' | '^' | '$' => return None,
            c => Rx::C(c),
        })
    }
    fn class(&mut self) -> Option<Rx> {
        let neg = self.peek() == Some('^');
        if neg {
            self.i += 1;
        }
        let mut v: Vec<Rx> = vec![];
        loop {
            let c = self.peek()?;
            self.i += 1;
            let a = match c {
                ']' if v.is_empty() => return None,
                ']' => break,
                '[' => return None,
                '&' | '~' if self.peek() == Some(c) => return None,
                '-' if self.peek() == Some('-') => return None,
                '\\' => self.esc()?,
                c => Rx::C(c),
            };
            if let (Rx::C(lo), Some('-')) = (&a, self.peek()) {
                let nx = self.c.get(self.i + 1).copied()?;
                if nx != ']' && nx != '-' {
                    self.i += 1;
                    let hi = self.peek()?;
                    self.i += 1;
                    let hi = match hi {
                        '\\' => match self.esc()? {
                            Rx::C(c) => c,
                            _ => return None,
                        },
                        '[' => return None,
                        c => c,
                    };
                    if hi < *lo {
                        return None;
                    }
                    v.push(Rx::R(*lo, hi));
                    continue;
                }
            }
            v.push(a);
        }
        let mut r = v.pop()?;
        while let Some(a) = v.pop() {
            r = Rx::Alt(Box::new(a), Box::new(r));
        }
        Some(if neg { Rx::Not(Box::new(r)) } else { r })
    }
}

fn single(r: &Rx) -> bool {
    match r {
        Rx::C(_) | Rx::R(..) | Rx::Ws | Rx::Word | Rx::Digit | Rx::NotNl | Rx::Not(_) => true,
        Rx::Alt(a, b) => single(a) && single(b),
        _ => false,
    }
}

fn literals(r: &Rx) -> Option<Vec<String>> {
    match r {
        Rx::C(c) => Some(vec![c.to_string()]),
        Rx::Grp(a) => literals(a),
        Rx::Cat(v) => {
            let mut s = String::new();
            for a in v {
                match a {
                    Rx::C(c) => s.push(*c),
                    Rx::Cat(_) | Rx::Grp(_) => match &literals(a)?[..] {
                        [t] => s.push_str(t),
                        _ => return None,
                    },
                    _ => return None,
                }
            }
            Some(vec![s])
        }
        Rx::Alt(a, b) => {
            let mut v = literals(a)?;
            v.extend(literals(b)?);
            Some(v)
        }
        _ => None,
    }
}

/// the text of every match is the shortest that starts where it does: texts of a length that what
/// is read determines, one lazy repetition, characters
fn shortest(items: &[Rx]) -> bool {
    let Some(k) = items.iter().position(|r| matches!(r, Rx::Star(_, true))) else { return false };
    let Rx::Star(body, _) = &items[k] else { return false };
    let mut b = &**body;
    while let Rx::Grp(x) = b {
        b = x;
    }
    if let Rx::Cat(v) = b {
        if let [x] = &v[..] {
            b = x;
            while let Rx::Grp(x) = b {
                b = x;
            }
        }
    }
    single(b)
        && items[k + 1..].iter().all(single)
        && items[..k].iter().all(|r| {
            single(r)
                || match literals(r) {
                    Some(v) => v.iter().enumerate().all(|(i, a)| v.iter().enumerate().all(|(j, b)| i == j || !b.starts_with(a.as_str()))),
                    None => false,
                }
        })
}

fn lit(s: &[char]) -> String {
    let v: Vec<String> = s.iter().map(|c| format!("{c:?}")).collect();
    format!("Rx::L(seq![{}])", v.join(", "))
}

/// the parts of a concatenation, runs of characters taken together
fn parts(v: &[Rx]) -> Vec<(String, usize)> {
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut t = vec![];
        while let Some(Rx::C(c)) = v.get(i) {
            t.push(*c);
            i += 1;
        }
        if t.is_empty() {
            o.push((show(&v[i]), i));
            i += 1;
        } else {
            o.push((lit(&t), i - t.len()));
        }
    }
    o
}

fn show(r: &Rx) -> String {
    match r {
        Rx::Nil => "Rx::Nil".into(),
        Rx::C(c) => lit(&[*c]),
        Rx::R(a, b) => format!("Rx::R({a:?}, {b:?})"),
        Rx::Ws => "Rx::Ws".into(),
        Rx::Word => "Rx::Word".into(),
        Rx::Digit => "Rx::Digit".into(),
        Rx::NotNl => "Rx::NotNl".into(),
        Rx::Not(a) => format!("rnot({})", show(a)),
        Rx::Alt(a, b) => format!("ralt({}, {})", show(a), show(b)),
        Rx::Star(a, _) => format!("rstar({})", show(a)),
        Rx::Grp(a) => show(a),
        Rx::Cat(v) => {
            let mut p = parts(v);
            let Some((mut r, _)) = p.pop() else { return "Rx::Nil".into() };
            while let Some((a, _)) = p.pop() {
                r = format!("rcat({a}, {r})");
            }
            r
        }
    }
}

fn count(r: &Rx) -> usize {
    match r {
        Rx::Grp(a) => 1 + count(a),
        Rx::Alt(a, b) => count(a) + count(b),
        Rx::Cat(v) => v.iter().map(count).sum(),
        Rx::Star(a, _) => count(a),
        _ => 0,
    }
}

/// `Pat { items, grp, short }`: the parts that follow each other, which of them each group is
/// (-1: none of them), whether a match is the shortest at its place
pub fn pattern(lit: &str) -> Option<String> {
    let dotall = lit.starts_with("(?s)");
    let lit = lit.strip_prefix("(?s)").unwrap_or(lit);
    let mut p = P { c: lit.chars().collect(), i: 0, dotall };
    let r = p.alt()?;
    if p.i < p.c.len() {
        return None;
    }
    let items: Vec<Rx> = match r {
        Rx::Cat(v) => v,
        r => vec![r],
    };
    let mut grp = vec![];
    let mut it = vec![];
    for (k, (t, i)) in parts(&items).into_iter().enumerate() {
        let n = count(&items[i]);
        if n > 0 {
            let own = matches!(&items[i], Rx::Grp(_));
            grp.push(if own { format!("{k}int") } else { "-1int".to_string() });
            grp.extend(vec!["-1int".to_string(); n - 1]);
        }
        it.push(t);
    }
    let g = if grp.is_empty() { "Seq::<int>::empty()".to_string() } else { format!("seq![{}]", grp.join(", ")) };
    Some(format!("Pat {{ items: seq![{}], grp: {g}, short: {} }}", it.join(", "), shortest(&items)))
}

pub struct Regexes {
    pub n: usize,
    pub loops: usize,
}

struct Caps<'a>(&'a syn::Ident);
impl VisitMut for Caps<'_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Reference(r) = e {
            if let syn::Expr::Index(i) = &*r.expr {
                if matches!(&*i.expr, syn::Expr::Path(p) if p.path.is_ident(self.0)) && r.mutability.is_none() {
                    let (c, k) = (&i.expr, &i.index);
                    *e = syn::parse_quote!(#c.vx_get(#k));
                    return;
                }
            }
        }
        if let syn::Expr::Index(i) = e {
            if matches!(&*i.expr, syn::Expr::Path(p) if p.path.is_ident(self.0)) {
                let (c, k) = (&i.expr, &i.index);
                *e = syn::parse_quote!(#c.vx_get(#k));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        // arguments of format!() and the like
        struct A(Vec<syn::Expr>);
        impl syn::parse::Parse for A {
            fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated(i)?;
                Ok(A(p.into_iter().collect()))
            }
        }
        if let Ok(mut a) = syn::parse2::<A>(m.tokens.clone()) {
            for x in a.0.iter_mut() {
                self.visit_expr_mut(x);
            }
            let v = &a.0;
            m.tokens = quote::quote!(#(#v),*);
        }
    }
}

impl VisitMut for Regexes {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        // numbered from the outside in, in the order of the source
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "replace_all" && m.args.len() == 2 {
                if let syn::Expr::Closure(c) = &m.args[1] {
                    let id = match c.inputs.first() {
                        Some(syn::Pat::Type(t)) => match &*t.pat {
                            syn::Pat::Ident(i) => Some(i.ident.clone()),
                            _ => None,
                        },
                        Some(syn::Pat::Ident(i)) => Some(i.ident.clone()),
                        _ => None,
                    };
                    let body: syn::Block = match &*c.body {
                        syn::Expr::Block(b) => b.block.clone(),
                        e => syn::parse_quote!({ #e }),
                    };
                    if let (Some(id), Some(body)) = (id, crate::norm::tailnorm(&body, None)) {
                        self.n += 1;
                        self.loops += 1;
                        let k = self.loops;
                        let mut body = match &*c.body {
                            syn::Expr::Block(_) => syn::parse_quote!(#body),
                            e => e.clone(),
                        };
                        Caps(&id).visit_expr_mut(&mut body);
                        self.visit_expr_mut(&mut body);
                        let (mut r, mut s) = ((*m.receiver).clone(), m.args[0].clone());
                        self.visit_expr_mut(&mut r);
                        self.visit_expr_mut(&mut s);
                        let (sp, out, rr) = (quote::format_ident!("__rp{}", k), quote::format_ident!("__out{}", k), quote::format_ident!("__r{}", k));
                        *e = syn::parse_quote!(({
                            let mut #out = vx_string();
                            let mut #sp = (#r).vx_matches(#s);
                            loop {
                                match #sp.next(&mut #out) {
                                    Some(#id) => { let #rr = #body; #rr.vx_push(&mut #out); }
                                    None => { break; }
                                }
                            }
                            VxCow(#out)
                        }));
                        return;
                    }
                }
            }
            if m.method == "unwrap" && m.args.is_empty() {
                if let syn::Expr::Call(c) = &*m.receiver {
                    if let (syn::Expr::Path(p), Some(syn::Expr::Lit(l))) = (&*c.func, c.args.first()) {
                        let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        if let (true, syn::Lit::Str(s)) = (v.ends_with(&["Regex".into(), "new".into()]), &l.lit) {
                            if let Some(t) = pattern(&s.value()) {
                                let t: syn::Expr = syn::parse_str(&t).expect("pattern");
                                self.n += 1;
                                *e = syn::parse_quote!(vx_regex(Ghost(#t)));
                                return;
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
