use crate::norm::{self, Inl};
use crate::print::Printer;
use crate::rewrite::{self, Rule};
use crate::Ctx;
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};

const COMBS: &str = "Option's and_then/map_or/.. => match; T::from(x) => x as T; a..=b => a..b + 1";
const VAC: &str = "assert(false); // vx_vacuity\n";

pub struct Sec {
    pub kind: SecKind,
    pub text: String,
}

#[derive(Clone, PartialEq)]
pub enum SecKind {
    Spec,
    Loop(usize),
    LoopStart(usize),
    LoopEnd(usize),
    Start,
    Before(String, bool),
    After(String, bool),
}

pub struct FnReq {
    pub file: String,
    pub imp: Option<String>,
    pub tr: Option<String>,
    pub name: String,
    pub newname: Option<String>,
    pub keepfor: bool,
    pub free: bool,
    pub opt: bool,
    pub vacuity: bool,
    pub ret: String,
    pub attrs: Vec<String>,
    pub rules: Vec<Rule>,
    pub secs: Vec<Sec>,
}

impl FnReq {
    pub fn parse(s: &str) -> Result<FnReq, String> {
        let mut r = FnReq {
            file: String::new(), imp: None, tr: None, name: String::new(), newname: None, keepfor: false, free: false, opt: false, vacuity: false,
            ret: "r".into(), attrs: vec![], rules: vec![], secs: vec![],
        };
        let mut w = s.split_whitespace();
        r.file = w.next().ok_or("fn: no file")?.into();
        while let Some(x) = w.next() {
            if let Some(t) = x.strip_prefix("impl=") {
                r.imp = Some(t.into())
            } else if let Some(t) = x.strip_prefix("trait=") {
                r.tr = Some(t.into())
            } else if x == "as" {
                r.newname = w.next().map(|s| s.into())
            } else if x == "keepfor" {
                r.keepfor = true
            } else if x == "opt" {
                r.opt = true
            } else if x == "free" {
                r.free = true
            } else {
                r.name = x.into()
            }
        }
        Ok(r)
    }
    pub fn out_name(&self) -> String {
        let n = self.newname.clone().unwrap_or(self.name.clone());
        match &self.imp {
            Some(i) if !self.free => format!("{i}::{n}"),
            _ => n,
        }
    }
    pub fn push(&mut self, s: Sec) {
        self.secs.push(s)
    }
    pub fn directive(&mut self, d: &str) -> Result<Option<Sec>, String> {
        let k = if d == "spec" {
            SecKind::Spec
        } else if d == "start" {
            SecKind::Start
        } else if let Some(r) = d.strip_prefix("rw ") {
            self.rules.push(Rule::parse(r)?);
            return Ok(None);
        } else if let Some(r) = d.strip_prefix("attr ") {
            self.attrs.push(r.into());
            return Ok(None);
        } else if let Some(r) = d.strip_prefix("ret ") {
            self.ret = r.trim().into();
            return Ok(None);
        } else if let Some(r) = d.strip_prefix("before? ") {
            SecKind::Before(r.into(), true)
        } else if let Some(r) = d.strip_prefix("after? ") {
            SecKind::After(r.into(), true)
        } else if let Some(r) = d.strip_prefix("before ") {
            SecKind::Before(r.into(), false)
        } else if let Some(r) = d.strip_prefix("after ") {
            SecKind::After(r.into(), false)
        } else if let Some(r) = d.strip_prefix("loop ") {
            let mut w = r.split_whitespace();
            let n: usize = w.next().and_then(|x| x.parse().ok()).ok_or(format!("bad loop {r}"))?;
            match w.next() {
                None => SecKind::Loop(n),
                Some("start") => SecKind::LoopStart(n),
                Some("end") => SecKind::LoopEnd(n),
                _ => return Err(format!("bad loop {r}")),
            }
        } else {
            return Err(format!("spec: unknown directive in fn {}: {d}", self.name));
        };
        Ok(Some(Sec { kind: k, text: String::new() }))
    }
}

pub struct Emitted {
    pub text: String,
    pub src: (usize, usize),
    pub fired: BTreeMap<String, usize>,
    pub dropped: Vec<String>,
    pub inlined: Vec<String>,
    pub loops: usize,
    /// hints that found no place, and the like: what is not proved here is undecided
    pub drift: Vec<String>,
    /// names of the locals (for proofs/locals.txt) and the loops in the source after inlining
    pub shape: Shape,
}

#[derive(Clone, Default)]
pub struct Shape {
    pub locals: Vec<String>,
    pub loops: usize,
}

pub struct Opts<'a> {
    pub listed: &'a [crate::norm::Key],
    pub types: &'a [String],
    pub external: bool,
    /// functions in which what follows the last loop is put at its exits
    pub sink: &'a [String],
    /// bind the arguments of inlined helpers
    pub bind: bool,
    /// the shape at the time the contract was written
    pub base: Option<&'a Shape>,
}

fn span_lines(s: proc_macro2::Span) -> (usize, usize) {
    (s.start().line, s.end().line)
}

pub fn all_items(items: &[syn::Item]) -> Vec<&syn::Item> {
    let mut v = vec![];
    for i in items {
        v.push(i);
        if let syn::Item::Mod(m) = i {
            let test = m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test"));
            if let (false, Some((_, c))) = (test, &m.content) {
                v.extend(all_items(c));
            }
        }
    }
    v
}

pub fn emit_type(
    ctx: &Ctx,
    file: &str,
    name: &str,
    rules: &[Rule],
    fired: &mut BTreeMap<String, usize>,
) -> Result<(String, (usize, usize)), String> {
    for it in all_items(&ctx.files[file].items) {
        let mut it = it.clone();
        let hit = match &mut it {
            syn::Item::Struct(s) if s.ident == name => {
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = syn::parse_quote!(pub);
                }
                true
            }
            syn::Item::Enum(s) if s.ident == name => {
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                }
                true
            }
            syn::Item::Const(s) if s.ident == name => {
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                true
            }
            syn::Item::Static(s) if s.ident == name => {
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                true
            }
            syn::Item::Type(s) if s.ident == name => {
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                true
            }
            _ => false,
        };
        if hit {
            let src = span_lines(it.span());
            let ts = rewrite::apply(it.to_token_stream(), rules, fired);
            let mut p = Printer::new(&[]);
            p.ts(ts);
            return Ok((p.out, src));
        }
    }
    Err(format!("lost-anchor: type {name} in {file}"))
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

pub struct Found {
    pub f: syn::ImplItemFn,
    pub imp: Option<syn::ItemImpl>,
}

pub fn find_fn(ctx: &Ctx, file: &str, imp: Option<&str>, tr: Option<&str>, name: &str) -> Option<Found> {
    for it in all_items(&ctx.files[file].items) {
        match it {
            syn::Item::Fn(f) if imp.is_none() && f.sig.ident == name => {
                return Some(Found {
                    f: syn::ImplItemFn {
                        attrs: f.attrs.clone(),
                        vis: f.vis.clone(),
                        defaultness: None,
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                    },
                    imp: None,
                })
            }
            syn::Item::Impl(i) => {
                let Some(want) = imp else { continue };
                if type_name(&i.self_ty) != want {
                    continue;
                }
                let t = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().to_token_stream().to_string().replace(' ', ""));
                if let Some(tw) = tr {
                    let base = t.as_deref().map(|s| s.split('<').next().unwrap().to_string());
                    if t.as_deref() != Some(tw) && base.as_deref() != Some(tw) {
                        continue;
                    }
                }
                for ii in &i.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            let mut h = i.clone();
                            h.items.clear();
                            return Some(Found { f: f.clone(), imp: Some(h) });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

/// Every loop becomes `loop { ... break ... }`, so that the contract of a loop does not depend on
/// which loop form the source uses.
struct Loops {
    keepfor: bool,
    n: usize,
    mac: Vec<String>,
}

impl VisitMut for Loops {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        match e {
            syn::Expr::While(w) => {
                self.n += 1;
                let k = self.n;
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let label = &w.label;
                let body = &w.body.stmts;
                let new: syn::Expr = if let syn::Expr::Let(l) = &*w.cond {
                    let (p, x) = (&l.pat, &l.expr);
                    syn::parse_quote!(#label loop { __vx_loopid!(#k); match #x { #p => { #(#body)* } _ => { break; } } })
                } else {
                    let c = &w.cond;
                    if !lets(c).is_empty() {
                        syn::parse_quote!(#label loop { __vx_loopid!(#k); if #c { #(#body)* } else { break; } })
                    } else {
                        syn::parse_quote!(#label loop { __vx_loopid!(#k); if !(#c) { break; } #(#body)* })
                    }
                };
                *e = new;
            }
            syn::Expr::Loop(w) => {
                self.n += 1;
                let k = self.n;
                self.visit_block_mut(&mut w.body);
                w.body.stmts.insert(0, syn::parse_quote!(__vx_loopid!(#k);));
            }
            syn::Expr::ForLoop(w) => {
                self.n += 1;
                let k = self.n;
                self.visit_expr_mut(&mut w.expr);
                self.visit_block_mut(&mut w.body);
                if self.keepfor {
                    w.body.stmts.insert(0, syn::parse_quote!(__vx_loopid!(#k);));
                    let it = &w.expr;
                    let (p, b, l) = (&w.pat, &w.body, &w.label);
                    let id = quote::format_ident!("it{}", k);
                    *e = syn::Expr::Verbatim(quote!(#l for #p in #id : #it #b));
                } else {
                    let it = quote::format_ident!("__it{}", k);
                    let (p, x, l) = (&w.pat, &w.expr, &w.label);
                    let body = &w.body.stmts;
                    *e = syn::parse_quote!({
                        let mut #it = vx_into_iter(#x);
                        #l loop { __vx_loopid!(#k); match #it.next() { Some(#p) => { #(#body)* } None => { break; } } }
                    });
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        visit_mut::visit_block_mut(self, b);
        // Verus takes a block that follows a loop for a part of the loop's clauses
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if let (true, syn::Stmt::Expr(syn::Expr::Loop(_), semi @ None)) = (i + 1 < n, s) {
                *semi = Some(Default::default());
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        self.mac.push(m.path.to_token_stream().to_string());
    }
}

fn lets(e: &syn::Expr) -> Vec<()> {
    struct V(Vec<()>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_let(&mut self, _: &'a syn::ExprLet) {
            self.0.push(())
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// `write!(w, "lit{a}lit{}", b)` becomes the calls that the expansion makes, in order:
/// `w.write_str("lit")`, `(a).fmt(w)`, ... each only if the one before succeeded.
struct Writes {
    n: usize,
}

struct WriteArgs {
    w: syn::Expr,
    f: syn::LitStr,
    args: Vec<syn::Expr>,
}

impl syn::parse::Parse for WriteArgs {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let w = i.parse()?;
        i.parse::<syn::Token![,]>()?;
        let f = i.parse()?;
        let mut args = vec![];
        while !i.is_empty() {
            i.parse::<syn::Token![,]>()?;
            if !i.is_empty() {
                args.push(i.parse()?);
            }
        }
        Ok(WriteArgs { w, f, args })
    }
}

/// `format!("lit{}", a)` becomes a String to which the pieces are appended in order.
fn expand_format(m: &syn::Macro) -> Option<syn::Expr> {
    if !m.path.is_ident("format") {
        return None;
    }
    struct A(syn::LitStr, Vec<syn::Expr>);
    impl syn::parse::Parse for A {
        fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
            let f = i.parse()?;
            let mut args = vec![];
            while !i.is_empty() {
                i.parse::<syn::Token![,]>()?;
                if !i.is_empty() {
                    args.push(i.parse()?);
                }
            }
            Ok(A(f, args))
        }
    }
    let a: A = syn::parse2(m.tokens.clone()).ok()?;
    let mut st: Vec<syn::Stmt> = vec![];
    for p in pieces(&a.0.value(), &a.1)? {
        st.push(match p {
            Ok(l) => syn::parse_quote!(vx_push_str(&mut __s, #l);),
            Err(e) => syn::parse_quote!((#e).vx_push(&mut __s);),
        });
    }
    Some(syn::parse_quote!({ let mut __s = vx_string(); #(#st)* __s }))
}

/// the literal parts and the arguments of a format string without format specs
fn pieces(f: &str, args: &[syn::Expr]) -> Option<Vec<Result<String, syn::Expr>>> {
    let f: Vec<char> = f.chars().collect();
    let (mut i, mut next, mut lit, mut out) = (0, 0, String::new(), vec![]);
    while i < f.len() {
        match f[i] {
            '{' if f.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 2;
            }
            '}' => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let j = (i..f.len()).find(|j| f[*j] == '}')?;
                let name: String = f[i + 1..j].iter().collect();
                i = j + 1;
                let arg: syn::Expr = if name.is_empty() {
                    next += 1;
                    args.get(next - 1)?.clone()
                } else if let Ok(k) = name.parse::<usize>() {
                    args.get(k)?.clone()
                } else {
                    let id: syn::Ident = syn::parse_str(&name).ok()?;
                    syn::parse_quote!(#id)
                };
                if !lit.is_empty() {
                    out.push(Ok(std::mem::take(&mut lit)));
                }
                out.push(Err(arg));
            }
            c => {
                lit.push(c);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        out.push(Ok(lit));
    }
    Some(out)
}

fn expand_write(m: &syn::Macro) -> Option<syn::Expr> {
    let nl = m.path.is_ident("writeln");
    if !nl && !m.path.is_ident("write") {
        return None;
    }
    let a: WriteArgs = syn::parse2(m.tokens.clone()).ok()?;
    let w = &a.w;
    let mut calls: Vec<syn::Expr> = vec![];
    let mut lit = String::new();
    let mut next = 0;
    let f: Vec<char> = a.f.value().chars().collect();
    let mut i = 0;
    while i < f.len() {
        match f[i] {
            '{' if f.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 2;
            }
            '}' => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let j = (i..f.len()).find(|j| f[*j] == '}')?;
                let name: String = f[i + 1..j].iter().collect();
                i = j + 1;
                let arg: syn::Expr = if name.is_empty() {
                    next += 1;
                    a.args.get(next - 1)?.clone()
                } else if let Ok(k) = name.parse::<usize>() {
                    a.args.get(k)?.clone()
                } else {
                    let id: syn::Ident = syn::parse_str(&name).ok()?;
                    syn::parse_quote!(#id)
                };
                if !lit.is_empty() {
                    calls.push(syn::parse_quote!(#w.write_str(#lit)));
                    lit.clear();
                }
                calls.push(syn::parse_quote!((#arg).fmt(#w)));
            }
            c => {
                lit.push(c);
                i += 1;
            }
        }
    }
    if nl {
        lit.push('\n');
    }
    if !lit.is_empty() {
        calls.push(syn::parse_quote!(#w.write_str(#lit)));
    }
    let mut e: syn::Expr = match calls.pop() {
        Some(e) => e,
        None => syn::parse_quote!(Ok(())),
    };
    while let Some(c) = calls.pop() {
        e = syn::parse_quote!(match #c { Ok(_) => #e, Err(__e) => Err(__e) });
    }
    Some(e)
}

impl VisitMut for Writes {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Macro(m) = e {
            if let Some(n) = expand_write(&m.mac).or_else(|| expand_format(&m.mac)) {
                self.n += 1;
                *e = n;
                // those among the arguments
                visit_mut::visit_expr_mut(self, e);
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        if let syn::Stmt::Macro(m) = s {
            if let Some(n) = expand_write(&m.mac) {
                self.n += 1;
                *s = syn::Stmt::Expr(n, m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// `match s { "a" | "b" => X, ..., _ => Y }` becomes a chain of comparisons in the order of the arms.
struct StrMatch {
    n: usize,
}

fn str_pats(p: &syn::Pat) -> Option<Vec<syn::LitStr>> {
    match p {
        syn::Pat::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Some(vec![s.clone()]),
            _ => None,
        },
        syn::Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_pats(c)?);
            }
            Some(v)
        }
        syn::Pat::Paren(p) => str_pats(&p.pat),
        _ => None,
    }
}

impl VisitMut for StrMatch {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        let syn::Expr::Match(m) = e else { return };
        // Verus has no guards on alternatives: an arm for each
        if m.arms.iter().any(|a| a.guard.is_some() && matches!(a.pat, syn::Pat::Or(_))) && m.arms.iter().all(|a| str_pats(&a.pat).is_none()) {
            let mut arms = vec![];
            for a in m.arms.drain(..) {
                match (&a.pat, &a.guard) {
                    (syn::Pat::Or(o), Some(_)) => {
                        for p in &o.cases {
                            let mut b = a.clone();
                            b.pat = p.clone();
                            arms.push(b);
                        }
                    }
                    _ => arms.push(a),
                }
            }
            m.arms = arms;
            self.n += 1;
            return;
        }
        if !m.arms.iter().any(|a| str_pats(&a.pat).is_some()) {
            return;
        }
        let mut rest: Option<syn::Expr> = None;
        let mut chain: Vec<(syn::Expr, syn::Expr)> = vec![];
        for a in &m.arms {
            let b = (*a.body).clone();
            if let Some(l) = str_pats(&a.pat) {
                let mut c: syn::Expr = syn::parse_quote!(#(vx_str_eq(__m, #l))||*);
                if let Some((_, g)) = &a.guard {
                    c = syn::parse_quote!((#c) && (#g));
                }
                chain.push((c, b));
            } else if a.guard.is_none() {
                match &a.pat {
                    syn::Pat::Wild(_) => rest = Some(b),
                    syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                        let p = &a.pat;
                        rest = Some(syn::parse_quote!({ let #p = __m; #b }));
                    }
                    _ => return,
                }
                break;
            } else {
                return;
            }
        }
        let Some(mut r) = rest else { return };
        while let Some((c, b)) = chain.pop() {
            r = syn::parse_quote!(if #c { #b } else { #r });
        }
        let x = &m.expr;
        *e = syn::parse_quote!(match #x { __m => { #r } });
        self.n += 1;
    }
}

/// Calls of a `macro_rules!` of the same file with one rule whose parameters are single tokens or
/// expressions are expanded in place.
fn expand_macros(ctx: &Ctx, file: &str, ts: TokenStream, fired: &mut BTreeMap<String, usize>) -> TokenStream {
    fn rule(m: &syn::Macro) -> Option<(Vec<String>, TokenStream)> {
        let v: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
        let (mut g, mut extra) = (vec![], 0);
        for t in &v {
            match t {
                TokenTree::Group(x) => g.push(x.stream()),
                TokenTree::Punct(p) if p.as_char() == ';' => extra += 1,
                _ => {}
            }
        }
        if g.len() != 2 || extra > 1 {
            return None;
        }
        let p: Vec<TokenTree> = g[0].clone().into_iter().collect();
        let mut names = vec![];
        for part in p.split(|t| matches!(t, TokenTree::Punct(x) if x.as_char() == ',')) {
            if part.is_empty() {
                continue;
            }
            if part.len() != 4 || part[0].to_string() != "$" {
                return None;
            }
            names.push(part[1].to_string());
        }
        Some((names, g[1].clone()))
    }
    fn subst(ts: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut o: Vec<TokenTree> = vec![];
        let mut i = 0;
        while i < v.len() {
            if let (TokenTree::Punct(p), Some(n)) = (&v[i], v.get(i + 1)) {
                if let (true, Some(r)) = (p.as_char() == '$', m.get(&n.to_string())) {
                    o.extend(r.clone());
                    i += 2;
                    continue;
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), m));
                    n.set_span(g.span());
                    o.push(TokenTree::Group(n))
                }
                t => o.push(t.clone()),
            }
            i += 1;
        }
        o.into_iter().collect()
    }
    let mut macs: BTreeMap<String, (Vec<String>, TokenStream)> = BTreeMap::new();
    for it in all_items(&ctx.files[file].items) {
        if let syn::Item::Macro(m) = it {
            if let (Some(id), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) {
                if let Some(r) = rule(&m.mac) {
                    macs.insert(id.to_string(), r);
                }
            }
        }
    }
    // those defined in the function itself; their definitions are taken out
    fn local(ts: TokenStream, macs: &mut BTreeMap<String, (Vec<String>, TokenStream)>, rule: fn(&syn::Macro) -> Option<(Vec<String>, TokenStream)>) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut o: Vec<TokenTree> = vec![];
        let mut i = 0;
        while i < v.len() {
            if let (TokenTree::Ident(a), Some(TokenTree::Punct(p)), Some(TokenTree::Ident(id)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2), v.get(i + 3)) {
                if a == "macro_rules" && p.as_char() == '!' {
                    let (t, n) = (g.stream(), id.clone());
                    let m: syn::Macro = syn::parse_quote!(#n ! { #t });
                    if let Some(r) = rule(&m) {
                        macs.insert(id.to_string(), r);
                        i += 4;
                        continue;
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), local(g.stream(), macs, rule));
                    n.set_span(g.span());
                    o.push(TokenTree::Group(n))
                }
                t => o.push(t.clone()),
            }
            i += 1;
        }
        o.into_iter().collect()
    }
    let ts = local(ts, &mut macs, rule);
    fn go(ts: TokenStream, macs: &BTreeMap<String, (Vec<String>, TokenStream)>, fired: &mut BTreeMap<String, usize>) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut o: Vec<TokenTree> = vec![];
        let mut i = 0;
        while i < v.len() {
            if let (TokenTree::Ident(id), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
                if let (true, Some((names, body))) = (p.as_char() == '!', macs.get(&id.to_string())) {
                    let a: Vec<TokenTree> = g.stream().into_iter().collect();
                    let parts: Vec<TokenStream> = a
                        .split(|t| matches!(t, TokenTree::Punct(x) if x.as_char() == ','))
                        .filter(|p| !p.is_empty())
                        .map(|p| p.iter().cloned().collect())
                        .collect();
                    if parts.len() == names.len() {
                        let m: BTreeMap<String, TokenStream> = names.iter().cloned().zip(parts).collect();
                        *fired.entry(format!("{id}!(..) => the macro's body")).or_default() += 1;
                        let b = subst(body.clone(), &m);
                        o.push(TokenTree::Group(proc_macro2::Group::new(proc_macro2::Delimiter::Brace, b)));
                        i += 3;
                        if let Some(TokenTree::Punct(p)) = v.get(i) {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                        continue;
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), go(g.stream(), macs, fired));
                    n.set_span(g.span());
                    o.push(TokenTree::Group(n))
                }
                t => o.push(t.clone()),
            }
            i += 1;
        }
        o.into_iter().collect()
    }
    if macs.is_empty() {
        return ts;
    }
    go(ts, &macs, fired)
}

/// `&PAT` becomes PAT where PAT binds nothing (the verifier takes no reference patterns; matching
/// through the reference is the same).
struct RefPats {
    n: usize,
}

fn binds(p: &syn::Pat) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
            // an identifier in lower case binds; others are constants
            if i.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') {
                self.0 = true
            }
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}

impl VisitMut for RefPats {
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let syn::Pat::Reference(r) = p {
            if r.mutability.is_none() && !binds(&r.pat) {
                let q = (*r.pat).clone();
                *p = q;
                self.n += 1;
            }
        }
    }
    // patterns in `matches!(x, PAT)`
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if m.path.is_ident("matches") {
            struct M(syn::Expr, syn::Pat, Option<syn::Expr>);
            impl syn::parse::Parse for M {
                fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                    let e = i.parse()?;
                    i.parse::<syn::Token![,]>()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(syn::Token![if]) {
                        i.parse::<syn::Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<syn::Token![,]>>()?;
                    Ok(M(e, p, g))
                }
            }
            if let Ok(M(mut e, mut p, g)) = syn::parse2::<M>(m.tokens.clone()) {
                let k = self.n;
                self.visit_expr_mut(&mut e);
                self.visit_pat_mut(&mut p);
                if self.n > k {
                    m.tokens = match g {
                        Some(g) => quote!(#e, #p if #g),
                        None => quote!(#e, #p),
                    };
                }
            }
        }
    }
}

/// Puts the loop contracts and the loop start/end proof texts in place.
struct PutLoops<'a> {
    req: &'a FnReq,
    marks: &'a mut Vec<String>,
}

impl PutLoops<'_> {
    fn text(&self, k: SecKind) -> Option<String> {
        let v: Vec<&str> = self.req.secs.iter().filter(|s| s.kind == k).map(|s| s.text.as_str()).collect();
        if v.is_empty() { None } else { Some(v.concat()) }
    }
}

fn loop_id(s: &syn::Stmt) -> Option<usize> {
    if let syn::Stmt::Macro(m) = s {
        if m.mac.path.is_ident("__vx_loopid") {
            return m.mac.tokens.to_string().trim_end_matches("usize").parse().ok();
        }
    }
    None
}

impl VisitMut for PutLoops<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        visit_mut::visit_block_mut(self, b);
        let Some(k) = b.stmts.first().and_then(loop_id) else { return };
        b.stmts.remove(0);
        if let Some(t) = self.text(SecKind::LoopEnd(k)) {
            let m = self.marks.len();
            self.marks.push(t);
            let s: syn::Stmt = syn::parse_quote!(__vx_mark!(#m););
            // keep a tail expression of type () last
            b.stmts.push(s);
        }
        if self.req.vacuity && self.text(SecKind::Loop(k)).is_some() {
            let m = self.marks.len();
            self.marks.push(VAC.to_string());
            b.stmts.insert(0, syn::parse_quote!(__vx_mark!(#m);));
        }
        if let Some(t) = self.text(SecKind::LoopStart(k)) {
            let m = self.marks.len();
            self.marks.push(t);
            b.stmts.insert(0, syn::parse_quote!(__vx_mark!(#m);));
        }
        if let Some(t) = self.text(SecKind::Loop(k)) {
            let m = self.marks.len();
            self.marks.push(t);
            b.stmts.insert(0, syn::parse_quote!(__vx_loop!(#m);));
        }
    }
}

/// Puts the `before`/`after` proof texts in place.
struct PutStmt<'a> {
    pat: Vec<TokenTree>,
    after: bool,
    mark: usize,
    done: bool,
    _p: std::marker::PhantomData<&'a ()>,
}

impl VisitMut for PutStmt<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        if self.done {
            return;
        }
        for i in 0..b.stmts.len() {
            let v: Vec<TokenTree> = b.stmts[i].to_token_stream().into_iter().collect();
            if rewrite::prefix_match(&self.pat, &v) {
                let m = self.mark;
                let at = if self.after { i + 1 } else { i };
                b.stmts.insert(at, syn::parse_quote!(__vx_mark!(#m);));
                self.done = true;
                return;
            }
            visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
            if self.done {
                return;
            }
        }
    }
}

fn clean_ints(ts: TokenStream) -> TokenStream {
    // quote!(#k) of a usize gives `1usize`
    ts
}

pub fn emit_fn(ctx: &Ctx, req: &FnReq, rules: &[Rule], o: &Opts) -> Result<Emitted, String> {
    let found = find_fn(ctx, &req.file, req.imp.as_deref(), req.tr.as_deref(), &req.name)
        .ok_or(format!("lost-anchor: fn {} in {}", req.out_name(), req.file))?;
    let src = span_lines(found.f.span());
    let mut fired = BTreeMap::new();
    let mut dropped = vec![];
    let mut f = found.f.clone();
    for a in &f.attrs {
        let s = a.to_token_stream().to_string();
        if !s.starts_with("# [doc") {
            dropped.push(format!("attribute {}", s.replace(' ', "")));
        }
    }
    f.attrs.clear();
    let mut inlined = vec![];
    let mut drift = vec![];
    let external = o.external;
    // macros and helpers may use one another
    for _ in 0..4 {
        let (k, n) = (inlined.len(), fired.values().sum::<usize>());
        let ts = expand_macros(ctx, &req.file, f.block.to_token_stream(), &mut fired);
        match syn::parse2(ts) {
            Ok(b) => f.block = b,
            Err(_) => break,
        }
        Inl { ctx, req, listed: o.listed, inlined: &mut inlined, depth: 0, bind: o.bind }.visit_block_mut(&mut f.block);
        if k == inlined.len() && n == fired.values().sum::<usize>() {
            break;
        }
    }
    norm::inline_consts(ctx, &req.file, o.types, &mut f.block, &mut fired);
    let mut cb = norm::Combs { n: 0, late: false };
    cb.visit_block_mut(&mut f.block);
    if cb.n > 0 {
        fired.insert(COMBS.into(), cb.n);
    }
    let mut allr: Vec<Rule> = req.rules.clone();
    allr.extend(rules.iter().cloned());
    let combs = o.base.map_or(false, |b| norm::loops(&f.block) < b.loops);
    use crate::iters::Want;
    let want = |k: usize| {
        let t: String = req.secs.iter().filter(|s| s.kind == SecKind::Loop(k)).map(|s| s.text.as_str()).collect();
        let it = format!("__it{k}.");
        match (t.is_empty(), t.contains(&it), t.contains(&format!("{it}end"))) {
            (true, ..) => Want::Nothing,
            (_, false, _) => Want::Plain,
            (_, _, true) => Want::Range,
            _ => Want::Iter,
        }
    };
    let shared: Vec<String> = f
        .sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            syn::FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                (syn::Pat::Ident(i), syn::Type::Reference(r)) if r.mutability.is_none() => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        })
        .collect();
    let here = norm::binders(Some(&f.sig), &f.block);
    let names = o.base.map_or(vec![], |b| b.locals.iter().filter(|n| !here.contains(n)).cloned().collect());
    let mut it = crate::iters::Iters { rules: &allr, combs, want: &want, shared, guessed: false, names, k: 0, n: 0 };
    it.tail(&mut f.block);
    it.visit_block_mut(&mut f.block);
    if it.n > 0 {
        fired.insert("a loop over an iterator, written in another way => the form the contract was written for".into(), it.n);
    }
    if it.guessed {
        drift.push("an adaptor as a loop with a flag".into());
    }
    let unit = matches!(f.sig.output, syn::ReturnType::Default);
    if unit {
        let n = norm::unit_returns(&mut f.block);
        if n > 0 {
            fired.insert("return at the end of a last loop => break".into(), n);
        }
    }
    let shape = Shape { locals: norm::binders(Some(&f.sig), &f.block), loops: norm::loops(&f.block) };
    if let Some(b) = o.base {
        for (x, y) in norm::rename_locals(&mut f, &b.locals) {
            *fired.entry(format!("local {x} => {y}")).or_default() += 1;
        }
        if b.loops != shape.loops {
            drift.push(format!("{} loops, {} when the contract was written", shape.loops, b.loops));
        }
    }
    let body = expand_macros(ctx, &req.file, f.block.to_token_stream(), &mut fired);
    let body = rewrite::apply(body, &allr, &mut fired);
    let sig_ts = rewrite::apply(f.sig.to_token_stream(), &allr, &mut fired);
    let mut sig: syn::Signature =
        syn::parse2(sig_ts).map_err(|e| format!("unsupported: {}: signature after rewriting: {e}", req.out_name()))?;
    let mut block: syn::Block =
        syn::parse2(body).map_err(|e| format!("unsupported: {}: body after rewriting: {e}", req.out_name()))?;
    if let Some(n) = &req.newname {
        sig.ident = syn::Ident::new(n, sig.ident.span());
    }
    let mut cb = norm::Combs { n: 0, late: true };
    cb.visit_block_mut(&mut block);
    if cb.n > 0 {
        *fired.entry(COMBS.into()).or_default() += cb.n;
    }
    let mut rx = crate::regex::Regexes { n: 0, loops: 0 };
    rx.visit_block_mut(&mut block);
    if rx.n > 0 {
        fired.insert("Regex::new(literal).unwrap() => the parsed pattern; replace_all(s, |c| ..) => its loop over the matches".into(), rx.n);
    }
    let mut rp = RefPats { n: 0 };
    rp.visit_block_mut(&mut block);
    if rp.n > 0 {
        fired.insert("&PATTERN => PATTERN (binds nothing)".into(), rp.n);
    }
    let mut sm = StrMatch { n: 0 };
    sm.visit_block_mut(&mut block);
    if sm.n > 0 {
        fired.insert("match on string literals => comparisons in the order of the arms".into(), sm.n);
    }
    let mut wr = Writes { n: 0 };
    wr.visit_block_mut(&mut block);
    if wr.n > 0 {
        fired.insert("write!/writeln!/format! => the calls of its expansion".into(), wr.n);
    }
    let mut lp = Loops { keepfor: req.keepfor, n: 0, mac: vec![] };
    lp.visit_block_mut(&mut block);
    if o.sink.contains(&req.out_name()) {
        let n = norm::sink(&mut block, unit);
        if n > 0 {
            fired.insert("what follows the last loop => put at its exits".into(), n);
        }
    }
    let mut marks: Vec<String> = vec![];
    for s in &req.secs {
        if let SecKind::Loop(k) | SecKind::LoopStart(k) | SecKind::LoopEnd(k) = s.kind {
            if k > lp.n {
                drift.push(format!("no loop {k}"));
            }
        }
    }
    PutLoops { req, marks: &mut marks }.visit_block_mut(&mut block);
    for s in &req.secs {
        if let SecKind::Before(p, opt) | SecKind::After(p, opt) = &s.kind {
            let m = marks.len();
            marks.push(s.text.clone());
            let mut v = PutStmt {
                pat: rewrite::toks(p)?, after: matches!(s.kind, SecKind::After(..)), mark: m, done: false, _p: Default::default(),
            };
            v.visit_block_mut(&mut block);
            if !v.done && !opt {
                drift.push(format!("no statement `{p}`"));
            }
        }
    }
    let mut pre = String::new();
    for s in &req.secs {
        if s.kind == SecKind::Start {
            pre.push_str(&s.text);
        }
    }
    if req.vacuity {
        // `hide(..);` stays first
        let n = if pre.trim_start().starts_with("hide(") { pre.find('\n').map_or(pre.len(), |n| n + 1) } else { 0 };
        pre.insert_str(n, VAC);
    }
    if !pre.is_empty() {
        let m = marks.len();
        marks.push(pre);
        block.stmts.insert(0, syn::parse_quote!(__vx_mark!(#m);));
    }
    let spec: String = req.secs.iter().filter(|s| s.kind == SecKind::Spec).map(|s| s.text.as_str()).collect();
    // header
    let mut text = String::new();
    let mut ind = "";
    if let (Some(imp), false) = (&found.imp, req.free) {
        let g = &imp.generics;
        let (gi, wh) = (g.params.iter().collect::<Vec<_>>(), &g.where_clause);
        let st = &imp.self_ty;
        let h = if gi.is_empty() { quote!(impl #st #wh) } else { quote!(impl < #(#gi),* > #st #wh) };
        let h = rewrite::apply(h, &allr, &mut fired);
        let mut p = Printer::new(&marks);
        p.ts(h);
        text.push_str(&p.out);
        text.push_str(" {\n");
        ind = "\n}";
    }
    for a in &req.attrs {
        text.push_str(a);
        text.push('\n');
    }
    if external {
        text.push_str("#[verifier::external_body]\n");
    }
    let vis = quote!(pub);
    let (name, gen, wh) = (&sig.ident, &sig.generics, &sig.generics.where_clause);
    let gp = gen.params.iter().collect::<Vec<_>>();
    let gts = if gp.is_empty() { quote!() } else { quote!(< #(#gp),* >) };
    let inputs = &sig.inputs;
    let mut p = Printer::new(&marks);
    p.ts(quote!(#vis fn #name #gts (#inputs)));
    if let syn::ReturnType::Type(_, t) = &sig.output {
        p.out.push_str(&format!(" -> ({}: ", req.ret));
        let mut q = Printer::new(&marks);
        q.ts(t.to_token_stream());
        p.out.push_str(&q.out);
        p.out.push(')');
    }
    if let Some(w) = wh {
        p.out.push(' ');
        let mut q = Printer::new(&marks);
        q.ts(w.to_token_stream());
        p.out.push_str(&q.out);
    }
    text.push_str(&p.out);
    text.push('\n');
    text.push_str(&spec);
    let mut p = Printer::new(&marks);
    if external {
        // (its contract is assumed; a body that does not fit the stand-ins would not compile)
        p.out.push_str("{ unimplemented!() }");
    } else {
        p.ts(clean_ints(block.to_token_stream()));
    }
    text.push_str(&p.out);
    text.push_str(ind);
    text.push('\n');
    drift.dedup();
    Ok(Emitted { text, src, fired, dropped, inlined, loops: lp.n, drift, shape })
}
