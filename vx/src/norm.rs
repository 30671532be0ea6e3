//! Behaviour-preserving normalisations of the source, so that a contract does not depend on how the
//! function under it is cut into helpers or names its locals:
//!  * `tailnorm`: `return` out of straight-line code becomes a value in tail position;
//!  * `inline_helpers`: calls to helpers without a contract are expanded in place;
//!  * `rename_locals`: locals get the names they had when the contract was written.
use crate::extract::{find_fn, FnReq};
use crate::Ctx;
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::{Block, Expr, Stmt};

// ------------------------------------------------------------------------------------- tailnorm
/// Some(true): has a `return` or `?` of this body inside a loop; Some(false): has one elsewhere.
fn rets(f: impl FnOnce(&mut Rets)) -> Option<bool> {
    let mut v = Rets { n: 0, in_loop: 0, depth: 0 };
    f(&mut v);
    if v.n == 0 { None } else { Some(v.in_loop > 0) }
}
struct Rets {
    n: usize,
    in_loop: usize,
    depth: usize,
}
impl<'a> Visit<'a> for Rets {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        self.n += 1;
        self.in_loop += (self.depth > 0) as usize;
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, r: &'a syn::ExprTry) {
        self.n += 1;
        self.in_loop += (self.depth > 0) as usize;
        visit::visit_expr_try(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, e);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, e);
        self.depth -= 1;
    }
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, e);
        self.depth -= 1;
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        // a macro may hide either
        if has_tok(m.tokens.clone(), &|t| matches!(t, TokenTree::Ident(i) if i == "return") || matches!(t, TokenTree::Punct(p) if p.as_char() == '?')) {
            self.n += 1;
            self.in_loop += 1;
        }
    }
}
fn has_tok(ts: TokenStream, f: &dyn Fn(&TokenTree) -> bool) -> bool {
    ts.into_iter().any(|t| f(&t) || matches!(&t, TokenTree::Group(g) if has_tok(g.stream(), f)))
}
fn rs(s: &Stmt) -> bool {
    rets(|v| v.visit_stmt(s)).is_some()
}
fn re(e: &Expr) -> bool {
    rets(|v| v.visit_expr(e)).is_some()
}
fn diverges(st: &[Stmt]) -> bool {
    match st.last() {
        Some(Stmt::Expr(e, _)) => div_e(e),
        _ => false,
    }
}
fn div_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => b.label.is_none() && diverges(&b.block.stmts),
        Expr::If(i) => diverges(&i.then_branch.stmts) && i.else_branch.as_ref().map_or(false, |(_, e)| div_e(e)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| div_e(&a.body)),
        Expr::Paren(p) => div_e(&p.expr),
        _ => false,
    }
}
fn has_lets(st: &[Stmt]) -> bool {
    st.iter().any(|s| matches!(s, Stmt::Local(_) | Stmt::Item(_)))
}

struct Tail {
    opt: bool,
    res: bool,
}

impl Tail {
    fn body_of(e: &Expr) -> Vec<Stmt> {
        match e {
            Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block.stmts.clone(),
            _ => vec![Stmt::Expr(e.clone(), None)],
        }
    }
    /// the value of `{ b } rest`; tail: b's value is the value of the whole
    fn branch(&self, b: &[Stmt], rest: &[Stmt], tail: bool, full: &mut usize) -> Option<Vec<Stmt>> {
        if diverges(b) || tail {
            return self.norm(b);
        }
        if rest.len() > 0 {
            *full += 1;
        }
        if !b.iter().any(rs) {
            let r = self.norm(rest)?;
            if b.is_empty() {
                return Some(r);
            }
            let s: Stmt = syn::parse_quote!({ #(#b)* };);
            let mut v = vec![s];
            v.extend(r);
            return Some(v);
        }
        if has_lets(b) && !rest.is_empty() {
            return None;
        }
        let mut v = b.to_vec();
        if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
            *semi = Some(Default::default());
        }
        v.extend(rest.to_vec());
        self.norm(&v)
    }
    fn norm_expr(&self, e: &Expr, semi: bool, rest: &[Stmt]) -> Option<Expr> {
        let tail = rest.is_empty() && !semi;
        let mut full = 0;
        let r: Expr = match e {
            Expr::If(i) => {
                if re(&i.cond) {
                    return None;
                }
                let t = self.branch(&i.then_branch.stmts, rest, tail, &mut full)?;
                let el = match &i.else_branch {
                    None => self.branch(&[], rest, tail, &mut full)?,
                    Some((_, e)) => self.branch(&Self::body_of(e), rest, tail, &mut full)?,
                };
                let c = &i.cond;
                syn::parse_quote!(if #c { #(#t)* } else { #(#el)* })
            }
            Expr::Match(m) => {
                if re(&m.expr) {
                    return None;
                }
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    if a.guard.as_ref().map_or(false, |(_, g)| re(g)) {
                        return None;
                    }
                    let b = self.branch(&Self::body_of(&a.body), rest, tail, &mut full)?;
                    a.body = syn::parse_quote!({ #(#b)* });
                    a.comma = Some(Default::default());
                }
                Expr::Match(m)
            }
            Expr::Block(b) if b.label.is_none() => {
                let b = self.branch(&b.block.stmts, rest, tail, &mut full)?;
                syn::parse_quote!({ #(#b)* })
            }
            Expr::Paren(p) => return self.norm_expr(&p.expr, semi, rest),
            _ => return None,
        };
        if full > 2 { None } else { Some(r) }
    }
    /// `E?` as a match
    fn unq(&self, t: &syn::ExprTry) -> Option<Expr> {
        let e = &t.expr;
        if re(e) {
            return None;
        }
        if self.opt {
            Some(syn::parse_quote!(match #e { Some(__v) => __v, None => return None, }))
        } else if self.res {
            Some(syn::parse_quote!(match #e { Ok(__v) => __v, Err(__e) => return Err(__e), }))
        } else {
            None
        }
    }
    fn norm(&self, st: &[Stmt]) -> Option<Vec<Stmt>> {
        let Some(i) = st.iter().position(rs) else { return Some(st.to_vec()) };
        let mut out = st[..i].to_vec();
        let rest = &st[i + 1..];
        match &st[i] {
            Stmt::Expr(Expr::Return(r), _) => {
                let e: Expr = match &r.expr {
                    Some(e) => (**e).clone(),
                    None => syn::parse_quote!(()),
                };
                if re(&e) {
                    return None;
                }
                out.push(Stmt::Expr(e, None));
            }
            Stmt::Expr(Expr::Try(t), semi) if semi.is_some() => {
                let m = self.unq(t)?;
                let mut v: Vec<Stmt> = vec![syn::parse_quote!(let _ = #m;)];
                v.extend(rest.to_vec());
                out.extend(self.norm(&v)?);
            }
            Stmt::Expr(e, semi) => out.push(Stmt::Expr(self.norm_expr(e, semi.is_some(), rest)?, None)),
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let p = &l.pat;
                if let Some((_, d)) = &init.diverge {
                    if re(&init.expr) {
                        return None;
                    }
                    let d = Self::body_of(d);
                    if !diverges(&d) {
                        return None;
                    }
                    let (r, d, e) = (self.norm(rest)?, self.norm(&d)?, &init.expr);
                    out.push(Stmt::Expr(syn::parse_quote!(match #e { #p => { #(#r)* } _ => { #(#d)* } }), None));
                    return Some(out);
                }
                let tail = |v: Vec<Stmt>| -> Option<Vec<Stmt>> {
                    // the arm's value is bound, then comes the rest
                    if has_lets(&v) || v.iter().any(rs) {
                        return None;
                    }
                    let mut o: Vec<Stmt> = vec![syn::parse_quote!(let #p = { #(#v)* };)];
                    if v.len() == 1 {
                        if let Stmt::Expr(e, None) = &v[0] {
                            o = vec![syn::parse_quote!(let #p = #e;)];
                        }
                    }
                    o.extend(self.norm(rest)?);
                    Some(o)
                };
                let mut n = 0;
                let mut arm = |b: Vec<Stmt>| -> Option<Vec<Stmt>> {
                    if diverges(&b) {
                        self.norm(&b)
                    } else {
                        n += 1;
                        tail(b)
                    }
                };
                let e: Expr = match &*init.expr {
                    Expr::Match(m) if !re(&m.expr) => {
                        let mut m = m.clone();
                        for a in m.arms.iter_mut() {
                            let b = arm(Self::body_of(&a.body))?;
                            a.body = syn::parse_quote!({ #(#b)* });
                            a.comma = Some(Default::default());
                        }
                        Expr::Match(m)
                    }
                    Expr::If(i) if !re(&i.cond) => {
                        let (t, el) = (arm(i.then_branch.stmts.clone())?, arm(Self::body_of(&i.else_branch.as_ref()?.1))?);
                        let c = &i.cond;
                        syn::parse_quote!(if #c { #(#t)* } else { #(#el)* })
                    }
                    Expr::Try(t) => {
                        let m = self.unq(t)?;
                        let mut v: Vec<Stmt> = vec![syn::parse_quote!(let #p = #m;)];
                        v.extend(rest.to_vec());
                        out.extend(self.norm(&v)?);
                        return Some(out);
                    }
                    _ => return None,
                };
                if n > 2 {
                    return None;
                }
                out.push(Stmt::Expr(e, None));
            }
            _ => return None,
        }
        Some(out)
    }
}

/// The same block without `return` and `?`; None if it has one that this cannot move.
pub fn tailnorm(b: &Block, out: Option<&syn::Type>) -> Option<Block> {
    match rets(|v| v.visit_block(b)) {
        None => return Some(b.clone()),
        Some(true) => return None,
        _ => {}
    }
    let t = out.map(|t| t.to_token_stream().to_string()).unwrap_or_default();
    let st = Tail { opt: t.starts_with("Option"), res: t.contains("Result") }.norm(&b.stmts)?;
    if st.iter().any(rs) {
        return None;
    }
    Some(syn::parse_quote!({ #(#st)* }))
}

// -------------------------------------------------------------------------------------- binders
pub fn is_var(s: &str) -> bool {
    s.starts_with(|c: char| c.is_lowercase() || c == '_')
}
struct Binders(Vec<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
        let s = i.ident.to_string();
        if is_var(&s) {
            self.0.push(s)
        }
        visit::visit_pat_ident(self, i);
    }
}
pub fn binders(sig: Option<&syn::Signature>, b: &Block) -> Vec<String> {
    let mut v = Binders(vec![]);
    if let Some(s) = sig {
        v.visit_signature(s);
    }
    v.visit_block(b);
    v.0
}
pub fn loops(b: &Block) -> usize {
    struct V(usize);
    impl<'a> Visit<'a> for V {
        fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
            self.0 += 1;
            visit::visit_expr_while(self, e);
        }
        fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
            self.0 += 1;
            visit::visit_expr_loop(self, e);
        }
        fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
            self.0 += 1;
            visit::visit_expr_for_loop(self, e);
        }
    }
    let mut v = V(0);
    v.visit_block(b);
    v.0
}

// ------------------------------------------------------------------------------- inlining helpers
/// (file, impl type, name) of a function
pub type Key = (String, Option<String>, String);

/// `a`, `self.a.b`: no effect, the same place each time; gives the root
fn place_root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).filter(|s| is_var(s)),
        Expr::Field(f) => place_root(&f.base),
        Expr::Paren(p) => place_root(&p.expr),
        _ => None,
    }
}

struct Subst<'a> {
    name: String,
    /// the place and how it is passed
    place: &'a Expr,
    refd: Option<bool>,
    bad: bool,
}
impl Subst<'_> {
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.is_ident(&self.name))
    }
    fn full(&self) -> Expr {
        let p = self.place;
        match self.refd {
            None => p.clone(),
            Some(false) => syn::parse_quote!(&#p),
            Some(true) => syn::parse_quote!(&mut #p),
        }
    }
}
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.is(e) {
            *e = self.full();
            return;
        }
        match e {
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && self.is(&u.expr) && self.refd.is_some() => {
                *e = self.place.clone();
                return;
            }
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                m.receiver = Box::new(self.place.clone());
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Field(f) if self.is(&f.base) => {
                f.base = Box::new(self.place.clone());
                return;
            }
            Expr::Index(f) if self.is(&f.expr) => {
                f.expr = Box::new(self.place.clone());
                self.visit_expr_mut(&mut f.index);
                return;
            }
            Expr::Assign(a) if self.is(&a.left) => self.bad = true,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if self.is(&f.expr) && f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let n = self.name.clone();
        if has_tok(m.tokens.clone(), &|t| match t {
            TokenTree::Ident(i) => *i == n,
            TokenTree::Literal(l) => l.to_string().contains(&format!("{{{n}")),
            _ => false,
        }) {
            // an expression in the arguments of a formatting macro or the like: by token
            let p = match self.refd {
                None => self.place.to_token_stream(),
                Some(_) => {
                    let f = self.full();
                    quote!((#f))
                }
            };
            if has_tok(m.tokens.clone(), &|t| matches!(t, TokenTree::Literal(l) if l.to_string().contains(&format!("{{{n}")))) {
                self.bad = true;
                return;
            }
            m.tokens = tok_subst(m.tokens.clone(), &n, &p);
        }
    }
}
pub fn tok_subst(ts: TokenStream, n: &str, by: &TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut o: Vec<TokenTree> = vec![];
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Ident(id) if id == n && !(i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.')) => o.extend(by.clone()),
            TokenTree::Group(g) => {
                let mut h = Group::new(g.delimiter(), tok_subst(g.stream(), n, by));
                h.set_span(g.span());
                o.push(TokenTree::Group(h))
            }
            t => o.push(t.clone()),
        }
    }
    o.into_iter().collect()
}

pub struct Inl<'a> {
    pub ctx: &'a Ctx,
    pub req: &'a FnReq,
    pub listed: &'a [Key],
    pub inlined: &'a mut Vec<String>,
    pub depth: usize,
    /// bind every argument instead of putting places in for the parameters
    pub bind: bool,
}

impl Inl<'_> {
    fn expand(&mut self, name: &str, imp: Option<&str>, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        let key: Key = (self.req.file.clone(), imp.map(|s| s.to_string()), name.to_string());
        if self.depth > 4 || self.listed.contains(&key) || (name == self.req.name && imp == self.req.imp.as_deref()) {
            return None;
        }
        let g = find_fn(self.ctx, &self.req.file, imp, None, name)?;
        if g.imp.as_ref().map_or(false, |i| i.trait_.is_some()) {
            return None;
        }
        let out = match &g.f.sig.output {
            syn::ReturnType::Type(_, t) => Some(&**t),
            _ => None,
        };
        let mut body = tailnorm(&g.f.block, out)?;
        let generic = !g.f.sig.generics.params.is_empty();
        let mut all = vec![];
        if let Some(r) = recv {
            all.push(r);
        }
        all.extend(args);
        if all.len() != g.f.sig.inputs.len() {
            return None;
        }
        let mut params: Vec<(syn::Pat, syn::Type, Expr)> = vec![];
        for (inp, a) in g.f.sig.inputs.iter().zip(all) {
            match inp {
                syn::FnArg::Receiver(_) => {
                    if a.to_token_stream().to_string() != "self" {
                        return None;
                    }
                }
                syn::FnArg::Typed(t) => params.push(((*t.pat).clone(), (*t.ty).clone(), a)),
            }
        }
        // places instead of parameters, where nothing is captured and nothing aliases
        let inner: Vec<String> = binders(None, &body);
        let has_self = g.f.sig.receiver().is_some();
        let info: Vec<Option<(String, Expr, Option<bool>, String)>> = params
            .iter()
            .map(|(p, _, a)| {
                let syn::Pat::Ident(pi) = p else { return None };
                if pi.by_ref.is_some() || pi.mutability.is_some() || pi.subpat.is_some() {
                    return None;
                }
                let (place, refd) = match a {
                    Expr::Reference(r) => ((*r.expr).clone(), Some(r.mutability.is_some())),
                    e => (e.clone(), None),
                };
                let root = place_root(&place)?;
                if refd.is_none() && !matches!(place, Expr::Path(_)) {
                    return None;
                }
                Some((pi.ident.to_string(), place, refd, root))
            })
            .collect();
        let mut rest: Vec<(syn::Pat, syn::Type, Expr)> = vec![];
        let mut subst: Vec<(String, Expr, Option<bool>)> = vec![];
        for (k, (p, t, a)) in params.iter().enumerate() {
            let ok = match &info[k] {
                Some((n, _, refd, root)) if !self.bind => {
                    !inner.contains(n)
                        && !inner.contains(root)
                        && !(has_self && root == "self")
                        && params.iter().enumerate().all(|(j, (q, _, b))| {
                            j == k || {
                                // no other argument mentions this place, unless both only read it
                                let shared = |e: &Expr| matches!(e, Expr::Reference(r) if r.mutability.is_none());
                                let m = has_tok(b.to_token_stream(), &|t| matches!(t, TokenTree::Ident(i) if i == root));
                                let _ = q;
                                !m || (shared(b) && *refd == Some(false)) || (shared(b) && refd.is_none())
                            }
                        })
                        // a later substitution must not replace inside an earlier one
                        && !params.iter().enumerate().any(|(j, (q, _, _))| j != k && matches!(q, syn::Pat::Ident(i) if i.ident == root.as_str()))
                }
                _ => false,
            };
            if ok {
                let (n, place, refd, _) = info[k].clone().unwrap();
                let mut trial = body.clone();
                let mut s = Subst { name: n.clone(), place: &place, refd, bad: false };
                s.visit_block_mut(&mut trial);
                if !s.bad {
                    body = trial;
                    subst.push((n, place, refd));
                    continue;
                }
            }
            rest.push((p.clone(), t.clone(), a.clone()));
        }
        // a bound parameter must not capture a place put in
        for (p, _, _) in &rest {
            let mut b = Binders(vec![]);
            b.visit_pat(p);
            if subst.iter().any(|(_, pl, _)| place_root(pl).map_or(false, |r| b.0.contains(&r))) {
                return None;
            }
        }
        let mut stmts: Vec<Stmt> = vec![];
        let (pats, tys, exprs): (Vec<_>, Vec<_>, Vec<_>) = {
            let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
            for (p, t, e) in rest {
                a.push(p);
                b.push(t);
                c.push(e);
            }
            (a, b, c)
        };
        // one simultaneous binding, so that no parameter captures another one's argument
        if pats.len() == 1 {
            let (p, t, e) = (&pats[0], &tys[0], &exprs[0]);
            stmts.push(if generic { syn::parse_quote!(let #p = #e;) } else { syn::parse_quote!(let #p: #t = #e;) });
        } else if !pats.is_empty() {
            stmts.push(if generic {
                syn::parse_quote!(let (#(#pats),*) = (#(#exprs),*);)
            } else {
                syn::parse_quote!(let (#(#pats),*): (#(#tys),*) = (#(#exprs),*);)
            });
        }
        self.depth += 1;
        self.visit_block_mut(&mut body);
        self.depth -= 1;
        self.inlined.push(name.to_string());
        let b = &body.stmts;
        Some(syn::parse_quote!({ #(#stmts)* #(#b)* }))
    }
}

impl VisitMut for Inl<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // a function of this file passed to replace_all
        if let Expr::MethodCall(m) = e {
            if m.method == "replace_all" && m.args.len() == 2 {
                if let Some(id) = place_root(&m.args[1]) {
                    if find_fn(self.ctx, &self.req.file, None, None, &id).is_some() {
                        let f = &m.args[1];
                        m.args[1] = syn::parse_quote!(|__c| #f(__c));
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    match segs.len() {
                        1 => self.expand(&segs[0], None, None, args),
                        2 => {
                            let t = if segs[0] == "Self" { self.req.imp.clone() } else { Some(segs[0].clone()) };
                            match t {
                                Some(t) => self.expand(&segs[1], Some(&t), None, args),
                                None => None,
                            }
                        }
                        _ => None,
                    }
                }
                _ => None,
            },
            Expr::MethodCall(m) => match self.req.imp.clone() {
                Some(t) if m.receiver.to_token_stream().to_string() == "self" => {
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    self.expand(&m.method.to_string(), Some(&t), Some((*m.receiver).clone()), args)
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

// --------------------------------------------------------------------------------- names of locals
struct Ren<'a> {
    m: &'a BTreeMap<String, String>,
    n: usize,
}
impl Ren<'_> {
    fn get(&mut self, i: &syn::Ident) -> Option<syn::Ident> {
        let r = self.m.get(&i.to_string()).map(|s| syn::Ident::new(s, i.span()));
        self.n += r.is_some() as usize;
        r
    }
    fn toks(&mut self, ts: TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut o = vec![];
        for (i, t) in v.iter().enumerate() {
            o.push(match t {
                TokenTree::Ident(id) if !(i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.')) => match self.get(id) {
                    Some(n) => TokenTree::Ident(n),
                    None => t.clone(),
                },
                TokenTree::Group(g) => {
                    let mut h = Group::new(g.delimiter(), self.toks(g.stream()));
                    h.set_span(g.span());
                    TokenTree::Group(h)
                }
                TokenTree::Literal(l) if l.to_string().starts_with('"') => {
                    let mut s = l.to_string();
                    for (a, b) in self.m {
                        s = s.replace(&format!("{{{a}}}"), &format!("{{{b}}}"));
                    }
                    let r: TokenStream = s.parse().unwrap();
                    r.into_iter().next().unwrap()
                }
                t => t.clone(),
            });
        }
        o.into_iter().collect()
    }
}
impl VisitMut for Ren<'_> {
    fn visit_pat_ident_mut(&mut self, i: &mut syn::PatIdent) {
        if let Some(n) = self.get(&i.ident) {
            i.ident = n;
        }
        visit_mut::visit_pat_ident_mut(self, i);
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        if f.colon_token.is_none() {
            if let syn::Pat::Ident(i) = &*f.pat {
                if self.m.contains_key(&i.ident.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            if let Expr::Path(p) = &f.expr {
                if p.path.get_ident().map_or(false, |i| self.m.contains_key(&i.to_string())) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if let Some(i) = p.path.get_ident().cloned() {
            if let Some(n) = self.get(&i) {
                p.path = n.into();
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = self.toks(m.tokens.clone());
    }
}

fn align(old: &[String], new: &[String]) -> Vec<(String, String)> {
    // longest common subsequence; gaps of one length are paired in order
    let (n, m) = (old.len(), new.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if old[i] == new[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let (mut go, mut gn): (Vec<&String>, Vec<&String>) = (vec![], vec![]);
    let mut out = vec![];
    let flush = |go: &mut Vec<&String>, gn: &mut Vec<&String>, out: &mut Vec<(String, String)>| {
        if go.len() == gn.len() {
            for (a, b) in go.iter().zip(gn.iter()) {
                out.push((b.to_string(), a.to_string()));
            }
        }
        go.clear();
        gn.clear();
    };
    while i < n || j < m {
        if i < n && j < m && old[i] == new[j] {
            flush(&mut go, &mut gn, &mut out);
            i += 1;
            j += 1;
        } else if j >= m || (i < n && l[i + 1][j] >= l[i][j + 1]) {
            go.push(&old[i]);
            i += 1;
        } else {
            gn.push(&new[j]);
            j += 1;
        }
    }
    flush(&mut go, &mut gn, &mut out);
    out
}

/// Gives the locals of `f` the names in `old` where they differ only in that. Returns the pairs.
pub fn rename_locals(f: &mut syn::ImplItemFn, old: &[String]) -> Vec<(String, String)> {
    let new = binders(Some(&f.sig), &f.block);
    if new == old {
        return vec![];
    }
    let pairs: BTreeSet<(String, String)> = align(old, &new).into_iter().collect();
    let mut used = BTreeSet::new();
    fn idents(ts: TokenStream, s: &mut BTreeSet<String>) {
        for t in ts {
            match t {
                TokenTree::Ident(i) => {
                    s.insert(i.to_string());
                }
                TokenTree::Group(g) => idents(g.stream(), s),
                _ => {}
            }
        }
    }
    idents(f.sig.to_token_stream(), &mut used);
    idents(f.block.to_token_stream(), &mut used);
    let mut m = BTreeMap::new();
    for (a, b) in &pairs {
        let one = pairs.iter().filter(|(x, y)| x == a || y == b).count() == 1;
        if one && !used.contains(b) && !old.contains(a) {
            m.insert(a.clone(), b.clone());
        }
    }
    if m.is_empty() {
        return vec![];
    }
    let mut r = Ren { m: &m, n: 0 };
    r.visit_signature_mut(&mut f.sig);
    r.visit_block_mut(&mut f.block);
    m.into_iter().collect()
}

// ---------------------------------------------------------------------------- constants of the file
/// Constants with a literal value that have no place of their own in the spec are put in place.
pub fn inline_consts(ctx: &Ctx, file: &str, listed: &[String], b: &mut Block, fired: &mut BTreeMap<String, usize>) {
    let mut m: BTreeMap<String, Expr> = BTreeMap::new();
    fn val(e: &Expr) -> Option<Expr> {
        match e {
            Expr::Lit(_) => Some(e.clone()),
            Expr::Array(a) if a.elems.iter().all(|x| matches!(x, Expr::Lit(_))) => Some(e.clone()),
            Expr::Reference(r) => val(&r.expr).map(|_| e.clone()),
            Expr::Unary(u) if matches!(&*u.expr, Expr::Lit(_)) => Some(e.clone()),
            _ => None,
        }
    }
    for it in crate::extract::all_items(&ctx.files[file].items) {
        if let syn::Item::Const(c) = it {
            if let (Some(v), false) = (val(&c.expr), listed.contains(&c.ident.to_string())) {
                m.insert(c.ident.to_string(), v);
            }
        }
    }
    struct Local<'a>(&'a mut BTreeMap<String, Expr>);
    impl VisitMut for Local<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            b.stmts.retain(|s| match s {
                Stmt::Item(syn::Item::Const(c)) => match val(&c.expr) {
                    Some(v) => {
                        self.0.insert(c.ident.to_string(), v);
                        false
                    }
                    None => true,
                },
                _ => true,
            });
            visit_mut::visit_block_mut(self, b);
        }
    }
    Local(&mut m).visit_block_mut(b);
    struct V<'a>(&'a BTreeMap<String, Expr>, &'a mut BTreeMap<String, usize>);
    impl VisitMut for V<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = e {
                if let Some((n, v)) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string()).map(|v| (i.to_string(), v))) {
                    *self.1.entry(format!("const {n} => its value")).or_default() += 1;
                    *e = v.clone();
                }
                return;
            }
            visit_mut::visit_expr_mut(self, e);
        }
        fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
            for (n, v) in self.0 {
                if has_tok(m.tokens.clone(), &|t| matches!(t, TokenTree::Ident(i) if i == n)) {
                    m.tokens = tok_subst(m.tokens.clone(), n, &v.to_token_stream());
                    *self.1.entry(format!("const {n} => its value")).or_default() += 1;
                }
            }
        }
    }
    if !m.is_empty() {
        V(&m, fired).visit_block_mut(b);
    }
}

// --------------------------------------------------------------- definitions of std put in their place
/// `o.and_then(|x| e)` and the like on an Option become their `match` (on any other type the result
/// does not type-check and the function counts as not taken by the verifier); `T::from(x)` between
/// primitive types becomes `x as T`.
pub struct Combs {
    pub n: usize,
    /// after the rules of the spec, which go first
    pub late: bool,
}
fn is_try_from(e: &Expr) -> bool {
    matches!(e, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "try_from")))
}
pub fn closure1(e: &Expr) -> Option<(syn::Pat, Block)> {
    let Expr::Closure(c) = e else { return None };
    if c.inputs.len() > 1 {
        return None;
    }
    let p = match c.inputs.first() {
        None => syn::parse_quote!(_),
        Some(syn::Pat::Type(t)) => (*t.pat).clone(),
        Some(p) => p.clone(),
    };
    let b: Block = match &*c.body {
        Expr::Block(b) => b.block.clone(),
        e => syn::parse_quote!({ #e }),
    };
    Some((p, tailnorm(&b, None)?))
}
impl VisitMut for Combs {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        if let (true, Expr::MethodCall(m)) = (self.late, &*e) {
            let r = &m.receiver;
            let one = m.args.first().and_then(closure1);
            let two = m.args.iter().nth(1).and_then(closure1);
            let v = |b: &Block| -> TokenStream {
                match &b.stmts[..] {
                    [Stmt::Expr(e, None)] => e.to_token_stream(),
                    _ => b.to_token_stream(),
                }
            };
            new = match (m.method.to_string().as_str(), m.args.len(), one, two) {
                ("and_then", 1, Some((p, b)), _) => {
                    let b = v(&b);
                    Some(syn::parse_quote!((match #r { Some(#p) => #b, None => None, })))
                }
                ("is_some_and", 1, Some((p, b)), _) => {
                    let b = v(&b);
                    Some(syn::parse_quote!((match #r { Some(#p) => #b, None => false, })))
                }
                ("is_none_or", 1, Some((p, b)), _) => {
                    let b = v(&b);
                    Some(syn::parse_quote!((match #r { Some(#p) => #b, None => true, })))
                }
                ("map_or", 2, _, Some((p, b))) if matches!(m.args[0], Expr::Lit(_)) || place_root(&m.args[0]).is_some() || matches!(&m.args[0], Expr::Path(_)) => {
                    let (b, d) = (v(&b), &m.args[0]);
                    Some(syn::parse_quote!((match #r { Some(#p) => #b, None => #d, })))
                }
                // a constructor as a function
                ("map", 1, None, _) if matches!(&m.args[0], Expr::Path(p) if p.path.segments.last().map_or(false, |s| !is_var(&s.ident.to_string()))) => {
                    let f = &m.args[0];
                    let ok = has_tok(r.to_token_stream(), &|t| matches!(t, TokenTree::Ident(i) if i == "Ok" || i == "Err" || i == "try_from"));
                    Some(if ok {
                        syn::parse_quote!((match #r { Ok(__c) => Ok(#f(__c)), Err(__e) => Err(__e), }))
                    } else {
                        syn::parse_quote!((match #r { Some(__c) => Some(#f(__c)), None => None, }))
                    })
                }
                // on a Result (Option's is known to the verifier)
                ("unwrap_or", 1, _, _) if is_try_from(r) && matches!(m.args[0], Expr::Path(_) | Expr::Lit(_)) => {
                    let d = &m.args[0];
                    Some(syn::parse_quote!((match #r { Ok(__c) => __c, Err(_) => #d, })))
                }
                ("ok", 0, _, _) if is_try_from(r) => Some(syn::parse_quote!((match #r { Ok(__c) => Some(__c), Err(_) => None, }))),
                ("map_or_else", 2, Some((_, d)), Some((p, b))) => {
                    let (b, d) = (v(&b), v(&d));
                    Some(syn::parse_quote!((match #r { Some(#p) => #b, None => #d, })))
                }
                _ => None,
            };
        } else if let (true, Expr::ForLoop(l)) = (self.late, &mut *e) {
            // for x in v.iter()
            if let Expr::MethodCall(m) = &*l.expr {
                if m.method == "iter" && m.args.is_empty() && place_root(&m.receiver).is_some() {
                    let r = &m.receiver;
                    l.expr = Box::new(syn::parse_quote!(&#r));
                    self.n += 1;
                }
            }
        } else if let (true, Expr::Binary(b)) = (self.late, &*e) {
            // X == Ok(V)
            let ne = matches!(b.op, syn::BinOp::Ne(_));
            if let (true, Expr::Call(c)) = (ne || matches!(b.op, syn::BinOp::Eq(_)), &*b.right) {
                if let (Expr::Path(p), 1) = (&*c.func, c.args.len()) {
                    if p.path.is_ident("Ok") {
                        let (f, v, x) = (&c.func, &c.args[0], &b.left);
                        let m: Expr = match &**x {
                            Expr::Call(_) | Expr::MethodCall(_) => syn::parse_quote!(match #x { #f(__c) => __c == #v, _ => false, }),
                            _ => syn::parse_quote!(match &#x { #f(__c) => *__c == #v, _ => false, }),
                        };
                        new = Some(if ne { syn::parse_quote!((!(#m))) } else { syn::parse_quote!((#m)) });
                    }
                }
            }
        } else if let Expr::Call(c) = e {
            if let (Expr::Path(p), 1) = (&*c.func, c.args.len()) {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let prim = ["char", "u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize"];
                if s.len() == 2 && s[1] == "from" && prim.contains(&s[0].as_str()) {
                    let (t, a) = (&p.path.segments[0].ident, &c.args[0]);
                    new = Some(syn::parse_quote!(((#a) as #t)));
                }
            }
            // (of a str, a char, a String: the same text)
            if let (Expr::Path(p), 1) = (&*c.func, c.args.len()) {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if s.len() == 2 && s[0] == "String" && s[1] == "from" {
                    let a = &c.args[0];
                    new = Some(syn::parse_quote!((#a).to_string()));
                }
            }
            // Display::fmt(x, f)
            if let (Expr::Path(p), 2) = (&*c.func, c.args.len()) {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if s.len() >= 2 && s[s.len() - 2] == "Display" && s[s.len() - 1] == "fmt" {
                    let (x, f) = (&c.args[0], &c.args[1]);
                    let x = if let Expr::Reference(r) = x { &*r.expr } else { x };
                    new = Some(syn::parse_quote!((#x).fmt(#f)));
                }
            }
        } else if let Expr::Index(i) = e {
            // x[a..=b] is x[a..b + 1]
            if let Expr::Range(r) = &mut *i.index {
                if let (syn::RangeLimits::Closed(_), Some(b)) = (&r.limits, &r.end) {
                    let b = match &**b {
                        Expr::Path(_) | Expr::Lit(_) => (**b).clone(),
                        x => syn::parse_quote!((#x)),
                    };
                    r.end = Some(Box::new(syn::parse_quote!(#b + 1)));
                    r.limits = syn::RangeLimits::HalfOpen(Default::default());
                    self.n += 1;
                }
            }
        }
        if let Some(x) = new {
            self.n += 1;
            *e = x;
        }
    }
}

// -------------------------------------------------------------------------------- exits of loops
/// `return;` inside a loop after which nothing comes is `break;`.
pub fn unit_returns(b: &mut Block) -> usize {
    struct R(usize);
    impl VisitMut for R {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Return(r) if r.expr.is_none() => {
                    *e = syn::parse_quote!(break);
                    self.0 += 1;
                }
                Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
        fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    }
    fn last(b: &mut Block, n: &mut usize) {
        if let Some(Stmt::Expr(e, _)) = b.stmts.last_mut() {
            go(e, n)
        }
    }
    fn go(e: &mut Expr, n: &mut usize) {
        let body = match e {
            Expr::While(w) => &mut w.body,
            Expr::ForLoop(w) => &mut w.body,
            // (a `loop` without a break has the type of what is expected of it)
            Expr::Loop(w) => &mut w.body,
            Expr::If(i) => {
                last(&mut i.then_branch, n);
                if let Some((_, e)) = &mut i.else_branch {
                    go(e, n)
                }
                return;
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    go(&mut a.body, n)
                }
                return;
            }
            Expr::Block(b) => return last(&mut b.block, n),
            _ => return,
        };
        let mut r = R(0);
        r.visit_block_mut(body);
        *n += r.0;
    }
    let mut n = 0;
    last(b, &mut n);
    n
}

/// What follows a loop, up to the end of the function, is put at the loop's exits. (All loops are
/// `loop` already.)
pub fn sink(b: &mut Block, unit: bool) -> usize {
    fn the_loop(s: &mut Stmt) -> Option<&mut syn::ExprLoop> {
        fn e(x: &mut Expr) -> Option<&mut syn::ExprLoop> {
            match x {
                Expr::Loop(l) => Some(l),
                Expr::Block(b) if b.label.is_none() => match b.block.stmts.last_mut() {
                    Some(Stmt::Expr(x, _)) => e(x),
                    _ => None,
                },
                _ => None,
            }
        }
        match s {
            Stmt::Expr(x, _) => e(x),
            _ => None,
        }
    }
    let Some(i) = (0..b.stmts.len()).rev().find(|i| the_loop(&mut b.stmts[*i]).is_some()) else { return 0 };
    let mut rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
    if rest.is_empty() || rest.len() > 8 {
        return 0;
    }
    let body: Block = syn::parse_quote!({ #(#rest)* });
    if loops(&body) > 0 {
        return 0;
    }
    // as `...; return value;`
    match rest.pop() {
        Some(Stmt::Expr(e, None)) if !diverges(&[Stmt::Expr(e.clone(), None)]) => {
            if unit {
                rest.push(Stmt::Expr(e, Some(Default::default())));
                rest.push(syn::parse_quote!(return;));
            } else {
                rest.push(syn::parse_quote!(return #e;));
            }
        }
        Some(s) if diverges(&[s.clone()]) => rest.push(s),
        Some(s) if unit => {
            rest.push(s);
            rest.push(syn::parse_quote!(return;));
        }
        _ => return 0,
    }
    let s = &mut b.stmts[i];
    let Some(l) = the_loop(s) else { return 0 };
    if l.label.is_some() {
        return 0;
    }
    // nothing declared in the loop may capture a name of what is moved in
    let inner = binders(None, &l.body);
    let ts: TokenStream = rest.iter().map(|s| s.to_token_stream()).collect();
    let own = binders(None, &body);
    if inner.iter().any(|n| !own.contains(n) && has_tok(ts.clone(), &|t| matches!(t, TokenTree::Ident(i) if i == n))) {
        return 0;
    }
    struct B<'a>(&'a [Stmt], usize, bool);
    impl VisitMut for B<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Break(x) => {
                    if x.label.is_some() || x.expr.is_some() {
                        self.2 = true;
                    }
                    let r = self.0;
                    *e = syn::parse_quote!({ #(#r)* });
                    self.1 += 1;
                }
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut v = B(&rest, 0, false);
    let mut lb = l.body.clone();
    v.visit_block_mut(&mut lb);
    let (n, bad) = (v.1, v.2);
    if n == 0 || n > 4 || bad {
        return 0;
    }
    Leaving.visit_block_mut(&mut lb);
    l.body = lb;
    b.stmts.truncate(i + 1);
    // the loop is the value of the function
    fn open(s: &mut Stmt) {
        if let Stmt::Expr(x, semi) = s {
            *semi = None;
            if let Expr::Block(b) = x {
                if let Some(s) = b.block.stmts.last_mut() {
                    open(s)
                }
            }
        }
    }
    open(&mut b.stmts[i]);
    n
}

/// `x = e; ..; return v;` is `let x = e; ..; return v;`: nothing sees x afterwards.
struct Leaving;
impl VisitMut for Leaving {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut v = vec![];
        for s in b.stmts.drain(..) {
            match s {
                // (blocks put in above, which bind what they use)
                Stmt::Expr(Expr::Block(x), _) if x.label.is_none() && diverges(&x.block.stmts) => v.extend(x.block.stmts),
                s => v.push(s),
            }
        }
        b.stmts = v;
        if diverges(&b.stmts) {
            for s in b.stmts.iter_mut() {
                if let Stmt::Expr(Expr::Assign(a), Some(_)) = s {
                    if let (Some(x), true) = (place_root(&a.left), matches!(&*a.left, Expr::Path(_))) {
                        let (x, e) = (quote::format_ident!("{x}"), &a.right);
                        *s = syn::parse_quote!(let #x = #e;);
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}
