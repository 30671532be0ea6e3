//! Loops over iterators: the same loop is written in several ways (`for x in &v`, `v.iter()`, a
//! `while let` over `it.next()`, a `filter` in the head, `any`/`all`/`find`/`position`/`fold`/
//! `for_each`/`try_for_each` with a closure). Each is put into the form the contract was written for:
//! std documents what these adaptors do in terms of `next`.
use crate::norm::{closure1, tailnorm};
use crate::rewrite::{self, Rule};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::{Block, Expr, Pat, Stmt};

fn known(p: &Pat, x: &Expr, rules: &[Rule]) -> bool {
    let ts = quote!(for #p in #x);
    let mut n = BTreeMap::new();
    let _ = rewrite::apply(ts, rules, &mut n);
    !n.is_empty()
}
fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        _ => false,
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
fn chain(e: &Expr) -> bool {
    let Expr::MethodCall(m) = strip(e) else { return false };
    let n = m.method.to_string();
    ["iter", "iter_mut", "into_iter", "rev", "chars", "char_indices", "bytes", "enumerate", "filter", "map", "skip", "take", "copied", "cloned", "find_iter"].contains(&n.as_str())
}
/// an iterator that `name` is called on (there are no other `for_each`s)
fn chain_for(e: &Expr, name: &str) -> bool {
    let clone = matches!(strip(e), Expr::MethodCall(m) if m.method == "clone" && place(&m.receiver));
    chain(e) || ((name == "for_each" || name == "try_for_each") && (clone || place(strip(e))))
}
fn uses(ts: proc_macro2::TokenStream, n: &str) -> usize {
    ts.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Group(g) => uses(g.stream(), n),
            proc_macro2::TokenTree::Ident(i) => (i == n) as usize,
            _ => 0,
        })
        .sum()
}

/// `x` is a reference to the variable that is now `x` itself
struct Deref<'a>(&'a str);
impl VisitMut for Deref<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let is = |e: &Expr| matches!(strip(e), Expr::Path(p) if p.path.is_ident(self.0));
        match e {
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && is(&u.expr) => {
                let x = strip(&u.expr).clone();
                *e = x;
            }
            Expr::MethodCall(m) if is(&m.receiver) => {
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            Expr::Field(f) if is(&f.base) => {}
            Expr::Path(_) if is(e) => *e = syn::parse_quote!((&#e)),
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    // (format strings and matches! name it as it is)
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if m.path.is_ident("matches") {
            let v: Vec<_> = m.tokens.clone().into_iter().collect();
            if let Some(k) = v.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',')) {
                let head: proc_macro2::TokenStream = v[..k].iter().cloned().collect();
                if let Ok(mut e) = syn::parse2::<Expr>(head) {
                    self.visit_expr_mut(&mut e);
                    let rest: proc_macro2::TokenStream = v[k..].iter().cloned().collect();
                    m.tokens = quote!(#e #rest);
                }
            }
        }
    }
}
/// the closure of `find`/`filter`, which is given a reference: (pattern for the item, condition)
fn by_ref(c: &Expr) -> Option<(Pat, Expr)> {
    let (p, b) = closure1(c)?;
    let mut e: Expr = match &b.stmts[..] {
        [Stmt::Expr(e, None)] => e.clone(),
        _ => syn::parse_quote!(#b),
    };
    match p {
        Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
            let n = i.ident.to_string();
            Deref(&n).visit_expr_mut(&mut e);
            Some((Pat::Ident(i), e))
        }
        Pat::Reference(r) => Some(((*r.pat).clone(), e)),
        // (match ergonomics: the names are references then)
        _ => None,
    }
}
fn by_val(c: &Expr) -> Option<(Pat, Expr)> {
    let (p, b) = closure1(c)?;
    Some((
        p,
        match &b.stmts[..] {
            [Stmt::Expr(e, None)] => e.clone(),
            _ => syn::parse_quote!(#b),
        },
    ))
}
fn item_expr(p: &Pat) -> Option<Expr> {
    match p {
        Pat::Ident(i) => {
            let n = &i.ident;
            Some(syn::parse_quote!(#n))
        }
        _ => None,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Want {
    Nothing,
    /// no iterator: the loop is a `while`
    Plain,
    Range,
    Iter,
}
pub struct Iters<'a> {
    pub rules: &'a [Rule],
    /// fewer loops than the contract speaks of
    pub combs: bool,
    /// what the contract of loop k speaks of
    pub want: &'a dyn Fn(usize) -> Want,
    /// parameters that are shared references
    pub shared: Vec<String>,
    /// forms with a flag: the contract may not fit
    pub guessed: bool,
    /// names of the function that the contract was written for, and that are not used here
    pub names: Vec<String>,
    /// loops so far
    pub k: usize,
    pub n: usize,
}
enum Out {
    /// statements, and the expression that stands for the result
    Hoist(Vec<Stmt>, Expr),
}
impl Iters<'_> {
    /// the loop that the adaptor is
    fn loop_of(&mut self, e: &Expr) -> Option<Out> {
        let Expr::MethodCall(m) = strip(e) else { return None };
        let name = m.method.to_string();
        let r = &m.receiver;
        if !chain_for(r, &name) {
            return None;
        }
        let f = quote::format_ident!("__f{}", self.n);
        let fe: Expr = syn::parse_quote!(#f);
        let st = |b: proc_macro2::TokenStream| -> Option<Vec<Stmt>> { syn::parse2::<Block>(quote!({ #b })).ok().map(|b| b.stmts) };
        let v = match (name.as_str(), m.args.len()) {
            ("any", 1) => {
                let (p, c) = by_val(&m.args[0])?;
                st(quote!(let mut #f = false; for #p in #r { if #c { #f = true; break; } }))?
            }
            ("all", 1) => {
                let (p, c) = by_val(&m.args[0])?;
                st(quote!(let mut #f = true; for #p in #r { if !(#c) { #f = false; break; } }))?
            }
            ("find", 1) => {
                let (p, c) = by_ref(&m.args[0])?;
                let x = item_expr(&p)?;
                st(quote!(let mut #f = None; for #p in #r { if #c { #f = Some(#x); break; } }))?
            }
            ("next", 0) => {
                let Expr::MethodCall(q) = strip(r) else { return None };
                if q.method != "filter" || !chain(&q.receiver) {
                    return None;
                }
                let (p, c) = by_ref(q.args.first()?)?;
                let (x, r) = (item_expr(&p)?, &q.receiver);
                st(quote!(let mut #f = None; for #p in #r { if #c { #f = Some(#x); break; } }))?
            }
            ("find_map", 1) => {
                let (p, c) = by_val(&m.args[0])?;
                st(quote!(let mut #f = None; for #p in #r { if let Some(__v) = #c { #f = Some(__v); break; } }))?
            }
            ("position", 1) => {
                let (p, c) = by_val(&m.args[0])?;
                let k = quote::format_ident!("__k{}", self.n);
                st(quote!(let mut #f = None; let mut #k: usize = 0; for #p in #r { if #c { #f = Some(#k); break; } #k += 1; }))?
            }
            ("try_for_each", 1) => {
                let (p, c) = by_val(&m.args[0])?;
                st(quote!(let mut #f = Ok(()); for #p in #r { match #c { Ok(_) => {} Err(__e) => { #f = Err(__e); break; } } }))?
            }
            ("for_each", 1) => {
                let (p, c) = by_val(&m.args[0])?;
                let v = st(quote!(for #p in #r { #c; }))?;
                self.n += 1;
                return Some(Out::Hoist(v, syn::parse_quote!(())));
            }
            // v.extend(ITER)
            ("extend", 1) => return None,
            ("fold", 2) => {
                let Expr::Closure(c) = strip(&m.args[1]) else { return None };
                let [a, p] = &c.inputs.iter().collect::<Vec<_>>()[..] else { return None };
                let Pat::Ident(a) = a else { return None };
                let a = &a.ident;
                let b: Block = match &*c.body {
                    Expr::Block(b) => b.block.clone(),
                    e => syn::parse_quote!({ #e }),
                };
                let b = tailnorm(&b, None)?;
                let i = &m.args[0];
                let v = st(quote!(let mut #a = #i; for #p in #r { #a = #b; } ))?;
                self.n += 1;
                return Some(Out::Hoist(v, syn::parse_quote!(#a)));
            }
            _ => return None,
        };
        self.n += 1;
        Some(Out::Hoist(v, fe))
    }
    /// the adaptor that is evaluated first in `e`
    fn first<'b>(e: &'b mut Expr) -> Option<&'b mut Expr> {
        // (two steps: the borrow checker)
        fn is_comb(e: &Expr) -> bool {
            matches!(strip(e), Expr::MethodCall(m) if chain_for(&m.receiver, &m.method.to_string())
                && ["any", "all", "find", "find_map", "position", "try_for_each", "for_each", "fold", "next"].contains(&m.method.to_string().as_str()))
        }
        if is_comb(e) {
            return Some(e);
        }
        match e {
            Expr::Paren(p) => Self::first(&mut p.expr),
            Expr::Unary(u) => Self::first(&mut u.expr),
            Expr::Try(u) => Self::first(&mut u.expr),
            Expr::MethodCall(m) => Self::first(&mut m.receiver),
            Expr::Field(m) => Self::first(&mut m.base),
            Expr::Binary(b) => Self::first(&mut b.left),
            Expr::Cast(b) => Self::first(&mut b.expr),
            Expr::If(i) => Self::first(&mut i.cond),
            Expr::Let(l) => Self::first(&mut l.expr),
            Expr::Match(m) => Self::first(&mut m.expr),
            Expr::Return(r) => r.expr.as_mut().and_then(|e| Self::first(e)),
            Expr::Call(c) if c.args.len() == 1 => Self::first(&mut c.args[0]),
            Expr::Assign(a) if place(&a.left) => Self::first(&mut a.right),
            _ => None,
        }
    }
    /// The value of the function begins with an adaptor: the loop, and what is made of the result at its exits.
    pub fn tail(&mut self, b: &mut Block) {
        lens(b, &self.shared.clone(), &mut self.n);
        if !self.combs {
            return;
        }
        // let x = F; .. x ..
        if b.stmts.len() >= 2 {
            let k = b.stmts.len();
            if let (Stmt::Local(l), Stmt::Expr(e, None)) = (&b.stmts[k - 2], &b.stmts[k - 1]) {
                if let (Pat::Ident(i), Some(x)) = (&l.pat, l.init.as_ref().filter(|x| x.diverge.is_none())) {
                    let (n, mut f) = (i.ident.to_string(), (*x.expr).clone());
                    let first = Self::first(&mut f).map_or(false, |g| g.to_token_stream().to_string() == x.expr.to_token_stream().to_string());
                    if first && uses(e.to_token_stream(), &n) == 1 {
                        let y = &x.expr;
                        let ts = crate::norm::tok_subst(e.to_token_stream(), &n, &quote!(#y));
                        if let Ok(e) = syn::parse2::<Expr>(ts) {
                            b.stmts.truncate(k - 2);
                            b.stmts.push(Stmt::Expr(e, None));
                            self.n += 1;
                        }
                    }
                }
            }
        }
        let Some(Stmt::Expr(e, semi)) = b.stmts.last() else { return };
        if semi.is_some() && !matches!(e, Expr::Return(_)) {
            return;
        }
        let mut e = e.clone();
        if let Expr::Return(r) = &e {
            let Some(x) = r.expr.clone() else { return };
            e = *x;
        }
        let Some(x) = Self::first(&mut e) else { return };
        let Expr::MethodCall(m) = strip(x).clone() else { return };
        *x = syn::parse_quote!(__f);
        let one: Block = syn::parse_quote!({ #e });
        if crate::norm::loops(&one) > 0 {
            return;
        }
        let r = &m.receiver;
        let put = |v: &str| -> Option<Expr> {
            let by: proc_macro2::TokenStream = v.parse().ok()?;
            syn::parse2(crate::norm::tok_subst(e.to_token_stream(), "__f", &by)).ok()
        };
        let ts = (|| {
            Some(match (m.method.to_string().as_str(), m.args.len()) {
                ("any", 1) => {
                    let ((p, c), x, y) = (by_val(&m.args[0])?, put("true")?, put("false")?);
                    quote!(for #p in #r { if #c { return #x; } } #y)
                }
                ("all", 1) => {
                    let ((p, c), x, y) = (by_val(&m.args[0])?, put("false")?, put("true")?);
                    quote!(for #p in #r { if !(#c) { return #x; } } #y)
                }
                ("find", 1) => {
                    let (p, c) = by_ref(&m.args[0])?;
                    let (x, y) = (fold_opt(&e, "__f", Some(&item_expr(&p)?))?, fold_opt(&e, "__f", None)?);
                    quote!(for #p in #r { if #c { return #x; } } #y)
                }
                ("next", 0) => {
                    let Expr::MethodCall(q) = strip(r) else { return None };
                    if q.method != "filter" || !chain(&q.receiver) {
                        return None;
                    }
                    let (p, c) = by_ref(q.args.first()?)?;
                    let (x, y) = (fold_opt(&e, "__f", Some(&item_expr(&p)?))?, fold_opt(&e, "__f", None)?);
                    let r = &q.receiver;
                    quote!(for #p in #r { if #c { return #x; } } #y)
                }
                ("find_map", 1) => {
                    let (p, c) = by_val(&m.args[0])?;
                    let v: Expr = syn::parse_quote!(__v);
                    let (x, y) = (fold_opt(&e, "__f", Some(&v))?, fold_opt(&e, "__f", None)?);
                    quote!(for #p in #r { if let Some(__v) = #c { return #x; } } #y)
                }
                ("try_for_each", 1) if matches!(strip(&e), Expr::Path(_)) => {
                    let (p, c) = by_val(&m.args[0])?;
                    quote!(for #p in #r { #c?; } Ok(()))
                }
                _ => return None,
            })
        })();
        if let Some(t) = ts.and_then(|t| syn::parse2::<Block>(quote!({ #t })).ok()) {
            b.stmts.pop();
            b.stmts.extend(t.stmts);
            self.n += 1;
        }
    }
    /// `for (i, x) in v.iter().enumerate()` as a loop over the indices
    fn enum_to_range(l: &mut syn::ExprForLoop) -> bool {
        let (Expr::MethodCall(m), Pat::Tuple(t)) = (strip(&l.expr), &*l.pat) else { return false };
        let Expr::MethodCall(q) = strip(&m.receiver) else { return false };
        if m.method != "enumerate" || !m.args.is_empty() || t.elems.len() != 2 || q.method != "iter" || !q.args.is_empty() || !place(&q.receiver) {
            return false;
        }
        let (v, i, x) = (&q.receiver, &t.elems[0], &t.elems[1]);
        let (i, first): (Pat, Option<Stmt>) = match (i, x) {
            (i, Pat::Wild(_)) => (i.clone(), None),
            (Pat::Ident(i), x) => {
                let n = &i.ident;
                (Pat::Ident(i.clone()), Some(syn::parse_quote!(let #x = &#v[#n];)))
            }
            _ => return false,
        };
        let head: Expr = syn::parse_quote!(0..#v.len());
        if let Some(s) = first {
            l.body.stmts.insert(0, s);
        }
        l.pat = Box::new(i);
        *l.expr = head;
        true
    }
    /// `for i in 0..v.len()` as a loop over the elements (the verifier checks that v stays as it is)
    fn range_to_iter(&self, l: &mut syn::ExprForLoop) -> bool {
        let (Expr::Range(r), Pat::Ident(i)) = (strip(&l.expr), &*l.pat) else { return false };
        let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) else { return false };
        let Expr::MethodCall(m) = strip(b) else { return false };
        if m.method != "len" || !m.args.is_empty() || !place(&m.receiver) {
            return false;
        }
        let (v, n) = (m.receiver.clone(), i.ident.clone());
        let zero = a.to_token_stream().to_string() == "0";
        // v[i] only: the element
        let e = quote::format_ident!("__e{}", self.k);
        let by: proc_macro2::TokenStream = quote!(*#e);
        let ts = at(l.body.to_token_stream(), &v.to_token_stream(), &n.to_string(), &by);
        if uses(ts.clone(), &n.to_string()) == 0 && uses(ts.clone(), &e.to_string()) > 0 {
            if let Ok(mut body) = syn::parse2::<Block>(ts) {
                let mut pat: Pat = syn::parse_quote!(#e);
                // let x = &v[i];
                if let Some(Stmt::Local(s)) = body.stmts.first() {
                    let ini = s.init.as_ref().map_or(String::new(), |x| x.expr.to_token_stream().to_string());
                    if ini == quote!(& *#e).to_string() && uses(body.to_token_stream(), &e.to_string()) == 1 {
                        pat = s.pat.clone();
                        body.stmts.remove(0);
                    }
                }
                let put = assigned(&body.to_token_stream(), &quote!(*#e));
                l.pat = Box::new(pat);
                *l.expr = match (zero, put) {
                    (true, false) => syn::parse_quote!(#v.iter()),
                    (true, true) => syn::parse_quote!(#v.iter_mut()),
                    (false, false) => syn::parse_quote!(&#v[#a..]),
                    _ => return false,
                };
                l.body = body;
                return true;
            }
        }
        if !zero {
            return false;
        }
        l.pat = Box::new(syn::parse_quote!((#n, _)));
        *l.expr = syn::parse_quote!(#v.iter().enumerate());
        true
    }
    fn head(&mut self, l: &mut syn::ExprForLoop) {
        match (self.want)(self.k) {
            Want::Range => self.n += Self::enum_to_range(l) as usize,
            Want::Iter => self.n += self.range_to_iter(l) as usize,
            _ => {}
        }
        for _ in 0..4 {
            let adaptor = |e: &Expr| matches!(strip(e), Expr::MethodCall(m) if (m.method == "map" || m.method == "filter") && m.args.len() == 1);
            if known(&l.pat, &l.expr, self.rules) && !adaptor(&l.expr) {
                return;
            }
            // a reference pattern that binds
            if let Pat::Reference(r) = &*l.pat {
                let (q, p) = (quote::format_ident!("__q{}", self.k), &r.pat);
                if r.mutability.is_none() {
                    l.body.stmts.insert(0, syn::parse_quote!(let #p = *#q;));
                    l.pat = Box::new(syn::parse_quote!(#q));
                    self.n += 1;
                    continue;
                }
            }
            // another way to write the same head
            let mut alts: Vec<Expr> = vec![];
            match strip(&l.expr) {
                Expr::Reference(r) if place(&r.expr) => {
                    let x = &r.expr;
                    alts.push(if r.mutability.is_some() { syn::parse_quote!(#x.iter_mut()) } else { syn::parse_quote!(#x.iter()) });
                }
                Expr::MethodCall(m) if m.args.is_empty() && place(&m.receiver) => {
                    let x = &m.receiver;
                    match m.method.to_string().as_str() {
                        "iter" => alts.push(syn::parse_quote!(&#x)),
                        "iter_mut" => alts.push(syn::parse_quote!(&mut #x)),
                        "into_iter" => alts.push(syn::parse_quote!(#x)),
                        _ => {}
                    }
                }
                Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter" && matches!(strip(&m.receiver), Expr::Index(_)) => {
                    let x = strip(&m.receiver);
                    alts.push(syn::parse_quote!(&#x));
                }
                x if place(x) => alts.push(syn::parse_quote!(#x.into_iter())),
                _ => {}
            }
            if let Some(a) = alts.into_iter().find(|a| known(&l.pat, a, self.rules)) {
                *l.expr = a;
                self.n += 1;
                return;
            }
            // x.into_iter() is what `for` calls
            if let Expr::MethodCall(m) = strip(&l.expr) {
                if m.args.is_empty() && m.method == "into_iter" && place(&m.receiver) {
                    *l.expr = (*m.receiver).clone();
                    self.n += 1;
                    return;
                }
                if m.args.is_empty() && m.method == "iter" && matches!(strip(&m.receiver), Expr::Index(_)) {
                    let x = strip(&m.receiver);
                    *l.expr = syn::parse_quote!(&#x);
                    self.n += 1;
                    return;
                }
            }
            if let Expr::Range(_) = strip(&l.expr) {
                if (self.want)(self.k) == Want::Range {
                    return;
                }
                let mut it = l.clone();
                if self.range_to_iter(&mut it) && known(&it.pat, &it.expr, self.rules) {
                    *l = it;
                    self.n += 1;
                }
                return;
            }
            // elements by reference where the contract moves them (nothing uses the rest then)
            if let (Expr::Reference(r), Pat::Ident(i)) = (strip(&l.expr), &*l.pat) {
                if r.mutability.is_none() && place(&r.expr) {
                    let (x, n) = (&r.expr, &i.ident);
                    let a: Expr = syn::parse_quote!(#x.into_iter());
                    let q = quote::format_ident!("__m{}", self.k);
                    let qp: Pat = syn::parse_quote!(#q);
                    if known(&qp, &a, self.rules) {
                        l.body.stmts.insert(0, syn::parse_quote!(let #n = &#q;));
                        l.pat = Box::new(qp);
                        *l.expr = a;
                        self.n += 1;
                        return;
                    }
                }
            }
            // skip(n) stops at the end where a slice from n on would panic: the slice has to be proved in bounds
            if let Expr::MethodCall(m) = strip(&l.expr) {
                if let (true, Expr::MethodCall(q)) = (m.method == "skip" && m.args.len() == 1, strip(&m.receiver)) {
                    if q.method == "iter" && place(&q.receiver) {
                        let (v, a) = (&q.receiver, &m.args[0]);
                        *l.expr = syn::parse_quote!(&#v[#a..]);
                        self.n += 1;
                        return;
                    }
                }
            }
            if Self::enum_to_range(l) {
                self.n += 1;
                return;
            }
            // adaptors in the head
            let Expr::MethodCall(m) = strip(&l.expr) else { return };
            if !chain(&m.receiver) || m.args.len() != 1 {
                return;
            }
            let (r, b) = (m.receiver.clone(), l.body.clone());
            let new: Option<(Pat, Block)> = match m.method.to_string().as_str() {
                "filter" => by_ref(&m.args[0]).and_then(|(p, c)| {
                    let q = &l.pat;
                    if p.to_token_stream().to_string() == q.to_token_stream().to_string() {
                        return Some((p, syn::parse_quote!({ if !(#c) { continue; } #b })));
                    }
                    let x = item_expr(&p)?;
                    // (the names of the loop's pattern are bound after the test)
                    Some((p, syn::parse_quote!({ if !(#c) { continue; } let #q = #x; #b })))
                }),
                "map" => by_val(&m.args[0]).map(|(p, c)| {
                    let q = &l.pat;
                    (p, syn::parse_quote!({ let #q = #c; #b }))
                }),
                _ => None,
            };
            let Some((p, mut b)) = new else { return };
            // no block in a block at the end
            if let Some(Stmt::Expr(Expr::Block(x), _)) = b.stmts.last() {
                if x.label.is_none() {
                    let v = x.block.stmts.clone();
                    b.stmts.pop();
                    b.stmts.extend(v);
                }
            }
            l.expr = r;
            l.pat = Box::new(p);
            l.body = b;
            self.n += 1;
        }
    }
}
/// v[i] => by
fn at(ts: proc_macro2::TokenStream, v: &proc_macro2::TokenStream, i: &str, by: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Delimiter, Group, TokenTree};
    let v: Vec<String> = v.clone().into_iter().map(|t| t.to_string()).collect();
    fn go(ts: proc_macro2::TokenStream, v: &[String], i: &str, by: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        let x: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = vec![];
        let mut k = 0;
        while k < x.len() {
            let fits = k + v.len() < x.len()
                && (0..v.len()).all(|j| x[k + j].to_string() == v[j])
                && (k == 0 || x[k - 1].to_string() != ".")
                && matches!(&x[k + v.len()], TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket && g.stream().to_string() == i);
            if fits {
                k += v.len() + 1;
                let tight = match x.get(k) {
                    Some(TokenTree::Punct(p)) => p.as_char() == '.' || p.as_char() == '?',
                    Some(TokenTree::Group(g)) => g.delimiter() != Delimiter::Brace,
                    _ => false,
                };
                let by = by.clone();
                out.extend(if tight { quote!((#by)) } else { by });
                continue;
            }
            match &x[k] {
                TokenTree::Group(g) => {
                    let mut n = Group::new(g.delimiter(), go(g.stream(), v, i, by));
                    n.set_span(g.span());
                    out.push(TokenTree::Group(n));
                }
                t => out.push(t.clone()),
            }
            k += 1;
        }
        out.into_iter().collect()
    }
    go(ts, &v, i, by)
}
/// an assignment to x
fn assigned(ts: &proc_macro2::TokenStream, x: &proc_macro2::TokenStream) -> bool {
    use proc_macro2::TokenTree;
    let v: Vec<String> = x.clone().into_iter().map(|t| t.to_string()).collect();
    fn go(ts: proc_macro2::TokenStream, v: &[String]) -> bool {
        let x: Vec<TokenTree> = ts.into_iter().collect();
        let p = |k: usize, c: char| matches!(x.get(k), Some(TokenTree::Punct(p)) if p.as_char() == c);
        for k in 0..x.len() {
            if let TokenTree::Group(g) = &x[k] {
                if go(g.stream(), v) {
                    return true;
                }
            }
            if k + v.len() <= x.len() && (0..v.len()).all(|j| x[k + j].to_string() == v[j]) && !(k > 0 && p(k - 1, '.')) {
                let e = k + v.len();
                let eq = p(e, '=') && !p(e + 1, '=') && !p(e + 1, '>');
                let op = ['+', '-', '*', '/', '%', '&', '|', '^'].iter().any(|c| p(e, *c)) && p(e + 1, '=') && matches!(&x[e], TokenTree::Punct(q) if q.spacing() == proc_macro2::Spacing::Joint);
                let bor = k >= 2 && x[k - 1].to_string() == "mut" && p(k - 2, '&');
                if eq || op || bor {
                    return true;
                }
            }
        }
        false
    }
    go(ts.clone(), &v)
}
/// the length of v stays as it is
fn stable(ts: &proc_macro2::TokenStream, v: &Expr, shared: &[String]) -> bool {
    use proc_macro2::{Delimiter, TokenTree};
    if let Expr::Path(p) = v {
        if p.path.get_ident().map_or(false, |i| shared.contains(&i.to_string())) {
            return true;
        }
    }
    let v: Vec<String> = v.to_token_stream().into_iter().map(|t| t.to_string()).collect();
    const RO: [&str; 14] = ["len", "get", "iter", "is_empty", "last", "first", "contains", "starts_with", "ends_with", "as_slice", "as_str", "clone", "chars", "char_indices"];
    fn go(ts: proc_macro2::TokenStream, v: &[String]) -> bool {
        let x: Vec<TokenTree> = ts.into_iter().collect();
        for k in 0..x.len() {
            if let TokenTree::Group(g) = &x[k] {
                if !go(g.stream(), v) {
                    return false;
                }
            }
            if k + v.len() <= x.len() && (0..v.len()).all(|j| x[k + j].to_string() == v[j]) && !(k > 0 && x[k - 1].to_string() == ".") {
                let e = k + v.len();
                let ok = match x.get(e) {
                    Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Bracket => true,
                    Some(TokenTree::Punct(p)) if p.as_char() == '.' => matches!(x.get(e + 1), Some(TokenTree::Ident(i)) if RO.contains(&i.to_string().as_str())),
                    _ => k > 0 && x[k - 1].to_string() == "&" && !matches!(x.get(e), Some(TokenTree::Group(_))),
                };
                if !ok || (k > 0 && x[k - 1].to_string() == "mut") {
                    return false;
                }
            }
            // a part of v
            if v.len() > 1 && x[k].to_string() == v[0] && !(k + v.len() <= x.len() && (0..v.len()).all(|j| x[k + j].to_string() == v[j])) {
                let dot = matches!(x.get(k + 1), Some(TokenTree::Punct(p)) if p.as_char() == '.');
                if !dot && !(k > 0 && x[k - 1].to_string() == ".") && v[0] != "self" {
                    return false;
                }
            }
        }
        true
    }
    go(ts.clone(), &v)
}
/// `continue` of this loop: `by; continue`
struct Conts(Stmt);
impl VisitMut for Conts {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
            Expr::Continue(c) if c.label.is_none() => {
                let s = &self.0;
                *e = syn::parse_quote!({ #s continue; });
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
fn lt(e: &Expr) -> Option<(syn::Ident, Expr)> {
    let Expr::Binary(b) = strip(e) else { return None };
    let Expr::Path(p) = strip(&b.left) else { return None };
    if !matches!(b.op, syn::BinOp::Lt(_)) {
        return None;
    }
    Some((p.path.get_ident()?.clone(), (*b.right).clone()))
}
fn step(s: &Stmt) -> Option<(syn::Ident, bool)> {
    let Stmt::Expr(Expr::Binary(b), Some(_)) = s else { return None };
    let Expr::Path(p) = &*b.left else { return None };
    if b.right.to_token_stream().to_string() != "1" {
        return None;
    }
    match b.op {
        syn::BinOp::AddAssign(_) => Some((p.path.get_ident()?.clone(), true)),
        syn::BinOp::SubAssign(_) => Some((p.path.get_ident()?.clone(), false)),
        _ => None,
    }
}
fn mut_let(s: &Stmt, n: &syn::Ident) -> Option<Expr> {
    let Stmt::Local(l) = s else { return None };
    let p = match &l.pat {
        Pat::Type(t) => &*t.pat,
        p => p,
    };
    match p {
        Pat::Ident(i) if i.ident == *n => Some((*l.init.as_ref().filter(|x| x.diverge.is_none())?.expr).clone()),
        _ => None,
    }
}
impl Iters<'_> {
    /// `let mut i = a; .. while i < b { ..; i += 1; }` where the contract speaks of a range or an iterator;
    /// `let mut i = v.len(); .. while i > 0 { i -= 1; .. v[i] .. }` likewise
    fn while_to_for(&self, st: &[Stmt], m: usize, k: usize) -> Option<(usize, Expr)> {
        let Stmt::Expr(Expr::While(w), _) = &st[m] else { return None };
        if !matches!((self.want)(k), Want::Range | Want::Iter) || uses(w.body.to_token_stream(), "continue") > 0 {
            return None;
        }
        let lab = &w.label;
        if let Some((i, b)) = lt(&w.cond) {
            let (j, a) = (0..m).rev().find_map(|j| mut_let(&st[j], &i).map(|a| (j, a)))?;
            let n = i.to_string();
            if st[j + 1..m].iter().chain(&st[m + 1..]).any(|s| uses(s.to_token_stream(), &n) > 0) {
                return None;
            }
            let mut body = w.body.clone();
            if step(body.stmts.last()?) != Some((i.clone(), true)) {
                return None;
            }
            body.stmts.pop();
            let ts = body.to_token_stream();
            if assigned(&ts, &quote!(#i)) {
                return None;
            }
            match strip(&b) {
                Expr::MethodCall(q) if q.method == "len" && q.args.is_empty() && place(&q.receiver) && stable(&ts, &q.receiver, &self.shared) => {}
                _ => return None,
            }
            return Some((j, syn::parse_quote!(#lab for #i in #a..#b #body)));
        }
        // backwards
        let Expr::Binary(c) = strip(&w.cond) else { return None };
        let Expr::Path(p) = strip(&c.left) else { return None };
        if !matches!(c.op, syn::BinOp::Gt(_)) || c.right.to_token_stream().to_string() != "0" {
            return None;
        }
        let i = p.path.get_ident()?.clone();
        let (j, a) = (0..m).rev().find_map(|j| mut_let(&st[j], &i).map(|a| (j, a)))?;
        let Expr::MethodCall(q) = strip(&a) else { return None };
        let n = i.to_string();
        if q.method != "len" || !place(&q.receiver) || st[j + 1..m].iter().chain(&st[m + 1..]).any(|s| uses(s.to_token_stream(), &n) > 0) {
            return None;
        }
        let mut body = w.body.clone();
        if step(body.stmts.first()?) != Some((i.clone(), false)) {
            return None;
        }
        body.stmts.remove(0);
        let e = quote::format_ident!("__e{}", k);
        let v = &q.receiver;
        let ts = at(body.to_token_stream(), &v.to_token_stream(), &n, &quote!(*#e));
        if uses(ts.clone(), &n) > 0 || !stable(&ts, v, &self.shared) {
            return None;
        }
        let body: Block = syn::parse2(ts).ok()?;
        Some((j, syn::parse_quote!(#lab for #e in #v.iter().rev() #body)))
    }
    /// `for i in a..b` or `for x in v.iter().rev()` where the contract speaks of a `while`
    fn for_to_while(&self, l: &syn::ExprForLoop, k: usize) -> Option<Vec<Stmt>> {
        if (self.want)(k) != Want::Plain || known(&l.pat, &l.expr, self.rules) {
            return None;
        }
        let mut l = l.clone();
        Self::enum_to_range(&mut l);
        let mut it = l.clone();
        if self.range_to_iter(&mut it) && known(&it.pat, &it.expr, self.rules) {
            return None;
        }
        let lab = &l.label;
        let mut body = l.body.clone();
        // no value at the end
        if let Some(Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() {
            *semi = Some(Default::default());
        }
        if let (Expr::Range(r), Pat::Ident(i)) = (strip(&l.expr), &*l.pat) {
            let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) else { return None };
            let (ts, i) = (body.to_token_stream(), &i.ident);
            match strip(b) {
                Expr::Lit(_) => {}
                Expr::MethodCall(q) if q.method == "len" && q.args.is_empty() && place(&q.receiver) && stable(&ts, &q.receiver, &self.shared) => {}
                _ => return None,
            }
            let inc: Stmt = syn::parse_quote!(#i += 1;);
            Conts(inc.clone()).visit_block_mut(&mut body);
            let st = &body.stmts;
            return syn::parse2::<Block>(quote!({ let mut #i = #a; #lab while #i < #b { #(#st)* #inc } })).ok().map(|b| b.stmts);
        }
        let Expr::MethodCall(m) = strip(&l.expr) else { return None };
        let Expr::MethodCall(q) = strip(&m.receiver) else { return None };
        if m.method == "rev" && q.method == "iter" && place(&q.receiver) {
            let (v, x, i) = (&q.receiver, &l.pat, self.names.first().map_or(quote::format_ident!("__i{}", k), |n| quote::format_ident!("{}", n)));
            let st = &body.stmts;
            return syn::parse2::<Block>(quote!({ let mut #i = #v.len(); #lab while #i > 0 { #i -= 1; let #x = &#v[#i]; #(#st)* } })).ok().map(|b| b.stmts);
        }
        None
    }
}
/// `let n = v.len();` is put back where n is used (if the length stays as it is)
fn lens(b: &mut Block, shared: &[String], n: &mut usize) {
    let mut i = 0;
    while i < b.stmts.len() {
        let new = (|| {
            let Stmt::Local(l) = &b.stmts[i] else { return None };
            let Pat::Ident(id) = &l.pat else { return None };
            let init = l.init.as_ref().filter(|x| x.diverge.is_none())?;
            let Expr::MethodCall(m) = strip(&init.expr) else { return None };
            if id.mutability.is_some() || m.method != "len" || !m.args.is_empty() || !place(&m.receiver) {
                return None;
            }
            let rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
            // as long as n is used
            let n = id.ident.to_string();
            let last = b.stmts.iter().rposition(|s| uses(s.to_token_stream(), &n) > 0)?.max(i);
            let live = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..last + 1].to_vec() };
            // (only where a loop has to know it)
            if crate::norm::loops(&live) == 0 || !stable(&live.to_token_stream(), &m.receiver, shared) {
                return None;
            }
            let by = m.to_token_stream();
            let ts = crate::norm::tok_subst(rest.to_token_stream(), &id.ident.to_string(), &by);
            syn::parse2::<Block>(ts).ok()
        })();
        if let Some(r) = new {
            b.stmts.truncate(i);
            b.stmts.extend(r.stmts);
            *n += 1;
            continue;
        }
        i += 1;
    }
}
/// an Option that is known: what is left of `e`
fn fold_opt(e: &Expr, f: &str, val: Option<&Expr>) -> Option<Expr> {
    let is = |e: &Expr| matches!(strip(e), Expr::Path(p) if p.path.is_ident(f));
    let app = |c: &Expr, v: &Expr| -> Option<Expr> {
        if let Expr::Path(_) = strip(c) {
            return Some(syn::parse_quote!(#c(#v)));
        }
        let (p, b) = by_val(c)?;
        Some(match (p, v) {
            (Pat::Ident(i), Expr::Path(x)) if x.path.is_ident(&i.ident) => b,
            (p, v) => syn::parse_quote!({ let #p = #v; #b }),
        })
    };
    match e {
        Expr::Paren(p) => fold_opt(&p.expr, f, val),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => fold_opt(e, f, val),
            _ => None,
        },
        Expr::Return(r) => fold_opt(r.expr.as_ref()?, f, val),
        Expr::Unary(u) => {
            let (op, x) = (&u.op, fold_opt(&u.expr, f, val)?);
            Some(syn::parse_quote!(#op (#x)))
        }
        Expr::Binary(b) => {
            let (op, x, y) = (&b.op, fold_opt(&b.left, f, val)?, &b.right);
            if uses(y.to_token_stream(), f) > 0 {
                return None;
            }
            Some(syn::parse_quote!((#x) #op #y))
        }
        Expr::If(i) => {
            if let Expr::Let(l) = &*i.cond {
                if !is(&l.expr) {
                    return None;
                }
                let Pat::TupleStruct(p) = &*l.pat else { return None };
                let (t, els) = (&i.then_branch, &i.else_branch.as_ref()?.1);
                if !p.path.is_ident("Some") || p.elems.len() != 1 {
                    return None;
                }
                let p = &p.elems[0];
                return match val {
                    Some(v) => Some(syn::parse_quote!({ let #p = #v; #t })),
                    None => Some((**els).clone()),
                };
            }
            let (c, t, els) = (fold_opt(&i.cond, f, val)?, &i.then_branch, &i.else_branch.as_ref()?.1);
            Some(syn::parse_quote!(if #c #t else #els))
        }
        Expr::Match(m) if is(&m.expr) => {
            for a in &m.arms {
                match (&a.pat, val) {
                    (Pat::TupleStruct(p), Some(v)) if p.path.is_ident("Some") && p.elems.len() == 1 && a.guard.is_none() => {
                        let (p, b) = (&p.elems[0], &a.body);
                        if !matches!(p, Pat::Ident(_) | Pat::Wild(_)) {
                            return None;
                        }
                        return Some(syn::parse_quote!({ let #p = #v; #b }));
                    }
                    (Pat::TupleStruct(p), None) if p.path.is_ident("Some") => {}
                    (Pat::Ident(i), None) if i.ident == "None" => return Some((*a.body).clone()),
                    (Pat::Ident(i), Some(_)) if i.ident == "None" => {}
                    (Pat::Wild(_), None) if a.guard.is_none() => return Some((*a.body).clone()),
                    _ => return None,
                }
            }
            None
        }
        Expr::MethodCall(m) if is(&m.receiver) => match (m.method.to_string().as_str(), m.args.len()) {
            ("is_some", 0) => Some(if val.is_some() { syn::parse_quote!(true) } else { syn::parse_quote!(false) }),
            ("is_none", 0) => Some(if val.is_none() { syn::parse_quote!(true) } else { syn::parse_quote!(false) }),
            ("is_some_and", 1) => match val {
                Some(v) => app(&m.args[0], v),
                None => Some(syn::parse_quote!(false)),
            },
            ("is_none_or", 1) => match val {
                Some(v) => app(&m.args[0], v),
                None => Some(syn::parse_quote!(true)),
            },
            ("map_or", 2) => match val {
                Some(v) => app(&m.args[1], v),
                None => Some(m.args[0].clone()),
            },
            ("unwrap_or", 1) => match val {
                Some(v) => Some(v.clone()),
                None => Some(m.args[0].clone()),
            },
            ("map", 1) => match val {
                Some(v) => {
                    let x = app(&m.args[0], v)?;
                    Some(syn::parse_quote!(Some(#x)))
                }
                None => Some(syn::parse_quote!(None)),
            },
            _ => None,
        },
        // x.map(..).unwrap_or(..)
        Expr::MethodCall(m) => {
            let (n, Expr::MethodCall(q)) = (m.method.to_string(), strip(&m.receiver)) else { return None };
            if n == "unwrap_or" && q.method == "map" && is(&q.receiver) {
                return match val {
                    Some(v) => app(&q.args[0], v),
                    None => Some(m.args[0].clone()),
                };
            }
            None
        }
        e if is(e) => Some(match val {
            Some(v) => syn::parse_quote!(Some(#v)),
            None => syn::parse_quote!(None),
        }),
        _ => None,
    }
}
impl VisitMut for Iters<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // let mut it = E; while let Some(P) = it.next() { .. }   =>   for P in E { .. }
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            let new = (|| {
                let Stmt::Local(l) = &b.stmts[i] else { return None };
                let Pat::Ident(id) = &l.pat else { return None };
                let init = l.init.as_ref().filter(|x| x.diverge.is_none())?;
                let Stmt::Expr(Expr::While(w), semi) = &b.stmts[i + 1] else { return None };
                let Expr::Let(c) = &*w.cond else { return None };
                let Pat::TupleStruct(p) = &*c.pat else { return None };
                let Expr::MethodCall(m) = &*c.expr else { return None };
                let n = id.ident.to_string();
                if !p.path.is_ident("Some") || p.elems.len() != 1 || m.method != "next" || !m.args.is_empty() {
                    return None;
                }
                if !matches!(&*m.receiver, Expr::Path(q) if q.path.is_ident(&n)) || uses(w.body.to_token_stream(), &n) > 0 {
                    return None;
                }
                if b.stmts[i + 2..].iter().any(|s| uses(s.to_token_stream(), &n) > 0) {
                    return None;
                }
                let (p, x, body, lab) = (&p.elems[0], &init.expr, &w.body, &w.label);
                let before = crate::norm::loops(&Block { brace_token: b.brace_token, stmts: b.stmts[..i].to_vec() });
                if !known(p, x, self.rules) && (self.want)(self.k + before + 1) != Want::Iter {
                    return None;
                }
                let f: Expr = syn::parse_quote!(#lab for #p in #x #body);
                Some(Stmt::Expr(f, *semi))
            })();
            if let Some(s) = new {
                b.stmts[i] = s;
                b.stmts.remove(i + 1);
                self.n += 1;
            }
            i += 1;
        }
        if self.combs {
            for s in b.stmts.iter_mut() {
                if let Stmt::Expr(Expr::MethodCall(m), Some(_)) = s {
                    if m.method == "extend" && m.args.len() == 1 && place(&m.receiver) && chain(&m.args[0]) {
                        let (v, r) = (&m.receiver, &m.args[0]);
                        let f: Expr = syn::parse_quote!(for __x in #r { #v.push(__x); });
                        *s = Stmt::Expr(f, None);
                        self.n += 1;
                    }
                }
            }
            let mut i = 0;
            while i < b.stmts.len() {
                let mut s = b.stmts[i].clone();
                let e = match &mut s {
                    Stmt::Local(l) => l.init.as_mut().filter(|x| x.diverge.is_none()).map(|x| &mut *x.expr),
                    Stmt::Expr(e, _) => Some(e),
                    _ => None,
                };
                if let Some(x) = e.and_then(Self::first) {
                    if let Some(Out::Hoist(v, y)) = self.loop_of(x) {
                        self.guessed = true;
                        *x = y;
                        let k = v.len();
                        b.stmts[i] = s;
                        b.stmts.splice(i..i, v);
                        i += k;
                        // (there may be another one)
                        continue;
                    }
                }
                i += 1;
            }
        }
        let mut m = 0;
        while m < b.stmts.len() {
            let before = Block { brace_token: Default::default(), stmts: b.stmts[..m].to_vec() };
            let k = self.k + crate::norm::loops(&before) + 1;
            if let Some((j, f)) = self.while_to_for(&b.stmts, m, k) {
                b.stmts[m] = Stmt::Expr(f, None);
                b.stmts.remove(j);
                self.n += 1;
                continue;
            }
            if let Stmt::Expr(Expr::ForLoop(l), _) = &b.stmts[m] {
                if let Some(v) = self.for_to_while(l, k) {
                    let n = v.len();
                    b.stmts.splice(m..m + 1, v);
                    self.n += 1;
                    m += n;
                    continue;
                }
            }
            m += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_while_mut(&mut self, l: &mut syn::ExprWhile) {
        self.k += 1;
        visit_mut::visit_expr_while_mut(self, l);
    }
    fn visit_expr_loop_mut(&mut self, l: &mut syn::ExprLoop) {
        self.k += 1;
        visit_mut::visit_expr_loop_mut(self, l);
    }
    fn visit_expr_for_loop_mut(&mut self, l: &mut syn::ExprForLoop) {
        self.k += 1;
        self.head(l);
        visit_mut::visit_expr_for_loop_mut(self, l);
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}
