//! Token-tree rewriting: macro-by-example style rules.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Rule {
    pub text: String,
    pat: Vec<TokenTree>,
    rep: TokenStream,
}

#[derive(Clone)]
enum Bind {
    Seq(Vec<TokenTree>),
}

pub fn toks(s: &str) -> Result<Vec<TokenTree>, String> {
    let ts: TokenStream = s.parse().map_err(|e| format!("bad tokens {s:?}: {e}"))?;
    Ok(ts.into_iter().collect())
}

impl Rule {
    pub fn parse(s: &str) -> Result<Rule, String> {
        let (a, b) = s
            .split_once("=>>")
            .or_else(|| s.split_once(" => "))
            .ok_or(format!("bad rule {s}"))?;
        Ok(Rule {
            text: s.trim().to_string(),
            pat: toks(a)?,
            rep: b.parse().map_err(|e| format!("bad rule {s}: {e}"))?,
        })
    }
}

fn same(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Group(x), TokenTree::Group(y)) => x.delimiter() == y.delimiter(),
        (TokenTree::Group(_), _) | (_, TokenTree::Group(_)) => false,
        _ => a.to_string() == b.to_string(),
    }
}

fn is_p(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

// `$x` one token tree; `$$x` the shortest (possibly empty) run of token trees without `;` or `,`
fn matches(
    pat: &[TokenTree],
    inp: &[TokenTree],
    b: &mut BTreeMap<String, Bind>,
    whole: bool,
) -> Option<usize> {
    if pat.is_empty() {
        return if !whole || inp.is_empty() { Some(0) } else { None };
    }
    if is_p(pat.first(), '$') {
        if is_p(pat.get(1), '$') {
            let name = pat.get(2)?.to_string();
            let mut n = 0;
            loop {
                let mut b2 = b.clone();
                b2.insert(name.clone(), Bind::Seq(inp[..n].to_vec()));
                if let Some(k) = matches(&pat[3..], &inp[n..], &mut b2, whole) {
                    *b = b2;
                    return Some(n + k);
                }
                if n >= inp.len() || is_p(inp.get(n), ';') || is_p(inp.get(n), ',') {
                    return None;
                }
                n += 1;
            }
        }
        let name = pat.get(1)?.to_string();
        let t = inp.first()?;
        let mut b2 = b.clone();
        if let Some(Bind::Seq(v)) = b.get(&name) {
            if v.len() != 1 || v[0].to_string() != t.to_string() {
                return None;
            }
        }
        b2.insert(name, Bind::Seq(vec![t.clone()]));
        let k = matches(&pat[2..], &inp[1..], &mut b2, whole)?;
        *b = b2;
        return Some(k + 1);
    }
    let t = inp.first()?;
    if !same(&pat[0], t) {
        return None;
    }
    let mut b2 = b.clone();
    if let (TokenTree::Group(pg), TokenTree::Group(ig)) = (&pat[0], t) {
        let pv: Vec<TokenTree> = pg.stream().into_iter().collect();
        let iv: Vec<TokenTree> = ig.stream().into_iter().collect();
        matches(&pv, &iv, &mut b2, true)?;
    }
    let k = matches(&pat[1..], &inp[1..], &mut b2, whole)?;
    *b = b2;
    Some(k + 1)
}

fn subst(rep: TokenStream, b: &BTreeMap<String, Bind>) -> Vec<TokenTree> {
    let v: Vec<TokenTree> = rep.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        if is_p(v.get(i), '$') {
            let k = if is_p(v.get(i + 1), '$') { i + 2 } else { i + 1 };
            if let Some(Bind::Seq(s)) = v.get(k).and_then(|t| b.get(&t.to_string())) {
                out.extend(s.iter().cloned());
                i = k + 1;
                continue;
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), subst(g.stream(), b).into_iter().collect());
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out
}

pub fn prefix_match(pat: &[TokenTree], inp: &[TokenTree]) -> bool {
    matches(pat, inp, &mut BTreeMap::new(), false).is_some()
}

pub fn apply(ts: TokenStream, rules: &[Rule], fired: &mut BTreeMap<String, usize>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    // inside out
    let mut v: Vec<TokenTree> = v
        .into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                let d: Delimiter = g.delimiter();
                let mut ng = Group::new(d, apply(g.stream(), rules, fired));
                ng.set_span(g.span());
                TokenTree::Group(ng)
            }
            t => t,
        })
        .collect();
    for r in rules {
        let mut out = vec![];
        let mut i = 0;
        while i < v.len() {
            let mut b = BTreeMap::new();
            // the second half of `&&` or `||` starts nothing
            if (is_p(v.get(i), '&') || is_p(v.get(i), '|'))
                && matches!(i.checked_sub(1).and_then(|k| v.get(k)), Some(TokenTree::Punct(p)) if p.as_char() == v[i].to_string().chars().next().unwrap() && p.spacing() == proc_macro2::Spacing::Joint)
            {
                out.push(v[i].clone());
                i += 1;
                continue;
            }
            match matches(&r.pat, &v[i..], &mut b, false) {
                Some(n) if n > 0 => {
                    *fired.entry(r.text.clone()).or_default() += 1;
                    out.extend(subst(r.rep.clone(), &b));
                    i += n;
                }
                _ => {
                    out.push(v[i].clone());
                    i += 1;
                }
            }
        }
        v = out;
    }
    v.into_iter().collect()
}
