//! vx: mechanical extraction of functions and types of /repo into a Verus file.
//!
//! usage: vx --repo /repo --spec proofs/json.vs --out out.rs --map out.json [--external NAME]...
//!
//! The spec file is Verus text with directives on lines starting with `//@`:
//!
//!   //@ include FILE
//!   //@ rw PATTERN => REPLACEMENT            token rewrite, for everything extracted below it
//!   //@ type FILE NAME                       emits a struct/enum/const/static/type of FILE
//!   //@ fn FILE [impl=TYPE] [trait=TRAIT] NAME [as NEWNAME] [keepfor] [nth=K]
//!   //@   rw PATTERN => REPLACEMENT          (indented) token rewrite for this function only
//!   //@ attr TEXT                            attribute line put before the function
//!   //@ ret NAME                             name of the result (default r)
//!   //@ spec                                 lines up to the next directive: requires/ensures
//!   //@ loop N                               lines: invariants etc. of loop N (1-based, source order)
//!   //@ loop N start | loop N end            lines: proof text put in the loop's body
//!   //@ start                                lines: proof text at the start of the body
//!   //@ before PATTERN | //@ after PATTERN   lines: proof text before/after the first statement
//!                                            (at any depth) that begins with PATTERN
//!   //@ before? / after?                     same, silently dropped if nothing matches
//!   //@ end
mod extract;
mod iters;
mod norm;
mod print;
mod regex;
mod rewrite;

use std::collections::BTreeMap;
use std::fmt::Write as _;

pub struct Ctx {
    pub repo: String,
    pub files: BTreeMap<String, syn::File>,
    pub srcs: BTreeMap<String, String>,
}

impl Ctx {
    pub fn file(&mut self, f: &str) -> Result<&syn::File, String> {
        if !self.files.contains_key(f) {
            let p = format!("{}/{}", self.repo, f);
            let s = std::fs::read_to_string(&p).map_err(|e| format!("lost-anchor: {p}: {e}"))?;
            let ast = syn::parse_file(&s).map_err(|e| format!("unsupported: {p}: {e}"))?;
            self.files.insert(f.to_string(), ast);
            self.srcs.insert(f.to_string(), s);
        }
        Ok(&self.files[f])
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Item {
    name: String,
    kind: &'static str,
    file: String,
    src_lines: (usize, usize),
    out_lines: (usize, usize),
    rewrites: BTreeMap<String, usize>,
    dropped: Vec<String>,
    inlined: Vec<String>,
    external: bool,
    loops: usize,
    drift: Vec<String>,
}

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut repo, mut spec, mut out, mut map) = (String::new(), String::new(), String::new(), String::new());
    let mut external: Vec<String> = vec![];
    let mut vac = false;
    let mut sink: Vec<String> = vec![];
    let (mut bind, mut locals, mut dump) = (false, String::new(), false);
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap_or_default();
        match a.as_str() {
            "--repo" => repo = v(),
            "--spec" => spec = v(),
            "--out" => out = v(),
            "--map" => map = v(),
            "--vacuity" => vac = true,
            "--sink" => sink.push(v()),
            "--bind" => bind = true,
            "--locals" => locals = v(),
            "--dump-locals" => dump = true,
            "--external" => external.push(v()),
            _ => panic!("bad arg {a}"),
        }
    }
    let base = match read_locals(&locals) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    };
    let mut shapes = BTreeMap::new();
    match run(&repo, &spec, &external, vac, bind, &sink, &base, &mut shapes) {
        Ok((text, items)) => {
            if dump {
                for (k, s) in &shapes {
                    println!("{k} {} {}", s.loops, s.locals.join(","));
                }
                return;
            }
            std::fs::write(&out, text).unwrap();
            let mut j = String::from("{\"items\":[\n");
            for (i, it) in items.iter().enumerate() {
                if i > 0 {
                    j.push_str(",\n");
                }
                let rws: Vec<String> = it
                    .rewrites
                    .iter()
                    .map(|(k, n)| format!("{}:{}", jstr(k), n))
                    .collect();
                let dr: Vec<String> = it.dropped.iter().map(|d| jstr(d)).collect();
                let inl: Vec<String> = it.inlined.iter().map(|d| jstr(d)).collect();
                let _ = write!(
                    j,
                    "{{\"name\":{},\"kind\":{},\"file\":{},\"src\":[{},{}],\"out\":[{},{}],\"external\":{},\"loops\":{},\"drift\":[{}],\"rewrites\":{{{}}},\"dropped\":[{}],\"inlined\":[{}]}}",
                    jstr(&it.name), jstr(it.kind), jstr(&it.file), it.src_lines.0, it.src_lines.1,
                    it.out_lines.0, it.out_lines.1, it.external, it.loops, it.drift.iter().map(|d| jstr(d)).collect::<Vec<_>>().join(","), rws.join(","), dr.join(","), inl.join(",")
                );
            }
            j.push_str("\n]}\n");
            std::fs::write(&map, j).unwrap();
        }
        Err(e) => {
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    }
}

fn load(spec: &str, lines: &mut Vec<String>) -> Result<(), String> {
    let dir = std::path::Path::new(spec).parent().unwrap().to_path_buf();
    let s = std::fs::read_to_string(spec).map_err(|e| format!("{spec}: {e}"))?;
    for l in s.lines() {
        if let Some(f) = l.strip_prefix("//@ include ") {
            load(dir.join(f.trim()).to_str().unwrap(), lines)?;
        } else {
            lines.push(l.to_string());
        }
    }
    Ok(())
}

/// SPEC|FILE|IMPL|TRAIT|NAME LOOPS LOCALS
fn read_locals(f: &str) -> Result<BTreeMap<String, extract::Shape>, String> {
    let mut m = BTreeMap::new();
    if f.is_empty() {
        return Ok(m);
    }
    for l in std::fs::read_to_string(f).map_err(|e| format!("{f}: {e}"))?.lines() {
        let mut w = l.split(' ');
        let (k, n, v) = (w.next().unwrap_or(""), w.next().unwrap_or("0"), w.next().unwrap_or(""));
        let locals = v.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        m.insert(k.to_string(), extract::Shape { locals, loops: n.parse().unwrap_or(0) });
    }
    Ok(m)
}

fn run(
    repo: &str, spec: &str, external: &[String], vac: bool, bind: bool, sink: &[String],
    base: &BTreeMap<String, extract::Shape>, shapes: &mut BTreeMap<String, extract::Shape>,
) -> Result<(String, Vec<Item>), String> {
    let mut ctx = Ctx { repo: repo.to_string(), files: BTreeMap::new(), srcs: BTreeMap::new() };
    let mut lines = vec![];
    load(spec, &mut lines)?;
    let mut out = String::new();
    let mut items = vec![];
    let mut rules: Vec<rewrite::Rule> = vec![];
    let mut i = 0;
    // names of all functions under contract: helpers not listed are inlined
    let listed: Vec<norm::Key> = lines
        .iter()
        .filter_map(|l| l.strip_prefix("//@ fn "))
        .filter_map(|l| extract::FnReq::parse(l).ok())
        .map(|r| (r.file, r.imp, r.name))
        .collect();
    let types: Vec<String> = lines.iter().filter_map(|l| l.strip_prefix("//@ type ")).filter_map(|l| l.split_whitespace().nth(1)).map(|s| s.to_string()).collect();
    while i < lines.len() {
        let l = lines[i].clone();
        let Some(d) = l.strip_prefix("//@ ") else {
            out.push_str(&l);
            out.push('\n');
            i += 1;
            continue;
        };
        let d = d.trim_end();
        if let Some(r) = d.strip_prefix("rw ") {
            rules.push(rewrite::Rule::parse(r)?);
            i += 1;
        } else if d == "norw" {
            rules.clear();
            i += 1;
        } else if let Some(t) = d.strip_prefix("type ") {
            let mut w = t.split_whitespace();
            let (file, name) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
            ctx.file(file)?;
            let mut fired = BTreeMap::new();
            let (text, src) = extract::emit_type(&ctx, file, name, &rules, &mut fired)?;
            let start = out.lines().count() + 1;
            out.push_str(&text);
            out.push('\n');
            items.push(Item {
                name: name.into(), kind: "type", file: file.into(), src_lines: src,
                out_lines: (start, out.lines().count()), rewrites: fired, dropped: vec![], inlined: vec![], external: false, loops: 0, drift: vec![],
            });
            i += 1;
        } else if let Some(t) = d.strip_prefix("fn ") {
            let mut req = extract::FnReq::parse(t)?;
            i += 1;
            let mut cur: Option<extract::Sec> = None;
            loop {
                let Some(l) = lines.get(i) else { return Err(format!("spec: unterminated fn {}", req.name)) };
                i += 1;
                if let Some(d) = l.strip_prefix("//@ ") {
                    let d = d.trim();
                    if d == "end" {
                        if let Some(c) = cur.take() {
                            req.push(c)
                        }
                        break;
                    }
                    if let Some(c) = cur.take() {
                        req.push(c)
                    }
                    cur = req.directive(d)?;
                } else if let Some(c) = cur.as_mut() {
                    c.text.push_str(l);
                    c.text.push('\n');
                } else if !l.trim().is_empty() {
                    return Err(format!("spec: stray text in fn {}: {l}", req.name));
                }
            }
            req.vacuity = vac;
            ctx.file(&req.file)?;
            let ext = external.contains(&req.out_name());
            let start = out.lines().count() + 1;
            let key = format!("{}|{}|{}|{}|{}", std::path::Path::new(spec).file_stem().and_then(|s| s.to_str()).unwrap_or(""), req.file, req.imp.as_deref().unwrap_or(""), req.tr.as_deref().unwrap_or(""), req.name);
            let o = extract::Opts { listed: &listed, types: &types, sink, external: ext, bind, base: base.get(&key) };
            let e = match extract::emit_fn(&ctx, &req, &rules, &o) {
                Err(e) if req.opt && e.starts_with("lost-anchor: fn ") => continue,
                r => r?,
            };
            shapes.insert(key, e.shape.clone());
            out.push_str(&e.text);
            out.push('\n');
            items.push(Item {
                name: req.out_name(), kind: "fn", file: req.file.clone(), src_lines: e.src,
                out_lines: (start, out.lines().count()), rewrites: e.fired, dropped: e.dropped, inlined: e.inlined, external: ext, loops: e.loops, drift: e.drift,
            });
        } else {
            return Err(format!("spec: unknown directive: {d}"));
        }
    }
    Ok((out, items))
}
