//! L01: the minifier command, run in a directory of its own.
use crate::util::{Case, Search};
use crate::{css as c, js as s, json as j};
use minifier::{css, js, json};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

fn bin() -> PathBuf {
    std::env::var("MINIFIER_BIN").unwrap_or("/verif/.build/cli-target/debug/minifier".into()).into()
}
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var_os("VERIF_SCRATCH").map(PathBuf::from).unwrap_or(std::env::temp_dir());
        let d = base.join(format!("cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn files(d: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(x) = todo.pop() {
        for e in fs::read_dir(x).unwrap().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else {
                m.insert(p.strip_prefix(d).unwrap().to_path_buf(), fs::read(&p).unwrap_or_default());
            }
        }
    }
    m
}
fn kind(name: &str, t: &str) -> Option<&'static str> {
    let k = if t.is_empty() {
        Path::new(name).extension()?.to_str()?.to_ascii_lowercase()
    } else {
        t.to_string()
    };
    ["css", "js", "json"].into_iter().find(|x| *x == k)
}
/// where std's two ways to change an extension disagree (`..js`), the name is left out: see odd()
fn min_name(p: &Path, kd: &str) -> PathBuf {
    p.with_extension(format!("min.{kd}"))
}
fn odd(n: &str) -> bool {
    let mut p = PathBuf::from(n);
    p.set_extension("x");
    p != Path::new(n).with_extension("x")
}
fn minified(k: &str, t: &str) -> Option<String> {
    match k {
        "css" => css::minify(t).ok().map(|m| m.to_string()),
        "js" => js::minify(t).ok().map(|m| m.to_string()),
        _ => Some(json::minify(t).to_string()),
    }
}

/// there is no such file: its directory is a file, is not there or is a link to itself, or the name is too long
fn nowhere(n: &str) -> bool {
    n.starts_with("plain/") || n.starts_with("gone/") || n.starts_with("looping") || n.len() > 200
}
/// without `.` and `..`; there are no links here
fn norm(p: &Path) -> PathBuf {
    let mut r = PathBuf::new();
    for x in p.components() {
        match x.as_os_str().to_str() {
            Some(".") => {}
            Some("..") => {
                r.pop();
            }
            _ => r.push(x),
        }
    }
    r
}
/// names that may stand for something else beside a file
fn beside(p: &Path, word: &str) -> Vec<PathBuf> {
    let n = p.file_name().and_then(|x| x.to_str()).unwrap_or("x").to_string();
    let mut v = vec![];
    for e in ["tmp", "temp", "bak", "orig", "old", "new", "part", "swp", "lock", word] {
        v.push(p.with_extension(e));
        v.push(p.with_file_name(format!("{n}.{e}")));
        v.push(p.with_file_name(format!(".{n}.{e}")));
    }
    v.push(p.with_file_name(format!("{n}~")));
    v.push(p.with_file_name(format!(".{n}")));
    v.push(p.with_file_name(format!("{n}.")));
    v.push(p.with_file_name("tmp"));
    v.push(p.with_file_name(word));
    v
}

/// name, src: the input file and its text; how: "" a file, "missing", "dir", "latin" (not UTF-8);
/// name2, src2, name3, src3: more; beside: other files beside the outputs, one named with this word; t: the value of -t; o: the value of -o; old: what all possible outputs
/// hold before; fault: "" or "full" (no byte can be written)
pub fn case(k: &Case) -> Result<bool, String> {
    if ["name", "name2", "name3"].iter().any(|x| odd(k.get(x))) {
        return Ok(false);
    }
    let sc = Scratch::new();
    let d = &sc.0;
    for x in ["outdir", "sub", "sub.d", "blocked.css", "blocked.min.css", "taken.min.css", "taken.min.js", "outdir/taken.min.css"] {
        fs::create_dir(d.join(x)).unwrap();
    }
    fs::write(d.join("plain"), "a file\n").unwrap();
    let (t, o, old, how) = (k.get("t"), k.get("o"), k.get("old"), k.get("how"));
    let mut ins: Vec<(&str, Option<&str>)> = vec![];
    for (n, x) in [("name", "src"), ("name2", "src2"), ("name3", "src3")] {
        let n = k.get(n);
        if n.is_empty() {
            continue;
        }
        let mut text = Some(k.get(x));
        let p = d.join(n);
        if n.starts_with("looping") && !p.is_symlink() {
            let _ = std::os::unix::fs::symlink("looping", d.join("looping"));
        }
        if nowhere(n) {
            text = None;
        } else if x == "src" {
            match how {
                "missing" => text = None,
                "dir" => {
                    let _ = fs::create_dir(&p);
                    text = None;
                }
                "latin" => {
                    let mut b = k.get(x).as_bytes().to_vec();
                    b.extend_from_slice(b" \xe9 ");
                    fs::write(&p, b).unwrap();
                    text = None;
                }
                _ => fs::write(&p, k.get(x)).unwrap(),
            }
        } else if p.is_dir() {
            text = None;
        } else {
            fs::write(&p, k.get(x)).unwrap();
        }
        ins.push((n, text));
    }
    // what should happen
    let mut want: BTreeMap<PathBuf, String> = BTreeMap::new();
    let mut all = true;
    let mut made: Vec<PathBuf> = vec![];
    let mut bytes = 0;
    let mut say = vec![];
    for (n, text) in &ins {
        let Some(kd) = kind(n, t) else {
            all = false;
            say.push(format!("{n}: unknown type"));
            continue;
        };
        let text = match text {
            // the first output may be the second input
            Some(x) => want.get(&norm(Path::new(n))).cloned().unwrap_or(x.to_string()),
            None => {
                all = false;
                say.push(format!("{n}: cannot be read"));
                continue;
            }
        };
        let Some(m) = minified(kd, &text) else {
            all = false;
            say.push(format!("{n}: cannot be minified"));
            continue;
        };
        let target = if o.is_empty() {
            min_name(Path::new(n), kd)
        } else if d.join(o).is_dir() || made.iter().any(|x| x == Path::new(o)) {
            min_name(&Path::new(o).join(n), kd)
        } else {
            PathBuf::from(o)
        };
        let target = norm(&target);
        let parent = target.parent().unwrap().to_path_buf();
        if parent.components().next().is_some_and(|x| x.as_os_str() == "plain") || d.join(&target).is_dir() {
            all = false;
            say.push(format!("{n}: the output cannot be opened"));
            continue;
        }
        for a in parent.ancestors() {
            made.push(a.to_path_buf());
        }
        bytes += m.len();
        want.insert(target, m);
    }
    if !old.is_empty() {
        // outputs of an earlier run
        for kd in ["css", "js", "json"] {
            for (n, _) in &ins {
                for p in [min_name(Path::new(n), kd), min_name(&Path::new("outdir").join(n), kd)] {
                    if d.join(&p).exists() {
                        continue;
                    }
                    if let Some(x) = d.join(&p).parent() {
                        if fs::create_dir_all(x).is_err() {
                            continue;
                        }
                    }
                    let _ = fs::write(d.join(&p), old);
                }
            }
        }
        let q = d.join(o);
        if !o.is_empty() && !q.exists() && q.parent().is_some_and(|x| x.is_dir()) {
            fs::write(&q, old).unwrap();
        }
    }
    let w = k.get("beside");
    if !w.is_empty() {
        let mut places: Vec<PathBuf> = vec![norm(Path::new(o))];
        for (n, _) in &ins {
            if let Some(kd) = kind(n, t) {
                places.push(norm(&min_name(Path::new(n), kd)));
                if o.starts_with("outdir") {
                    places.push(norm(&min_name(&Path::new("outdir").join(n), kd)));
                }
            }
        }
        for p in places.iter().filter(|p| p.file_name().is_some()) {
            for q in beside(p, w) {
                let full = d.join(&q);
                if !full.exists() && !want.contains_key(&q) && !places.contains(&q) && full.parent().is_some_and(|x| x.is_dir()) && want.keys().all(|x| !x.starts_with(&q)) && !ins.iter().any(|x| norm(Path::new(x.0)).starts_with(&q)) {
                    let _ = fs::write(&full, "beside");
                }
            }
        }
    }
    let before = files(d);
    let full = k.get("fault") == "full";
    let mut cmd = if full {
        let mut x = Command::new("/bin/sh");
        x.arg("-c").arg("trap '' XFSZ; ulimit -f 0; exec \"$0\" \"$@\"").arg(bin());
        x
    } else {
        Command::new(bin())
    };
    if !t.is_empty() {
        cmd.arg("-t").arg(t);
    }
    if !o.is_empty() {
        cmd.arg("-o").arg(o);
    }
    let st = cmd
        .args(ins.iter().map(|x| x.0))
        .current_dir(d)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .map_err(|e| panic!("cannot run {:?}: {e}", bin()))
        .unwrap();
    let after = files(d);
    let what = format!("minifier{}{} {}{}", if t.is_empty() { String::new() } else { format!(" -t {t}") }, if o.is_empty() { String::new() } else { format!(" -o {o}") }, ins.iter().map(|x| x.0).collect::<Vec<_>>().join(" "), if full { " on a full disk" } else { "" });
    let show = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    let lost = full && bytes > 0;
    if st.success() != (all && !lost) {
        return Err(format!("{what}: exit status {:?}, {}", st.code(), if lost { "but the output cannot be written".into() } else if all { "but everything can be minified".to_string() } else { format!("but {}", say.join(", ")) }));
    }
    for (p, b) in &before {
        if !want.contains_key(p) && after.get(p) != Some(b) {
            return Err(format!("{what}: {p:?} held {:?} before and {:?} after", show(b), after.get(p).map(|x| show(x))));
        }
    }
    if !full {
        for (p, x) in &want {
            if after.get(p).map(|b| b.as_slice()) != Some(x.as_bytes()) {
                return Err(format!("{what}: {p:?} holds {:?}, the minified text is {x:?}", after.get(p).map(|x| show(x))));
            }
        }
        for p in after.keys() {
            if !want.contains_key(p) && !before.contains_key(p) {
                return Err(format!("{what}: {p:?} appeared"));
            }
        }
    }
    Ok(true)
}

pub fn search(s: &mut Search) {
    let long = format!("{}.css", "long".repeat(100));
    let names = ["a.css", "a.js", "a.json", "A.CSS", "b.Js", "noext", "a.txt", ".css", "a.min.css", "x.css.js", "sub/a.js", "a.", "é.json", "blocked.css", "taken.css", "taken.js", "plain/x.css", "plain/x.js", "gone/a.json", "looping/a.css", long.as_str()];
    let outs = ["", "outdir", "o.css", "new/deep/o", "plain/o", "blocked.css", "outdir/", "a.css", "./o", "sub/a.min.js"];
    let types = ["", "css", "js", "json"];
    let good = |n: &str, t: &str| match kind(n, t) {
        Some("css") => "a { b: c ; } /*! l */ ",
        Some("js") => "var a = 1 ; // x\nvar b = `é` ;",
        _ => "{ \"a\" : \" b \" , \"é\" : 2 }\n",
    };
    let bad = |n: &str, t: &str| match kind(n, t) {
        Some("js") => "`${".repeat(1500),
        _ => "\"a { b: c } /* open".to_string(),
    };
    s.phase("combinations of names, types, outputs, old outputs, and reasons to fail, in turn with up to three inputs, of which the first may fail");
    let mut all = vec![];
    for n in names {
        for t in types {
            for o in outs {
                for old in ["", "old text, longer than what is written over it: 0123456789012345678901234567890123456789"] {
                    for how in ["", "empty", "bad", "missing", "dir", "latin", "full", "beside", "mark", "ends"] {
                        if how == "missing" && (n == "a.css" && o == "a.css" || n.starts_with("blocked")) || n == "blocked.css" && how != "dir" || nowhere(n) && how != "missing" {
                            continue;
                        }
                        all.push((n, t, o, old, how));
                    }
                }
            }
        }
    }
    for i in (1..all.len()).rev() {
        let k = s.rng.below(i + 1);
        all.swap(i, k);
    }
    let mut turn = 0;
    while !s.out_of_time() {
        turn += 1;
        if let Some((n, t, o, old, how)) = (turn % 2 == 0).then(|| all.pop()).flatten() {
            let text = match how {
                "bad" => bad(n, t),
                "empty" => String::new(),
                "mark" => format!("\u{feff}{}", good(n, t)),
                "ends" => format!("\u{a0}\n{}\r\n\u{feff}\u{0}\u{1a}\n", good(n, t)),
                _ => good(n, t).to_string(),
            };
            let w = if how == "beside" || n.starts_with("taken") { "tmp" } else { "" };
            s.check(Case::src(&text).with("name", n).with("beside", w).with("t", t).with("o", o).with("old", old).with("how", if ["missing", "dir", "latin"].contains(&how) { how } else { "" }).with("fault", if how == "full" { "full" } else { "" }));
            continue;
        }
        let n = *s.rng.pick(&["a.css", "a.js", "a.json", "noext", "x.CSS", "./a.css", "sub/../a.js", "sub.d/a.css", "sub.d/noext", "a.b.css", ".h.json", "a b.css", "taken.css", "sub/./taken.js", "plain/a.css", "looping/a.json"]);
        let n2 = *s.rng.pick(&["b.css", "b.js", "b.json", "sub/b.css", "noext2", "b.txt", "plain/b.css", "gone/b.js", "looping/b.css"]);
        let (mut n, mut n2) = (n.to_string(), n2.to_string());
        if let Some(w) = crate::dict::name(&mut s.rng) {
            match s.rng.below(16) {
                0 => n = format!("{w}.css"),
                1 => n = format!("x.{w}"),
                2 => n2 = format!("{w}.json"),
                3 => n2 = format!("sub/{w}.js"),
                4 => n = w,
                _ => {}
            }
        }
        let n3 = if s.rng.chance(1, 4) { *s.rng.pick(&["c.css", "c.txt", "taken.css", "sub/c.js", "c.json"]) } else { "" };
        let word = crate::dict::name(&mut s.rng).filter(|w| !w.starts_with('.')).unwrap_or("tmp".into());
        if ["outdir", "sub", "sub.d", "plain", "blocked.css", "blocked.min.css", "o", "new", n3].contains(&n.as_str()) || n == n2 || n2 == n3 {
            continue;
        }
        let (n, n2) = (n.as_str(), n2.as_str());
        let t = *s.rng.pick(&["", "", "css", "js"]);
        let o = *s.rng.pick(&["", "", "outdir", "o", "new/o"]);
        let how = *s.rng.pick(&["", "", "missing", "dir", "latin", "full"]);
        let old = *s.rng.pick(&["", "old"]);
        let text = |r: &mut crate::util::Rng, n: &str| {
            if r.chance(1, 5) {
                return bad(n, t);
            }
            match kind(n, t) {
                Some("css") => c::gen_sheet(r),
                Some("js") => s::gen_program(r),
                _ => j::gen_json(r, 4),
            }
        };
        let word = if s.rng.chance(1, 8) { word } else { String::new() };
        let (mut x, y, z) = (text(&mut s.rng, n), text(&mut s.rng, n2), text(&mut s.rng, n3));
        x = crate::dict::spice(&mut s.rng, &x);
        match s.rng.below(30) {
            0 => x = format!("\u{feff}{x}"),
            1 => x = format!("{x}\r\n"),
            2 => x = format!("\n {x}\u{0}\u{1a}"),
            3 => {
                let one = good(n, t);
                let many = [350, 700, 3000][s.rng.below(3)];
                x = format!("{x}{}", one.repeat(many));
            }
            _ => {}
        }
        s.check(Case::src(&x).with("name", n).with("name2", n2).with("src2", y).with("name3", n3).with("src3", z).with("beside", word).with("t", t).with("o", o).with("old", old).with("how", if how == "full" { "" } else { how }).with("fault", if how == "full" { how } else { "" }));
    }
}
