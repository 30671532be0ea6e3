//! H01: what html::minify may change. `exact` is the behaviour when the checks were made; where
//! the code differs from it, `norm` decides: both texts with every allowed change made.
use crate::dict::*;
use crate::util::*;
use minifier::html;
use regex::{Captures, Regex};
use std::sync::OnceLock;

struct Rx {
    style: Regex,
    typ: Regex,
    gt: Regex,
    run: Regex,
    any: Regex,
    extra: Regex,
    between: Regex,
    close: Regex,
    close2: Regex,
    extra2: Regex,
    extra3: Regex,
    quotes: Regex,
    wh: Regex,
    ws: Regex,
    wsgt: Regex,
}
fn rx() -> &'static Rx {
    static R: OnceLock<Rx> = OnceLock::new();
    let n = |s: &str| Regex::new(s).unwrap();
    R.get_or_init(|| Rx {
        style: n(r"<(style|script)[\w|\s].*?>"),
        typ: n(r#"\s+type="text/(css|javascript)""#),
        gt: n(r">\s+<"),
        run: n(r"\s{2,}|[\r\n]"),
        any: n(r"<\w.*?>"),
        extra: n(r" \s+|\s +"),
        between: n(r"\w\s+\w"),
        close: n(r##""\s+>"##),
        close2: n(r"'\s+>"),
        extra2: n(r##""\s\s+\w+="|'\s\s+\w+='|"\s\s+\w+=|'\s\s+\w+="##),
        extra3: n(r"\d\s+>"),
        quotes: n(r##"([a-zA-Z]+)="([a-zA-Z0-9-_\.]+)""##),
        wh: n(r##"(width|height)="([a-zA-Z0-9-_\.]+)""##),
        ws: n(r"\s+"),
        wsgt: n(r"\s+>"),
    })
}
const TAGS: &[&str] = &[
    "</area>", "</base>", "<body>", "</body>", "</br>", "</col>", "</colgroup>", "</dd>", "</dt>", "<head>", "</head>", "</hr>", "<html>", "</html>",
    "</img>", "</input>", "</li>", "</link>", "</meta>", "</option>", "</param>", "<tbody>", "</tbody>", "</td>", "</tfoot>", "</th>", "</thead>", "</tr>",
    "</basefont>", "</isindex>", "</param>",
];

/// a blank for each comment that does not open with `[`
fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    while let Some(a) = rest.find("<!--") {
        let Some(e) = rest[a + 4..].find("-->") else { break };
        let e = a + 4 + e + 3;
        o.push_str(&rest[..a]);
        if rest[a..e].replace("<!--", " ").trim().starts_with('[') {
            o.push_str(&rest[a..e]);
        } else {
            o.push(' ');
        }
        rest = &rest[e..];
    }
    o.push_str(rest);
    o
}
fn has_pre(s: &str) -> bool {
    let l = s.to_ascii_lowercase();
    l.contains("<pre") || l.contains("<textarea")
}
fn tags(s: &str) -> String {
    let r = rx();
    let out = r.any.replace_all(s, |c: &Captures| {
        let cap = c[0].to_string();
        if cap.contains("</") {
            return cap;
        }
        let t = r.close.replace_all(&cap, "\">").into_owned();
        let mut t = r.close2.replace_all(&t, "'>").into_owned();
        let tc = t.clone();
        let a: Vec<_> = r.between.find_iter(&tc).collect();
        let b: Vec<_> = r.extra3.find_iter(&tc).collect();
        for i in 0..a.len().max(b.len()) {
            let x = format!("{}{}", a.get(i).map_or("", |m| m.as_str()), b.get(i).map_or("", |m| m.as_str()));
            t = t.replace(&x, &r.extra.replace_all(&x, " "));
        }
        let mut o = t.clone();
        for m in r.extra2.find_iter(&t) {
            let m = m.as_str();
            o = o.replace(m, &format!("{} {}", &m[..1], m[1..].trim_start()));
        }
        r.quotes
            .replace_all(&o, |c: &Captures| if &c[1] == "width" || &c[1] == "height" { format!("{}={}", &c[1], &c[2]) } else { c[0].to_string() })
            .into_owned()
    });
    out.trim().to_string()
}
/// the text up to the step that looks at white space
fn first_steps(src: &str) -> String {
    let r = rx();
    let s = strip(src);
    let mut s = r.style.replace_all(&s, |c: &Captures| r.typ.replace_all(&c[0], "").into_owned()).into_owned();
    for t in TAGS {
        s = s.replace(t, "");
    }
    s
}
fn exact(src: &str) -> String {
    let r = rx();
    let mut s = first_steps(src);
    let l = s.to_lowercase();
    s = if !l.contains("<textarea") && !l.contains("<pre") {
        let t = r.gt.replace_all(&s, "> <");
        r.run.replace_all(&t, " ").into_owned()
    } else {
        s.trim().to_string()
    };
    tags(&s)
}
/// every allowed change made, again and again
fn norm(s: &str, pre: bool) -> String {
    let r = rx();
    let mut s = s.to_string();
    for _ in 0..40 {
        let mut t = r.style.replace_all(&s, |c: &Captures| r.typ.replace_all(&c[0], "").into_owned()).into_owned();
        for x in TAGS {
            t = t.replace(x, "");
        }
        if !pre {
            t = r.ws.replace_all(&t, " ").into_owned();
        }
        t = r
            .any
            .replace_all(&t, |c: &Captures| {
                let t = r.ws.replace_all(&c[0], " ").into_owned();
                let t = r.wsgt.replace_all(&t, ">").into_owned();
                r.wh.replace_all(&t, "$1=$2").into_owned()
            })
            .trim()
            .to_string();
        if t == s {
            break;
        }
        s = t;
    }
    s
}

pub fn case(c: &Case) -> Result<bool, String> {
    let src = c.get("src");
    let got = html::minify(src);
    let want = exact(src);
    if got == want {
        return Ok(want.len() > 3);
    }
    let stripped = strip(src);
    let pre = has_pre(&first_steps(src));
    if pre != has_pre(&stripped) || pre != has_pre(&want) {
        return Ok(false);
    }
    let (a, b) = (norm(&stripped, pre), norm(&want, pre));
    if a != b {
        // the allowed changes interfere with each other here: not decided
        return Ok(false);
    }
    let g = norm(&got, pre);
    if g != b {
        return Err(format!("more than the allowed changes: {got:?}, where at most the following may be left out or shortened: {want:?}"));
    }
    Ok(true)
}

const PIECES: &[&str] = &["<p>", "a", " ", "\n", "<pre>", "</b>", "<!--", "-->", "[", "</li>", "<i b=\"1\" >"];
const MORE: &[&str] = &[
    " ", "  ", "\n", "\t", "\r\n", "\u{a0}", "a", "b c", "x  y", "<!--", "-->", "<!-- c -->", "<!--[if IE]>", "<![endif]-->", "<!-- [if x]-->", "--", "!", ">", "<", "[", "]",
    "<p>", "</p>", "<p >", "<P>", "<div class=\"a  b\"  id='x'   >", "<i\n a=\"1\">", "</i>", "<b>", "</b>", "<a href=\"x\"   title=\"y\">", "</a>", "<br/>", "<br />",
    "<img width=\"10\" height=\"20\">", "<img width=\"10%\">", "<img data-width=\"1\" width='2' alt=\"3\">", "<td width=\"1_.-\"  height=\"a b\" >", "<h1  style=\"a:b;\"   >",
    "<input value=\"width=&quot;\"  checked   >", "<x 1  >", "<x a=1   >", "<x a='1'  b='2'>", "<x a='1'   b=2>", "<x a=\"é\"  é=\"1\">", "< p>", "<1>", "<é é=\"1\"  >",
    "<style type=\"text/css\">", "<style  type=\"text/css\" media=\"x\" >", "</style>", "<script type=\"text/javascript\">", "<script type=\"module\">", "<script src=\"a.js\" type=\"text/javascript\"  >",
    "<script data-type=\"text/css\">", "<script type=\"text/template\" id=\"t\">", "<script type='text/css'>", "<script>", "</script>", "<styles type=\"text/css\">", "<link type=\"text/css\">", "<style\ntype=\"text/css\">",
    "<body>", "</body>", "<body class=\"x\">", "<BODY>", "<head>", "</head>", "<header>", "</header>", "<html>", "<html lang=\"en\">", "</html>", "<li>", "</li>", "</ul>", "<td>", "</td>", "</tr>", "</th>", "</table>",
    "<tbody>", "</tbody>", "</thead>", "</dd>", "</dt>", "</dl>", "</option>", "</select>", "</p>", "</param>", "</col>", "</caption>", "</colgroup>", "</isindex>", "</basefont>",
    "<pre>", "</pre>", "<PRE>", "<Pre class=\"a\">", "<textarea>", "<TextArea  rows=\"1\" >", "</textarea>", "<pr", "e>", "İ", "K", "ß", "é", "\u{3000}", "𝄞", "$1", "${a}", "$", "\\", "\"", "'", "=", "&nbsp;", "&lt;", "width=\"5\"", " height=\"6\" ",
];
fn gen_page(r: &mut Rng) -> String {
    let mut o = String::new();
    let ws: &[&str] = &["", " ", "\n", "  ", "\n    ", "\t", "\r\n\r\n"];
    let mut stack: Vec<&str> = vec![];
    let els: &[&str] = &["p", "div", "span", "b", "ul", "li", "table", "tr", "td", "pre", "textarea", "script", "style", "head", "body", "html", "a", "h1", "img", "x-y"];
    let attrs: &[&str] = &["id", "class", "width", "height", "style", "type", "href", "data-width", "title", "a_b", "é"];
    let vals: &[&str] = &["1", "a", "a b", "a  b", "100%", "text/css", "text/javascript", "module", "-_.", "x=y", "", "é", "<", "/"];
    for _ in 0..1 + r.below(14) {
        match r.below(10) {
            0..=3 => {
                let e = *r.pick(els);
                o.push('<');
                o.push_str(e);
                for _ in 0..r.below(4) {
                    o.push_str(*r.pick(&[" ", " ", "  ", "\n", "   ", "\t"]));
                    o.push_str(*r.pick(attrs));
                    let q = *r.pick(&["\"", "\"", "'", ""]);
                    if r.chance(5, 6) {
                        o.push('=');
                        o.push_str(q);
                        o.push_str(*r.pick(vals));
                        o.push_str(q);
                    }
                }
                o.push_str(*r.pick(&["", "", " ", "   ", "\n"]));
                o.push_str(*r.pick(&[">", ">", ">", "/>"]));
                stack.push(e);
            }
            4..=5 => {
                if let Some(e) = stack.pop() {
                    o.push_str("</");
                    o.push_str(e);
                    o.push('>');
                }
            }
            6 => {
                o.push_str("<!--");
                o.push_str(*r.pick(&["", " ", "\n", "["]));
                o.push_str(*r.pick(&["c", "-", "[if IE]> x <![endif]", "build:js", ">", "<!--", "<b>"]));
                o.push_str(*r.pick(&["-->", "-->", "-->", "->", " --> -->"]));
            }
            7 => o.push_str(*r.pick(MORE)),
            _ => o.push_str(*r.pick(&["a", "word word", "x  y", "1 2", "é", ".", "if (a < b) { c }", "a > b", "k: v;"])),
        }
        o.push_str(*r.pick(ws));
    }
    o
}
pub fn search(s: &mut Search) {
    s.exhaustive(PIECES, if s.thorough { 4 } else { 3 }, &|x| Case::src(x));
    s.phase("random pieces and random pages");
    while !s.out_of_time() {
        for _ in 0..50 {
            let t = if s.rng.chance(1, 3) {
                let n = 1 + s.rng.below(10);
                (0..n).map(|_| *s.rng.pick(MORE)).collect()
            } else {
                gen_page(&mut s.rng)
            };
            let t = spice(&mut s.rng, &t);
            s.check(Case::src(&t));
        }
        if !s.thorough && !s.within(0.8) {
            break;
        }
    }
}
