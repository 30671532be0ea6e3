//! Counterexample search and replay against the real code of /repo.
//!
//! replay search PROP --seed N --tier quick|thorough --out FILE [--trace FILE]
//! replay case PROP FILE           re-runs one recorded case
//! replay literals                 the literals of /repo's source, as in literals.txt
//!
//! --deep: only the random phases, until the budget is used up (check.py runs several, with
//! different seeds, when the proof does not hold).
//!
//! Exit 0: nothing found; 1: a case fails (written to FILE as JSON); 2: usage.
mod cli;
mod css;
mod dict;
mod html;
mod js;
mod json;
mod util;
mod write;

use util::{Case, Search};

pub fn run_case(prop: &str, c: &Case) -> Result<bool, String> {
    match prop {
        "J01" => json::case_j01(c),
        "J02" => json::case_j02(c),
        "C01" | "C02" | "C03" => css::case(prop, c),
        "S01" | "S02" | "S03" | "S04" | "S05" | "S06" | "S07" => js::case(prop, c),
        "W01" => write::case(c),
        "L01" => cli::case(c),
        "H01" => html::case(c),
        _ => panic!("unknown property {prop}"),
    }
}

pub fn search(prop: &str, s: &mut Search) {
    match prop {
        "J01" => json::search_j01(s),
        "J02" => json::search_j02(s),
        "C01" | "C02" | "C03" => css::search(s),
        "S01" | "S02" | "S03" | "S04" | "S05" | "S06" | "S07" => js::search(prop, s),
        "W01" => write::search(s),
        "L01" => cli::search(s),
        "H01" => html::search(s),
        _ => panic!("unknown property {prop}"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("search"), Some(prop)) => {
            let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = opt("--tier").as_deref() == Some("thorough");
            let mut s: Search = Search::new(prop, seed, thorough, opt("--out").expect("--out"), opt("--trace"));
            s.deep = a.iter().any(|x| x == "--deep");
            if let Some(b) = opt("--budget").and_then(|s| s.parse().ok()) {
                s.budget = std::time::Duration::from_secs(b);
            }
            let s = util::big_stack(move || {
                search(&s.prop.clone(), &mut s);
                s
            });
            s.finish();
        }
        (Some("literals"), _) => dict::print_all(),
        (Some("case"), Some(prop)) => {
            let c = Case::load(&a[3]);
            let prop = prop.clone();
            let r = util::big_stack(move || util::guarded(&prop, &c));
            match r {
                Ok(_) => println!("case passes"),
                Err(e) => {
                    println!("case FAILS: {e}");
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: replay search|case PROP ...");
            std::process::exit(2);
        }
    }
}
