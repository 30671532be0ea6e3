use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// One input: named strings. Everything a property's check needs to run again.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Case(pub Vec<(String, String)>);

impl Case {
    pub fn src(s: &str) -> Case {
        Case(vec![("src".into(), s.into())])
    }
    pub fn with(mut self, k: &str, v: impl ToString) -> Case {
        self.0.push((k.into(), v.to_string()));
        self
    }
    pub fn get(&self, k: &str) -> &str {
        self.0.iter().find(|x| x.0 == k).map(|x| x.1.as_str()).unwrap_or("")
    }
    pub fn num(&self, k: &str) -> usize {
        self.get(k).parse().unwrap_or(0)
    }
    pub fn json(&self) -> String {
        let v: Vec<String> = self.0.iter().map(|(k, v)| format!("{}:{}", jstr(k), jstr(v))).collect();
        format!("{{{}}}", v.join(","))
    }
    pub fn load(p: &str) -> Case {
        // {"...":"...",...} of string values: a small parser is enough (see jstr)
        let s = std::fs::read_to_string(p).unwrap();
        let s = match s.find("\"case\":") {
            Some(i) => s[i + 7..].to_string(),
            None => s,
        };
        let mut it = s.chars();
        let mut strs: Vec<String> = vec![];
        for c in it.by_ref() {
            if c == '{' {
                break;
            }
        }
        while let Some(c) = it.next() {
            if c == '}' {
                break;
            }
            if c != '"' {
                continue;
            }
            let mut o = String::new();
            while let Some(c) = it.next() {
                match c {
                    '"' => break,
                    '\\' => match it.next().unwrap() {
                        'n' => o.push('\n'),
                        't' => o.push('\t'),
                        'r' => o.push('\r'),
                        'b' => o.push('\u{8}'),
                        'f' => o.push('\u{c}'),
                        'u' => {
                            let h: String = it.by_ref().take(4).collect();
                            o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                        }
                        c => o.push(c),
                    },
                    c => o.push(c),
                }
            }
            strs.push(o);
        }
        Case(strs.chunks(2).map(|p| (p[0].clone(), p[1].clone())).collect())
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 16) % n.max(1) as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

pub fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::panic::set_hook(Box::new(|i| {
        LAST.with(|l| *l.borrow_mut() = i.to_string());
    }));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap();
    match h.join() {
        Ok(v) => v,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            eprintln!("replay: internal error: {m:?}");
            std::process::exit(2)
        }
    }
}
thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// Runs `f`, turning a panic into an Err with its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| {
        format!("panic: {}", LAST.with(|l| l.borrow().clone()))
    })
}

pub fn guarded(prop: &str, c: &Case) -> Result<bool, String> {
    match catch(|| crate::run_case(prop, c)) {
        Ok(r) => r,
        // L01 runs the command in a process of its own: this is a panic of the oracle's own doing (a
        // scratch file it could not make) or of a minifier, which is not L01's matter
        Err(_) if prop == "L01" => Ok(false),
        Err(e) => Err(e),
    }
}

pub struct Search {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub deep: bool,
    pub rng: Rng,
    pub budget: Duration,
    out: String,
    trace: Option<std::fs::File>,
    start: Instant,
    phase: Instant,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<(String, Case)>,
    phases: Vec<String>,
    cur: Arc<Mutex<(u64, Option<Case>, Instant)>>,
    sample_gap: u64,
}

impl Search {
    pub fn new(prop: &str, seed: u64, thorough: bool, out: String, trace: Option<String>) -> Search {
        let cur = Arc::new(Mutex::new((0u64, None::<Case>, Instant::now())));
        let c2 = cur.clone();
        let (p2, o2) = (prop.to_string(), out.clone());
        // a case that runs for over 20 s is reported as a hang
        let stop = std::env::var_os("VERIF_STOP").map(std::path::PathBuf::from);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            // another search has found something
            if stop.as_ref().is_some_and(|x| x.exists()) {
                std::process::exit(0);
            }
            let g = c2.lock().unwrap();
            if let Some(c) = &g.1 {
                if g.2.elapsed() > Duration::from_secs(20) {
                    report(&o2, &p2, c, "does not terminate (20 s on one input)");
                }
            }
        });
        Search {
            prop: prop.into(), seed, thorough, deep: false, rng: Rng::new(seed),
            budget: Duration::from_secs(if thorough { 300 } else { 25 }),
            out, trace: trace.map(|t| std::fs::File::create(t).unwrap()),
            start: Instant::now(), phase: Instant::now(), evals: 0, distinct: HashSet::new(), samples: vec![],
            phases: vec![], cur, sample_gap: 1,
        }
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }
    /// fraction of the budget used so far is below `f`
    pub fn within(&self, f: f64) -> bool {
        self.deep || self.start.elapsed().as_secs_f64() < self.budget.as_secs_f64() * f
    }
    pub fn phase(&mut self, name: &str) {
        self.phase = Instant::now();
        self.phases.push(name.to_string());
        self.sample_gap = self.evals + 1;
    }
    pub fn check(&mut self, c: Case) {
        self.evals += 1;
        if let Some(t) = &mut self.trace {
            let _ = t.seek(SeekFrom::Start(0));
            let s = format!("{{\"case\":{}}}\n", c.json());
            let _ = t.set_len(0);
            let _ = t.write_all(s.as_bytes());
        }
        {
            let mut g = self.cur.lock().unwrap();
            *g = (self.evals, Some(c.clone()), Instant::now());
        }
        let r = guarded(&self.prop, &c);
        self.cur.lock().unwrap().1 = None;
        match r {
            Ok(nontrivial) => {
                if nontrivial {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    c.hash(&mut h);
                    if self.distinct.len() < 20_000_000 {
                        self.distinct.insert(h.finish());
                    }
                    if self.evals >= self.sample_gap && self.samples.len() < 24 {
                        self.sample_gap = self.evals * 4;
                        self.samples.push((self.phases.last().cloned().unwrap_or_default(), c));
                    }
                }
            }
            Err(e) => {
                let (c, e) = shrink(&self.prop, c, e);
                report(&self.out, &self.prop, &c, &e);
            }
        }
    }
    /// every string over `alpha` of length <= n
    pub fn exhaustive(&mut self, alpha: &[&str], n: usize, mk: &dyn Fn(&str) -> Case) {
        if self.deep {
            return;
        }
        self.phase(&format!("every string of length <= {n} over {alpha:?}"));
        let mut idx: Vec<usize> = vec![];
        loop {
            let s: String = idx.iter().map(|i| alpha[*i]).collect();
            self.check(mk(&s));
            // next
            let mut k = idx.len();
            loop {
                if k == 0 {
                    idx = vec![0; idx.len() + 1];
                    break;
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < alpha.len() {
                    break;
                }
                idx[k] = 0;
            }
            if idx.len() > n {
                break;
            }
        }
    }
    pub fn finish(self) {
        let samples: Vec<String> = self
            .samples
            .iter()
            .map(|(p, c)| format!("{{\"phase\":{},\"case\":{}}}", jstr(p), c.json()))
            .collect();
        let ph: Vec<String> = self.phases.iter().map(|p| jstr(p)).collect();
        let s = format!(
            "{{\"found\":false,\"evaluations\":{},\"distinct_nontrivial\":{},\"phases\":[{}],\"samples\":[{}],\"wall_s\":{:.2}}}\n",
            self.evals, self.distinct.len(), ph.join(","), samples.join(","), self.start.elapsed().as_secs_f64()
        );
        std::fs::write(&self.out, s).unwrap();
    }
}

pub fn report(out: &str, prop: &str, c: &Case, why: &str) -> ! {
    let s = format!(
        "{{\"found\":true,\"property\":{},\"why\":{},\"case\":{}}}\n",
        jstr(prop), jstr(why), c.json()
    );
    std::fs::write(out, s).unwrap();
    std::process::exit(1)
}

/// Greedy shrinking of the `src*` fields.
fn shrink(prop: &str, mut c: Case, mut why: String) -> (Case, String) {
    let t0 = Instant::now();
    let mut progress = true;
    while progress && t0.elapsed() < Duration::from_secs(8) {
        progress = false;
        for f in 0..c.0.len() {
            if !c.0[f].0.starts_with("src") {
                continue;
            }
            let mut size = (c.0[f].1.chars().count() / 2).max(1);
            loop {
                let mut at = 0;
                loop {
                    let v: Vec<char> = c.0[f].1.chars().collect();
                    if at >= v.len() || t0.elapsed() > Duration::from_secs(8) {
                        break;
                    }
                    let s: String = v.iter().enumerate().filter(|(i, _)| *i < at || *i >= at + size).map(|x| x.1).collect();
                    let mut d = c.clone();
                    d.0[f].1 = s;
                    match guarded(prop, &d) {
                        Err(e) => {
                            c = d;
                            why = e;
                            progress = true;
                        }
                        Ok(_) => at += size,
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
    }
    (c, why)
}
