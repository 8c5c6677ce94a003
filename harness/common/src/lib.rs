//! Shared driver of the replay/search harnesses: the executable form of the contracts is run on the real code.
use std::collections::{BTreeMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

/// the case that is running
static RUNNING: Mutex<Option<(String, Instant)>> = Mutex::new(None);
/// a case takes milliseconds; one that runs this long is taken not to end
const HANG: u64 = 120;

pub struct Ctx {
    pub cur: Option<std::fs::File>,
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub rng: Rng,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violation: Option<(String, String)>,
    pub known: Vec<String>,
    pub known_hits: BTreeMap<String, String>,
    pub rules: Vec<String>,
    pub deadline: Instant,
    pub replay: Option<String>,
    pub per_group: BTreeMap<String, u64>,
    pub group: String,
    pub exhaustive: bool,
}

impl Ctx {
    pub fn stop(&self) -> bool {
        self.violation.is_some() || Instant::now() > self.deadline
    }
    /// describes how the cases that follow are made
    pub fn rule(&mut self, group: &str, r: &str) {
        self.group = group.to_string();
        self.rules.push(format!("{group}: {r}"));
    }
    /// scales a budget by tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    /// Runs one case on the real code. `f` returns Err(description) when the contract is broken.
    pub fn case(&mut self, nontrivial: bool, input: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        self.case_k("", nontrivial, input, f)
    }
    /// as `case`; a failure whose `key` is listed in the known-findings file is reported as such
    pub fn case_k(&mut self, key: &str, nontrivial: bool, input: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        if self.violation.is_some() {
            return;
        }
        if let Some(r) = &self.replay {
            if &format!("[{}] {}", self.group, input()) != r {
                return;
            }
        }
        self.evals += 1;
        if std::env::var("VH_TRACE").is_ok() { eprintln!("[{}] {}", self.group, input()); }
        *self.per_group.entry(self.group.clone()).or_insert(0) += 1;
        if nontrivial {
            let s = input();
            let mut h = DefaultHasher::new();
            (&self.group, &s).hash(&mut h);
            if self.distinct.insert(h.finish()) {
                let n = self.per_group[&self.group];
                if self.samples.len() < 40 && (n == 3 || n == 50 || n == 1000) {
                    self.samples.push(format!("[{}] {s}", self.group));
                }
            }
        }
        let now = format!("[{}] {}", self.group, input());
        if let Some(f) = &self.cur {
            // what is running, for the case that it ends the process
            let _ = f.set_len(0);
            let _ = std::os::unix::fs::FileExt::write_all_at(f, now.as_bytes(), 0);
        }
        *RUNNING.lock().unwrap() = Some((now, Instant::now()));
        let r = catch_unwind(AssertUnwindSafe(f));
        *RUNNING.lock().unwrap() = None;
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(format!("panicked: {m}"))
            }
        };
        if let Err(e) = r {
            if !key.is_empty() && self.known.iter().any(|k| k == key) {
                let i = input();
                self.known_hits.entry(key.to_string()).or_insert(format!("{i}: {e}"));
                return;
            }
            self.violation = Some((format!("[{}] {}", self.group, input()), e));
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// usage: harness PROP OUT.json [--thorough] [--seed N] [--budget SECS] [--known FILE] [--replay TEXT]
pub fn main(props: &[(&str, fn(&mut Ctx))]) {
    std::panic::set_hook(Box::new(|_| {}));
    let h = {
        let args: Vec<String> = std::env::args().collect();
        let props: Vec<(String, fn(&mut Ctx))> = props.iter().map(|(a, b)| (a.to_string(), *b)).collect();
        std::thread::Builder::new().stack_size(512 << 20).spawn(move || run(args, props)).unwrap()
    };
    match h.join() {
        Ok(c) => std::process::exit(c),
        Err(_) => {
            eprintln!("harness driver panicked");
            std::process::exit(4)
        }
    }
}

fn run(args: Vec<String>, props: Vec<(String, fn(&mut Ctx))>) -> i32 {
    let prop = args[1].clone();
    let out = args[2].clone();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: u64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(120);
    let known = get("--known")
        .and_then(|f| std::fs::read_to_string(f).ok())
        .map(|s| {
            s.lines()
                .filter_map(|l| l.strip_prefix(&format!("known: property={prop} key=")))
                .map(|l| l.split_whitespace().next().unwrap_or("").to_string())
                .collect()
        })
        .unwrap_or_default();
    let Some((_, f)) = props.iter().find(|(n, _)| *n == prop) else {
        eprintln!("no such property {prop}");
        return 2;
    };
    {
        let (prop, out) = (prop.clone(), out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let r = RUNNING.lock().unwrap().clone();
            if let Some((i, t)) = r {
                if t.elapsed() > Duration::from_secs(HANG) {
                    let v = format!("{{\"input\":{},\"what\":\"no answer within {HANG} s\"}}", esc(&i));
                    let _ = std::fs::write(&out, format!("{{\"property\":{},\"evaluations\":1,\"distinct_nontrivial\":1,\"rules\":[],\"samples\":[],\"groups\":{{}},\"known_hits\":{{}},\"violation\":{v}}}\n", esc(&prop)));
                    std::process::exit(1);
                }
            }
        });
    }
    let mut c = Ctx {
        cur: std::fs::File::create(format!("{out}.cur")).ok(),
        prop: prop.clone(),
        thorough: args.iter().any(|a| a == "--thorough"),
        seed,
        rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D)),
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        violation: None,
        known,
        known_hits: BTreeMap::new(),
        rules: vec![],
        deadline: Instant::now() + Duration::from_secs(budget),
        replay: get("--replay"),
        per_group: BTreeMap::new(),
        group: String::new(),
        exhaustive: false,
    };
    f(&mut c);
    let list = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
    let groups = c.per_group.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(",");
    let kh = c.known_hits.iter().map(|(k, v)| format!("{}:{}", esc(k), esc(v))).collect::<Vec<_>>().join(",");
    let viol = match &c.violation {
        Some((i, e)) => format!("{{\"input\":{},\"what\":{}}}", esc(i), esc(e)),
        None => "null".into(),
    };
    let js = format!(
        "{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rules\":[{}],\"samples\":[{}],\"groups\":{{{groups}}},\"known_hits\":{{{kh}}},\"violation\":{viol}}}\n",
        esc(&prop),
        c.evals,
        c.distinct.len(),
        list(&c.rules),
        list(&c.samples)
    );
    std::fs::write(&out, js).unwrap();
    if c.violation.is_some() { 1 } else { 0 }
}
