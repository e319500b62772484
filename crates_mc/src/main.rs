//! Exhaustive exploration of the crates' own interfaces (what is not reachable through SQL).
//! crates_mc AREA [thorough]: prints one JSON object per scope and per violation.
mod enc;
mod cms;
mod flat;
mod hll;
mod tdig;
mod twa;
mod udd;

use std::collections::HashSet;

pub struct Ctx {
    pub thorough: bool,
    pub viol: usize,
    pub transitions: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

impl Ctx {
    pub fn bad(&mut self, case: String, expected: String, got: String) {
        self.viol += 1;
        if self.viol <= 60 {
            let cut = |s: &str| s.chars().take(600).collect::<String>();
            println!("{{\"violation\":{{\"case\":\"{}\",\"expected\":\"{}\",\"got\":\"{}\"}}}}", esc(&cut(&case)), esc(&cut(&expected)), esc(&cut(&got)));
        }
    }
    /// One trace replayed, `steps` operations, ended in a state that hashes to `state`.
    pub fn trace(&mut self, steps: u64, state: u64, sample: impl FnOnce() -> String) {
        self.traces += 1;
        self.transitions += steps;
        if self.states.len() < 3_000_000 {
            self.states.insert(state);
        }
        if self.traces.is_power_of_two() && self.samples.len() < 12 {
            let s = sample();
            self.samples.push(s);
        }
    }
    /// Run one case; a panic is a violation.
    pub fn case(&mut self, name: impl Fn() -> String, f: impl FnOnce(&mut Ctx)) {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self)));
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            self.bad(name(), "no panic".into(), format!("panic: {m}"));
        }
    }
    pub fn scope(&mut self, name: &str, f: impl FnOnce(&mut Ctx)) {
        let before = self.traces;
        f(self);
        println!("{{\"scope\":\"{}\",\"cases\":{}}}", esc(name), self.traces - before);
    }
}

pub fn h(x: impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx { thorough: a.get(2).is_some_and(|x| x == "thorough"), viol: 0, transitions: 0, traces: 0, states: HashSet::new(), samples: vec![] };
    match a[1].as_str() {
        "udd" => udd::run(&mut c),
        "hll" => hll::run(&mut c),
        "cms" => cms::run(&mut c),
        "enc" => enc::run(&mut c),
        "tdig" => tdig::run(&mut c),
        "twa" => twa::run(&mut c),
        "flat" => flat::run(&mut c),
        x => panic!("unknown area {x}"),
    }
    let s: Vec<String> = c.samples.iter().map(|x| format!("\"{}\"", esc(x))).collect();
    println!("{{\"states\":{},\"transitions\":{},\"traces\":{},\"violations\":{},\"samples\":[{}]}}", c.states.len(), c.transitions, c.traces, c.viol, s.join(","));
}
