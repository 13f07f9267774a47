// Shared by the executable oracles: deterministic random numbers, case
// accounting, panic capture, hang detection and replay files.
#![allow(dead_code)]
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

struct Watch {
    label: String,
    since: Option<Instant>,
}

pub struct Run {
    pub prop: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub scratch: std::path::PathBuf,
    replay: String,
    buckets: BTreeMap<String, u64>,
    watch: Arc<Mutex<Watch>>,
    start: Instant,
    budget: Duration,
}

fn write_replay(path: &str, prop: &str, label: &str, msg: &str) {
    let v = serde_json::json!({
        "property": prop,
        "kind": "failing input run against the real code",
        "input": label,
        "observed": msg,
        "replay": format!("the oracle program for {} (harness/oracles) regenerates this input from the same seed", prop),
    });
    std::fs::write(path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

pub fn trunc(s: &str) -> String {
    if s.len() <= 6000 {
        s.to_string()
    } else {
        let mut n = 6000;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}... ({} bytes)", &s[..n], s.len())
    }
}

impl Run {
    /// Arguments: replay-file tier seed scratch-dir [seconds]
    pub fn new(prop: &'static str) -> Self {
        let a: Vec<String> = std::env::args().collect();
        let thorough = a[2] == "thorough";
        let secs: u64 = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(if thorough { 240 } else { 25 });
        let watch = Arc::new(Mutex::new(Watch { label: String::new(), since: None }));
        let w2 = watch.clone();
        let (rp, limit) = (a[1].clone(), Duration::from_secs(if thorough { 240 } else { 120 }));
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let w = w2.lock().unwrap();
            if let Some(t) = w.since {
                if t.elapsed() > limit {
                    let m = format!("the call did not return within {} s", limit.as_secs());
                    write_replay(&rp, prop, &trunc(&w.label), &m);
                    println!("\nWITNESS {}", m);
                    std::process::exit(1);
                }
            }
        });
        if std::env::var("VX_PANICS").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        Run {
            prop,
            thorough,
            seed: a[3].parse().unwrap(),
            scratch: a[4].clone().into(),
            replay: a[1].clone(),
            buckets: BTreeMap::new(),
            watch,
            start: Instant::now(),
            budget: Duration::from_secs(secs),
        }
    }
    pub fn time_left(&self) -> bool {
        self.start.elapsed() < self.budget
    }
    /// Share of the time budget that is used up.
    pub fn used(&self) -> f64 {
        self.start.elapsed().as_secs_f64() / self.budget.as_secs_f64()
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(1000003).wrapping_add(salt))
    }
    pub fn fail(&self, label: &str, msg: &str) -> ! {
        write_replay(&self.replay, self.prop, &trunc(label), &trunc(msg));
        println!("\nWITNESS {} | input {}", trunc(msg).replace('\n', " "), trunc(label).replace('\n', " "));
        std::process::exit(1);
    }
    /// Runs one case; a panic or an `Err` is a violation.
    pub fn case<L: FnOnce() -> String, F: FnOnce() -> Result<(), String>>(&mut self, bucket: &str, label: L, f: F) {
        *self.buckets.entry(bucket.to_string()).or_insert(0) += 1;
        let label = label();
        {
            let mut w = self.watch.lock().unwrap();
            w.label = label.clone();
            w.since = Some(Instant::now());
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        self.watch.lock().unwrap().since = None;
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => self.fail(&label, &m),
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".to_string()
                };
                self.fail(&label, &format!("panic: {}", m))
            }
        }
    }
    pub fn finish(self) {
        let total: u64 = self.buckets.values().sum();
        println!(
            "\n{}",
            serde_json::json!({"cases": total, "buckets": self.buckets, "seconds": self.start.elapsed().as_secs_f64()})
        );
    }
}
