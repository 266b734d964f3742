//! Evidence, violations, replay artefacts, watchdog.
use serde_json::{json, Map, Value};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) }

static BEAT: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());
/// Progress heartbeat (called per chunk or per state).
pub fn beat() { BEAT.fetch_add(1, Ordering::Relaxed); }
/// Remember what is being executed, for the watchdog.
pub fn doing(s: &str) { beat(); if let Ok(mut c) = CURRENT.lock() { c.clear(); c.push_str(s); } }

pub struct Report {
    pub id: String,
    pub tier: String,
    start: Instant,
    pub violations: Mutex<Vec<Value>>,
    pub known: Mutex<Vec<String>>,
    pub cov: Mutex<Map<String, Value>>,
    pub samples: Mutex<Vec<Value>>,
    pub assumptions: Vec<String>,
}

impl Report {
    pub fn new(id: &str, tier: &str) -> &'static Report {
        let r: &'static Report = Box::leak(Box::new(Report {
            id: id.into(), tier: tier.into(), start: Instant::now(),
            violations: Mutex::new(vec![]), known: Mutex::new(vec![]), cov: Mutex::new(Map::new()), samples: Mutex::new(vec![]),
            assumptions: vec![],
        }));
        let me = std::process::id();
        std::panic::set_hook(Box::new(move |i| {
            if crate::IN_CAUGHT.try_with(|c| c.get()).unwrap_or(false) { return; }
            eprintln!("engine panic: {}", i);
            if std::process::id() != me { return; }
            // A call that was not expected to panic: the panic is the code under test's if it happens there.
            let at = i.location().map(|l| l.to_string()).unwrap_or_default();
            if at.contains("pluralrules") { r.violation(json!({"problem": "the code under test panics", "at": at, "panic": i.to_string()})); }
            if r.n_violations() > 0 { r.set("exhaustive", false); r.finish_and_exit(); }
        }));
        // A call of the code under test that makes no progress for a very long time does not terminate.
        std::thread::spawn(move || {
            let mut last = (BEAT.load(Ordering::Relaxed), Instant::now());
            loop {
                std::thread::sleep(std::time::Duration::from_secs(2));
                let b = BEAT.load(Ordering::Relaxed);
                if b != last.0 { last = (b, Instant::now()); }
                if last.1.elapsed().as_secs() > 240 {
                    let what = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                    r.violation(json!({"kind": "no progress for 240 s", "at": what}));
                    r.finish_and_exit();
                }
            }
        });
        r
    }
    pub fn quick(&self) -> bool { self.tier != "thorough" }
    pub fn violation(&self, v: Value) {
        let mut l = self.violations.lock().unwrap();
        if l.len() < 1000 { l.push(v); }
    }
    pub fn n_violations(&self) -> usize { self.violations.lock().unwrap().len() }
    pub fn known(&self, s: String) {
        let mut k = self.known.lock().unwrap();
        if !k.contains(&s) { k.push(s); }
    }
    pub fn set(&self, k: &str, v: impl Into<Value>) { self.cov.lock().unwrap().insert(k.into(), v.into()); }
    pub fn add(&self, k: &str, n: u64) {
        let mut c = self.cov.lock().unwrap();
        let o = c.get(k).and_then(|v| v.as_u64()).unwrap_or(0);
        c.insert(k.into(), json!(o + n));
    }
    pub fn sample(&self, v: Value) { let mut s = self.samples.lock().unwrap(); if s.len() < 12 { s.push(v); } }

    pub fn finish_and_exit(&self) -> ! {
        let dir = format!("{}/evidence", root());
        let _ = std::fs::create_dir_all(format!("{}/replays", dir));
        let viol = self.violations.lock().unwrap().clone();
        let mut cov = self.cov.lock().unwrap().clone();
        cov.insert("samples".into(), Value::Array(self.samples.lock().unwrap().clone()));
        cov.entry("exhaustive").or_insert(json!(true));
        let known = self.known.lock().unwrap().clone();
        if !known.is_empty() { cov.insert("known_findings_observed".into(), json!(known)); }
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let ev = json!({
            "property": self.id, "tier": if self.quick() { "quick" } else { "thorough" }, "seed": seed,
            "level": "model_checking", "coverage": cov, "violations": viol.len(),
            "assumptions": [
                "x86_64 Linux, Rust stable of this sandbox; std's decimal-to-float conversion and float printing",
                "the reference model in /verif/refmodel and the CLDR 37 data vendored in /verif/data"
            ],
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        std::fs::write(format!("{}/{}.json", dir, self.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
        for k in &known { println!("KNOWN-FINDING: property={} {}", self.id, k); }
        for (n, v) in viol.iter().enumerate().take(5) {
            let p = format!("{}/replays/{}-{}.json", dir, self.id, n);
            std::fs::write(&p, serde_json::to_string_pretty(v).unwrap()).expect("write replay");
            println!("VIOLATION property={} replay={}", self.id, p);
            println!("  {}", v);
        }
        let brief: Map<String, Value> = ev["coverage"].as_object().unwrap().iter().filter(|(_, v)| v.is_number() || v.is_boolean()).map(|(k, v)| (k.clone(), v.clone())).collect();
        println!("{} {}: {} violations={} wall={:.1}s", self.id, self.tier, Value::Object(brief), viol.len(), self.start.elapsed().as_secs_f64());
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(if viol.is_empty() { 0 } else { 1 });
    }
}
