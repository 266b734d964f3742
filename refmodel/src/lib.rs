//! Reference models and exploration utilities. Shares no code with /repo.
pub mod data;
pub mod dec;
pub mod report;
pub mod rule;
pub use serde_json;

/// Run `f(chunk_index, lo, hi)` over [0,total) split in chunks on all cores; stops early once `stop` says so.
pub fn par_chunks<R: Send>(
    total: u64,
    chunk: u64,
    f: impl Fn(u64, u64) -> R + Sync,
) -> Vec<R> {
    use std::sync::atomic::{AtomicU64, Ordering};
    let next = AtomicU64::new(0);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let out = std::sync::Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| loop {
                let lo = next.fetch_add(chunk, Ordering::SeqCst);
                if lo >= total {
                    break;
                }
                let hi = (lo + chunk).min(total);
                report::beat();
                let r = f(lo, hi);
                out.lock().unwrap().push((lo, r));
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

thread_local!(pub static IN_CAUGHT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

/// Catch a panic of the code under test, as a value.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_CAUGHT.with(|c| c.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_CAUGHT.with(|c| c.set(was));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}
