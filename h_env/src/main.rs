//! C23 (use does not accumulate memory) and C24 (results depend on the arguments alone, no outside effects).
//! A stream is a kind of call with an argument for every number m; histories are built from streams.
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::{PluralRuleType, PluralRules};
use refmodel::report::{beat, Report};
use refmodel::serde_json::{json, Value};
use std::convert::TryFrom;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use unic_langid::LanguageIdentifier;

// ------------------------------------------------------------------ what the process is asked for
// The functions through which a Rust program learns the environment and the time, replaced by recording ones.
static ASKED: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static ASKS: AtomicUsize = AtomicUsize::new(0);
static WATCH: AtomicU64 = AtomicU64::new(0);
static STEP: AtomicI64 = AtomicI64::new(0);
static LOOKS: AtomicI64 = AtomicI64::new(0);
static SHIFT: AtomicI64 = AtomicI64::new(0);
extern "C" { static environ: *const *const libc::c_char; }

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let n = libc::strlen(name);
    if WATCH.load(SeqCst) == 1 {
        let k = ASKS.fetch_add(1, SeqCst);
        if k < 64 { ASKED[k].store(libc::strdup(name) as u64, SeqCst); }
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        if libc::strncmp(*e, name, n) == 0 && *(*e).add(n) == b'=' as libc::c_char { return (*e).add(n + 1) as *mut libc::c_char; }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, c, t) as libc::c_int;
    if c == libc::CLOCK_REALTIME { (*t).tv_sec += SHIFT.load(SeqCst); }
    // a clock that runs faster: every look at it is some time later
    (*t).tv_sec += STEP.load(SeqCst) * LOOKS.fetch_add(1, SeqCst);
    r
}

// ------------------------------------------------------------------ streams
struct Ctx { listed: [Vec<LanguageIdentifier>; 2], objs: Vec<PluralRules>, small: String }
fn kind(k: u64) -> PluralRuleType { if k % 2 == 0 { PluralRuleType::CARDINAL } else { PluralRuleType::ORDINAL } }
impl Ctx {
    fn new() -> Ctx {
        let listed = [PluralRules::get_locales(kind(0)), PluralRules::get_locales(kind(1))];
        let objs = ["en", "pl", "ar", "lt", "br", "ja", "pt-PT"].iter().filter_map(|l| PluralRules::create(l.parse::<LanguageIdentifier>().unwrap(), kind(0)).ok())
            .chain(["en", "it", "sv"].iter().filter_map(|l| PluralRules::create(l.parse::<LanguageIdentifier>().unwrap(), kind(1)).ok())).collect();
        Ctx { listed, objs, small: String::new() }
    }
    fn obj(&self, m: u64) -> &PluralRules { &self.objs[(m / 7) as usize % self.objs.len()] }
}
fn letters(mut m: u64, n: usize) -> String { (0..n).map(|_| { let c = (b'a' + (m % 26) as u8) as char; m /= 26; c }).collect() }
const NAMES: [&str; 26] = ["create a listed locale, cardinal", "create a listed locale, ordinal", "create an unlisted locale", "create a language with a region", "list", "clone, get_locale, drop",
    "select u64", "select integer text", "select decimal text", "select f64", "select garbage", "select owned text", "select i32", "select ready-made operands",
    "convert text", "convert owned garbage", "convert f32", "parse a rule", "parse a malformed rule", "parse a condition", "generate", "generate from malformed data",
    "extreme text", "extreme numbers", "extreme rules", "extreme data"];
const HEAVY: [usize; 4] = [4, 20, 21, 25];
const TEXTS: [&str; 44] = ["", "-", ".", "-.", "1.", ".5", "-1", "--1", "+1", "1e3", "1e400", "1e-400", "15e-1", "inf", "-inf", "NaN", "nan", "infinity", "0x10", "1_000", " 1", "1 ", "\u{661}", "1,5", "00", "-0", "-0.0",
    "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0.18446744073709551615", "0.18446744073709551616", "0.000000000000000000000000000000000000001", "1.50000000000000000000000000000000000000000000", "1.1.1", "1.-1", "1.+1", "1.e1", "9007199254740993",
    "340282366920938463463374607431768211456", "1.0e10", "\0", "1\0", "\u{feff}1"];
const RULES: [&str; 30] = ["", " ", "@", "@integer", "@integer 1", "@decimal 1.0", " @integer 0~15, … @decimal 0.0~1.5, …", "n", "n =", "n = ", "n = 1", "n = 1 or", "n = 1 and", "n = 99999999999999999999999", "n % 0 = 1", "n % 99999999999999999999 = 1", "x = 1", "n ~ 1", "n = 1,", "n = 1..", "n = 5..1",
    "n is not 1", "n not in 1..2", "n not within 1", "n = 1 @integer", "n = 1 @integer 1 @integer 2", "n = 1 @decimal 1.0 @integer 1", "n = 1 x", "n = 1\n", "n mod 10 is 1"];
const DATA: [&str; 16] = ["", "{", "{}", "null", "[]", r#"{"supplemental": {}}"#, r#"{"supplemental": {"version": {"_unicodeVersion": "13", "_cldrVersion": "37"}}}"#, r#"{"supplemental": {"version": {"_unicodeVersion": "13", "_cldrVersion": "x"}, "plurals-type-cardinal": {}}}"#,
    r#"{"supplemental": {"version": {"_unicodeVersion": "13", "_cldrVersion": "37"}, "plurals-type-cardinal": {}}}"#, r#"{"supplemental": {"version": {"_unicodeVersion": "13", "_cldrVersion": "37"}, "plurals-type-cardinal": {"root": {}}}}"#,
    r#"{"supplemental": {"version": {"_unicodeVersion": "13", "_cldrVersion": "38"}, "plurals-type-ordinal": {"en": {}}}}"#, r#"{"supplemental": {"version": {"_unicodeVersion": "13", "_cldrVersion": "37"}, "plurals-type-ordinal": {"en": {"pluralRule-count-other": ""}}}}"#,
    r#"{"supplemental": {"version": {"_unicodeVersion": "13", "_cldrVersion": "37"}, "plurals-type-ordinal": {"en_us_posix": {"x": ""}}}}"#, r#"{"supplemental": {"version": {"_unicodeVersion": "13", "_cldrVersion": "37"}, "plurals-type-ordinal": {"!!": {"pluralRule-count-one": "n = 1"}}}}"#,
    r#"{"supplemental": {"version": {"_unicodeVersion": "13", "_cldrVersion": "37"}, "plurals-type-ordinal": {"en": {"pluralRule-count-foo": "n = 1"}}}}"#, r#"{"supplemental": {"version": {"_unicodeVersion": "13", "_cldrVersion": "37"}, "plurals-type-ordinal": {"en": {"pluralRule-count-one": "n = 99999999999999999999"}}}}"#];
const INTS: [i64; 14] = [i64::MIN, i64::MIN + 1, i64::MAX, i32::MIN as i64, i32::MAX as i64, -1, 0, -128, 255, 256, 65535, 65536, 4294967295, 4294967296];
const FLOATS: [f64; 20] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -0.0, 0.1, 1e15, 1e16, 1e19, 1.8446744073709552e19, 1e21, 1e300, 1e-7, 1e-5, 123456789.125, -2.5, 0.30000000000000004];

struct H(u64);
impl std::fmt::Write for H { fn write_str(&mut self, s: &str) -> std::fmt::Result { for b in s.bytes() { self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3); } Ok(()) } }
/// One call; the digest of its result.
fn call(c: &mut Ctx, s: usize, m: u64) -> u64 {
    use std::fmt::Write;
    let mut h = H(0xcbf29ce484222325);
    macro_rules! out { ($x:expr) => { { let _ = write!(h, "{:?}", $x); } } }
    let made = |r: Result<PluralRules, &'static str>, h: &mut H| match r {
        Ok(p) => { let _ = write!(h, "{} {:?} {:?}", p.get_locale(), p.select(1u8), p.select("1.5")); }
        Err(e) => { let _ = write!(h, "{}", e); }
    };
    match s {
        0 | 1 => { let l = &c.listed[s]; let id = l[m as usize % l.len()].clone(); made(PluralRules::create(id, kind(s as u64)), &mut h) }
        2 => { if let Ok(id) = letters(m, 5 + (m % 4) as usize).parse::<LanguageIdentifier>() { made(PluralRules::create(id, kind(m)), &mut h) } }
        3 => { let l = &c.listed[0]; if let Ok(id) = format!("{}-{}", l[m as usize % l.len()].language, letters(m / l.len() as u64, 2)).parse::<LanguageIdentifier>() { made(PluralRules::create(id, kind(m)), &mut h) } }
        4 => { let l = PluralRules::get_locales(kind(m)); let _ = write!(h, "{} {:?}", l.len(), l.get(m as usize % l.len().max(1)).map(|x| x.to_string())); }
        5 => { let p = c.obj(m).clone(); let _ = write!(h, "{} {:?}", p.get_locale(), p.select(m)); }
        6 => out!(c.obj(m).select(m)),
        7 => out!(c.obj(m).select(m.to_string().as_str())),
        8 => out!(c.obj(m).select(format!("{}.{:03}", m / 1000, m % 1000).as_str())),
        9 => out!(c.obj(m).select(m as f64 / 64.0)),
        10 => out!(c.obj(m).select(format!("{}x{}", m % 10, m).as_str())),
        11 => out!(c.obj(m).select(format!("-{}.{}0", m % 7, m))),
        12 => out!(c.obj(m).select(-(m as i32))),
        13 => out!(c.obj(m).select(PluralOperands { n: m as f64 / 10.0, i: m / 10, v: 1, w: 1, f: m % 10, t: m % 10 })),
        14 => out!(PluralOperands::try_from(format!("{}.{}", m, m % 97).as_str())),
        15 => out!(PluralOperands::try_from(format!("1.{}.{}", m, m))),
        16 => out!(PluralOperands::try_from(m as f32 / 10.0)),
        17 => out!(rule_parser::parse_plural_rule(format!("n % {} = {}..{},7 and v != {} @integer {}, … @decimal {}.5~{}.7", m + 2, m, m + 3, m % 5, m, m, m).as_str())),
        18 => out!(rule_parser::parse_plural_rule(format!("n % {} = {}.. or", m + 2, m).as_str()).map_err(|_| ())),
        19 => out!(rule_parser::parse_plural_condition(format!("i is not {} or f within {}..{} @decimal 0.{}", m, m, m + 1, m).as_str())),
        20 | 21 => {
            c.small.clear();
            let rule = if s == 20 { format!("i = {} and v = 0 @integer {}", m, m) } else { format!("i = {} and", m) };
            let _ = write!(c.small, r#"{{"supplemental": {{"version": {{"_unicodeVersion": "13.0.0", "_cldrVersion": "37"}}, "plurals-type-{}": {{"{}": {{"pluralRule-count-one": "{}", "pluralRule-count-other": ""}}}}}}}}"#, if m % 2 == 0 { "cardinal" } else { "ordinal" }, letters(m, 3).replace("und", "une"), rule);
            let t = [c.small.clone()];
            match refmodel::caught(|| make_pluralrules::generate_rs(&t)) { Ok(x) => out!(x), Err(_) => out!("refused") }
        }
        22 => {
            // every extreme text, alone and next to a number
            let t = TEXTS[m as usize % TEXTS.len()];
            let t = match m / TEXTS.len() as u64 % 4 { 0 => t.to_string(), 1 => format!("{}{}", t, m), 2 => format!("{}{}", m, t), _ => format!("-{}", t) };
            out!((c.obj(m).select(t.as_str()), PluralOperands::try_from(t.as_str()), PluralOperands::try_from(t)))
        }
        23 => {
            let (x, y) = (INTS[m as usize % INTS.len()], FLOATS[m as usize % FLOATS.len()]);
            let p = c.obj(m);
            out!((p.select(x), p.select(x as isize), p.select(x as i32), p.select(x as i8), p.select(x as u64), p.select(x as u8), p.select(y), p.select(y as f32), p.select(PluralOperands { n: y, i: x as u64, v: x as usize, w: m as usize, f: x as u64, t: m })))
        }
        24 => {
            let t = RULES[m as usize % RULES.len()];
            let t = match m / RULES.len() as u64 % 4 { 0 => t.to_string(), 1 => format!("{}{}", t, m), 2 => format!("v = {} or {}", m, t), _ => format!("{} @integer {}", t, m) };
            out!((rule_parser::parse_plural_rule(t.as_str()).map_err(|_| ()), rule_parser::parse_plural_condition(t.as_str()).map_err(|_| ())))
        }
        25 => {
            let k = m as usize;
            let t: Vec<String> = match k / DATA.len() % 3 { 0 => vec![DATA[k % DATA.len()].into()], 1 => vec![DATA[k % DATA.len()].into(), DATA[(k / 3) % DATA.len()].into()], _ => vec![] };
            match refmodel::caught(|| make_pluralrules::generate_rs(&t)) { Ok(x) => out!(x), Err(_) => out!("refused") }
        }
        _ => unreachable!(),
    }
    h.0
}
fn guarded(c: &mut Ctx, s: usize, m: u64) -> u64 { refmodel::caught(|| call(c, s, m)).unwrap_or(1) }

// ------------------------------------------------------------------ processes
struct Shared(*mut u64);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
impl Shared {
    fn new(words: usize) -> Shared {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), words * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        Shared(p as *mut u64)
    }
    fn at(&self, k: usize) -> &AtomicU64 { unsafe { &*(self.0.add(k) as *const AtomicU64) } }
}
fn child(seconds: u32, f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::alarm(seconds);
            let rc = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(77);
            libc::_exit(rc);
        }
        let mut st = 0;
        loop { if libc::waitpid(pid, &mut st, 0) == pid { break; } }
        if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 1000 + libc::WTERMSIG(st) }
    }
}
/// Runs f(u) for all u in forked workers; f returns an exit code for u that is kept.
fn spread(units: usize, f: impl Fn(usize) -> i32 + Sync) -> Vec<i32> {
    let sh = Shared::new(units + 1);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let pids: Vec<i32> = (0..n).map(|_| unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            loop {
                let u = sh.at(0).fetch_add(1, SeqCst) as usize;
                if u >= units { libc::_exit(0); }
                let rc = child(120, || f(u));
                sh.at(1 + u).store(1 + rc as u64, SeqCst);
            }
        }
        pid
    }).collect();
    for p in pids { loop { let mut st = 0; if unsafe { libc::waitpid(p, &mut st, libc::WNOHANG) } == p { break; } beat(); std::thread::sleep(std::time::Duration::from_millis(5)); } }
    (0..units).map(|u| sh.at(1 + u).load(SeqCst) as i32 - 1).collect()
}

// ------------------------------------------------------------------ C23
fn live() -> i64 { let m = unsafe { libc::mallinfo2() }; (m.uordblks + m.hblkhd) as i64 }
fn names(h: &[usize]) -> Vec<&'static str> { h.iter().map(|s| if *s == THREAD { "a thread that makes every kind of call" } else { NAMES[*s] }).collect() }
const THREAD: usize = 99;
const WINDOWS: usize = 8;
fn memory(r: &'static Report) {
    let light: Vec<usize> = (0..NAMES.len()).filter(|s| !HEAVY.contains(s)).collect();
    let q = r.quick();
    // (streams taken in turn, turns per window)
    let mut hist: Vec<(Vec<usize>, u64)> = vec![(vec![THREAD], if q { 150 } else { 800 })];
    for s in 0..NAMES.len() { hist.push((vec![s], if HEAVY.contains(&s) { 1_500 } else { 100_000 } * if q { 1 } else { 5 })); }
    for a in 0..NAMES.len() { for b in 0..NAMES.len() { if a != b { hist.push((vec![a, b], if HEAVY.contains(&a) || HEAVY.contains(&b) { 500 } else { 3_000 } * if q { 1 } else { 10 })); } } }
    for a in &light { for b in &light { for c in &light { if a != b && b != c { hist.push((vec![*a, *b, *c], if q { 600 } else { 2_000 })); } } } }
    if !q { for a in &light { for b in &light { for c in &light { for d in &light { if a < b && c != b && d != c { hist.push((vec![*a, *b, *c, *d], 300)); } } } } } }
    let sh = Shared::new(hist.len() * 10 + 2);
    let rc = spread(hist.len(), |u| {
        let (h, n) = &hist[u];
        let mut c = Ctx::new();
        let mut m = 0u64;
        let mut turn = |c: &mut Ctx, calls: u64| for _ in 0..calls {
            for s in h {
                if *s == THREAD {
                    let k = m;
                    let _ = std::thread::spawn(move || { let mut c = Ctx::new(); for s in 0..NAMES.len() { guarded(&mut c, s, k * 31 + s as u64); } }).join();
                } else { guarded(c, *s, m); }
                m += 1;
            }
        };
        turn(&mut c, *n);
        let mut was = live();
        for w in 0..WINDOWS {
            turn(&mut c, *n);
            let now = live();
            sh.at(u * 10 + w).store((now - was) as u64, SeqCst);
            sh.at(hist.len() * 10).fetch_add(n * h.len() as u64, SeqCst);
            // one window without growth is enough
            if now - was <= 2_048 { return 0; }
            was = now;
        }
        11
    });
    let mut told = 0;
    for (u, x) in rc.iter().enumerate() {
        if *x == 0 { continue; }
        told += 1;
        if told > 10 { continue; }
        let grown: Vec<i64> = (0..WINDOWS).map(|w| sh.at(u * 10 + w).load(SeqCst) as i64).collect();
        r.violation(json!({"problem": if *x == 11 { "held memory grows with the number of calls".to_string() } else { format!("the process ended with {}", x) }, "calls_in_turn": names(&hist[u].0), "turns_per_window": hist[u].1, "bytes_gained_per_window": grown}));
    }
    r.set("states", hist.len() as u64);
    r.set("histories", hist.len() as u64);
    r.set("transitions", sh.at(hist.len() * 10).load(SeqCst));
    r.set("traces_validated_against_impl", hist.len() as u64);
    r.set("exhaustive", true);
    r.set("streams", json!(NAMES));
    r.set("rule", "states: histories (streams of calls taken in turn: each alone, all ordered pairs, all triples of the light ones, threads); transitions: calls made; every history runs on the real code in its own process, with the allocator's own account of live bytes");
    r.sample(json!({"history": names(&hist[1].0), "first_window_growth": sh.at(10).load(SeqCst) as i64}));
    r.sample(json!({"history": names(&hist[0].0), "first_window_growth": sh.at(0).load(SeqCst) as i64}));
}

// ------------------------------------------------------------------ C24
static CAUGHT: AtomicU64 = AtomicU64::new(0);
extern "C" fn on_sys(_s: i32, i: *mut libc::siginfo_t, _c: *mut libc::c_void) {
    // si_syscall of the SIGSYS layout
    let nr = unsafe { *(i as *const i32).add(6) };
    unsafe {
        let p = CAUGHT.load(SeqCst) as *mut u64;
        if !p.is_null() { *p = 1 + nr as u64; }
        libc::_exit(12);
    }
}
const ALLOWED: [i64; 24] = [libc::SYS_brk, libc::SYS_mmap, libc::SYS_munmap, libc::SYS_mremap, libc::SYS_mprotect, libc::SYS_madvise, libc::SYS_futex, libc::SYS_getrandom,
    libc::SYS_sched_yield, libc::SYS_exit, libc::SYS_exit_group, libc::SYS_rt_sigaction, libc::SYS_rt_sigprocmask, libc::SYS_rt_sigreturn, libc::SYS_sigaltstack, libc::SYS_clock_gettime,
    libc::SYS_gettid, libc::SYS_getpid, libc::SYS_tgkill, libc::SYS_membarrier, libc::SYS_rseq, libc::SYS_set_robust_list, libc::SYS_clock_nanosleep, libc::SYS_restart_syscall];
/// From here on, any system call that reaches outside the process ends it.
fn seal(note: *mut u64) -> bool {
    unsafe {
        CAUGHT.store(note as u64, SeqCst);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_sys as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigemptyset(&mut sa.sa_mask);
        if libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut()) != 0 { return false; }
        let st = |code: u16, jt: u8, jf: u8, k: u32| libc::sock_filter { code, jt, jf, k };
        let mut f = vec![st(0x20, 0, 0, 0)]; // ld [nr]
        for (k, nr) in ALLOWED.iter().enumerate() { f.push(st(0x15, (ALLOWED.len() - k) as u8, 0, *nr as u32)); }
        f.push(st(0x06, 0, 0, 0x0003_0000)); // trap
        f.push(st(0x06, 0, 0, 0x7fff_0000)); // allow
        let prog = libc::sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
        libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && libc::prctl(libc::PR_SET_SECCOMP, 2, &prog as *const _, 0, 0) == 0
    }
}

fn digests(n: u64) -> Vec<u64> {
    (0..NAMES.len()).map(|s| {
        let mut c = Ctx::new();
        let k = if HEAVY.contains(&s) { n / 40 } else { n };
        (0..k).fold(0, |h: u64, m| { beat(); h.rotate_left(5) ^ guarded(&mut c, s, if m % 3 == 2 { m * 7919 } else { m }) })
    }).collect()
}
/// "probe <calls> <time shift>": the digest of every stream, and the environment variables asked for on the way.
fn probe(a: &[String]) {
    std::panic::set_hook(Box::new(|_| ()));
    let shift: i64 = a[1].parse().unwrap_or(0);
    let n: u64 = a[0].parse().unwrap_or(100);
    // odd shifts stand for a faster clock (in a thread of its own)
    if shift % 2 == 0 { SHIFT.store(shift, SeqCst); }
    WATCH.store(1, SeqCst);
    let d = if shift % 2 == 0 { digests(n) } else {
        std::thread::spawn(move || { STEP.store(shift.abs(), SeqCst); let d = digests(n); STEP.store(0, SeqCst); d }).join().unwrap_or_default()
    };
    WATCH.store(0, SeqCst);
    let mut asked: Vec<String> = (0..ASKS.load(SeqCst).min(64)).map(|k| unsafe { std::ffi::CStr::from_ptr(ASKED[k].load(SeqCst) as *const libc::c_char) }.to_string_lossy().into_owned()).collect();
    asked.sort();
    asked.dedup();
    println!("{}", json!({"digests": d, "asked": asked}));
}
fn run_probe(n: u64, shift: i64, env: &[(String, String)], keep: bool, cwd: &str) -> Result<Value, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = std::process::Command::new(exe);
    c.arg("probe").arg(n.to_string()).arg(shift.to_string()).current_dir(cwd);
    if !keep { c.env_clear(); }
    for (k, v) in env { c.env(k, v); }
    let o = c.output().map_err(|e| e.to_string())?;
    beat();
    refmodel::serde_json::from_slice(&o.stdout).map_err(|e| format!("{} {} {}", e, o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()))
}

fn outside(r: &'static Report) {
    let q = r.quick();
    // 1. system calls: every stream alone and every ordered pair of streams, in a sealed process
    let mut hist: Vec<(Vec<usize>, u64)> = vec![];
    for s in 0..NAMES.len() { hist.push((vec![s], if HEAVY.contains(&s) { 400 } else { 20_000 } * if q { 1 } else { 10 })); }
    for a in 0..NAMES.len() { for b in 0..NAMES.len() { if a != b { hist.push((vec![a, b], if HEAVY.contains(&a) || HEAVY.contains(&b) { 100 } else { 1_000 } * if q { 1 } else { 10 })); } } }
    let sh = Shared::new(hist.len() + 2);
    let rc = spread(hist.len(), |u| {
        let (h, n) = &hist[u];
        // the calls are the first of the process, but for what it needs to make them
        let mut c = Ctx::new();
        if !seal(unsafe { sh.0.add(u) }) { return 13; }
        for m in 0..*n { for s in h { guarded(&mut c, *s, m); } }
        sh.at(hist.len()).fetch_add(n * h.len() as u64, SeqCst);
        0
    });
    let mut told = 0;
    let sealed = !rc.iter().all(|x| *x == 13);
    for (u, x) in rc.iter().enumerate() {
        if *x == 0 || *x == 13 { continue; }
        told += 1;
        if told > 8 { continue; }
        r.violation(json!({"problem": if *x == 12 { format!("a call reaches outside the process: system call number {}", sh.at(u).load(SeqCst) as i64 - 1) } else { format!("the process ended with {}", x) }, "calls_in_turn": names(&hist[u].0)}));
    }
    // 2. environments
    let n = if q { 10_000 } else { 200_000 };
    let scratch = format!("{}/scratch/c24-{}", refmodel::report::root(), std::process::id());
    std::fs::create_dir_all(&scratch).expect("scratch");
    let s = |k: &str, v: &str| (k.to_string(), v.to_string());
    let mut runs = 0u64;
    let base = run_probe(n, 0, &[], true, &scratch);
    let base = match base { Ok(b) => b, Err(e) => { eprintln!("probe failed: {}", e); let _ = std::fs::remove_dir_all(&scratch); std::process::exit(3) } };
    let mut cases: Vec<(String, i64, Vec<(String, String)>, bool, String)> = vec![];
    for (w, keep) in [("again", true), ("no environment", false)] { cases.push((w.into(), 0, vec![], keep, scratch.clone())); }
    for d in ["/", "/tmp", "/proc"] { cases.push((format!("working directory {}", d), 0, vec![], true, d.into())); }
    for h in [1i64, 6, 12, 18, 24, 48, 72, 96, 120, 144, 24 * 31, 24 * 61, 24 * 92, 24 * 183, 24 * 365, 24 * 366 * 12, 24 * 366 * 40, -24 * 366 * 20] { cases.push((format!("time shifted by {} h", h), h * 3600, vec![], true, scratch.clone())); }
    for h in [1i64, 61, 3601, 86401] { cases.push((format!("a thread, and {} s later at every look at the clock", h), h, vec![], true, scratch.clone())); }
    for l in ["C", "POSIX", "en_US.UTF-8", "de_DE.UTF-8", "pl_PL", "ar_EG.UTF-8", "tr_TR", "ja_JP", ""] {
        cases.push((format!("locale {:?}", l), 0, ["LANG", "LC_ALL", "LC_NUMERIC", "LC_CTYPE", "LC_MESSAGES", "LANGUAGE", "LC_COLLATE"].iter().map(|k| s(k, l)).collect(), true, scratch.clone()));
    }
    for v in ["0", "1", "", "true"] {
        cases.push((format!("switches {:?}", v), 0, ["DEBUG", "CI", "TEST", "RUST_LOG", "RUST_BACKTRACE", "NO_COLOR", "PROFILE", "CARGO", "ICU_DATA", "CLDR_VERSION", "CLDR", "SOURCE_DATE_EPOCH", "TZ", "HOME", "USER", "TMPDIR", "PLURALRULES_STRICT", "PLURAL_RULES", "INTL", "INTL_DEBUG", "STRICT"].iter().map(|k| s(k, v)).collect(), true, scratch.clone()));
    }
    let mut asked: Vec<String> = vec![];
    let mut next: Vec<String> = vec![];
    let learn = |v: &Value, asked: &mut Vec<String>, next: &mut Vec<String>| for x in v["asked"].as_array().into_iter().flatten().filter_map(|x| x.as_str()) { if !asked.iter().any(|y| y == x) { asked.push(x.into()); next.push(x.into()); } };
    learn(&base, &mut asked, &mut next);
    loop {
        // every variable that was asked for, set to different values
        for k in next.drain(..) { for v in ["", "0", "1", "2", "true", "false", "C", "en", "pl", "ar_EG.UTF-8", "x"] { cases.push((format!("{}={:?}", k, v), 0, vec![s(&k, v)], true, scratch.clone())); } }
        if cases.is_empty() { break; }
        for (what, shift, env, keep, cwd) in cases.drain(..) {
            runs += 1;
            match run_probe(n, shift, &env, keep, &cwd) {
                Ok(v) => {
                    learn(&v, &mut asked, &mut next);
                    if v["digests"] != base["digests"] && r.n_violations() < 12 {
                        let which: Vec<&str> = (0..NAMES.len()).filter(|k| v["digests"][*k] != base["digests"][*k]).map(|k| NAMES[k]).collect();
                        r.violation(json!({"problem": "the same calls give other results", "environment": what, "calls": which}));
                    }
                }
                Err(e) => r.violation(json!({"problem": "the calls do not end normally", "environment": what, "how": e})),
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let _ = std::fs::remove_dir(format!("{}/scratch", refmodel::report::root()));
    r.set("states", hist.len() as u64 + runs);
    r.set("histories_in_a_sealed_process", if sealed { hist.len() as u64 } else { 0 });
    r.set("environments", runs);
    r.set("variables_asked_for", json!(asked));
    r.set("transitions", sh.at(hist.len()).load(SeqCst) + runs * n * ((NAMES.len() - HEAVY.len()) as u64));
    r.set("traces_validated_against_impl", hist.len() as u64 + runs);
    r.set("exhaustive", sealed);
    r.set("rule", "states: histories run with every outside system call trapped, and environments; transitions: calls made; every one runs on the real code in its own process");
    r.sample(json!({"sealed": names(&hist[NAMES.len()].0)}));
    r.sample(json!({"digest_of": NAMES[0], "is": base["digests"][0]}));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 4 && a[1] == "probe" { return probe(&a[2..]); }
    if a.len() < 3 { eprintln!("usage: h_env <property> <quick|thorough> | h_env replay <file>"); std::process::exit(2); }
    if a[1] == "replay" { println!("{}", std::fs::read_to_string(&a[2]).unwrap_or_default()); return; }
    let r = Report::new(&a[1], &a[2]);
    match a[1].as_str() {
        "C23" => memory(r),
        "C24" => outside(r),
        x => { eprintln!("unknown property {}", x); std::process::exit(2) }
    }
    r.finish_and_exit();
}
