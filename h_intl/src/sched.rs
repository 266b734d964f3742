//! C09: a controlled scheduler on the compiled code. A thread runs with the CPU's trap flag set, so that it can be
//! stopped after any machine instruction; every instruction boundary of a call is a scheduling point.
//!   one preemption:  A executes k instructions, B runs to its end, A finishes            (all k)
//!   two preemptions: A executes k, B executes j, A finishes, B finishes                  (all k, j)
//!   three:           A executes k, B executes j, A goes on up to its m-th next shared access, B finishes, A finishes
//!   a third thread:  A executes k, B executes j, C runs to its end, A finishes, B finishes
//! With more than one preemption the stops of most pairs are those around the instructions that touch shared memory
//! (writable data of the program, or the shared objects), found by running each call once with that memory protected.
//! When both threads are done, a few calls are made one after the other: a race must not leave anything behind.
//! To reach instruction k quickly, a recorded trace of the call gives a nearby earlier address
//! that is passed not at all or rarely before; a breakpoint there takes the thread close to k at full speed and the trap flag does the rest. If the thread
//! does not pass there (the call takes another path), the schedule is run again with the trap flag from the start.
//! Every schedule runs in its own forked process, so the library's state is that of a fresh process (or of the
//! stated warm-up). A thread that cannot go on (it waits for the stopped one) is detected and the stopped one resumed.
use crate::calls::*;
use crate::common::*;
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::{PluralCategory, PluralRules};
use refmodel::report::{beat, Report};
use refmodel::serde_json::json;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};
use unic_langid::LanguageIdentifier;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T {
    /// select on a shared object
    Sel(u8, In),
    Conv(In),
    Create(&'static str, &'static str),
    /// create, then select on the new object
    CreateSel(&'static str, &'static str, In),
    Locales(&'static str),
    Locale(u8),
    CloneSel(u8, In),
    /// two creations in a row, the first object dropped
    Creates(&'static str, &'static str, &'static str, &'static str),
    /// two calls in a row
    Two(u8, In, u8, In),
}

enum Res {
    C(Result<PluralCategory, &'static str>),
    O(Result<PluralOperands, &'static str>),
    P(Result<PluralRules, &'static str>),
    PC(PluralRules, Result<PluralCategory, &'static str>),
    L(Vec<LanguageIdentifier>),
    G(LanguageIdentifier),
    CC(Result<PluralCategory, &'static str>, Result<PluralCategory, &'static str>),
    Panic,
    None,
}

const SHARED: [(&str, &str); 4] = [("cardinal", "en"), ("cardinal", "pl"), ("ordinal", "en"), ("cardinal", "ar")];

#[inline(never)]
fn perform(t: &T, id: &Option<LanguageIdentifier>, objs: &[PluralRules]) -> Res {
    match *t {
        T::Sel(k, i) => Res::C(select(&objs[k as usize], i)),
        T::Conv(i) => Res::O(conv(i)),
        T::Create(k, _) => Res::P(PluralRules::create(id.clone().unwrap(), prt(k))),
        T::CreateSel(k, _, i) => match PluralRules::create(id.clone().unwrap(), prt(k)) {
            Ok(p) => { let c = select(&p, i); Res::PC(p, c) }
            Err(e) => Res::P(Err(e)),
        },
        T::Creates(k, l, k2, _) => { drop(PluralRules::create(lid(l), prt(k))); Res::P(PluralRules::create(id.clone().unwrap(), prt(k2))) }
        T::Locales(k) => Res::L(PluralRules::get_locales(prt(k))),
        T::Locale(k) => Res::G(objs[k as usize].get_locale().clone()),
        T::CloneSel(k, i) => { let c = objs[k as usize].clone(); Res::C(select(&c, i)) }
        T::Two(a, i, b, j) => Res::CC(select(&objs[a as usize], i), select(&objs[b as usize], j)),
    }
}

fn object(p: &PluralRules) -> String {
    let probes: Vec<String> = ["0", "1", "2", "3", "5", "11", "21", "1.5"].iter().map(|x| format!("{:?}", p.select(ready(x)))).collect();
    format!("object {} {}", p.get_locale(), probes.join(" "))
}
fn show(r: &Res) -> String {
    match r {
        Res::C(c) => format!("{:?}", c),
        Res::O(o) => format!("{:?}", o),
        Res::P(Err(e)) => format!("error {}", e),
        Res::P(Ok(p)) => object(p),
        Res::PC(p, c) => format!("{:?} {}", c, object(p)),
        Res::L(l) => l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
        Res::G(l) => l.to_string(),
        Res::CC(a, b) => format!("{:?} {:?}", a, b),
        Res::Panic => "panic".into(),
        Res::None => "no result".into(),
    }
}

// ------------------------------------------------------------------ trap-flag stepping
thread_local!(static WHO: Cell<usize> = const { Cell::new(usize::MAX) });
static COUNT: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static TARGET: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
/// 0 idle, 1 paused, 2 finished
static STATE: [AtomicU32; 3] = [AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0)];
static RESUME: [AtomicU32; 2] = [AtomicU32::new(0), AtomicU32::new(0)];
static GO: [AtomicU32; 3] = [AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0)];
static TID: [AtomicU32; 3] = [AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0)];
/// Addresses of the instructions that touch shared memory, sorted; how many more of them a thread may come to before
/// it stops (0: it does not stop there).
static mut ACCESS: [u64; 1024] = [0; 1024];
static ACCESSES: AtomicU64 = AtomicU64::new(0);
static MORE: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
fn is_access(rip: u64) -> bool {
    let n = ACCESSES.load(SeqCst) as usize;
    #[allow(static_mut_refs)]
    unsafe { ACCESS[..n].binary_search(&rip).is_ok() }
}
/// set when either thread changes STATE
static EVENT: AtomicU32 = AtomicU32::new(0);

fn fwait(a: &AtomicU32, seen: u32, us: u64) {
    let ts = libc::timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000 * 1000) as i64 };
    unsafe { libc::syscall(libc::SYS_futex, a as *const AtomicU32, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, seen, &ts as *const _) };
}
fn fset(a: &AtomicU32, v: u32) {
    a.store(v, SeqCst);
    unsafe { libc::syscall(libc::SYS_futex, a as *const AtomicU32, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, i32::MAX) };
}
fn state(who: usize, s: u32) {
    STATE[who].store(s, SeqCst);
    let e = EVENT.load(SeqCst);
    fset(&EVENT, e + 1);
}

/// A place on the way: the address, how often it is passed before, the step number there.
#[derive(Clone, Copy, PartialEq)]
struct Way { addr: u64, skip: u64, step: u64 }
/// Breakpoint of each thread: address (0: none), original byte, passes to let through, step number there;
/// and the address to arm again after one more instruction.
static BP: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static BP_BYTE: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static BP_SKIP: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static REARM: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static BP_STEP: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
/// Where to record the addresses of the first thread, and how many fit.
static TRACE: AtomicU64 = AtomicU64::new(0);
static TRACE_LEN: AtomicU64 = AtomicU64::new(0);

fn writable(addr: u64) -> bool { unsafe { libc::mprotect((addr & !4095) as *mut libc::c_void, 4096, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC) == 0 } }
/// Only while no thread under control is running.
fn bp_set(who: usize, w: Way) {
    let addr = w.addr;
    if !writable(addr) { return; }
    unsafe {
        BP_BYTE[who].store(std::ptr::read_volatile(addr as *const u8) as u64, SeqCst);
        BP_STEP[who].store(w.step, SeqCst);
        BP_SKIP[who].store(w.skip, SeqCst);
        BP[who].store(addr, SeqCst);
        std::ptr::write_volatile(addr as *mut u8, 0xcc);
    }
}
fn bp_clear(who: usize) {
    let a = BP[who].swap(0, SeqCst);
    if a != 0 { unsafe { std::ptr::write_volatile(a as *mut u8, BP_BYTE[who].load(SeqCst) as u8); } }
}

extern "C" fn on_trap(_s: i32, _i: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let who = WHO.with(|w| w.get());
    let uc = unsafe { &mut *(ctx as *mut libc::ucontext_t) };
    let rip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
    if who < 2 {
        let a = REARM[who].swap(0, SeqCst);
        if a != 0 {
            BP[who].store(a, SeqCst);
            unsafe { std::ptr::write_volatile(a as *mut u8, 0xcc); }
            uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
            return;
        }
    }
    for b in 0..2 {
        if BP[b].load(SeqCst) != 0 && BP[b].load(SeqCst) == rip.wrapping_sub(1) {
            bp_clear(b);
            uc.uc_mcontext.gregs[libc::REG_RIP as usize] = rip as i64 - 1;
            if who != b { return; } // somebody else passed: the schedule will be run again without it
            let left = BP_SKIP[who].load(SeqCst);
            if left > 0 {
                BP_SKIP[who].store(left - 1, SeqCst);
                REARM[who].store(rip - 1, SeqCst);
                uc.uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
                return;
            }
            // the same state as after the recorded step
            COUNT[who].store(BP_STEP[who].load(SeqCst), SeqCst);
            uc.uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
        }
    }
    if who > 1 { uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100; return; }
    let c = COUNT[who].fetch_add(1, SeqCst);
    if who == 0 && c < TRACE_LEN.load(SeqCst) { unsafe { *(TRACE.load(SeqCst) as *mut u64).add(c as usize) = rip; } }
    let mut stop = c == TARGET[who].load(SeqCst);
    let more = MORE[who].load(SeqCst);
    if more > 0 && is_access(rip) { MORE[who].store(more - 1, SeqCst); stop |= more == 1; }
    if stop {
        uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        let errno = unsafe { *libc::__errno_location() };
        state(who, 1);
        while RESUME[who].load(SeqCst) == 0 { fwait(&RESUME[who], 0, 30_000_000); }
        RESUME[who].store(0, SeqCst);
        // a further stop has been set: go on stepping
        if MORE[who].load(SeqCst) > 0 || TARGET[who].load(SeqCst) < NEVER - 1 && TARGET[who].load(SeqCst) > c { uc.uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100; }
        unsafe { *libc::__errno_location() = errno };
    }
}

/// The state letter of a thread, without allocating: the stopped thread may hold the allocator's lock.
fn thread_state(tid: u32) -> u8 {
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let mut digits = [0u8; 10];
    let (mut n, mut t) = (0, tid);
    while t > 0 || n == 0 { digits[n] = b'0' + (t % 10) as u8; t /= 10; n += 1; }
    for k in 0..n { path[16 + k] = digits[n - 1 - k]; }
    for (k, c) in b"/stat\0".iter().enumerate() { path[16 + n + k] = *c; }
    let mut buf = [0u8; 512];
    let got = unsafe {
        let fd = libc::open(path.as_ptr() as *const libc::c_char, libc::O_RDONLY);
        if fd < 0 { return 0; }
        let got = libc::read(fd, buf.as_mut_ptr() as *mut libc::c_void, buf.len());
        libc::close(fd);
        got
    };
    if got <= 0 { return 0; }
    let b = &buf[..got as usize];
    match b.iter().rposition(|c| *c == b')') { Some(k) if k + 2 < b.len() => b[k + 2], _ => 0 }
}

fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigemptyset(&mut sa.sa_mask);
        assert!(libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()) == 0);
    }
}
#[inline(always)]
fn trap_on() { unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") } }
#[inline(always)]
fn trap_off() { unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") } }

const NEVER: u64 = u64::MAX;

#[inline(never)]
fn stepped(step: bool, t: &T, id: &Option<LanguageIdentifier>, objs: &[PluralRules]) -> Res {
    if step { trap_on(); }
    let r = perform(t, id, objs);
    trap_off();
    r
}
/// What every controlled thread does first, so that its allocator arena and unwinding state exist.
fn prepare() {
    with_text("warm", |_| ());
    let v: Vec<Box<[u8; 40]>> = (0..4).map(|k| Box::new([k; 40])).collect();
    drop(std::hint::black_box(v));
}

/// `shared`: the shared objects are created before the threads start. Without them the calls of the two threads are
/// the first the process makes.
struct Scenario { name: &'static str, shared: bool, warm: &'static [T] }
const SCEN: [Scenario; 3] = [
    Scenario { name: "first calls of the process", shared: false, warm: &[] },
    Scenario { name: "shared objects", shared: true, warm: &[] },
    Scenario { name: "warm", shared: true, warm: &[T::Sel(0, In::S("1")), T::Sel(1, In::S("2")), T::Sel(0, In::U64(5)), T::CreateSel("cardinal", "en", In::S("1.0")), T::CreateSel("ordinal", "pl", In::U64(2)), T::Conv(In::S("1.5")), T::Locales("cardinal"), T::Locales("ordinal"), T::Sel(2, In::S("foo"))] },
];

fn ident(t: &T) -> Option<LanguageIdentifier> {
    match t { T::Create(_, l) | T::Creates(_, _, _, l) | T::CreateSel(_, l, _) => Some(lid(l)), _ => None }
}
fn needs_shared(t: &T) -> bool { !matches!(t, T::Conv(_) | T::Create(..) | T::CreateSel(..) | T::Creates(..) | T::Locales(_)) }
/// The shared objects, in pages of their own.
fn objects(sc: &Scenario) -> &'static [PluralRules] {
    if !sc.shared { return &[]; }
    let size = (SHARED.len() * std::mem::size_of::<PluralRules>() + 4095) & !4095;
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let q = p as *mut PluralRules;
        for (k, (kind, l)) in SHARED.iter().enumerate() { q.add(k).write(create(kind, l).expect("shared object")); }
        std::slice::from_raw_parts(q, SHARED.len())
    }
}

// ------------------------------------------------------------------ which instructions touch shared memory
// Everything the handlers need is thread-local: the statics of this program are among the protected pages.
thread_local! {
    static GUARD: [Cell<u64>; 8] = const { [Cell::new(0), Cell::new(0), Cell::new(0), Cell::new(0), Cell::new(0), Cell::new(0), Cell::new(0), Cell::new(0)] };
    static STEP: Cell<u64> = const { Cell::new(0) };
    /// 0 nothing, 1 read, 2 written
    static TOUCHED: Cell<u64> = const { Cell::new(0) };
    /// steps after which the recording ends
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static POINTS: Cell<*mut u64> = const { Cell::new(std::ptr::null_mut()) };
}
#[inline(always)]
fn guard(prot: u64) {
    GUARD.with(|g| {
        let mut k = 0;
        while k < 8 {
            if g[k + 1].get() == 0 { break; }
            let mut ret: u64 = 10;
            unsafe { std::arch::asm!("syscall", inlateout("rax") ret, in("rdi") g[k].get(), in("rsi") g[k + 1].get() - g[k].get(), in("rdx") prot, out("rcx") _, out("r11") _); }
            let _ = ret;
            k += 2;
        }
    })
}
const TRACED: usize = 2_000;
const STEPS: usize = 60_000;
extern "C" fn on_point(s: i32, i: *mut libc::siginfo_t, c: *mut libc::c_void) {
    if WHO.with(|w| w.get()) == 0 { return on_trap(s, i, c); }
    guard(3);
    let n = STEP.with(|s| { let n = s.get(); s.set(n + 1); n });
    let how = TOUCHED.with(|t| t.replace(0));
    let p = POINTS.with(|p| p.get());
    let rip = unsafe { (*(c as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_RIP as usize] } as u64;
    if (n as usize) < STEPS { unsafe { *p.add(TRACED + n as usize) = rip; *p.add(1) = n + 1; } }
    if n >= LIMIT.with(|l| l.get()) { unsafe { libc::_exit(0) } }
    if how > 0 {
        // words: 0 how many, 1 steps, 2 ready, 3 thread, 4.. step * 2 + written, TRACED.. the address after each step
        unsafe { let k = *p; if (k as usize) < TRACED - 4 { *p.add(4 + k as usize) = n * 2 + (how - 1); *p = k + 1; } }
    }
    guard(0);
}
extern "C" fn on_touch(_s: i32, i: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let a = unsafe { (*i).si_addr() } as u64;
    let ours = GUARD.with(|g| (0..4).any(|k| a >= g[2 * k].get() && a < g[2 * k + 1].get()));
    let write = unsafe { (*(c as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_ERR as usize] } & 2 != 0;
    guard(if write { 3 } else { 1 });
    if ours { TOUCHED.with(|t| t.set(t.get().max(1 + write as u64))); return; }
    unsafe { libc::_exit(14); }
}
/// The steps of a call that touch the program's writable data, the shared objects or what the main thread has
/// allocated. `before`: a call made first. `mid`: a call stopped after that many instructions in another thread.
/// Runs in a forked process. With `mid` it ends the process.
fn points(scen: &Scenario, before: Option<T>, mid: Option<(T, u64)>, t: T, limit: u64, buf: &Shared) {
    for k in 0..4 { buf.set(k, 0); }
    let objs = objects(scen);
    for t in scen.warm.iter().chain(before.iter()) { let _ = refmodel::caught(|| perform(t, &ident(t), objs)); }
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let exe = std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default();
    let (mut regions, mut end): (Vec<(u64, u64)>, u64) = (vec![], 0);
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let Some((a, b)) = f[0].split_once('-').and_then(|(a, b)| Some((u64::from_str_radix(a, 16).ok()?, u64::from_str_radix(b, 16).ok()?))) else { continue };
        let rw = f[1].starts_with("rw");
        if l.ends_with("[heap]") { regions.push((a, b)); } else if l.ends_with(&exe) { if rw { regions.push((a, b)); } end = b; } else if rw && a == end && f.len() == 5 { regions.push((a, b)); end = 0; }
    }
    if scen.shared { let a = objs.as_ptr() as u64; regions.push((a, (a + std::mem::size_of_val(objs) as u64 + 4095) & !4095)); }
    regions.sort();
    let mut joined: Vec<(u64, u64)> = vec![];
    for (a, b) in regions { match joined.last_mut() { Some(l) if l.1 == a => l.1 = b, _ => joined.push((a, b)) } }
    joined.truncate(4);
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigemptyset(&mut sa.sa_mask);
        sa.sa_sigaction = on_point as *const () as usize;
        assert!(libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()) == 0);
        sa.sa_sigaction = on_touch as *const () as usize;
        assert!(libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut()) == 0);
    }
    let p = buf.0 as u64;
    std::thread::scope(|s| {
        if let Some((ta, k)) = mid {
            TARGET[0].store(k, SeqCst);
            COUNT[0].store(0, SeqCst);
            std::thread::Builder::new().stack_size(256 * 1024).spawn_scoped(s, move || {
                WHO.with(|w| w.set(0));
                let id = ident(&ta);
                prepare();
                while STATE[1].load(SeqCst) != 3 { fwait(&STATE[1], 0, 1000); }
                TID[0].store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, SeqCst);
                let r = refmodel::caught(|| stepped(true, &ta, &id, objs));
                trap_off();
                std::mem::forget(r);
                state(0, 2);
                loop { unsafe { libc::sleep(1000); } }
            }).expect("thread");
        }
        std::thread::Builder::new().stack_size(256 * 1024).spawn_scoped(s, move || {
            let id = ident(&t);
            prepare();
            let word = |k: usize| unsafe { &*(p as *const AtomicU64).add(k) };
            word(3).store(unsafe { libc::syscall(libc::SYS_gettid) } as u64, SeqCst);
            LIMIT.with(|l| l.set(limit));
            // the other threads have to be asleep: they would meet the protected pages
            let asleep = |tid: u32| { let mut n = 0; while n < 3 { if thread_state(tid) == b'S' { n += 1; } else { n = 0; } std::thread::sleep(Duration::from_micros(20)); } };
            if mid.is_some() {
                state(1, 3);
                while STATE[0].load(SeqCst) == 0 { fwait(&STATE[0], 0, 1000); }
                asleep(TID[0].load(SeqCst));
                while word(2).load(SeqCst) == 0 { std::thread::sleep(Duration::from_micros(20)); }
            } else { asleep(unsafe { libc::getpid() } as u32); }
            GUARD.with(|g| for (k, (a, b)) in joined.iter().enumerate() { g[2 * k].set(*a); g[2 * k + 1].set(*b); });
            POINTS.with(|q| q.set(p as *mut u64));
            word(2).store(2, SeqCst);
            let r = refmodel::caught(|| stepped(true, &t, &id, objs));
            trap_off();
            guard(3);
            if mid.is_some() { unsafe { libc::_exit(0) } }
            std::mem::forget(r);
        }).expect("thread");
        if mid.is_some() {
            // nothing but the stack from here on: wait for the end, or until the call waits for the stopped one
            let word = |k: usize| unsafe { &*(p as *const AtomicU64).add(k) };
            word(2).store(1, SeqCst);
            let (mut still, mut at) = (0, u64::MAX);
            loop {
                let ts = libc::timespec { tv_sec: 0, tv_nsec: 300_000 };
                unsafe { libc::nanosleep(&ts, std::ptr::null_mut()); }
                if word(2).load(SeqCst) != 2 { continue; }
                let n = word(1).load(SeqCst);
                if n == at && thread_state(word(3).load(SeqCst) as u32) == b'S' { still += 1; } else { still = 0; }
                at = n;
                if still >= 3 { unsafe { libc::_exit(0) } }
            }
        }
    });
}

/// stop: instructions of A, instructions of B, shared accesses A comes to after that (it stops before the last).
/// One schedule, in the current (forked) process. Returns the two results and the number of instructions stepped.
/// Err: what went wrong.
fn schedule(scen: &Scenario, progs: [T; 2], third: Option<T>, stop: [u64; 3], near: [Option<Way>; 2], after: &[(T, &str)]) -> Result<([String; 3], [u64; 2], [bool; 2], Option<String>), String> {
    install();
    let mut near = near;
    let objs = objects(scen);
    for t in scen.warm { let _ = refmodel::caught(|| perform(t, &ident(t), objs)); }
    let mut out: [Res; 2] = [Res::None, Res::None];
    let (mut blocked, mut ended) = (false, false);
    let mut out2 = Res::None;
    let (o0, o1) = out.split_at_mut(1);
    let o2 = &mut out2;
    if let Some(w) = near[0].or(near[1]) { if !writable(w.addr) { near = [None, None]; } }
    let near = near;
    let failed = std::thread::scope(|s| {
        for (who, slot) in [(0usize, &mut o0[0]), (1, &mut o1[0])] {
            let t = progs[who];
            let near = near[who];
            TARGET[who].store(stop[who], SeqCst);
            COUNT[who].store(0, SeqCst);
            std::thread::Builder::new().stack_size(256 * 1024).spawn_scoped(s, move || {
                WHO.with(|w| w.set(who));
                let id = ident(&t);
                prepare();
                TID[who].store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, SeqCst);
                state(who, 3);
                while GO[who].load(SeqCst) == 0 { fwait(&GO[who], 0, 1_000_000); }
                let step = stop[who] != NEVER - 1 && near.is_none();
                let r = refmodel::caught(|| stepped(step, &t, &id, objs));
                trap_off();
                *slot = r.unwrap_or(Res::Panic);
                WHO.with(|w| w.set(usize::MAX));
                state(who, 2);
            }).expect("thread");
        }
        if let Some(t) = third {
            std::thread::Builder::new().stack_size(256 * 1024).spawn_scoped(s, move || {
                let id = ident(&t);
                prepare();
                TID[2].store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, SeqCst);
                state(2, 3);
                while GO[2].load(SeqCst) == 0 { fwait(&GO[2], 0, 1_000_000); }
                let r = refmodel::caught(|| perform(&t, &id, objs));
                *o2 = r.unwrap_or(Res::Panic);
                state(2, 2);
            }).expect("thread");
        }
        let wait_state = |who: usize, wanted: &[u32], patience_ms: u64, detect: bool| -> bool {
            let t0 = Instant::now();
            let mut asleep = 0;
            loop {
                let e = EVENT.load(SeqCst);
                if wanted.contains(&STATE[who].load(SeqCst)) { return true; }
                fwait(&EVENT, e, if detect { 200 } else { 1000 });
                if wanted.contains(&STATE[who].load(SeqCst)) { return true; }
                if detect && t0.elapsed() > Duration::from_micros(500) {
                    // waits for the stopped thread: asleep although it was released
                    let st = thread_state(TID[who].load(SeqCst));
                    if st == b'S' { asleep += 1; } else { asleep = 0; }
                    if asleep >= 2 { return false; }
                }
                if t0.elapsed() > Duration::from_millis(patience_ms) { return false; }
            }
        };
        let long = 15_000;
        if !wait_state(0, &[3], long, false) || !wait_state(1, &[3], long, false) || third.is_some() && !wait_state(2, &[3], long, false) { return Some("threads did not start".to_string()); }
        STATE[0].store(0, SeqCst); STATE[1].store(0, SeqCst);
        if let Some(w) = near[0] { bp_set(0, w); }
        fset(&GO[0], 1);
        if !wait_state(0, &[1, 2], long, false) { unsafe { libc::_exit(13) } }
        bp_clear(0);
        if near[0].is_some() && STATE[0].load(SeqCst) == 2 { return Some(MISSED.into()); }
        if let Some(w) = near[1] { bp_set(1, w); }
        fset(&GO[1], 1);
        if !wait_state(1, &[1, 2], 60, true) { blocked = true; }
        bp_clear(1);
        let strayed = near[1].is_some() && STATE[1].load(SeqCst) != 1 && !blocked;
        if stop[2] != NEVER && STATE[0].load(SeqCst) == 1 && STATE[1].load(SeqCst) == 1 {
            // third preemption: A up to its second stop, then B to its end
            TARGET[0].store(NEVER, SeqCst);
            MORE[0].store(stop[2], SeqCst);
            STATE[0].store(0, SeqCst);
            fset(&RESUME[0], 1);
            if !wait_state(0, &[1, 2], 60, true) { blocked = true; }
            MORE[0].store(0, SeqCst);
            ended = STATE[0].load(SeqCst) == 2;
            STATE[1].store(0, SeqCst);
            fset(&RESUME[1], 1);
            if !wait_state(1, &[2], 60, true) { blocked = true; }
        }
        if third.is_some() {
            STATE[2].store(0, SeqCst);
            fset(&GO[2], 1);
            if !wait_state(2, &[2], 60, true) { blocked = true; }
        }
        TARGET[0].store(NEVER, SeqCst);
        fset(&RESUME[0], 1);
        if !wait_state(0, &[2], if STATE[1].load(SeqCst) == 1 { 60 } else { long }, STATE[1].load(SeqCst) == 1) {
            // A waits for the stopped B
            blocked = true;
        }
        fset(&RESUME[1], 1);
        let ok = wait_state(0, &[2], long, false) && wait_state(1, &[2], long, false) && (third.is_none() || wait_state(2, &[2], long, false));
        if ok && strayed { return Some(MISSED.into()); }
        // deadlock or livelock: nothing to join
        if !ok { unsafe { libc::_exit(13) } }
        None
    });
    if let Some(f) = failed { return Err(f); }
    let results = [show(&out[0]), show(&out[1]), if third.is_some() { show(&out2) } else { String::new() }];
    let mut left = None;
    for (t, want) in after {
        let got = refmodel::caught(|| show(&perform(t, &ident(t), objs))).unwrap_or_else(|_| "panic".into());
        if got != *want { left = Some(format!("{:?}: {}, alone {}", t, got, want)); break; }
    }
    Ok((results, [COUNT[0].load(SeqCst), COUNT[1].load(SeqCst)], [blocked, ended], left))
}

const MISSED: &str = "the breakpoint was not passed";

/// For every step of a trace, the place in this program from which it is reached with the fewest signals.
fn waypoints(trace: &[u64]) -> Vec<Option<Way>> {
    let mut times = std::collections::HashMap::new();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let exe = std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default();
    let text: Vec<(u64, u64)> = maps.lines().filter(|l| l.ends_with(&exe) && l.split(' ').nth(1).map(|p| p.contains('x')).unwrap_or(false))
        .filter_map(|l| { let (a, b) = l.split(' ').next()?.split_once('-')?; Some((u64::from_str_radix(a, 16).ok()?, u64::from_str_radix(b, 16).ok()?)) }).collect();
    // every pass that is let through costs two signals, every step one
    let mut best: Option<(u64, Way)> = None;
    trace.iter().enumerate().map(|(k, a)| {
        if let Some(x) = &mut best { x.0 += 1; }
        let seen = times.entry(*a).or_insert(0u64);
        if text.iter().any(|(x, y)| a >= x && a < y) && best.as_ref().map(|x| 2 * *seen < x.0).unwrap_or(true) && 2 * *seen < k as u64 { best = Some((2 * *seen, Way { addr: *a, skip: *seen, step: k as u64 })); }
        *seen += 1;
        best.as_ref().map(|x| x.1)
    }).collect()
}

fn alone(scen: &'static Scenario, t: T) -> String {
    text_in_child(60, || {
        let objs = objects(scen);
        for t in scen.warm { let _ = refmodel::caught(|| perform(t, &ident(t), objs)); }
        refmodel::caught(|| show(&perform(&t, &ident(&t), objs))).unwrap_or_else(|_| "panic".into())
    })
}

/// The first entry of the table: where an untouched index points.
fn first() -> &'static str { Box::leak(text_in_child(60, || PluralRules::get_locales(prt("cardinal"))[0].to_string()).into_boxed_str()) }
fn threads() -> Vec<T> {
    vec![
        T::Sel(0, In::U64(1)),
        T::Sel(1, In::U64(2)),
        T::Sel(2, In::I32(-2)),
        T::Sel(0, In::S("1")),
        T::Sel(1, In::S("2")),
        T::Sel(1, In::S("1.5")),
        T::Sel(0, In::S("foo")),
        T::Sel(3, In::Owned("103")),
        T::Conv(In::S("1.50")),
        T::Create("cardinal", "pl"),
        T::Create("ordinal", "en"),
        T::CreateSel("cardinal", "en", In::U64(1)),
        T::CreateSel("ordinal", "pl", In::S("2")),
        T::Create("cardinal", "qqq"),
        T::Create("cardinal", "en"),
        T::Create("cardinal", first()),
        T::Creates("cardinal", "pl", "cardinal", "en"),
        T::CloneSel(1, In::U64(3)),
        T::Locale(1),
        T::Two(0, In::U64(1), 1, In::U64(5)),
        T::Sel(0, In::F64(1.5)),
        T::Conv(In::F32(0.1)),
        T::Locales("cardinal"),
        T::Locales("ordinal"),
    ]
}

pub fn run(r: &'static Report) {
    let begun = Instant::now();
    let ts = threads();
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    // instructions of each call, measured
    let room = 400_000usize;
    let tr = Shared::new(room);
    let mut lens: Vec<Vec<u64>> = vec![];
    let mut ways: Vec<Vec<Vec<Option<Way>>>> = vec![];
    for sc in &SCEN {
        let (mut len, mut way) = (vec![], vec![]);
        for t in &ts {
            if !sc.shared && needs_shared(t) { len.push(0); way.push(vec![]); continue; }
            let l = text_in_child(60, || {
                TRACE.store(tr.0 as u64, SeqCst);
                TRACE_LEN.store(room as u64, SeqCst);
                match schedule(sc, [*t, T::Conv(In::U64(1))], None, [NEVER, NEVER - 1, NEVER], [None, None], &[]) { Ok((_, c, _, _)) => c[0].to_string(), Err(e) => e }
            });
            match l.parse::<u64>() {
                Ok(x) if x > 5 => {
                    len.push(x);
                    way.push(waypoints(&(0..(x as usize).min(room)).map(|k| tr.get(k)).collect::<Vec<_>>()));
                }
                _ => { eprintln!("single-stepping does not work here: {} {:?}", l, t); std::process::exit(3); }
            }
            beat();
        }
        lens.push(len);
        ways.push(way);
    }
    let near = |sc: usize, t: usize, k: u64| ways[sc][t].get(k as usize).copied().flatten();
    let want: Vec<Vec<String>> = SCEN.iter().map(|s| ts.iter().map(|t| { beat(); if !s.shared && needs_shared(t) { String::new() } else { alone(s, *t) } }).collect()).collect();
    // jobs: (scenario, a, b, stops of A, stops of B)
    let slack = 12;
    // afterwards: both calls again, and others
    let others = [T::Create("cardinal", "pl"), T::Create("ordinal", "en"), T::Create("cardinal", "en"), T::CreateSel("ordinal", "pl", In::S("2")), T::Sel(0, In::U64(1)), T::Sel(1, In::S("1.5"))];
    let later = |sc: usize, a: usize, b: usize| -> Vec<(T, &str)> {
        [ts[a], ts[b]].iter().chain(&others).filter(|t| SCEN[sc].shared || !needs_shared(t)).filter_map(|t| ts.iter().position(|x| x == t).map(|k| (*t, want[sc][k].as_str()))).collect()
    };
    #[derive(Clone)]
    struct Job { sc: usize, a: usize, b: usize, c: Option<usize>, ka: Vec<u64>, kb: Vec<std::rc::Rc<Vec<(u64, Option<Way>)>>>, most2: u64, stride: u64 }
    let mut jobs: Vec<Job> = vec![];
    // a pair of calls without shared objects is run as the first of the process and in the warmed-up one
    let apt = |sc: usize, a: usize, b: usize| {
        let needs = needs_shared(&ts[a]) || needs_shared(&ts[b]);
        if !SCEN[sc].shared { !needs } else { needs || sc == 2 || !r.quick() }
    };
    for sc in 0..SCEN.len() {
        let len = &lens[sc];
        let long = |k: usize| len[k] > if r.quick() { 1500 } else { 60_000 };
        for a in 0..ts.len() {
            for b in 0..ts.len() {
                if !apt(sc, a, b) { continue; }
                // every instruction boundary; long calls in the quick tier at a stride of 1/400 of their length
                let stride = if long(a) && (SCEN[sc].shared || matches!(ts[b], T::Conv(_))) { len[a] / 400 } else { 1 };
                jobs.push(Job { sc, a, b, c: None, ka: (0..len[a] + slack).step_by(stride.max(1) as usize).collect(), kb: vec![], most2: 0, stride });
            }
        }
    }
    // two preemptions: all pairs of positions, for the pairs of calls with the fewest of them, up to a number of schedules
    let mut two: Vec<(u64, usize, usize, usize)> = vec![];
    for sc in 0..SCEN.len() { for a in 0..ts.len() { for b in 0..ts.len() { if apt(sc, a, b) { two.push(((lens[sc][a] + slack) * (lens[sc][b] + slack), sc, a, b)); } } } }
    two.sort();
    let mut left: u64 = if r.quick() { 50_000 } else { 9_000_000 };
    for (n, sc, a, b) in two {
        if n > left { break; }
        left -= n;
        let all = std::rc::Rc::new((0..lens[sc][b] + slack).map(|k| (k, near(sc, b, k))).collect::<Vec<_>>());
        jobs.push(Job { sc, a, b, c: None, ka: (0..lens[sc][a] + slack).collect(), kb: (0..lens[sc][a] + slack).map(|_| all.clone()).collect(), most2: 0, stride: 1 });
    }
    let first_at_points = jobs.len();
    let all_positions = jobs.iter().filter(|j| !j.kb.is_empty()).count();
    // Two and three preemptions, and a third thread, around the instructions that touch shared memory. Calls of which
    // neither writes there commute. Places of A: those of the call alone. Places of B: those of the call while A is
    // stopped where it is. A stop after an access is the same as one before the next.
    let room = TRACED + STEPS;
    let most = if r.quick() { 8_000 } else { 40_000 };
    const PER: usize = 400;
    const KEEP: usize = 60;
    type Place = (u64, u64, Option<Way>, u64);
    // words of an entry: 0 accesses + 1 (0: not known), then for each: step, written, address of the instruction, way (address, skip, step)
    let record = |asked: &[(usize, Option<usize>, Option<(usize, u64)>, usize)], until: Instant| -> Vec<Option<Vec<Place>>> {
        let table = Shared::new(asked.len() * PER + 1);
        let pids: Vec<i32> = (0..n).map(|_| spawn_child(|| {
            let buf = Shared::new(room);
            loop {
                let u = table.inc(0, 1) as usize;
                if u >= asked.len() || Instant::now() > until { return 0; }
                let (sc, before, mid, t) = asked[u];
                buf.set(0, 0);
                let e = in_child(60, || { points(&SCEN[sc], before.map(|b| ts[b]), mid.map(|(a, k)| (ts[a], k)), ts[t], lens[sc][t] * 2 + 2_000, &buf); 0 });
                if e != End::Exit(0) { if std::env::var("DBG").is_ok() { eprintln!("{:?} {:?} {:?} {:?} {:?}", SCEN[sc].name, before.map(|b| ts[b]), mid, ts[t], e); } continue; }
                let k = (buf.get(0) as usize).min(TRACED - 4);
                let way = if k == 0 { vec![] } else { waypoints(&(0..(buf.get(1) as usize).min(STEPS)).map(|q| buf.get(TRACED + q)).collect::<Vec<_>>()) };
                for q in 0..k.min(KEEP) {
                    let w = buf.get(4 + q);
                    let step = (w / 2) as usize;
                    let way = way.get(step).copied().flatten().unwrap_or(Way { addr: 0, skip: 0, step: 0 });
                    let ip = if step > 0 { buf.get(TRACED + step - 1) } else { 0 };
                    for (z, x) in [step as u64, w % 2, ip, way.addr, way.skip, way.step].iter().enumerate() { table.set(2 + u * PER + q * 6 + z, *x); }
                }
                table.set(1 + u * PER, 1 + k as u64);
            }
        })).collect();
        for p in pids { loop { let mut st = 0; if unsafe { libc::waitpid(p, &mut st, libc::WNOHANG) } == p { break; } beat(); std::thread::sleep(Duration::from_millis(5)); } }
        let all = (0..asked.len()).map(|u| {
            let k = table.get(1 + u * PER);
            if k == 0 { return None; }
            Some((0..(k as usize - 1).min(KEEP)).map(|q| { let g = |z: usize| table.get(2 + u * PER + q * 6 + z); (g(0), g(1), if g(3) == 0 { None } else { Some(Way { addr: g(3), skip: g(4), step: g(5) }) }, g(2)) }).collect())
        }).collect();
        unsafe { libc::munmap(table.0 as *mut libc::c_void, (asked.len() * PER + 1) * 8); }
        all
    };
    let mut asked: Vec<(usize, Option<usize>, Option<(usize, u64)>, usize)> = vec![];
    for sc in 0..SCEN.len() { for a in 0..ts.len() { for b in 0..ts.len() { if apt(sc, a, b) { for x in [(sc, None, None, a), (sc, Some(b), None, a)] { if lens[sc][a] <= most && !asked.contains(&x) { asked.push(x); } } } } } }
    let got = record(&asked, begun + Duration::from_secs(if r.quick() { 150 } else { 600 }));
    let touch: std::collections::HashMap<_, _> = asked.iter().cloned().zip(got).collect();
    if std::env::var("DBG").is_ok() { for x in &asked { if x.1.is_none() { eprintln!("{:?} {:?}: {:?}", SCEN[x.0].name, ts[x.3], touch[x].as_ref().map(|v| v.iter().map(|p| (p.0, p.1)).collect::<Vec<_>>())); } } }
    let places = |x: (usize, Option<usize>, Option<(usize, u64)>, usize)| touch.get(&x).and_then(|p| p.as_ref());
    // where to stop: before the first access, after each
    let stops = |p: &[Place]| -> Vec<u64> { p.first().map(|x| x.0.saturating_sub(1)).into_iter().chain(p.iter().map(|x| x.0)).collect() };
    let touches = |sc: usize, a: usize, b: usize| [(sc, None, None, a), (sc, Some(b), None, a)].iter().any(|x| places(*x).map(|p| !p.is_empty()).unwrap_or(false));
    let writes = |sc: usize, a: usize, b: usize| [(sc, None, None, a), (sc, Some(b), None, a)].iter().any(|x| places(*x).map(|p| p.iter().any(|s| s.1 == 1)).unwrap_or(false));
    let conflict = |sc: usize, a: usize, b: usize| apt(sc, a, b) && touches(sc, a, b) && touches(sc, b, a) && (writes(sc, a, b) || writes(sc, b, a)) && places((sc, None, None, a)).map(|p| !p.is_empty()).unwrap_or(false) && lens[sc][b] <= most;
    let mut mids: Vec<(usize, Option<usize>, Option<(usize, u64)>, usize)> = vec![];
    for sc in 0..SCEN.len() { for a in 0..ts.len() { for b in 0..ts.len() { if conflict(sc, a, b) { for k in stops(&touch[&(sc, None, None, a)].as_ref().unwrap()) { mids.push((sc, None, Some((a, k)), b)); } } } } }
    // the first places of all pairs first
    let rank: std::collections::HashMap<(usize, usize), usize> = (0..SCEN.len()).flat_map(|sc| (0..ts.len()).map(move |a| (sc, a))).map(|x| (x, places((x.0, None, None, x.1)).map(|p| p.len()).unwrap_or(0))).collect();
    mids.sort_by_key(|x| rank[&(x.0, x.2.unwrap().0)]);
    let got = record(&mids, Instant::now() + Duration::from_secs(if r.quick() { 60 } else { 1200 }));
    let unknown_mids = got.iter().filter(|x| x.is_none()).count();
    let mid: std::collections::HashMap<_, _> = mids.iter().cloned().zip(got).collect();
    let mut access: Vec<u64> = touch.values().chain(mid.values()).flatten().flatten().map(|p| p.3).filter(|x| *x != 0).collect();
    access.sort(); access.dedup(); access.truncate(1024);
    unsafe { for (k, x) in access.iter().enumerate() { ACCESS[k] = *x; } }
    ACCESSES.store(access.len() as u64, SeqCst);
    let (mut two, mut three, mut third): (Vec<(u64, Job)>, Vec<(u64, Job)>, Vec<(u64, Job)>) = (vec![], vec![], vec![]);
    for sc in 0..SCEN.len() { for a in 0..ts.len() { for b in 0..ts.len() {
        if !conflict(sc, a, b) { continue; }
        let own = touch[&(sc, None, None, a)].as_ref().unwrap();
        let x = stops(own);
        let y: Vec<std::rc::Rc<Vec<(u64, Option<Way>)>>> = x.iter().map(|k| std::rc::Rc::new(match mid.get(&(sc, None, Some((a, *k)), b)) {
            Some(Some(p)) => stops(p).into_iter().zip(std::iter::once(None).chain(p.iter().map(|q| q.2))).collect(),
            _ => { let mut v: Vec<u64> = [(sc, None, None, b), (sc, Some(a), None, b)].iter().filter_map(|z| places(*z)).flat_map(|p| stops(p)).collect(); v.sort(); v.dedup(); v.into_iter().map(|k| (k, near(sc, b, k))).collect() }
        })).collect();
        let n: u64 = y.iter().map(|v| v.len() as u64).sum();
        if n == 0 { continue; }
        two.push((n, Job { sc, a, b, c: None, ka: x.clone(), kb: y.clone(), most2: 0, stride: 1 }));
        // the third call: one of the two, or the writing call that touches the least
        let mut cs = vec![a, b];
        if let Some(c) = (0..ts.len()).filter(|c| *c != a && *c != b && apt(sc, a, *c) && writes(sc, *c, a)).min_by_key(|c| rank[&(sc, *c)]) { cs.push(c); }
        cs.dedup();
        for c in cs { third.push((n, Job { sc, a, b, c: Some(c), ka: x.clone(), kb: y.clone(), most2: 0, stride: 1 })); }
        three.push((n * x.len() as u64 / 2, Job { sc, a, b, c: None, ka: x.clone(), kb: y, most2: 2 * own.len() as u64 + 10, stride: 1 }));
    } } }
    let (touching, mut at_points) = (two.len(), [0u64; 3]);
    for (q, (list, budget)) in [(&mut two, if r.quick() { 60_000u64 } else { 4_000_000 }), (&mut three, if r.quick() { 50_000 } else { 4_000_000 }), (&mut third, if r.quick() { 40_000 } else { 3_000_000 })].into_iter().enumerate() {
        list.sort_by_key(|x| x.0);
        let mut left = budget;
        for (n, j) in list.drain(..) { if n > left { break; } left -= n; at_points[q] += 1; jobs.push(j); }
    }
    let mut units: Vec<(usize, usize)> = jobs.iter().enumerate().flat_map(|(k, j)| (0..j.ka.len()).map(move |s| (k, s))).collect();
    // around shared accesses first; then coarse to fine, so that running out of time thins the positions of all pairs
    // alike; two preemptions everywhere last
    units.sort_by_key(|(k, s)| { let j = &jobs[*k]; (if *k >= first_at_points { 0 } else { 1 + !j.kb.is_empty() as u8 }, ((*s + *k) as u8 & 15).reverse_bits()) });
    let units = units;
    let limit = Duration::from_secs(if r.quick() { 430 } else { 7200 });
    // words: 0 next unit, 1 schedules, 2 violations, 3 blocked, 4 instructions, 8.. first violations (job, ka, kb, ka2, kind)
    let sh = Shared::new(64);
    let dir = format!("{}/replays", refmodel::report::root().to_string() + "/evidence");
    let _ = std::fs::create_dir_all(&dir);
    let pids: Vec<i32> = (0..n).map(|_| spawn_child(|| {
        loop {
            let u = sh.inc(0, 4) as usize;
            if u >= units.len() { return 0; }
            if begun.elapsed() > limit { sh.inc(6, 1); return 0; }
            for (k, s) in &units[u..(u + 4).min(units.len())] {
                let j = &jobs[*k];
                let ka = j.ka[*s];
                let whole = std::rc::Rc::new(vec![(NEVER - 1, None)]);
                let bs = if j.kb.is_empty() { &whole } else { &j.kb[*s] };
                for (kb, bway) in bs.iter().cloned() {
                    // third preemption: A comes to its 2nd, 3rd, ... shared access from here, until it ends first
                    for ka2 in if j.most2 == 0 { NEVER..=NEVER } else { 2 - (*s == 0) as u64..=j.most2 } {
                    if begun.elapsed() > limit { sh.inc(6, 1); return 0; }
                    let go = |nr: [Option<Way>; 2]| in_child(100, || match schedule(&SCEN[j.sc], [ts[j.a], ts[j.b]], j.c.map(|c| ts[c]), [ka, kb, ka2], nr, &later(j.sc, j.a, j.b)) {
                        Ok((got, cnt, [bl, ended], left)) => {
                            sh.inc(4, cnt[0] + cnt[1]);
                            if bl { sh.inc(3, 1); }
                            if got[0] != want[j.sc][j.a] { 11 } else if got[1] != want[j.sc][j.b] { 12 } else if j.c.map(|c| got[2] != want[j.sc][c]).unwrap_or(false) { 16 } else if left.is_some() { 15 } else if ended { 17 } else { 0 }
                        }
                        Err(e) => if e == MISSED { 14 } else { 13 },
                    });
                    let fast = [near(j.sc, j.a, ka), bway];
                    let mut e = if fast == [None, None] { End::Exit(14) } else { go(fast) };
                    // whatever is wrong is judged, and replayed, without breakpoints
                    if e != End::Exit(0) && e != End::Exit(17) { sh.inc(5, 1); e = go([None, None]); }
                    sh.inc(1, 1);
                    if e == End::Exit(17) { break; }
                    if e != End::Exit(0) {
                        let v = sh.inc(2, 1) as usize;
                        if v < 8 {
                            let code = match e { End::Exit(x) => x as u64, End::Signal(x) => 100 + x as u64 };
                            for (q, w) in [*k as u64, ka, kb, ka2, code].iter().enumerate() { sh.set(8 + v * 5 + q, *w); }
                        }
                        if v >= 8 { sh.set(0, units.len() as u64); return 0; }
                    }
                    }
                }
            }
        }
    })).collect();
    let mut last = 0;
    for p in pids {
        loop {
            let mut st = 0;
            if unsafe { libc::waitpid(p, &mut st, libc::WNOHANG) } == p { break; }
            if sh.get(1) != last { last = sh.get(1); beat(); }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    for v in 0..(sh.get(2) as usize).min(8) {
        let at = |q: usize| sh.get(8 + v * 5 + q);
        let (k, ka, kb, ka2, code) = (at(0) as usize, at(1), at(2), at(3), at(4));
        let j = &jobs[k];
        beat();
        let again = text_in_child(100, || format!("{:?}", schedule(&SCEN[j.sc], [ts[j.a], ts[j.b]], j.c.map(|c| ts[c]), [ka, kb, ka2], [None, None], &later(j.sc, j.a, j.b))));
        let plan = if kb == NEVER - 1 { format!("A runs {} instructions, B runs to its end, A finishes", ka) }
            else if j.c.is_some() { format!("A runs {} instructions, B runs {}, C runs to its end, A finishes, B finishes", ka, kb) }
            else if ka2 == NEVER { format!("A runs {} instructions, B runs {}, A finishes, B finishes", ka, kb) }
            else { format!("A runs {} instructions, B runs {}, A goes on until just before its shared access number {}, B finishes, A finishes", ka, kb, ka2) };
        r.violation(json!({"state": SCEN[j.sc].name, "thread_a": format!("{:?}", ts[j.a]), "thread_b": format!("{:?}", ts[j.b]), "thread_c": j.c.map(|c| format!("{:?}, alone {}", ts[c], want[j.sc][c])),
            "schedule": plan,
            "problem": match code { 11 => "A returns another result than alone".into(), 12 => "B returns another result than alone".into(), 13 => "calls do not finish".into(), 16 => "C returns another result than alone".into(), 15 => "a later call returns another result than alone".into(), c => format!("process ended with {}", c) },
            "alone_a": want[j.sc][j.a], "alone_b": want[j.sc][j.b], "again": again}));
    }
    r.set("schedules", sh.get(1));
    r.set("states", units.len() as u64);
    r.set("transitions", sh.get(4));
    r.set("traces_validated_against_impl", sh.get(1));
    r.set("schedules_stepped_from_the_start", sh.get(5));
    r.set("schedules_where_a_thread_had_to_wait", sh.get(3));
    r.set("instructions_per_call", json!(ts.iter().zip(&lens[1]).map(|(t, l)| format!("{:?}: {}", t, l)).collect::<Vec<_>>()));
    r.set("exhaustive", jobs.iter().all(|j| j.stride <= 1) && sh.get(6) == 0);
    r.set("stopped_by_time_limit", sh.get(6) > 0);
    r.set("programs", ts.len() as u64);
    r.set("pairs_all_instruction_boundaries", jobs.iter().filter(|j| j.kb.is_empty() && j.stride <= 1).count() as u64);
    r.set("pairs_at_stride", jobs.iter().filter(|j| j.stride > 1).count() as u64);
    r.set("pairs_two_preemptions_everywhere", all_positions as u64);
    r.set("pairs_touching_shared_memory", touching as u64);
    r.set("pairs_two_preemptions_at_shared_accesses", at_points[0]);
    r.set("pairs_three_preemptions_at_shared_accesses", at_points[1]);
    r.set("triples_with_a_third_thread_at_shared_accesses", at_points[2]);
    r.set("calls_with_unknown_shared_accesses", touch.values().filter(|x| x.is_none()).count() as u64);
    r.set("accesses_recorded_beside_a_stopped_call", (mids.len() - unknown_mids) as u64);
    r.set("accesses_not_recorded_beside_a_stopped_call", unknown_mids as u64);
    r.set("instructions_touching_shared_memory", access.len() as u64);
    r.set("rule", "states: (pair of calls, instruction of the first preemption); transitions: instructions executed under control; traces: complete schedules executed on the library, each in its own process");
    for (k, t) in ts.iter().enumerate().step_by(4) { r.sample(json!({"call": format!("{:?}", t), "instructions": lens[1][k], "alone": want[1][k].chars().take(80).collect::<String>()})); }
}
