//! The public operations of the library as data, with observable results as text.
use crate::common::*;
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::{PluralRuleType, PluralRules};
use refmodel::caught;
use std::cell::RefCell;
use std::convert::TryFrom;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In {
    S(&'static str),
    Owned(&'static str),
    U8(u8),
    U64(u64),
    Us(usize),
    I32(i32),
    I64(i64),
    F32(f32),
    F64(f64),
    /// ready-made operands of this numeral
    Ops(&'static str),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Create(u8, &'static str, &'static str),
    Select(u8, In),
    CloneTo(u8, u8),
    Drop(u8),
    Locales(&'static str),
    Locale(u8),
    Conv(In),
}

/// What the model knows of a slot: nothing, or the identity of the object in it.
pub type Slot = Option<(&'static str, &'static str)>;
pub type Slots = [Slot; 2];

impl Op {
    pub fn enabled(&self, s: &Slots) -> bool {
        match self {
            Op::Select(k, _) | Op::CloneTo(k, _) | Op::Drop(k) | Op::Locale(k) => s[*k as usize].is_some(),
            _ => true,
        }
    }
    /// Model transition. `created` tells whether this create is one that succeeds in a fresh process.
    pub fn step(&self, s: &mut Slots, created: bool) {
        match self {
            Op::Create(k, a, b) => { if created { s[*k as usize] = Some((a, b)); } }
            Op::CloneTo(a, b) => s[*b as usize] = s[*a as usize],
            Op::Drop(a) => s[*a as usize] = None,
            _ => {}
        }
    }
    /// The shortest history that ends with this call made on the same kind of object.
    pub fn minimal(&self, s: &Slots) -> Vec<Op> {
        match self {
            Op::Select(k, _) | Op::CloneTo(k, _) | Op::Drop(k) | Op::Locale(k) => {
                let (a, b) = s[*k as usize].unwrap();
                vec![Op::Create(*k, a, b), *self]
            }
            _ => vec![*self],
        }
    }
    pub fn key(&self, s: &Slots) -> String { format!("{:?}", self.minimal(s)) }
}

thread_local!(static BUF: RefCell<[u8; 64]> = const { RefCell::new([0; 64]) });
/// All borrowed text is passed from one buffer, so that different texts share an address.
pub fn with_text<R>(t: &str, f: impl FnOnce(&str) -> R) -> R {
    BUF.with(|b| {
        let mut b = b.borrow_mut();
        b[..t.len()].copy_from_slice(t.as_bytes());
        f(std::str::from_utf8(&b[..t.len()]).unwrap())
    })
}

pub fn ready(s: &str) -> PluralOperands {
    let (a, b) = s.split_once('.').unwrap_or((s, ""));
    model_ops(&refmodel::dec::Num::from_digits(a, b).unwrap())
}

pub fn select(pr: &PluralRules, i: In) -> Result<intl_pluralrules::PluralCategory, &'static str> {
    match i {
        In::S(s) => with_text(s, |s| pr.select(s)),
        In::Owned(s) => pr.select(s.to_string()),
        In::U8(x) => pr.select(x),
        In::U64(x) => pr.select(x),
        In::Us(x) => pr.select(x),
        In::I32(x) => pr.select(x),
        In::I64(x) => pr.select(x),
        In::F32(x) => pr.select(x),
        In::F64(x) => pr.select(x),
        In::Ops(s) => pr.select(ready(s)),
    }
}

pub fn conv(i: In) -> Result<PluralOperands, &'static str> {
    match i {
        In::S(s) => with_text(s, |s| PluralOperands::try_from(s)),
        In::Owned(s) => PluralOperands::try_from(s.to_string()),
        In::U8(x) => Ok(PluralOperands::from(x)),
        In::U64(x) => Ok(PluralOperands::from(x)),
        In::Us(x) => Ok(PluralOperands::from(x)),
        In::I32(x) => PluralOperands::try_from(x),
        In::I64(x) => PluralOperands::try_from(x),
        In::F32(x) => PluralOperands::try_from(x),
        In::F64(x) => PluralOperands::try_from(x),
        In::Ops(s) => Ok(ready(s)),
    }
}

pub fn locales(kind: &str) -> String {
    let t = if kind == "cardinal" { PluralRuleType::CARDINAL } else { PluralRuleType::ORDINAL };
    let l = PluralRules::get_locales(t);
    l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

#[derive(Default)]
pub struct World { pub slots: [Option<PluralRules>; 2] }

impl World {
    /// Execute one call on the real library.
    pub fn exec(&mut self, op: &Op) -> String {
        let slots = &mut self.slots;
        caught(|| match *op {
            Op::Create(k, a, b) => match PluralRules::create(lid(b), prt(a)) {
                Ok(p) => { slots[k as usize] = Some(p); "created".to_string() }
                Err(e) => format!("error {}", e),
            },
            Op::Select(k, i) => match slots[k as usize].as_ref() {
                Some(p) => format!("{:?}", select(p, i)),
                None => "no object".into(),
            },
            Op::CloneTo(a, b) => { let c = slots[a as usize].clone(); let some = c.is_some(); slots[b as usize] = c; format!("cloned {}", some) }
            Op::Drop(a) => { slots[a as usize] = None; "dropped".into() }
            Op::Locales(k) => locales(k),
            Op::Locale(a) => slots[a as usize].as_ref().map(|p| p.get_locale().to_string()).unwrap_or_else(|| "no object".into()),
            Op::Conv(i) => format!("{:?}", conv(i)),
        }).unwrap_or_else(|p| format!("panic {}", p))
    }
}

// ------------------------------------------------------------------ processes
/// Memory shared between the processes of one exploration.
pub struct Shared(pub *mut u64, pub usize);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
impl Shared {
    pub fn new(words: usize) -> Shared {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), words * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        Shared(p as *mut u64, words)
    }
    pub fn at(&self, k: usize) -> &std::sync::atomic::AtomicU64 { assert!(k < self.1); unsafe { &*(self.0.add(k) as *const std::sync::atomic::AtomicU64) } }
    pub fn inc(&self, k: usize, n: u64) -> u64 { self.at(k).fetch_add(n, std::sync::atomic::Ordering::SeqCst) }
    pub fn get(&self, k: usize) -> u64 { self.at(k).load(std::sync::atomic::Ordering::SeqCst) }
    pub fn set(&self, k: usize, v: u64) { self.at(k).store(v, std::sync::atomic::Ordering::SeqCst) }
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum End { Exit(i32), Signal(i32) }
/// Run `f` in a forked child whose state is exactly the caller's, and wait for it.
pub fn in_child(seconds: u32, f: impl FnOnce() -> i32) -> End {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::alarm(seconds);
            let rc = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(77);
            libc::_exit(rc);
        }
        wait(pid)
    }
}
pub fn spawn_child(f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let rc = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(77);
            libc::_exit(rc);
        }
        pid
    }
}
pub fn wait(pid: i32) -> End {
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid { break; }
        assert!(std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted);
    }
    if libc::WIFEXITED(st) { End::Exit(libc::WEXITSTATUS(st)) } else { End::Signal(libc::WTERMSIG(st)) }
}
/// Result of `f` computed in a forked child.
pub fn text_in_child(seconds: u32, f: impl FnOnce() -> String) -> String {
    unsafe {
        let mut p = [0; 2];
        assert!(libc::pipe(p.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::alarm(seconds);
            let s = f();
            let b = s.as_bytes();
            let mut k = 0;
            while k < b.len() { let n = libc::write(p[1], b[k..].as_ptr() as *const _, b.len() - k); if n <= 0 { break; } k += n as usize; }
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::read(p[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 { break; }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(p[0]);
        match wait(pid) { End::Exit(0) => String::from_utf8_lossy(&out).into_owned(), e => format!("process ended: {:?}", e) }
    }
}
