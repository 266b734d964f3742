//! C08: all operation sequences up to a depth, each executed in a process whose state is exactly that
//! history (fork per tree node); plus sequences containing every ordered pair / triple of calls over large
//! alphabets, and long repetitions. Oracle: the result of the call in the shortest history of a fresh process.
use crate::calls::*;
use crate::common::*;
use intl_pluralrules::{PluralCategory, PluralRules};
use refmodel::report::{beat, Report};
use refmodel::serde_json::json;
use std::collections::HashMap;
use unic_langid::LanguageIdentifier;

fn alphabet() -> Vec<Op> {
    let mut v = vec![];
    for (k, a, b) in [(0, "cardinal", "en"), (0, "ordinal", "en"), (0, "cardinal", "pl"), (0, "cardinal", "qqq"), (1, "cardinal", "ar"), (1, "ordinal", "en"), (1, "cardinal", "pt-PT"), (1, "ordinal", "pl"), (0, "cardinal", "pt")] {
        v.push(Op::Create(k, a, b));
    }
    for s in 0..2 {
        for i in [In::U64(1), In::U64(0), In::S("1"), In::S("1.0"), In::F64(1.0), In::S("1.5"), In::S("2"), In::I32(-5), In::S("foo"), In::U8(11), In::Owned("3"), In::S(""), In::Ops("1.10")] {
            v.push(Op::Select(s, i));
        }
        v.push(Op::Drop(s));
        v.push(Op::Locale(s));
    }
    v.push(Op::CloneTo(0, 1));
    v.push(Op::CloneTo(1, 0));
    v.push(Op::Locales("cardinal"));
    v.push(Op::Locales("ordinal"));
    for i in [In::S("1"), In::S("1.0"), In::S("foo"), In::F64(1.5), In::F32(0.1), In::I32(7), In::I64(-1), In::Owned("2.50")] { v.push(Op::Conv(i)); }
    v
}

const IDS: [(&str, &str); 8] = [("cardinal", "en"), ("cardinal", "pt"), ("ordinal", "en"), ("cardinal", "pl"), ("cardinal", "ar"), ("ordinal", "en"), ("cardinal", "pt-PT"), ("ordinal", "pl")];

struct Ctx { ops: Vec<Op>, want: HashMap<String, String>, sh: Shared, creatable: HashMap<String, bool>, roots: Vec<Vec<Op>> }
// shared words: 0 nodes, 1 deepest node count, 2 number of violations, 3.. first violations (root, len, ops...)
const V0: usize = 8;
const VW: usize = 12;

impl Ctx {
    fn report(&self, root: usize, path: &[usize]) {
        let n = self.sh.inc(2, 1) as usize;
        if n < 8 {
            self.sh.set(V0 + n * VW, root as u64);
            self.sh.set(V0 + n * VW + 1, path.len() as u64);
            for (k, p) in path.iter().enumerate() { self.sh.set(V0 + n * VW + 2 + k, *p as u64); }
        }
    }
    /// Explore all continuations of the current process state. `part` splits the first level between workers.
    fn dfs(&self, root: usize, w: &mut World, s: Slots, path: &mut Vec<usize>, depth: usize, part: Option<(usize, usize)>) {
        let mut idx = 0;
        for (k, op) in self.ops.iter().enumerate() {
            if !op.enabled(&s) { continue; }
            idx += 1;
            if let Some((p, n)) = part { if idx % n != p { continue; } }
            path.push(k);
            let end = in_child(600, || {
                unsafe { libc::alarm(if path.len() == 1 { 900 } else { 120 }); }
                let got = w.exec(op);
                self.sh.inc(0, 1);
                if self.want.get(&op.key(&s)).map(|x| *x == got) != Some(true) { self.report(root, path); return 0; }
                let mut t = s;
                op.step(&mut t, *self.creatable.get(&op.key(&s)).unwrap_or(&false));
                if path.len() < depth { self.dfs(root, w, t, path, depth, None); } else { self.sh.inc(1, 1); }
                0
            });
            if end != End::Exit(0) { self.report(root, path); }
            path.pop();
        }
    }
}

/// Expected result: the call in its minimal history, in a process that has made no other call.
fn expected(h: &[Op]) -> String {
    text_in_child(60, || {
        let mut w = World::default();
        let mut last = String::new();
        for o in h { last = w.exec(o); }
        last
    })
}

pub fn run(r: &'static Report) {
    let ops = alphabet();
    let mut want = HashMap::new();
    let mut creatable = HashMap::new();
    for op in &ops {
        let mut states: Vec<Slots> = vec![];
        for x in IDS { let mut s: Slots = [None, None]; s[0] = Some(x); s[1] = Some(x); states.push(s); }
        if op.enabled(&[None, None]) { states = vec![[None, None]]; }
        for s in states {
            let k = op.key(&s);
            if want.contains_key(&k) { continue; }
            let e = expected(&op.minimal(&s));
            creatable.insert(k.clone(), e == "created");
            want.insert(k, e);
            beat();
        }
    }
    let roots: Vec<Vec<Op>> = vec![
        vec![],
        vec![Op::Create(0, "cardinal", "en"), Op::Create(1, "ordinal", "en")],
        vec![Op::Create(0, "cardinal", "pl"), Op::Create(1, "cardinal", "ar"), Op::Select(0, In::S("2")), Op::Select(1, In::S("2"))],
        vec![Op::Create(0, "ordinal", "en"), Op::CloneTo(0, 1), Op::Select(1, In::U64(1)), Op::Select(0, In::S("foo")), Op::Locales("ordinal")],
    ];
    let depth = if r.quick() { 3 } else { 4 };
    let c = Ctx { ops, want, sh: Shared::new(V0 + 8 * VW), creatable, roots };
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    for root in 0..c.roots.len() {
        let pids: Vec<i32> = (0..n).map(|p| spawn_child(|| {
            let mut w = World::default();
            let mut s: Slots = [None, None];
            for o in &c.roots[root] {
                let got = w.exec(o);
                if Some(&got) != c.want.get(&o.key(&s)) && p == 0 { c.report(root, &[]); }
                o.step(&mut s, got == "created");
            }
            c.dfs(root, &mut w, s, &mut vec![], depth, Some((p, n)));
            0
        })).collect();
        for p in pids { wait_beating(p); }
    }
    for k in 0..(c.sh.get(2) as usize).min(8) {
        let root = c.sh.get(V0 + k * VW) as usize;
        let len = c.sh.get(V0 + k * VW + 1) as usize;
        let mut h = c.roots[root].clone();
        for j in 0..len { h.push(c.ops[c.sh.get(V0 + k * VW + 2 + j) as usize]); }
        let mut s: Slots = [None, None];
        for o in &h[..h.len() - 1] { o.step(&mut s, true); }
        let last = h[h.len() - 1];
        let alone = if last.enabled(&s) { expected(&last.minimal(&s)) } else { "?".into() };
        r.violation(json!({"history": h.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>(), "last_call_returns": expected(&h), "alone_in_a_fresh_process": alone}));
    }
    r.set("dfs_depth", depth as u64);
    r.set("dfs_alphabet", c.ops.len() as u64);
    r.set("states", c.sh.get(0));
    r.set("histories_at_full_depth", c.sh.get(1));
    let mut trans = c.sh.get(0);
    trans += pairs(r);
    trans += identities(r);
    trans += conversions(r);
    trans += disturb(r) + disturb_text(r);
    trans += large_pairs(r);
    trans += repeats(r);
    r.set("transitions", trans);
    r.set("rule", "states: distinct call histories, one forked process each; transitions: real calls compared with the fresh-process oracle, including the pair/triple-covering sequences and the repetitions");
}

fn wait_beating(pid: i32) -> End {
    loop {
        let mut st = 0;
        let x = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if x == pid { return if libc::WIFEXITED(st) { End::Exit(libc::WEXITSTATUS(st)) } else { End::Signal(libc::WTERMSIG(st)) }; }
        beat(); // children carry their own alarms
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
}

const INPUTS: [In; 26] = [
    In::U64(0), In::U64(1), In::U8(1), In::I32(1), In::I64(-1), In::S("1"), In::Owned("1"), In::S("1.0"), In::S("1.00"), In::F64(1.0), In::F32(1.5), In::F64(1.5),
    In::S("1.5"), In::S("1.50"), In::U64(2), In::S("2"), In::Us(11), In::S("11"), In::U64(257), In::U64(65537), In::U64(4294967297), In::S("foo"), In::S(""), In::I32(-5), In::Ops("0.1"), In::F64(f64::NAN),
];

fn code(x: Result<PluralCategory, &'static str>) -> u8 {
    match x { Ok(c) => cat(c) as u8, Err(e) => 10 + e.bytes().fold(0u8, |a, b| a.wrapping_mul(31).wrapping_add(b)) % 200 }
}

/// Every ordered pair of (object, input) calls occurs adjacently (order-2 de Bruijn sequence over the alphabet of
/// all shipped locales and rule types x inputs), and every ordered triple over a smaller alphabet.
fn pairs(r: &'static Report) -> u64 {
    let mut ids: Vec<(&'static str, String)> = vec![];
    for k in ["cardinal", "ordinal"] { for l in spec(k).locales.keys() { ids.push((k, l.clone())); } }
    // expected, each computed in its own fresh process
    let per = INPUTS.len();
    let sh = Shared::new(ids.len() * per + 16);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let pids: Vec<i32> = (0..n).map(|p| spawn_child(|| {
        for (i, (k, l)) in ids.iter().enumerate() {
            if i % n != p { continue; }
            for (j, inp) in INPUTS.iter().enumerate() {
                let e = in_child(60, || {
                    let c = refmodel::caught(|| create(k, l).map(|pr| code(select(&pr, *inp))).unwrap_or(254)).unwrap_or(255);
                    sh.set(16 + i * per + j, c as u64);
                    0
                });
                if e != End::Exit(0) { sh.set(16 + i * per + j, 253); }
            }
        }
        0
    })).collect();
    for p in pids { wait_beating(p); }
    let want: Vec<u8> = (0..ids.len() * per).map(|k| sh.get(16 + k) as u8).collect();
    // alphabet: quick takes every locale whose index is in a stride; thorough all
    let symbols: Vec<usize> = if r.quick() { (0..ids.len()).step_by(1).flat_map(|i| (0..per).map(move |j| i * per + j)).collect() } else { (0..ids.len() * per).collect() };
    let mut total = 0u64;
    // word 0: calls, 1: violations, 2..6: previous symbol, symbol, got, mode
    for mode in 0..2u64 {
        // mode 0: objects made beforehand; mode 1: an object made and dropped for every call
        let syms: Vec<usize> = if mode == 0 { symbols.clone() } else { (0..ids.len()).step_by(if r.quick() { 13 } else { 4 }).flat_map(|i| (0..per).map(move |j| i * per + j)).collect() };
        let m = syms.len();
        let pids: Vec<i32> = (0..n).map(|p| spawn_child(|| {
            let objs: Vec<Option<PluralRules>> = ids.iter().map(|(k, l)| create(k, l).ok()).collect();
            let mut prev = usize::MAX;
            let mut calls = 0u64;
            let mut go = |s: usize, prev: &mut usize| {
                let (i, j) = (s / per, s % per);
                let got = refmodel::caught(|| {
                    if mode == 0 { objs[i].as_ref().map(|o| code(select(o, INPUTS[j]))).unwrap_or(254) }
                    else { create(ids[i].0, &ids[i].1).map(|o| code(select(&o, INPUTS[j]))).unwrap_or(254) }
                }).unwrap_or(255);
                calls += 1;
                if got != want[s] && sh.inc(1, 1) == 0 { sh.set(2, *prev as u64); sh.set(3, s as u64); sh.set(4, got as u64); sh.set(5, mode); }
                *prev = s;
            };
            for a in 0..m {
                if a % n != p { continue; }
                unsafe { libc::alarm(300); }
                go(syms[a], &mut prev);
                for b in a + 1..m { go(syms[a], &mut prev); go(syms[b], &mut prev); }
                go(syms[a], &mut prev);
            }
            sh.inc(0, calls);
            0
        })).collect();
        for p in pids { let e = wait_beating(p); if e != End::Exit(0) { r.violation(json!({"kind": "pair-covering call sequence did not end", "end": format!("{:?}", e)})); } }
        r.set(if mode == 0 { "pair_alphabet_shared_objects" } else { "pair_alphabet_fresh_objects" }, m as u64);
    }
    // triples
    let tri: Vec<usize> = {
        let pick = [("cardinal", "en"), ("ordinal", "en"), ("cardinal", "pl"), ("ordinal", "cy"), ("cardinal", "pt-PT"), ("cardinal", "ar")];
        let ji = if r.quick() { vec![1, 5, 7, 12, 14, 21] } else { (0..per).step_by(2).collect() };
        ids.iter().enumerate().filter(|(_, x)| pick.contains(&(x.0, x.1.as_str()))).flat_map(|(i, _)| ji.iter().map(move |j| i * per + j).collect::<Vec<_>>()).collect()
    };
    let seq = de_bruijn(tri.len(), 3);
    let pid = spawn_child(|| {
        unsafe { libc::alarm(600); }
        let objs: Vec<Option<PluralRules>> = ids.iter().map(|(k, l)| create(k, l).ok()).collect();
        let mut prev = usize::MAX;
        for s in seq.iter().map(|x| tri[*x]) {
            let (i, j) = (s / per, s % per);
            let got = refmodel::caught(|| objs[i].as_ref().map(|o| code(select(o, INPUTS[j]))).unwrap_or(254)).unwrap_or(255);
            if got != want[s] && sh.inc(1, 1) == 0 { sh.set(2, prev as u64); sh.set(3, s as u64); sh.set(4, got as u64); sh.set(5, 2); }
            prev = s;
        }
        sh.inc(0, seq.len() as u64);
        0
    });
    let e = wait_beating(pid);
    if e != End::Exit(0) { r.violation(json!({"kind": "triple-covering call sequence did not end", "end": format!("{:?}", e)})); }
    r.set("triple_alphabet", tri.len() as u64);
    if sh.get(1) > 0 {
        let name = |s: u64| if s as usize >= want.len() { "none".to_string() } else { format!("{} {} {:?}", ids[s as usize / per].0, ids[s as usize / per].1, INPUTS[s as usize % per]) };
        r.violation(json!({"kind": "result differs from the fresh-process result in a long call sequence", "mismatches": sh.get(1), "call": name(sh.get(3)), "previous_call": name(sh.get(2)), "got": sh.get(4), "want": want[sh.get(3) as usize], "mode": sh.get(5)}));
    }
    total += sh.get(0);
    r.set("traces_validated_against_impl", want.len() as u64);
    r.sample(json!({"call": "cardinal/ordinal x locale x input", "fresh_process_results": want.len(), "calls_in_covering_sequences": total}));
    total
}

/// Everything observable about a freshly created object, without creating another one.
fn identity(kind: &str, l: &LanguageIdentifier) -> Vec<u8> {
    let r = refmodel::caught(|| match PluralRules::create(l.clone(), prt(kind)) {
        Err(e) => format!("error {}", e).into_bytes(),
        Ok(p) => {
            let mut v: Vec<u8> = PROBES.iter().map(|x| code(p.select(ready(x)))).collect();
            v.extend(p.get_locale().to_string().bytes());
            v
        }
    });
    r.unwrap_or_else(|p| p.into_bytes())
}
const PROBES: [&str; 22] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "11", "12", "20", "21", "40", "100", "1000000", "0.0", "0.1", "0.5", "1.0", "1.5"];

/// Creations: every ordered pair over all shipped and many other identifiers, every ordered triple over related ones.
fn identities(r: &'static Report) -> u64 {
    let mut ids: Vec<(&'static str, LanguageIdentifier)> = vec![];
    for k in ["cardinal", "ordinal"] {
        for l in spec(k).locales.keys() { ids.push((k, lid(l))); }
        for l in ["xx", "und", "qqq", "en-US", "en-GB", "en-Latn", "pt-BR", "pt-PT-valencia", "zh-Hant", "sr-Latn", "fr-CA", "ca-valencia", "pt-AO", "aa"] { ids.push((k, lid(l))); }
    }
    ids.sort_by_key(|x| (x.0, x.1.to_string()));
    ids.dedup();
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let want: Vec<Vec<u8>> = ids.iter().map(|(k, l)| { beat(); text_in_child(60, || identity(k, l).iter().map(|b| format!("{:02x}", b)).collect()) })
        .map(|t| (0..t.len() / 2).map(|k| u8::from_str_radix(&t[2 * k..2 * k + 2], 16).unwrap_or(0)).collect()).collect();
    let small: Vec<usize> = ids.iter().enumerate().filter(|(_, x)| ["en", "en-US", "en-GB", "pt", "pt-PT", "pt-BR", "pl", "ar", "xx", "und", "sr", "sr-Latn", "zh", "zh-Hant", "cy", "ca", "ca-valencia", "fil", "fi"].contains(&x.1.to_string().as_str())).map(|x| x.0).collect();
    let tri = de_bruijn(small.len(), 3);
    let sh = Shared::new(8);
    let m = ids.len();
    let pids: Vec<i32> = (0..n).map(|p| spawn_child(|| {
        unsafe { libc::alarm(600); }
        let mut prev = (usize::MAX, usize::MAX);
        let mut go = |s: usize| {
            let got = identity(ids[s].0, &ids[s].1);
            sh.inc(0, 1);
            if got != want[s] && sh.inc(1, 1) == 0 { sh.set(2, prev.0 as u64); sh.set(3, prev.1 as u64); sh.set(4, s as u64); }
            prev = (prev.1, s);
        };
        for a in 0..m { if a % n == p { for b in a..m { go(a); go(b); } go(a); } }
        if p == 0 { for s in &tri { go(small[*s]); } }
        0
    })).collect();
    for p in pids { let e = wait_beating(p); if e != End::Exit(0) { r.violation(json!({"kind": "sequence of creations did not end", "end": format!("{:?}", e)})); } }
    if sh.get(1) > 0 {
        let name = |k: u64| ids.get(k as usize).map(|x| format!("create {} {}", x.0, x.1)).unwrap_or("none".into());
        r.violation(json!({"kind": "a created object (or refusal) differs from a fresh process", "mismatches": sh.get(1), "history": [name(sh.get(2)), name(sh.get(3)), name(sh.get(4))]}));
    }
    r.set("creation_pair_alphabet", m as u64);
    r.set("creation_triple_alphabet", small.len() as u64);
    sh.get(0)
}

/// Conversions: every ordered pair over many inputs, every ordered triple over fewer.
fn conversions(r: &'static Report) -> u64 {
    let mut all: Vec<In> = INPUTS.to_vec();
    for t in ["0", "0.0", "0.5", "1.05", "1.005", "1.10", "10", "-1", "-1.5", "-0", "01", "1e3", "inf", "NaN", "-", ".", "1.", ".5", "12.50", "9007199254740993", "18446744073709551615", "18446744073709551616", "1.18446744073709551616", "00000000000000000001.5"] { all.push(In::S(t)); all.push(In::Owned(t)); }
    for x in [0.1, 1e21, 5e-324, -2.5, 1e300] { all.push(In::F64(x)); all.push(In::F32(x as f32)); }
    for x in [i64::MIN, i64::MAX, -256, 65536] { all.push(In::I64(x)); all.push(In::I32(x as i32)); all.push(In::Us(x as usize)); all.push(In::U8(x as u8)); }
    let show = |i: In| refmodel::caught(|| format!("{:?}", conv(i))).unwrap_or_else(|p| p);
    let want: Vec<String> = all.iter().map(|i| { beat(); text_in_child(60, || show(*i)) }).collect();
    let small = 26;
    let tri = de_bruijn(small, 3);
    let sh = Shared::new(8);
    let pid = spawn_child(|| {
        unsafe { libc::alarm(600); }
        let mut prev = usize::MAX;
        let mut go = |s: usize| {
            sh.inc(0, 1);
            if show(all[s]) != want[s] && sh.inc(1, 1) == 0 { sh.set(2, prev as u64); sh.set(3, s as u64); }
            prev = s;
        };
        for a in 0..all.len() { for b in a..all.len() { go(a); go(b); } go(a); }
        for s in &tri { go(*s); }
        0
    });
    let e = wait_beating(pid);
    if e != End::Exit(0) { r.violation(json!({"kind": "sequence of conversions did not end", "end": format!("{:?}", e)})); }
    if sh.get(1) > 0 {
        let name = |k: u64| all.get(k as usize).map(|x| format!("{:?}", x)).unwrap_or("none".into());
        r.violation(json!({"kind": "a conversion differs from a fresh process", "mismatches": sh.get(1), "previous": name(sh.get(2)), "call": name(sh.get(3)), "want": want[sh.get(3) as usize]}));
    }
    r.set("conversion_pair_alphabet", all.len() as u64);
    sh.get(0)
}

/// Probes repeated with one other call in between, over a large domain of other calls: whatever is remembered of the
/// other number (whole, or reduced to some bits, digits or residue) must not show in the probe.
fn disturb(r: &'static Report) -> u64 {
    let mut ids: Vec<(&'static str, String)> = vec![];
    for k in ["cardinal", "ordinal"] { for l in spec(k).locales.keys() { ids.push((k, l.clone())); } }
    const P: [&str; 10] = ["0", "1", "2", "3", "5", "11", "1.0", "1.5", "0.1", "2.00"];
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let per = P.len() * 2;
    let sh = Shared::new(16 + ids.len() * per);
    // the probe j of object i: as text, and as an integer when it is one
    let probe = |pr: &PluralRules, j: usize| -> u8 {
        let t = P[j / 2];
        refmodel::caught(|| code(match t.parse::<u64>() { Ok(x) if j % 2 == 1 => pr.select(x), _ => pr.select(t) })).unwrap_or(255)
    };
    let top: u64 = if r.quick() { 70_000 } else { 1_100_000 };
    let each: u64 = if r.quick() { 1_200 } else { 20_000 };
    let pids: Vec<i32> = (0..n).map(|p| spawn_child(|| {
        for i in (p..ids.len()).step_by(n) { for j in 0..per { in_child(60, || { sh.set(16 + i * per + j, create(ids[i].0, &ids[i].1).map(|o| probe(&o, j)).unwrap_or(254) as u64); 0 }); } }
        0
    })).collect();
    for p in pids { wait_beating(p); }
    let want: Vec<u8> = (0..ids.len() * per).map(|k| sh.get(16 + k) as u8).collect();
    let pids: Vec<i32> = (0..n).map(|p| spawn_child(|| {
        let mut calls = 0u64;
        for i in (p..ids.len()).step_by(n) {
            unsafe { libc::alarm(600); }
            let pr = match create(ids[i].0, &ids[i].1) { Ok(x) => x, Err(_) => continue };
            let check = |j: usize, other: u64, how: u64| {
                let got = probe(&pr, j);
                if got != want[i * per + j] && sh.inc(1, 1) == 0 { for (q, w) in [i as u64, j as u64, other, how, got as u64].iter().enumerate() { sh.set(2 + q, *w); } }
            };
            for m in 0..top {
                // all probes after small numbers, a few after large ones
                let js: &[usize] = if m < each { &[0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 1, 3, 5, 7, 9, 11] } else { &[1, 3, 5] };
                for j in js { let _ = refmodel::caught(|| pr.select(m)); check(*j, m, 0); calls += 2; }
                if m < each {
                    let (a, b) = (m.to_string(), format!("{}.{:02}", m / 100, m % 100));
                    for j in js { let _ = refmodel::caught(|| pr.select(a.as_str())); check(*j, m, 1); let _ = refmodel::caught(|| pr.select(b.as_str())); check(*j, m, 2); let _ = refmodel::caught(|| pr.select(m as f64 / 10.0)); check(*j, m, 3); calls += 6; }
                }
            }
        }
        sh.inc(0, calls);
        0
    })).collect();
    for p in pids { let e = wait_beating(p); if e != End::Exit(0) { r.violation(json!({"kind": "probe sequence did not end", "end": format!("{:?}", e)})); } }
    if sh.get(1) > 0 {
        let (i, j) = (sh.get(2) as usize, sh.get(3) as usize);
        r.violation(json!({"kind": "a call in between changes the result", "mismatches": sh.get(1), "type": ids[i].0, "locale": ids[i].1, "probe": format!("select({}{})", P[j / 2], if j % 2 == 1 { " as u64 where integral" } else { " as text" }), "in_between": format!("{} ({})", sh.get(4), ["u64", "text", "text, hundredths", "f64, tenths"][sh.get(5) as usize]), "got": sh.get(6), "want": want[i * per + j]}));
    }
    r.set("disturbing_numbers", top);
    sh.get(0)
}

/// The same for conversions, whose results are compared whole, and for selection from text in a few locales.
fn disturb_text(r: &'static Report) -> u64 {
    const P: [&str; 12] = ["0", "1", "2", "5", "11", "100", "1.0", "1.5", "0.1", "2.00", "1234567", "1000000.25"];
    const L: [(&str, &str); 4] = [("cardinal", "pl"), ("cardinal", "ar"), ("ordinal", "en"), ("cardinal", "lt")];
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4) as u64;
    let top: u64 = if r.quick() { 1_000_000 } else { 20_000_000 };
    let selects: u64 = if r.quick() { 200_000 } else { 3_000_000 };
    let text = |i: In| refmodel::caught(|| format!("{:?}", conv(i))).unwrap_or_else(|p| p);
    let want: Vec<String> = P.iter().map(|t| { beat(); text_in_child(60, || text(In::S(t))) }).collect();
    let sh = Shared::new(16 + L.len() * P.len());
    for (i, (k, l)) in L.iter().enumerate() { for (j, t) in P.iter().enumerate() { in_child(60, || { sh.set(16 + i * P.len() + j, create(k, l).map(|o| refmodel::caught(|| code(o.select(*t))).unwrap_or(255)).unwrap_or(254) as u64); 0 }); } }
    // the other call: text, text with two decimals, text with leading zeros, floats, integers
    let forms = |m: u64, h: u64| match h { 0 => m.to_string(), 1 => format!("{}.{:02}", m / 100, m % 100), 2 => format!("{}.{:05}", m % 7, m), 3 => format!("-{}.{}", m / 1000, m % 1000), _ => format!("{}", m as f64 / 8.0) };
    let same = |a: &intl_pluralrules::operands::PluralOperands, b: &intl_pluralrules::operands::PluralOperands| a.n == b.n && (a.i, a.v, a.w, a.f, a.t) == (b.i, b.v, b.w, b.f, b.t);
    let pids: Vec<i32> = (0..n).map(|p| spawn_child(|| {
        unsafe { libc::alarm(800); }
        let first: Vec<_> = P.iter().map(|t| conv(In::S(t))).collect();
        // the probes of this process itself, once, against the fresh ones
        for (j, o) in first.iter().enumerate() { if format!("{:?}", o) != want[j] && sh.inc(1, 1) == 0 { for (q, w) in [9, j as u64, 0, 0].iter().enumerate() { sh.set(2 + q, *w); } } }
        let objs: Vec<_> = L.iter().map(|(k, l)| create(k, l)).collect();
        let mut calls = 0u64;
        for m in (p..top).step_by(n as usize) {
            for h in 0..5 {
                let s = forms(m, h);
                let _ = refmodel::caught(|| {
                    for (j, t) in P.iter().enumerate() {
                        if h < 4 { let _ = conv_text(&s); } else { let _ = conv(In::F64(m as f64 / 8.0)); }
                        let got = conv_text(t);
                        let good = match (&got, &first[j]) { (Ok(a), Ok(b)) => same(a, b), (Err(a), Err(b)) => a == b, _ => false };
                        if !good && sh.inc(1, 1) == 0 { for (q, w) in [8, j as u64, m, h].iter().enumerate() { sh.set(2 + q, *w); } }
                        calls += 2;
                    }
                });
                if m >= selects || h == 3 { continue; }
                for (i, o) in objs.iter().enumerate() {
                    if let Ok(o) = o { for (j, t) in P.iter().enumerate() {
                        let _ = refmodel::caught(|| if h < 4 { o.select(s.as_str()) } else { o.select(m as f64 / 8.0) });
                        let got = refmodel::caught(|| code(o.select(*t))).unwrap_or(255);
                        if got as u64 != sh.get(16 + i * P.len() + j) && sh.inc(1, 1) == 0 { for (q, w) in [i as u64, j as u64, m, h].iter().enumerate() { sh.set(2 + q, *w); } }
                        calls += 2;
                    } }
                }
            }
        }
        sh.inc(0, calls);
        0
    })).collect();
    for p in pids { let e = wait_beating(p); if e != End::Exit(0) { r.violation(json!({"kind": "probe sequence did not end", "end": format!("{:?}", e)})); } }
    if sh.get(1) > 0 {
        let (i, j, m, h) = (sh.get(2) as usize, sh.get(3) as usize, sh.get(4), sh.get(5));
        r.violation(json!({"kind": "a call in between changes the result", "mismatches": sh.get(1), "probe": P[j], "call": L.get(i).map(|x| format!("select {} {}", x.0, x.1)).unwrap_or("conversion".into()), "in_between": forms(m, h), "want": want[j]}));
    }
    r.set("disturbing_texts", top * 5);
    sh.get(0)
}
fn conv_text(t: &str) -> Result<intl_pluralrules::operands::PluralOperands, &'static str> { intl_pluralrules::operands::PluralOperands::try_from(t) }

/// Large integers and long fractions: every ordered pair of them adjacent, for every locale and rule type.
fn large_pairs(r: &'static Report) -> u64 {
    let mut ids: Vec<(&'static str, String)> = vec![];
    for k in ["cardinal", "ordinal"] { for l in spec(k).locales.keys() { ids.push((k, l.clone())); } }
    let mut xs: Vec<String> = vec![];
    for e in 3..=19u32 {
        let p = 10u128.pow(e);
        for k in if r.quick() { vec![1u128, 2, 3, 5, 10, 11, 12, 21] } else { (1..=25).collect() } {
            for d in [0u128, 1, 2, 3, 5, 11] { xs.push((k * p + d).to_string()); }
        }
    }
    for b in [8u32, 10, 12, 16, 20, 24, 31, 32, 40, 48, 52, 53, 56, 63] { for k in [1u128, 3] { for d in [0u128, 1, 2, 3, 5, 11] { xs.push(((k << b) + d).to_string()); } } }
    for d in [0u128, 1, 2, 3, 5, 11] { xs.push(d.to_string()); }
    for i in ["0", "1", "2", "5", "1000000"] { for f in ["0", "1", "2", "5", "10", "01", "00", "001", "100", "010", "11", "12", "21", "000001", "100000", "000000", "1000001", "0000000001", "4294967297", "4294967296"] { xs.push(format!("{}.{}", i, f)); } }
    xs.retain(|x| x.contains('.') || x.parse::<u64>().is_ok());
    xs.sort(); xs.dedup();
    let per = xs.len();
    let ask = |pr: &PluralRules, j: usize| -> u8 { refmodel::caught(|| code(match xs[j].parse::<u64>() { Ok(x) => pr.select(x), _ => pr.select(xs[j].as_str()) })).unwrap_or(255) };
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let sh = Shared::new(16 + ids.len() * per);
    let pids: Vec<i32> = (0..n).map(|p| spawn_child(|| {
        for i in (p..ids.len()).step_by(n) { for j in 0..per { in_child(60, || { sh.set(16 + i * per + j, create(ids[i].0, &ids[i].1).map(|o| ask(&o, j)).unwrap_or(254) as u64); 0 }); } }
        0
    })).collect();
    for p in pids { wait_beating(p); }
    let want: Vec<u8> = (0..ids.len() * per).map(|k| sh.get(16 + k) as u8).collect();
    let pids: Vec<i32> = (0..n).map(|p| spawn_child(|| {
        let mut calls = 0;
        for i in (p..ids.len()).step_by(n) {
            unsafe { libc::alarm(600); }
            let pr = match create(ids[i].0, &ids[i].1) { Ok(x) => x, Err(_) => continue };
            let mut prev = usize::MAX;
            let mut go = |j: usize| {
                let got = ask(&pr, j);
                if got != want[i * per + j] && sh.inc(1, 1) == 0 { for (q, w) in [i as u64, prev as u64, j as u64, got as u64].iter().enumerate() { sh.set(2 + q, *w); } }
                prev = j;
            };
            for a in 0..per { for b in a + 1..per { go(a); go(b); calls += 2; } go(a); calls += 1; }
        }
        sh.inc(0, calls);
        0
    })).collect();
    for p in pids { let e = wait_beating(p); if e != End::Exit(0) { r.violation(json!({"kind": "sequence of selections did not end", "end": format!("{:?}", e)})); } }
    if sh.get(1) > 0 {
        let (i, a, j) = (sh.get(2) as usize, sh.get(3) as usize, sh.get(4) as usize);
        r.violation(json!({"kind": "a selection changes the next one", "mismatches": sh.get(1), "type": ids[i].0, "locale": ids[i].1, "first": xs.get(a), "then": xs[j], "got": sh.get(5), "want": want[i * per + j]}));
    }
    r.set("large_pair_alphabet", per as u64);
    sh.get(0)
}

pub fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 { out.extend_from_slice(&a[1..=p]); }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, out);
            for j in a[t - p] + 1..k { a[t] = j; db(t + 1, t, k, n, a, out); }
        }
    }
    let mut out = vec![];
    db(1, 1, k, n, &mut vec![0; k * n + 1], &mut out);
    let head: Vec<usize> = out[..n - 1].to_vec();
    out.extend(head);
    out
}

/// Counters, pools and leaks: the same call repeated many times, many live objects, then every other call once.
fn repeats(r: &'static Report) -> u64 {
    let reps: u64 = if r.quick() { 70_000 } else { 3_000_000 };
    let ops = alphabet();
    let base: Slots = [Some(("cardinal", "en")), Some(("ordinal", "pl"))];
    let mk = [Op::Create(0, "cardinal", "en"), Op::Create(1, "ordinal", "pl")];
    let probes: Vec<Op> = ops.iter().filter(|o| !matches!(o, Op::Create(..) | Op::CloneTo(..) | Op::Drop(..))).cloned().collect();
    let want: Vec<String> = probes.iter().map(|o| { beat(); expected(&o.minimal(&base)) }).collect();
    let sh = Shared::new(8);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let pids: Vec<i32> = (0..n).map(|p| spawn_child(|| {
        for (k, op) in ops.iter().enumerate() {
            if k % n != p { continue; }
            let heavy = matches!(op, Op::Locales(_));
            let e = in_child(800, || {
                let mut w = World::default();
                for o in &mk { w.exec(o); }
                let first = w.exec(op);
                let mut live = vec![];
                for x in 0..if heavy { reps / 10 } else { reps } {
                    let got = if matches!(op, Op::Drop(_)) { w.exec(&mk[if *op == Op::Drop(0) { 0 } else { 1 }]); w.exec(op) } else { w.exec(op) };
                    if got != first && sh.inc(1, 1) == 0 { sh.set(2, k as u64); sh.set(3, x + 2); sh.set(4, u64::MAX); }
                    if matches!(op, Op::Create(..) | Op::CloneTo(..)) { for s in &mut w.slots { if live.len() < 140_000 { live.extend(s.clone()); } } }
                    sh.inc(0, 1);
                }
                for o in &mk { w.exec(o); }
                for (j, q) in probes.iter().enumerate() {
                    if w.exec(q) != want[j] && sh.inc(1, 1) == 0 { sh.set(2, k as u64); sh.set(3, reps); sh.set(4, j as u64); }
                    sh.inc(0, 1);
                }
                for l in live.iter().step_by(997) { if l.select(1u8).is_err() { sh.inc(1, 1); } }
                0
            });
            if e != End::Exit(0) && sh.inc(1, 1) == 0 { sh.set(2, k as u64); sh.set(3, reps); sh.set(4, u64::MAX - 1); }
        }
        0
    })).collect();
    for p in pids { wait_beating(p); }
    if sh.get(1) > 0 {
        let j = sh.get(4);
        r.violation(json!({"kind": "result changes after many repetitions", "repeated": format!("{:?}", ops[sh.get(2) as usize]), "times": sh.get(3),
            "probe": if j == u64::MAX { "the call itself".into() } else if j == u64::MAX - 1 { "the process did not end normally".to_string() } else { format!("{:?}", probes[j as usize]) }}));
    }
    r.set("repetitions", reps);
    sh.get(0)
}

/// Print the results of a recorded history (each element is the Debug text of an op).
pub fn child(a: &[String]) -> i32 {
    let all = alphabet();
    let mut w = World::default();
    for t in a {
        match all.iter().find(|o| format!("{:?}", o) == *t) {
            Some(o) => println!("{} -> {}", t, w.exec(o)),
            None => println!("{} -> (not in the alphabet)", t),
        }
    }
    0
}
