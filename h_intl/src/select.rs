//! C01 / C02: every shipped locale x every number of a bounded, completely enumerated domain.
use crate::common::*;
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::PluralRules;
use refmodel::data::{Cat, RuleSet};
use refmodel::dec::Num;
use refmodel::report::Report;
use refmodel::serde_json::json;
use refmodel::{caught, par_chunks};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::convert::TryFrom;
use std::sync::Mutex;

struct Loc {
    name: String,
    pr: PluralRules,
    group: usize,
    /// subsets of this locale's recorded deviations; index 0 is the specification
    subs: Vec<u16>,
}

fn subsets(d: u16) -> Vec<u16> {
    let mut v: Vec<u16> = (0..=d).filter(|s| s & !d == 0).collect();
    v.sort_by_key(|s| s.count_ones());
    v
}

/// One number to try: exact value, and the operands the library made of it.
pub enum Src {
    Int(u64),
    Text(String),
    /// the same number in every other representation that has the same digits
    All(String),
}

/// Every way to pass the number written `t` (digits, optionally a point and digits) other than `t` itself.
fn representations(t: &str) -> Vec<(String, Result<PluralOperands, String>)> {
    fn c<T>(x: T) -> Result<PluralOperands, String> where PluralOperands: TryFrom<T>, <PluralOperands as TryFrom<T>>::Error: ToString { PluralOperands::try_from(x).map_err(|e| e.to_string()) }
    let mut v = vec![(format!("{:?} (owned)", t), c(t.to_string())), (format!("-{}", t), c(format!("-{}", t).as_str())), (format!("000{}", t), c(format!("000{}", t).as_str())), (format!("-0{} (owned)", t), c(format!("-0{}", t)))];
    if let Ok(f) = t.parse::<f64>() { if f.to_string() == t { v.push((format!("{}f64", t), c(f))); v.push((format!("-{}f64", t), c(-f))); } }
    if let Ok(f) = t.parse::<f32>() { if f.to_string() == t { v.push((format!("{}f32", t), c(f))); v.push((format!("-{}f32", t), c(-f))); } }
    if let Ok(i) = t.parse::<u64>() {
        v.push((format!("{}usize", t), c(i as usize)));
        macro_rules! int { ($($ty:ident)+) => { $(if let Ok(y) = $ty::try_from(i) { v.push((format!("{}{}", y, stringify!($ty)), c(y))); })+ } }
        int!(u8 u16 u32 i8 i16 i32 i64 isize);
        macro_rules! neg { ($($ty:ident)+) => { $(if let Ok(y) = $ty::try_from(-(i as i128)) { if y != $ty::MIN { v.push((format!("{}{}", y, stringify!($ty)), c(y))); } })+ } }
        neg!(i8 i16 i32 i64 isize);
    }
    v
}

pub fn decimals(quick: bool) -> Vec<(u64, u64, usize)> {
    // blocks (int_lo, int_hi, fraction length): all fraction strings of that length
    let mut b = vec![];
    if quick {
        for l in 1..=3 { b.push((0, 2210, l)); }
        b.push((0, 210, 4));
        b.push((0, 12, 5));
        b.push((0, 1, 6));
    } else {
        for l in 1..=3 { b.push((0, 12100, l)); }
        b.push((0, 1210, 4));
        b.push((0, 130, 5));
        b.push((0, 12, 6));
    }
    b
}

pub fn long_fractions() -> Vec<String> {
    let mut out = HashSet::new();
    let bodies = ["", "1", "2", "3", "4", "5", "9", "10", "11", "12", "13", "14", "15", "19", "20", "21", "22", "71", "91", "99", "101", "111", "1001", "123456789", "256", "257", "65537", "4294967297", "4294967301", "9007199254740993", "10000000000000000001", "18446744073709551611", "18446744073709551615"];
    let zeros: Vec<usize> = (0..=9).chain([15, 18, 19, 20, 21, 33]).collect();
    for &a in &zeros {
        for &c in &zeros {
            for b in bodies {
                let s = format!("{}{}{}", "0".repeat(a), b, "0".repeat(c));
                if !s.is_empty() && s.trim_start_matches('0').parse::<u64>().map(|_| true).unwrap_or(s.bytes().all(|c| c == b'0')) { out.insert(s); }
            }
        }
    }
    let mut v: Vec<String> = out.into_iter().collect();
    v.sort();
    v
}

pub fn run(r: &'static Report, kind: &'static str) {
    let cldr = spec(kind);
    let known: BTreeMap<String, refmodel::data::Finding> = refmodel::data::findings(&r.id).into_iter().map(|f| (f.subject.clone(), f)).collect();
    // development aid: print which deviations explain each locale; changes nothing on disk but the evidence
    let propose = std::env::var("VERIF_PROPOSE").is_ok();
    // group locales by identical rule text
    let mut groups: Vec<RuleSet> = vec![];
    let mut gi: HashMap<String, usize> = HashMap::new();
    let mut locs: Vec<Loc> = vec![];
    for (name, rs) in &cldr.locales {
        let g = *gi.entry(rs.key.clone()).or_insert_with(|| { groups.push(rs.clone()); groups.len() - 1 });
        match create(kind, name) {
            Ok(pr) => {
                let mut d = known.get(name).map(|f| f.deviations).unwrap_or(0);
                if propose { d = rs.rules.iter().fold(0, |d, c| d | refmodel::rule::applicable(&c.1)); }
                locs.push(Loc { name: name.clone(), pr, group: g, subs: subsets(d) })
            }
            Err(e) => r.violation(json!({"type": kind, "locale": name, "problem": format!("create failed: {}", e)})),
        }
    }
    validate_model(r, kind, &cldr);

    let nsub: Vec<Vec<u16>> = {
        // all subsets needed per group
        let mut v: Vec<Vec<u16>> = vec![vec![0]; groups.len()];
        for l in &locs { for s in &l.subs { if !v[l.group].contains(s) { v[l.group].push(*s); } } }
        v
    };
    // viability of each subset per locale, with the first number that ruled it out
    type Viab = Vec<Vec<Option<(String, Cat, Cat)>>>;
    let viab: Mutex<Viab> = Mutex::new(locs.iter().map(|l| vec![None; l.subs.len()]).collect());
    let hard: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
    let outcomes: Mutex<HashSet<(usize, Cat)>> = Mutex::new(HashSet::new());

    let lossy_known = known.get("*").filter(|f| f.deviations == refmodel::rule::dev::N_ROUNDED);
    let lossy_seen: Mutex<Option<(String, String, Cat, Cat)>> = Mutex::new(None);
    let try_number = |x: &Num, make: &dyn Fn() -> Result<PluralOperands, String>, local: &mut Viab, seen: &mut HashSet<(usize, Cat)>, cats: &mut Vec<Vec<Cat>>| {
        for (g, rs) in groups.iter().enumerate() {
            cats[g].clear();
            for s in &nsub[g] { cats[g].push(rs.category(x, *s)); }
        }
        // a fraction that the absolute value, a double, cannot hold: what the recorded finding about it makes of the number
        let lossy = lossy_known.is_some() && x.rounds_to_integer().is_some();
        let alt: Vec<Vec<Cat>> = if !lossy { vec![] } else { groups.iter().enumerate().map(|(g, rs)| nsub[g].iter().map(|s| rs.category(x, *s | refmodel::rule::dev::N_ROUNDED)).collect()).collect() };
        let base = match make() {
            Ok(o) => o,
            Err(e) => {
                if hard.lock().unwrap().insert("operands".into()) {
                    r.violation(json!({"type": kind, "locale": "any", "number": x.text(), "problem": format!("refused: {}", e)}));
                }
                return;
            }
        };
        for (li, l) in locs.iter().enumerate() {
            let got = match l.pr.select(ops(&base)) { Ok(c) => cat(c), Err(_) => {
                if hard.lock().unwrap().insert(l.name.clone()) {
                    r.violation(json!({"type": kind, "locale": l.name, "number": x.text(), "problem": "select returned an error"}));
                }
                continue;
            } };
            let want = cats[l.group][0];
            if lossy && got != want && got == alt[l.group][0] {
                let mut g = lossy_seen.lock().unwrap();
                let t = x.text();
                if g.as_ref().map(|o| (t.len(), &t, &l.name) < (o.1.len(), &o.1, &o.0)).unwrap_or(true) { *g = Some((l.name.clone(), t, got, want)); }
                if l.subs.len() == 1 { continue; }
            }
            if l.subs.len() == 1 {
                if got != want && hard.lock().unwrap().insert(l.name.clone()) {
                    r.violation(json!({"type": kind, "locale": l.name, "number": x.text(), "got": format!("{:?}", got), "want": format!("{:?}", want), "rules": groups[l.group].key}));
                }
                continue;
            }
            let mut any = false;
            for (k, s) in l.subs.iter().enumerate() {
                let idx = nsub[l.group].iter().position(|y| y == s).unwrap();
                let c = cats[l.group][idx];
                if c == got || lossy && alt[l.group][idx] == got { any = true; } else if local[li][k].is_none() || k == 0 && x.v == 0 && x.i < 10 { let t = x.text(); if local[li][k].as_ref().map(|o| (t.len(), &t) < (o.0.len(), &o.0)).unwrap_or(true) { local[li][k] = Some((t, got, c)); } }
            }
            if !any && hard.lock().unwrap().insert(l.name.clone()) {
                r.violation(json!({"type": kind, "locale": l.name, "number": x.text(), "got": format!("{:?}", got), "want": format!("{:?}", want), "rules": groups[l.group].key,
                    "note": "also not explained by the findings recorded for this locale"}));
            }
        }
        for (g, c) in cats.iter().enumerate() { seen.insert((g, c[0])); }
    };
    let merge = |local: Viab, seen: HashSet<(usize, Cat)>| {
        let mut v = viab.lock().unwrap();
        for (li, l) in local.into_iter().enumerate() { for (k, w) in l.into_iter().enumerate() { if let Some(w) = w { if v[li][k].as_ref().map(|o| (w.0.len(), &w.0) < (o.0.len(), &o.0)).unwrap_or(true) { v[li][k] = Some(w); } } } }
        outcomes.lock().unwrap().extend(seen);
    };
    let fresh = || -> (Viab, HashSet<(usize, Cat)>, Vec<Vec<Cat>>) { (locs.iter().map(|l| vec![None; l.subs.len()]).collect(), HashSet::new(), vec![vec![]; groups.len()]) };
    let mut numbers = 0u64;

    // a panic inside a chunk: find the number one by one
    let chunk = |items: &mut dyn Iterator<Item = Src>| {
        let (mut local, mut seen, mut cats) = fresh();
        for it in items {
            let res = caught(|| match &it {
                Src::Int(i) => try_number(&Num::int(*i), &|| Ok(PluralOperands::from(*i)), &mut local, &mut seen, &mut cats),
                Src::All(t) => {
                    let (a, b) = t.split_once('.').unwrap_or((t, ""));
                    let x = Num::from_digits(a, b).unwrap();
                    for (_, o) in representations(t) { try_number(&x, &|| match &o { Ok(o) => Ok(ops(o)), Err(e) => Err(e.clone()) }, &mut local, &mut seen, &mut cats); }
                }
                Src::Text(t) => {
                    let (a, b) = t.split_once('.').unwrap_or((t, ""));
                    let x = Num::from_digits(a, b).unwrap();
                    try_number(&x, &|| PluralOperands::try_from(t.as_str()).map_err(|e| e.to_string()), &mut local, &mut seen, &mut cats)
                }
            });
            if let Err(p) = res {
                let n = match &it { Src::Int(i) => i.to_string(), Src::Text(t) | Src::All(t) => t.clone() };
                if hard.lock().unwrap().insert("panic".into()) {
                    r.violation(json!({"type": kind, "locale": "any", "number": n, "problem": format!("panic: {}", p)}));
                }
            }
        }
        merge(local, seen);
    };

    let top: u64 = if r.quick() { 12_000_000 } else { 200_000_000 };
    par_chunks(top + 1, 20_000, |lo, hi| chunk(&mut (lo..hi).map(Src::Int)));
    numbers += top + 1;
    r.set("integers_0_to", top);
    let b = boundary_ints();
    par_chunks(b.len() as u64, 2000, |lo, hi| chunk(&mut b[lo as usize..hi as usize].iter().map(|x| Src::Int(*x))));
    par_chunks(b.len() as u64, 2000, |lo, hi| chunk(&mut b[lo as usize..hi as usize].iter().map(|x| Src::Text(x.to_string()))));
    numbers += 2 * b.len() as u64;
    r.set("boundary_integers", b.len() as u64);
    // other representations
    let mut reps: Vec<String> = (0..=if r.quick() { 2_200u64 } else { 110_000 }).map(|x| x.to_string()).collect();
    reps.extend(b.iter().filter(|x| **x > 110_000).step_by(if r.quick() { 37 } else { 1 }).map(|x| x.to_string()));
    for k in 0..=if r.quick() { 2_200u64 } else { 120_000 } { reps.push(format!("{}.{}", k / 10, k % 10)); reps.push(format!("{}.{:02}", k / 100, k % 100)); }
    for f in long_fractions() { for i in ["0", "1", "2", "5", "21"] { reps.push(format!("{}.{}", i, f)); } }
    par_chunks(reps.len() as u64, 500, |lo, hi| chunk(&mut reps[lo as usize..hi as usize].iter().map(|x| Src::All(x.clone()))));
    numbers += reps.len() as u64;
    r.set("numbers_in_all_representations", reps.len() as u64);
    let mut decs = 0u64;
    for (lo_i, hi_i, len) in decimals(r.quick()) {
        let per = 10u64.pow(len as u32);
        let total = (hi_i - lo_i + 1) * per;
        par_chunks(total, 20_000, |lo, hi| chunk(&mut (lo..hi).map(|k| Src::Text(format!("{}.{:0w$}", lo_i + k / per, k % per, w = len)))));
        decs += total;
    }
    let lf = long_fractions();
    let ints: Vec<u64> = (0..=30).chain([70, 71, 72, 80, 91, 99, 100, 101, 102, 103, 111, 112, 119, 120, 121, 200, 201, 1000, 1001, 10000, 40000, 100000, 100001, 1000000, 1000001, 2000000, 1000000000, 4294967296, 4294967297, 9007199254740993, 10000000000000000001]).collect();
    let total = lf.len() as u64 * ints.len() as u64;
    par_chunks(total, 5_000, |lo, hi| chunk(&mut (lo..hi).map(|k| Src::Text(format!("{}.{}", ints[(k / lf.len() as u64) as usize], lf[(k % lf.len() as u64) as usize])))));
    decs += total;
    numbers += decs;
    r.set("decimals", decs);

    // findings: smallest explanation still standing per locale
    let v = viab.lock().unwrap();
    for (li, l) in locs.iter().enumerate() {
        if l.subs.len() == 1 || hard.lock().unwrap().contains(&l.name) { continue; }
        let standing: Vec<usize> = (0..l.subs.len()).filter(|k| v[li][*k].is_none()).collect();
        match standing.first() {
            Some(0) => {}
            Some(_) => {
                let w = v[li][0].as_ref().unwrap();
                if propose { println!("PROPOSE {} {} {} {} {:?} {:?}", kind, l.name, l.subs[standing[0]], w.0, w.1, w.2); continue; }
                r.known(format!("{} {}: {} (e.g. {} selects {:?}, CLDR 37 says {:?})", l.name, kind, known[&l.name].what, w.0, w.1, w.2));
            }
            None => {
                let ws: Vec<_> = v[li].iter().zip(&l.subs).map(|(w, s)| { let w = w.as_ref().unwrap(); json!({"against_deviations": s, "number": w.0, "got": format!("{:?}", w.1), "expected": format!("{:?}", w.2)}) }).collect();
                r.violation(json!({"type": kind, "locale": l.name, "number": v[li][0].as_ref().unwrap().0, "rules": groups[l.group].key, "problem": "no single set of recorded findings explains all results", "witnesses": ws}));
            }
        }
    }
    if let (Some((l, t, got, want)), Some(f)) = (lossy_seen.lock().unwrap().as_ref(), lossy_known) { r.known(format!("{} (e.g. {} {}: {} selects {:?}, CLDR 37 says {:?})", f.what, l, kind, t, got, want)); }
    let sel = numbers * locs.len() as u64;
    r.set("states", numbers);
    r.set("transitions", sel);
    r.set("traces_validated_against_impl", numbers * groups.len() as u64);
    r.set("locales", locs.len() as u64);
    r.set("distinct_rule_sets", groups.len() as u64);
    r.set("distinct_ruleset_outcomes", outcomes.lock().unwrap().len() as u64);
    r.set("rule", "states: numbers enumerated completely in the stated ranges; transitions: one real select per (locale, number), each compared with the UTS #35 evaluation of CLDR 37; traces: model evaluations (number, distinct rule set), each replayed on every locale that has that rule set");
    for (l, n) in [(0usize, "21"), (locs.len() / 2, "1.10")] {
        if let Some(l) = locs.get(l) { r.sample(json!({"type": kind, "locale": l.name, "number": n, "result": format!("{:?}", l.pr.select(n))})); }
    }
}

/// The reference model against the samples that CLDR itself publishes with every rule.
fn validate_model(r: &'static Report, kind: &str, cldr: &refmodel::data::Cldr) {
    let mut n = 0;
    for (l, rs) in &cldr.locales {
        for (c, rule) in &rs.full {
            for list in [&rule.integer, &rule.decimal].into_iter().flatten() {
                for (a, b) in &list.ranges {
                    let num = |s: &refmodel::rule::SVal| Num::from_digits(&s.0, s.1.as_deref().unwrap_or("")).unwrap();
                    let (x, y) = (num(a), num(b.as_ref().unwrap_or(a)));
                    let p = 10u128.pow(x.v as u32);
                    for k in x.i * p + x.f..=y.i * p + y.f {
                        let z = if x.v == 0 { Num::int(k as u64) } else { Num::from_digits(&(k / p).to_string(), &format!("{:0w$}", k % p, w = x.v)).unwrap() };
                        n += 1;
                        let holding: Vec<Cat> = rs.rules.iter().filter(|q| refmodel::rule::eval(&q.1, &z, 0)).map(|q| q.0).collect();
                        let ok = if *c == Cat::Other { holding.is_empty() } else { holding == vec![*c] };
                        if !ok { eprintln!("reference model disagrees with CLDR sample: {} {} {} {:?} {:?}", kind, l, z.text(), c, holding); std::process::exit(3); }
                    }
                }
            }
        }
    }
    r.set("model_validated_on_cldr_samples", n as u64);
}

/// Does one set of the recorded findings of this locale explain the object's results on a fingerprint domain?
/// Returns the first number that refutes every explanation.
pub fn fingerprint(kind: &str, rs: &RuleSet, d: u16, pr: &PluralRules) -> Option<String> {
    let _ = kind;
    let mut standing = subsets(d);
    let mut nums: Vec<Num> = (0..=1210u64).chain([10_000, 20_000, 40_000, 100_000, 1_000_000, 1_000_001, 1_100_000, 2_000_000]).map(Num::int).collect();
    for i in 0..=25 { for f in ["0", "1", "2", "5", "01", "10", "11", "12", "13", "20", "21", "00"] { nums.push(Num::from_digits(&i.to_string(), f).unwrap()); } }
    for x in &nums {
        let got = caught(|| pr.select(model_ops(x)).map(cat));
        standing.retain(|s| got == Ok(Ok(rs.category(x, *s))));
        if standing.is_empty() { return Some(x.text()); }
    }
    None
}

pub fn deviations(property: &str) -> BTreeMap<String, u16> {
    refmodel::data::findings(property).into_iter().map(|f| (f.subject, f.deviations)).collect()
}

// ------------------------------------------------------------------ C21
/// Every locale on every combination of operand values from the edges of each field, whether a numeral has them or not.
pub fn total(r: &'static Report) {
    let ns = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0, 1.5, 2.0, 3.0, 5.0, 11.0, 0.1, 100.0, 1e6, f64::MIN_POSITIVE, 9007199254740993.0, 18446744073709551616.0, 1e300, -1e300];
    let q = r.quick();
    let is: Vec<u64> = [0u64, 1, 2, 3, 5, 11, 12, 40, 70, 100, 1_000_000, 1 << 32, (1 << 53) + 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX].into_iter().chain(4..if q { 130 } else { 1300 }).collect();
    let vs = [0usize, 1, 2, 3, 19, 20, 64, 65, 1 << 32, usize::MAX];
    let fs = [0u64, 1, 2, 10, 11, 99, 100, 1 << 32, i64::MAX as u64, u64::MAX];
    let mut prs = vec![];
    for kind in ["cardinal", "ordinal"] {
        let cldr = spec(kind);
        for (name, rs) in &cldr.locales {
            match create(kind, name) {
                Ok(p) => { let mut cats: Vec<Cat> = rs.rules.iter().map(|x| x.0).collect(); cats.push(Cat::Other); prs.push((kind, name.clone(), p, cats)) }
                Err(e) => r.violation(json!({"type": kind, "locale": name, "problem": format!("create failed: {}", e)})),
            }
        }
    }
    // incoherent values matter per field and per pair of fields: all of n x i x v x f, with w and t on four patterns each
    let total = (ns.len() * is.len() * vs.len() * fs.len()) as u64;
    let seen: Mutex<HashSet<(usize, Cat)>> = Mutex::new(HashSet::new());
    par_chunks(total, 64, |lo, hi| {
        let mut mine = HashSet::new();
        for k in lo..hi {
            if r.n_violations() >= 20 { break; }
            let k = k as usize;
            let (n, i, v, f) = (ns[k % ns.len()], is[k / ns.len() % is.len()], vs[k / ns.len() / is.len() % vs.len()], fs[k / ns.len() / is.len() / vs.len()]);
            for w in [0, 1, v, usize::MAX] { for t in [0, 1, f, u64::MAX] {
                let o = PluralOperands { n, i, v, w, f, t };
                for (li, (kind, name, pr, cats)) in prs.iter().enumerate() {
                    let got = caught(|| (pr.select(ops(&o)).map(cat), pr.select(ops(&o)).map(cat)));
                    let bad = match &got {
                        Err(p) => format!("panic: {}", p),
                        Ok((Ok(a), Ok(b))) if a == b && cats.contains(a) => { mine.insert((li, *a)); continue; }
                        Ok(x) => format!("{:?}", x),
                    };
                    if r.n_violations() < 20 { r.violation(json!({"type": kind, "locale": name, "operands": ops_json(&Ok(ops(&o))), "got": bad, "want": "one category that the rules of the locale define"})); }
                }
            } }
        }
        seen.lock().unwrap().extend(mine);
    });
    r.set("states", total * 16);
    r.set("transitions", total * 32 * prs.len() as u64);
    r.set("traces_validated_against_impl", total * 16 * prs.len() as u64);
    r.set("locale_type_pairs", prs.len() as u64);
    r.set("distinct_locale_outcomes", seen.lock().unwrap().len() as u64);
    r.set("rule", "states: operand records (values from the edges of every field, coherent or not); transitions: real selections; traces: (locale, type, record) whose category was checked against the categories CLDR 37 defines for the locale");
    r.sample(json!({"locale": prs[0].1, "operands": "n NaN, i 2^64-1, v 2^64-1", "result": format!("{:?}", caught(|| prs[0].2.select(PluralOperands { n: f64::NAN, i: u64::MAX, v: usize::MAX, w: 0, f: u64::MAX, t: 0 })))}));
}
