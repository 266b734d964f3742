//! Links the consuming library with generated tables in place of its own and compares with the reference model.
//! driver <mode> <spec.json>; prints one JSON object.
use refmodel::data::{self, Cat, RuleSet};
use refmodel::dec::Num;
use refmodel::rule::{self, Item};
use refmodel::serde_json::{self, json, Map, Value};
use refmodel::{caught, par_chunks};
use std::collections::BTreeMap;
use unic_langid::LanguageIdentifier;

pub type Sel = Box<dyn Fn(&Num) -> Option<Cat> + Send + Sync>;
pub struct Table {
    pub create: fn(bool, &LanguageIdentifier) -> Result<(Sel, LanguageIdentifier), &'static str>,
    pub locales: fn(bool) -> Vec<LanguageIdentifier>,
    pub version: usize,
}

#[macro_export]
macro_rules! table {
    ($c:ident) => {{
        use $c::operands::PluralOperands;
        use $c::{PluralCategory, PluralRuleType, PluralRules};
        fn ty(card: bool) -> PluralRuleType { if card { PluralRuleType::CARDINAL } else { PluralRuleType::ORDINAL } }
        fn create(card: bool, l: &LanguageIdentifier) -> Result<(Sel, LanguageIdentifier), &'static str> {
            let p = PluralRules::create(l.clone(), ty(card))?;
            let id = p.get_locale().clone();
            Ok((Box::new(move |x: &Num| {
                let n: f64 = if x.v == 0 { x.i as f64 } else { x.text().parse().unwrap() };
                let o = PluralOperands { n, i: x.i as u64, v: x.v, w: x.w, f: x.f as u64, t: x.t as u64 };
                p.select(o).ok().map(|c| match c {
                    PluralCategory::ZERO => Cat::Zero, PluralCategory::ONE => Cat::One, PluralCategory::TWO => Cat::Two,
                    PluralCategory::FEW => Cat::Few, PluralCategory::MANY => Cat::Many, PluralCategory::OTHER => Cat::Other,
                })
            }), id))
        }
        Table { create, locales: |c| PluralRules::get_locales(ty(c)), version: $c::CLDR_VERSION }
    }};
}
include!("tables.rs"); // fn tables() -> Vec<Table>

fn lid(s: &str) -> LanguageIdentifier { s.parse().unwrap_or_else(|_| panic!("langid {}", s)) }

/// The numbers every rule is evaluated on, plus numbers around the constants of the rule itself.
fn domain(big: bool) -> Vec<Num> {
    let mut v: Vec<Num> = (0..=if big { 3000u64 } else { 1130 }).map(Num::int).collect();
    for x in [9_999u64, 10_000, 10_001, 99_999, 100_000, 100_001, 1_000_000, 1_000_001, 2_000_000, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 53] { v.push(Num::int(x)); }
    let ints: Vec<u64> = (0..=12).chain([20, 21, 22, 23, 100, 101, 102, 103, 111, 1000000]).collect();
    let top = if big { 4 } else { 3 };
    for i in ints {
        for len in 1..=top {
            if i > 12 && len > 2 { continue; }
            if !big && len == 3 && i > 5 { continue; }
            for f in 0..10u64.pow(len as u32) { v.push(Num::from_digits(&i.to_string(), &format!("{:0w$}", f, w = len)).unwrap()); }
        }
        for f in ["0000", "00000", "0000000000", "10000", "0001", "000010", "1234", "12345", "100000000", "000000001", "4294967296", "255", "256"] { v.push(Num::from_digits(&i.to_string(), f).unwrap()); }
    }
    v
}
fn around(rs: &RuleSet) -> Vec<Num> {
    let mut out = vec![];
    let mut c = vec![];
    let mut m = vec![1u64];
    for r in rs.rules.iter().flat_map(|r| r.1 .0.iter().flatten()) {
        if let Some(x) = r.modulus { m.push(x); }
        for i in &r.items { match i { Item::Val(a) => c.push(*a), Item::Range(a, b) => { c.push(*a); c.push(*b); c.push(a / 2 + b / 2); } } }
    }
    m.sort(); m.dedup(); c.sort(); c.dedup();
    for x in &c { for d in 0..5u64 { for y in &m { for k in 0..4u64 {
        if let Some(z) = y.checked_mul(k).and_then(|z| z.checked_add(*x)).and_then(|z| (z + 0).checked_add(d)).and_then(|z| z.checked_sub(2)) {
            // n is a double: stay where doubles are exact
            if z <= 1 << 53 {
                out.push(Num::int(z));
                for i in ["0", "1", "5", "17"] { out.push(Num::from_digits(i, &z.to_string()).unwrap()); }
                out.push(Num::from_digits(&(z % (1 << 40)).to_string(), "5").unwrap());
                out.push(Num::from_digits(&(z % (1 << 40)).to_string(), "0").unwrap());
            }
        }
    } } } }
    out
}

fn subsets(d: u16) -> Vec<u16> { let mut v: Vec<u16> = (0..=d).filter(|s| s & !d == 0).collect(); v.sort_by_key(|s| s.count_ones()); v }

/// C14: every rule set of the source JSON against the generated table.
fn semantics(spec: &Value) -> Value {
    let t = &tables()[0];
    let src: Value = serde_json::from_str(&std::fs::read_to_string(spec["source"].as_str().unwrap()).unwrap()).unwrap();
    let allowed = spec["allowed_deviations"].as_u64().unwrap() as u16;
    let dom = domain(spec["big"].as_bool().unwrap());
    let mut jobs: Vec<(bool, String, RuleSet)> = vec![];
    for (card, k) in [(true, "cardinal"), (false, "ordinal")] {
        if src["supplemental"].get(format!("plurals-type-{}", k)).is_none() { continue; }
        for (l, rs) in data::from_json(&src, k).locales { jobs.push((card, l, rs)); }
    }
    let res = par_chunks(jobs.len() as u64, 8, |a, b| {
        let mut viol: Vec<Value> = vec![];
        let mut known: BTreeMap<u16, Value> = BTreeMap::new();
        let mut evals = 0u64;
        let mut seen = 0u64;
        for (card, l, rs) in &jobs[a as usize..b as usize] {
            let kind = if *card { "cardinal" } else { "ordinal" };
            let (sel, _) = match (t.create)(*card, &lid(l)) { Ok(x) => x, Err(e) => { viol.push(json!({"type": kind, "locale": l, "rules": rs.key, "problem": format!("not found in the generated table: {}", e)})); continue; } };
            let d = rs.rules.iter().fold(0, |d, r| d | rule::applicable(&r.1)) & allowed;
            let subs = subsets(d);
            let mut refuted: Vec<Option<(String, Option<Cat>)>> = vec![None; subs.len()];
            let own = around(rs);
            let mut cats = 0u8;
            for x in dom.iter().chain(&own) {
                let got = caught(|| sel(x)).unwrap_or(None);
                evals += 1;
                for (k, s) in subs.iter().enumerate() {
                    if refuted[k].is_some() { continue; }
                    let mut any = false;
                    let mut ok = false;
                    for (c, r) in &rs.rules { if rule::eval(r, x, *s) { any = true; if got == Some(*c) { ok = true; } } }
                    if !any { ok = got == Some(Cat::Other); }
                    if !ok { refuted[k] = Some((x.text(), got)); }
                }
                if let Some(c) = got { cats |= 1 << c as u8; }
            }
            seen += cats.count_ones() as u64;
            match refuted.iter().position(|x| x.is_none()) {
                Some(0) => {}
                Some(k) => {
                    let w = refuted[0].as_ref().unwrap();
                    for (bit, _) in rule::dev::NAMES { if subs[k] & bit != 0 { known.entry(bit).or_insert_with(|| json!({"rules": rs.key, "number": w.0, "got": format!("{:?}", w.1)})); } }
                }
                None => {
                    let w = refuted[0].as_ref().unwrap();
                    if viol.len() < 5 { viol.push(json!({"type": kind, "locale": l, "rules": rs.key, "number": w.0, "got": format!("{:?}", w.1), "problem": "category whose condition is not true", "explanations_refuted": subs.len()})); }
                }
            }
        }
        (viol, known, evals, seen)
    });
    let mut viol = vec![];
    let mut known: BTreeMap<u16, Value> = BTreeMap::new();
    let (mut evals, mut seen) = (0, 0);
    for (v, k, e, s) in res { viol.extend(v); for (a, b) in k { known.entry(a).or_insert(b); } evals += e; seen += s; }
    viol.truncate(20);
    let known: Map<String, Value> = known.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    json!({"violations": viol, "known": known, "evaluations": evals, "rule_sets": jobs.len(), "outcomes": seen, "numbers": dom.len()})
}

/// C15: spec.tables[k] = {version, cardinal: {locale: index}, ordinal: {..}}, spec.absent = identifiers to refuse.
fn lookup(spec: &Value) -> Value {
    let mut viol: Vec<Value> = vec![];
    let mut n = 0u64;
    for (k, t) in tables().iter().enumerate() {
        let s = &spec["tables"][k];
        if s["version"].as_u64() != Some(t.version as u64) { viol.push(json!({"table": k, "problem": "CLDR version", "got": t.version, "want": s["version"]})); }
        for (card, kind) in [(true, "cardinal"), (false, "ordinal")] {
            let want: BTreeMap<String, u64> = s[kind].as_object().unwrap().iter().map(|(a, b)| (a.clone(), b.as_u64().unwrap())).collect();
            let ids: Vec<(LanguageIdentifier, u64, &String)> = want.iter().map(|(l, i)| (lid(l), *i, l)).collect();
            let mut listed: Vec<String> = (t.locales)(card).iter().map(|l| l.to_string()).collect();
            listed.sort();
            let mut expect: Vec<String> = ids.iter().map(|x| x.0.to_string()).collect();
            expect.sort();
            if listed != expect {
                let miss: Vec<&String> = expect.iter().filter(|x| !listed.contains(x)).take(5).collect();
                let extra: Vec<&String> = listed.iter().filter(|x| !expect.contains(x)).take(5).collect();
                viol.push(json!({"table": k, "type": kind, "problem": "set of locales in the table", "missing": miss, "extra_or_repeated": extra, "listed": listed.len(), "expected": expect.len()}));
            }
            for (id, i, name) in &ids {
                n += 1;
                match caught(|| (t.create)(card, id)) {
                    Ok(Ok((sel, back))) => {
                        if back != *id { viol.push(json!({"table": k, "type": kind, "locale": name, "problem": "object reports another locale", "got": back.to_string()})); }
                        // its own rule is "i = index": one for its index, other for its neighbours and all small numbers
                        let probe: Vec<u64> = if ids.len() <= 200 { ids.iter().map(|x| x.1).collect() } else { vec![*i, i.saturating_sub(1), i + 1, 0, 1, 7, i / 2, i * 2, i + 64, i + 256] };
                        for p in probe {
                            n += 1;
                            let got = caught(|| sel(&Num::int(p))).unwrap_or(None);
                            let wantc = if p == *i { Cat::One } else { Cat::Other };
                            if got != Some(wantc) { viol.push(json!({"table": k, "type": kind, "locale": name, "number": p.to_string(), "got": format!("{:?}", got), "want": format!("{:?}", wantc), "problem": "bound to other rules"})); break; }
                        }
                    }
                    Ok(Err(e)) => viol.push(json!({"table": k, "type": kind, "locale": name, "problem": format!("in the source but not found: {}", e)})),
                    Err(p) => viol.push(json!({"table": k, "type": kind, "locale": name, "problem": format!("panic: {}", p)})),
                }
                if viol.len() > 20 { return json!({"violations": viol, "lookups": n}); }
            }
            for a in spec["absent"].as_array().unwrap() {
                let a = a.as_str().unwrap();
                let id = lid(a);
                if ids.iter().any(|x| x.0 == id) { continue; }
                n += 1;
                if let Ok(Ok(_)) = caught(|| (t.create)(card, &id)) { viol.push(json!({"table": k, "type": kind, "locale": a, "problem": "found although not in the source"})); }
            }
        }
    }
    json!({"violations": viol, "lookups": n})
}

/// C18: table 0 is regenerated, table 1 is the shipped one.
fn diff(spec: &Value) -> Value {
    let t = tables();
    let mut viol: Vec<Value> = vec![];
    if t[0].version != t[1].version { viol.push(json!({"problem": "CLDR version", "regenerated": t[0].version, "shipped": t[1].version})); }
    let mut pairs: Vec<(bool, String, Sel, Sel)> = vec![];
    for card in [true, false] {
        let kind = if card { "cardinal" } else { "ordinal" };
        let mut a: Vec<String> = (t[0].locales)(card).iter().map(|x| x.to_string()).collect();
        let mut b: Vec<String> = (t[1].locales)(card).iter().map(|x| x.to_string()).collect();
        a.sort(); b.sort();
        if a != b {
            let only = |x: &Vec<String>, y: &Vec<String>| x.iter().filter(|l| !y.contains(l)).cloned().collect::<Vec<_>>();
            viol.push(json!({"type": kind, "problem": "locale sets differ", "only_regenerated": only(&a, &b), "only_shipped": only(&b, &a)}));
        }
        for l in a.iter().filter(|l| b.contains(l)) {
            match ((t[0].create)(card, &lid(l)), (t[1].create)(card, &lid(l))) {
                (Ok(x), Ok(y)) => pairs.push((card, l.clone(), x.0, y.0)),
                (x, y) => viol.push(json!({"type": kind, "locale": l, "problem": "cannot be created", "regenerated": x.is_ok(), "shipped": y.is_ok()})),
            }
        }
    }
    let bad = std::sync::Mutex::new(BTreeMap::<(bool, String), Value>::new());
    let cmp = |x: &Num| {
        for (card, l, p, q) in &pairs {
            let (a, b) = (caught(|| p(x)), caught(|| q(x)));
            if a != b {
                let mut g = bad.lock().unwrap();
                g.entry((*card, l.clone())).or_insert_with(|| json!({"type": if *card { "cardinal" } else { "ordinal" }, "locale": l, "number": x.text(), "regenerated": format!("{:?}", a), "shipped": format!("{:?}", b)}));
            }
        }
    };
    let big = spec["big"].as_bool().unwrap();
    let top = if big { 20_000_000u64 } else { 2_200_000 };
    par_chunks(top, 10_000, |a, b| for i in a..b { cmp(&Num::int(i)); });
    let mut n = top;
    let d = domain(big);
    par_chunks(d.len() as u64, 2000, |a, b| for x in &d[a as usize..b as usize] { cmp(x); });
    n += d.len() as u64;
    let w = if big { 1210u64 } else { 250 };
    for len in 1..=4u32 {
        let per = 10u64.pow(len);
        let w = if len == 4 { w / 10 } else { w };
        par_chunks(w * per, 10_000, |a, b| for k in a..b { cmp(&Num::from_digits(&(k / per).to_string(), &format!("{:0w$}", k % per, w = len as usize)).unwrap()); });
        n += w * per;
    }
    let mut bints = vec![];
    for k in 0..64 { for e in 0..260u64 { bints.push((1u64 << k).wrapping_add(e).wrapping_sub(130)); } }
    for k in 0..=19u32 { for c in 1..=19u64 { if let Some(x) = 10u64.pow(k).checked_mul(c) { for e in 0..260 { bints.push(x.wrapping_add(e).wrapping_sub(130)); } } } }
    par_chunks(bints.len() as u64, 2000, |a, b| for x in &bints[a as usize..b as usize] { cmp(&Num::int(*x)); });
    n += bints.len() as u64;
    viol.extend(bad.into_inner().unwrap().into_values().take(20));
    json!({"violations": viol, "numbers": n, "pairs": pairs.len(), "selections": n * pairs.len() as u64 * 2})
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| if !refmodel::IN_CAUGHT.with(|c| c.get()) { eprintln!("driver panic: {}", i) }));
    let spec: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    let out = match a[1].as_str() { "semantics" => semantics(&spec), "lookup" => lookup(&spec), "diff" => diff(&spec), _ => std::process::exit(2) };
    println!("{}", out);
}
