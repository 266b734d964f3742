//! C20: one number, every representation, every locale.
use crate::common::*;
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::PluralRules;
use refmodel::data::Cat;
use refmodel::dec::Num;
use refmodel::report::Report;
use refmodel::serde_json::json;
use refmodel::{caught, par_chunks};
use std::convert::{TryFrom, TryInto};
use std::sync::atomic::{AtomicU64, Ordering};

/// A user's own type, converted by the user (the library promises to take any such type).
struct Mine(PluralOperands);
impl TryInto<PluralOperands> for Mine {
    type Error = ();
    fn try_into(self) -> Result<PluralOperands, ()> { Ok(self.0) }
}

fn forms(pr: &PluralRules, x: &Num, out: &mut Vec<(&'static str, Option<Cat>)>) {
    out.clear();
    let t = x.text();
    let c = |r: Result<intl_pluralrules::PluralCategory, &'static str>| r.ok().map(cat);
    out.push(("operands", c(pr.select(model_ops(x)))));
    out.push(("own type", c(pr.select(Mine(model_ops(x))))));
    out.push(("&str", c(pr.select(t.as_str()))));
    out.push(("String", c(pr.select(t.clone()))));
    out.push(("-&str", c(pr.select(format!("-{}", t).as_str()))));
    out.push(("-String", c(pr.select(format!("-{}", t)))));
    out.push(("0&str", c(pr.select(format!("0{}", t).as_str()))));
    out.push(("-00&str", c(pr.select(format!("-00{}", t).as_str()))));
    if let Ok(f) = t.parse::<f64>() { if f.to_string() == t { out.push(("f64", c(pr.select(f)))); out.push(("-f64", c(pr.select(-f)))); } }
    if let Ok(f) = t.parse::<f32>() { if f.to_string() == t { out.push(("f32", c(pr.select(f)))); out.push(("-f32", c(pr.select(-f)))); } }
    if x.v == 0 {
        let i = x.i as u64;
        if let Ok(y) = u8::try_from(i) { out.push(("u8", c(pr.select(y)))); }
        if let Ok(y) = u16::try_from(i) { out.push(("u16", c(pr.select(y)))); }
        if let Ok(y) = u32::try_from(i) { out.push(("u32", c(pr.select(y)))); }
        out.push(("u64", c(pr.select(i))));
        out.push(("usize", c(pr.select(i as usize))));
        let s = i as i128;
        if let Ok(y) = i8::try_from(s) { out.push(("i8", c(pr.select(y)))); }
        if let Ok(y) = i8::try_from(-s) { out.push(("-i8", c(pr.select(y)))); }
        if let Ok(y) = i16::try_from(s) { out.push(("i16", c(pr.select(y)))); }
        if let Ok(y) = i16::try_from(-s) { out.push(("-i16", c(pr.select(y)))); }
        if let Ok(y) = i32::try_from(s) { out.push(("i32", c(pr.select(y)))); }
        if let Ok(y) = i32::try_from(-s) { out.push(("-i32", c(pr.select(y)))); }
        if let Ok(y) = i64::try_from(s) { out.push(("i64", c(pr.select(y)))); out.push(("-i64", c(pr.select(-y)))); }
        if let Ok(y) = isize::try_from(s) { out.push(("isize", c(pr.select(y)))); out.push(("-isize", c(pr.select(-y)))); }
    }
}

pub fn run(r: &'static Report) {
    let top: u64 = if r.quick() { 22_000 } else { 110_000 };
    let mut nums: Vec<Num> = (0..=top).map(Num::int).collect();
    nums.extend(boundary_ints().into_iter().filter(|x| *x > top).filter(|x| !r.quick() || { // quick: closest neighbours only
        let near = |c: u128| (*x as u128).abs_diff(c) <= 6;
        (0..=64).any(|k| near(1u128 << k)) || (0..=19).any(|k| (1..=9).any(|c| near(c * 10u128.pow(k)))) }).map(Num::int));
    for len in 1..=2usize { for i in 0..=(if r.quick() { 130u64 } else { 1210 }) { for f in 0..10u64.pow(len as u32) { nums.push(Num::from_digits(&i.to_string(), &format!("{:0w$}", f, w = len)).unwrap()); } } }
    for f in crate::select::long_fractions() { for i in ["0", "1", "2", "11", "9007199254740993"] { nums.push(Num::from_digits(i, &f).unwrap()); } }
    let mut prs: Vec<(&'static str, String, PluralRules)> = vec![];
    for kind in ["cardinal", "ordinal"] { for l in PluralRules::get_locales(prt(kind)) { prs.push((kind, l.to_string(), PluralRules::create(l, prt(kind)).expect("listed locale"))); } }
    let calls = AtomicU64::new(0);
    let total = nums.len() as u64;
    par_chunks(total, 16, |lo, hi| {
        let mut out = vec![];
        let mut n = 0;
        for k in lo..hi {
            let x = &nums[k as usize];
            for (kind, l, pr) in &prs {
                if let Err(p) = caught(|| forms(pr, x, &mut out)) { r.violation(json!({"type": kind, "locale": l, "number": x.text(), "problem": format!("panic: {}", p)})); continue; }
                n += out.len() as u64;
                let first = out[0].1;
                if first.is_none() || out.iter().any(|o| o.1 != first) {
                    if r.n_violations() < 50 { r.violation(json!({"type": kind, "locale": l, "number": x.text(), "by_representation": out.iter().map(|o| format!("{}: {:?}", o.0, o.1)).collect::<Vec<_>>()})); }
                }
            }
        }
        calls.fetch_add(n, Ordering::Relaxed);
    });
    let c = calls.load(Ordering::Relaxed);
    r.set("states", total);
    r.set("transitions", c);
    r.set("traces_validated_against_impl", total * prs.len() as u64);
    r.set("locale_type_pairs", prs.len() as u64);
    r.set("rule", "states: numbers; traces: (locale, type, number) triples; transitions: one real select per applicable representation (up to 27), all of which must agree with ready-made operands of the model");
    let mut out = vec![]; forms(&prs[0].2, &Num::int(1), &mut out);
    r.sample(json!({"locale": prs[0].1, "number": "1", "forms": out.iter().map(|o| format!("{}: {:?}", o.0, o.1)).collect::<Vec<_>>()}));
}
