use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::{PluralCategory, PluralRuleType, PluralRules};
use refmodel::data::{self, Cat, Cldr};
use refmodel::dec::Num;
use refmodel::serde_json::{self, json, Value};
use unic_langid::LanguageIdentifier;

pub fn cat(c: PluralCategory) -> Cat {
    match c {
        PluralCategory::ZERO => Cat::Zero,
        PluralCategory::ONE => Cat::One,
        PluralCategory::TWO => Cat::Two,
        PluralCategory::FEW => Cat::Few,
        PluralCategory::MANY => Cat::Many,
        PluralCategory::OTHER => Cat::Other,
    }
}

pub fn prt(kind: &str) -> PluralRuleType {
    if kind == "cardinal" { PluralRuleType::CARDINAL } else { PluralRuleType::ORDINAL }
}

pub fn lid(s: &str) -> LanguageIdentifier {
    s.parse().unwrap_or_else(|_| panic!("langid {}", s))
}

pub fn spec(kind: &str) -> Cldr {
    data::load(&format!("{}/data/cldr37_{}s.json", refmodel::report::root(), kind), kind)
}

/// Same operands, by value (the library's type is not Clone).
pub fn ops(o: &PluralOperands) -> PluralOperands {
    PluralOperands { n: o.n, i: o.i, v: o.v, w: o.w, f: o.f, t: o.t }
}

pub fn ops_json(o: &Result<PluralOperands, String>) -> Value {
    match o {
        Ok(o) => json!({"n": o.n.to_string(), "i": o.i, "v": o.v, "w": o.w, "f": o.f, "t": o.t}),
        Err(e) => json!({ "error": e }),
    }
}

/// The operands the model demands. The absolute value is the correctly rounded value of the numeral.
pub fn model_ops(x: &Num) -> PluralOperands {
    PluralOperands { n: x.text().parse().unwrap(), i: x.i as u64, v: x.v, w: x.w, f: x.f as u64, t: x.t as u64 }
}

/// Integers where width, rounding and carry errors show: around powers of 2 and 10 and multiples of powers of 10.
pub fn boundary_ints() -> Vec<u64> {
    let mut s = std::collections::BTreeSet::new();
    let mut around = |c: u128, d: u128| {
        for x in c.saturating_sub(d)..=c + d {
            if x <= u64::MAX as u128 {
                s.insert(x as u64);
            }
        }
    };
    for k in 0..=64 {
        around(1u128 << k, 130);
    }
    for k in 0..=19u32 {
        for c in 1..=19u128 {
            around(c * 10u128.pow(k), 130);
        }
    }
    s.into_iter().collect()
}

pub fn create(kind: &str, loc: &str) -> Result<PluralRules, String> {
    PluralRules::create(lid(loc), prt(kind)).map_err(|e| e.to_string())
}

/// Re-execute one recorded violation without the explorer.
pub fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    println!("{}", serde_json::to_string_pretty(&v).unwrap());
    if let (Some(k), Some(l), Some(n)) = (v["type"].as_str(), v["locale"].as_str(), v["number"].as_str()) {
        match create(k, l) {
            Ok(pr) => println!("now: select({:?}) = {:?}; as u64: {:?}", n, pr.select(n), n.parse::<u64>().map(|x| pr.select(x))),
            Err(e) => println!("now: create failed: {}", e),
        }
    } else if let Some(s) = v["string"].as_str() {
        use std::convert::TryFrom;
        println!("now: {:?}", PluralOperands::try_from(s));
    } else if let Some(h) = v["history"].as_array() {
        let a: Vec<String> = h.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
        return crate::history::child(&a);
    }
    0
}
