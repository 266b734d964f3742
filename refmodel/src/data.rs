//! CLDR plural data and the known-findings file.
use crate::rule::{self, Cond, Rule};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Cat { Zero, One, Two, Few, Many, Other }
pub const CATS: [(&str, Cat); 6] = [("zero", Cat::Zero), ("one", Cat::One), ("two", Cat::Two), ("few", Cat::Few), ("many", Cat::Many), ("other", Cat::Other)];
pub fn cat(s: &str) -> Option<Cat> { CATS.iter().find(|c| c.0 == s).map(|c| c.1) }

/// The rules of one locale, in alphabetical order of category name (the order matters only for
/// deviating, overlapping rules), without OTHER.
#[derive(Clone, Debug)]
pub struct RuleSet {
    pub rules: Vec<(Cat, Cond)>,
    pub full: Vec<(Cat, Rule)>,
    pub key: String,
}
impl RuleSet {
    pub fn category(&self, x: &crate::dec::Num, d: u16) -> Cat {
        for (c, r) in &self.rules { if rule::eval(r, x, d) { return *c; } }
        Cat::Other
    }
}

pub struct Cldr { pub version: u64, pub locales: BTreeMap<String, RuleSet> }

pub fn load(path: &str, kind: &str) -> Cldr {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e))).unwrap();
    from_json(&v, kind)
}
pub fn from_json(v: &Value, kind: &str) -> Cldr {
    let s = &v["supplemental"];
    let version = s["version"]["_cldrVersion"].as_str().unwrap().parse().unwrap();
    let mut locales = BTreeMap::new();
    for (l, rules) in s[format!("plurals-type-{}", kind)].as_object().unwrap() {
        if l == "root" { continue; }
        let mut rs = vec![];
        let mut full = vec![];
        let mut key = String::new();
        for (name, text) in rules.as_object().unwrap() {
            let c = cat(name.rsplit('-').next().unwrap()).unwrap();
            let r = rule::parse_rule(text.as_str().unwrap()).unwrap_or_else(|| panic!("reference parser: {}", text));
            if c != Cat::Other { key.push_str(&format!("{}: {}; ", name, r.cond.text())); rs.push((c, r.cond.clone())); }
            full.push((c, r));
        }
        locales.insert(l.clone(), RuleSet { rules: rs, full, key });
    }
    Cldr { version, locales }
}

/// Open findings: (property, locale or rule id, deviation names, text).
#[derive(Clone, Debug)]
pub struct Finding { pub property: String, pub subject: String, pub deviations: u16, pub what: String }
pub fn findings(property: &str) -> Vec<Finding> {
    let path = format!("{}/known_findings.json", crate::report::root());
    let Ok(text) = std::fs::read_to_string(&path) else { return vec![] };
    let v: Value = serde_json::from_str(&text).expect("known_findings.json");
    v["open"].as_array().cloned().unwrap_or_default().iter().filter(|f| f["property"] == property).map(|f| Finding {
        property: property.into(),
        subject: f["subject"].as_str().unwrap().into(),
        deviations: f["deviations"].as_array().map(|a| a.iter().fold(0, |d, n| d | rule::dev::by_name(n.as_str().unwrap()))).unwrap_or(0),
        what: f["what"].as_str().unwrap().into(),
    }).collect()
}
