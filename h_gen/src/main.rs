//! C14-C19: the generator and its command-line tool.
mod cli;
mod consumer;
mod inputs;

use consumer::{build_and_run, rustfmt, Built, Scratch};
use refmodel::caught;
use refmodel::data::findings;
use refmodel::report::{beat, Report};
use refmodel::rule::{dev, parse_rule, OPDS, OPS};
use refmodel::serde_json::{self, json, Map, Value};

/// One locale's rules, as (category, condition text).
type Set = Vec<(&'static str, String)>;

pub fn generate(jsons: &[String]) -> Result<String, String> { caught(|| make_pluralrules::generate_rs(jsons)) }

fn resource(version: &str, card: &[(String, Set)], ord: &[(String, Set)]) -> String {
    let t = |l: &[(String, Set)]| -> Value {
        let mut m = Map::new();
        for (k, s) in l {
            let mut r = Map::new();
            for (c, text) in s { r.insert(format!("pluralRule-count-{}", c), json!(text)); }
            r.insert("pluralRule-count-other".into(), json!(" @integer 0, 2~16, 100, 1000, … @decimal 0.0~0.9, …"));
            m.insert(k.clone(), Value::Object(r));
        }
        Value::Object(m)
    };
    json!({"supplemental": {"version": {"_unicodeVersion": "13.0.0", "_cldrVersion": version}, "plurals-type-cardinal": t(card), "plurals-type-ordinal": t(ord)}}).to_string()
}

fn codes() -> impl Iterator<Item = String> {
    (0..17576u32).map(|k| [k / 676, k / 26 % 26, k % 26].iter().map(|x| (b'a' + *x as u8) as char).collect::<String>()).filter(|c| c != "und")
}

// ------------------------------------------------------------------ C14
fn rule_sets(quick: bool) -> Vec<Set> {
    let mut out: Vec<Set> = vec![];
    let one = |s: String| vec![("one", s)];
    // single relations
    let lists: &[&str] = if quick { &["1", "0", "2..4", "1,3", "2..3,5", "5,2..3", "0..1,4..5", "3..3", "7..5", "4..0", "0..0"] }
        else { &["1", "0", "2..4", "1,3", "2..3,5", "5,2..3", "0..1,4..5", "3..3", "7..5", "4..0", "10", "0..0", "1,2,3,7", "0..1,3..4,8..9", "1,5..6,9,11..13", "12..19", "100", "99..101", "6..6,7", "0..20"] };
    let mods: &[&str] = if quick { &["", " % 3", " % 10"] } else { &["", " % 3", " % 10", " % 1", " % 2", " % 100", " % 7"] };
    for o in OPDS { for m in mods { for p in OPS { for l in lists { out.push(one(format!("{}{} {} {}", o.text(), m, p.words().join(" "), l))); } } } }
    // large constants, where doubles are exact
    for o in OPDS { for c in ["100", "255", "256", "1000", "65536", "1000000", "4294967295", "4294967296", "9007199254740991"] {
        for t in ["= C", "!= C", "= 1..C", "!= 2..C", "= C, 3", "% C = 1", "% C = 0..2", "% 1000 = C"] { out.push(one(format!("{} {}", o.text(), t.replace('C', c)))); }
    } }
    // and / or
    let a = ["n = 1", "n != 2", "i = 0..1", "i % 10 = 2..4", "v = 0", "v != 0..1", "f % 10 != 4,6,9", "t = 0", "w in 1,2", "n % 10 = 1", "f is not 3", "n within 0..2", "i not in 3..5,8", "t % 10 within 1..2,5"];
    for x in a { for y in a { for j in ["and", "or"] { out.push(one(format!("{} {} {}", x, j, y))); } } }
    let b: &[&str] = if quick { &a[..7] } else { &a };
    for x in b { for y in b { for z in b {
        out.push(one(format!("{} and {} or {}", x, y, z)));
        out.push(one(format!("{} or {} and {}", x, y, z)));
        if !quick { out.push(one(format!("{} or {} or {}", x, y, z))); out.push(one(format!("{} and {} and {}", x, y, z))); }
    } } }
    for x in &b[..5] { for y in &b[..5] { for z in &b[1..5] { for w in &b[2..6] { out.push(one(format!("{} and {} or {} and {}", x, y, z, w))); } } } }
    // long conditions
    for n in [2usize, 3, 5, 8, 13, 21, 34] {
        let rep = |f: &dyn Fn(usize) -> String, j: &str| (0..n).map(f).collect::<Vec<_>>().join(j);
        out.push(one(rep(&|k| format!("n = {}", k * 3), " or ")));
        out.push(one(rep(&|k| format!("i != {}", k * 2), " and ")));
        out.push(one(rep(&|k| format!("n % 100 != {}", k + 40), " and ")));
        out.push(one(format!("i = {}", rep(&|k| (k * 2).to_string(), ","))));
        out.push(one(format!("n = {}", rep(&|k| (k * 2).to_string(), ","))));
        out.push(one(format!("i % 100 = {}", rep(&|k| format!("{}..{}", k * 4, k * 4 + 1), ","))));
        out.push(one(format!("i % 100 != {}", rep(&|k| format!("{}..{}", k * 4, k * 4 + 1), ","))));
        out.push(one(format!("f within {}", rep(&|k| format!("{}..{}", k * 4, k * 4 + 1), ","))));
        out.push(one(rep(&|k| format!("i = {} and f = {}", k, k + 1), " or ")));
    }
    // with samples behind the condition, as in the data
    for s in ["n = 1 @integer 1 @decimal 1.0, 1.00", "i % 10 = 2..4 and v = 0 @integer 2~4, 22~24, …", "v != 0  @decimal 0.0~1.5, 10.0, …"] { out.push(one(s.into())); }
    // several categories: every subset, disjoint conditions
    let cats = ["zero", "one", "two", "few", "many"];
    for m in 1u32..32 {
        let mut s: Set = vec![];
        let mut t: Set = vec![];
        let mut u: Set = vec![];
        for (k, c) in cats.iter().enumerate() { if m >> k & 1 == 1 {
            s.push((c, format!("n = {}", k)));
            t.push((c, format!("i % 10 = {} and v = 0", 9 - k)));
            u.push((c, format!("f = {}..{} or n = {}", k * 10 + 1, k * 10 + 5, 100 + k)));
        } }
        out.push(s); out.push(t); out.push(u);
    }
    // several categories, overlapping conditions
    for (k, c) in cats.iter().enumerate() { for (j, d) in cats.iter().enumerate() { if j != k { out.push(vec![(c, "n = 0..5".into()), (d, "n = 3..9".into())]); out.push(vec![(c, "i % 2 = 0".into()), (d, "v = 0".into())]); } } }
    out.push(vec![]); // only OTHER
    out
}

fn c14(r: &'static Report) {
    let known: std::collections::BTreeMap<u16, String> = findings("C14").into_iter().map(|f| (f.deviations, f.what)).collect();
    let allowed = known.keys().fold(0, |a, b| a | b);
    let mut sets = rule_sets(r.quick());
    // the conditions of CLDR 37 itself
    for k in ["cardinal", "ordinal"] {
        let c = refmodel::data::load(&format!("{}/data/cldr37_{}s.json", refmodel::report::root(), k), k);
        let mut seen = std::collections::BTreeSet::new();
        for rs in c.locales.values() { if seen.insert(rs.key.clone()) {
            sets.push(rs.rules.iter().map(|(c, cond)| (refmodel::data::CATS.iter().find(|x| x.1 == *c).unwrap().0, cond.text())).collect());
        } }
    }
    for s in &sets { for (_, t) in s { assert!(parse_rule(t).is_some(), "not in the grammar: {}", t); } }
    // every rule set generates on its own
    let ok: Vec<bool> = refmodel::par_chunks(sets.len() as u64, 50, |a, b| (a..b).map(|k| generate(&[resource("37", &[("aa".into(), sets[k as usize].clone())], &[])]).map_err(|e| (k, e))).collect::<Vec<_>>())
        .into_iter().flatten().map(|x| match x { Ok(_) => true, Err((k, e)) => { if r.n_violations() < 5 { r.violation(json!({"rules": sets[k as usize].iter().map(|x| format!("{}: {}", x.0, x.1)).collect::<Vec<_>>(), "problem": format!("the generator aborts: {}", e)})); } false } }).collect();
    let sets: Vec<Set> = sets.into_iter().zip(ok).filter(|x| x.1).map(|x| x.0).collect();
    let named: Vec<(String, Set)> = codes().step_by(3).chain(codes().skip(1).step_by(3)).zip(sets.iter().cloned()).map(|(c, s)| (c, s)).collect();
    // half of them as cardinals, half as ordinals
    let (card, ord): (Vec<_>, Vec<_>) = named.into_iter().enumerate().partition(|(k, _)| k % 2 == 0);
    let strip = |v: Vec<(usize, (String, Set))>| v.into_iter().map(|x| x.1).collect::<Vec<_>>();
    let src = resource("37", &strip(card), &strip(ord));
    r.set("rule_sets_generated", sets.len() as u64);
    let text = match generate(&[src.clone()]) { Ok(t) => t, Err(e) => { r.violation(json!({"problem": format!("the generator aborts on the whole set: {}", e)})); return; } };
    let s = Scratch::new("c14");
    let text = match rustfmt(&s.0, &text) { Ok(t) => t, Err(e) => { r.violation(json!({"problem": "rustfmt refuses the generated text", "error": e})); return; } };
    let p = s.0.join("source.json");
    std::fs::write(&p, &src).unwrap();
    match build_and_run(&s, &[Some(text)], "semantics", &json!({"source": p.to_str(), "allowed_deviations": allowed, "big": !r.quick()})) {
        Built::Out(v) => {
            for x in v["violations"].as_array().unwrap() { r.violation(x.clone()); }
            for (b, w) in v["known"].as_object().unwrap() {
                let bit: u16 = b.parse().unwrap();
                r.known(format!("{} (e.g. [{}] {} selects {})", known.get(&bit).cloned().unwrap_or_default(), w["rules"].as_str().unwrap().trim(), w["number"].as_str().unwrap(), w["got"].as_str().unwrap()));
            }
            r.set("states", v["rule_sets"].clone());
            r.set("transitions", v["evaluations"].clone());
            r.set("numbers_per_rule_set_at_least", v["numbers"].clone());
            r.set("traces_validated_against_impl", v["outcomes"].clone());
        }
        Built::DoesNotCompile(e) => {
            if !consumer::consumer_is_sane() { eprintln!("the consuming library does not build: {}", e); std::process::exit(3); }
            r.violation(json!({"problem": "the generated file does not compile in the consuming library", "error": e}));
        }
        Built::Broken(e) => { eprintln!("driver: {}", e); std::process::exit(3); }
    }
    r.set("rule", "states: rule sets (grammar enumerated within bounds) generated, compiled into the consuming library and executed; transitions: real selections compared with UTS #35 evaluation; traces: distinct (rule set, category) outcomes observed");
    for k in [5usize, 700, 1500] { if let Some(x) = sets.get(k) { r.sample(json!({"rules": x.iter().map(|y| format!("{}: {}", y.0, y.1)).collect::<Vec<_>>()})); } }
    let _ = dev::NAMES;
}

// ------------------------------------------------------------------ C15
fn c15(r: &'static Report) {
    let known = findings("C15");
    let what = |s: &str| known.iter().find(|f| f.subject == s).map(|f| f.what.clone());
    let mut fam: Vec<String> = vec![];
    for l in ["en", "sr", "zh", "pt", "az", "uz", "ast", "gsw", "ksh", "yue"] {
        for s in ["", "-Latn", "-Cyrl", "-Hant", "-Arab", "-Aaaa", "-Zzzz"] { for g in ["", "-US", "-GB", "-PT", "-001", "-419", "-AA", "-ZZ"] { fam.push(format!("{}{}{}", l, s, g)); } }
    }
    let two: Vec<String> = (0..676u32).map(|k| [k / 26, k % 26].iter().map(|x| (b'a' + *x as u8) as char).collect()).collect();
    let three: Vec<String> = codes().step_by(if r.quick() { 13 } else { 1 }).collect();
    let long: Vec<String> = {
        let mut v = vec![];
        for n in 5..=8usize { for a in "abmnyz".chars() { for b in "amz".chars() { for c in "az".chars() { v.push(std::iter::once(a).chain(std::iter::repeat(b).take(n - 2)).chain(std::iter::once(c)).collect()); } } } }
        v
    };
    let cldr: Vec<String> = refmodel::data::load(&format!("{}/data/cldr37_cardinals.json", refmodel::report::root()), "cardinal").locales.keys().cloned().collect();
    let mut big: Vec<String> = [&fam[..], &two, &three, &long].concat();
    big.sort(); big.dedup();
    let s = |x: &[&str]| x.iter().map(|y| y.to_string()).collect::<Vec<String>>();
    // (cardinal locales, ordinal locales), in deliberately unsorted order
    let rev = |mut v: Vec<String>| { v.reverse(); v };
    let mut tabs: Vec<(Vec<String>, Vec<String>)> = vec![
        (rev(big.clone()), rev(fam.clone())),
        (s(&["en"]), s(&["fr", "root"])),
        (s(&["eng", "root", "en"]), s(&["root"])),
        (s(&["root", "zz", "ab", "abc", "abcde", "ab-Latn", "ab-AA", "ab-Latn-AA"]), s(&["zz-ZZ", "zz"])),
        (cldr.clone(), cldr.iter().step_by(3).cloned().collect()),
        (s(&["EN-us", "en", "sr_latn", "ZH-hant-tw", "FIL", "zh", "en-gb", "Root", "rOot-AA"][..7]), s(&["PT_pt", "pt", "SR-CYRL", "sr"])),
        (rev(fam.iter().step_by(5).cloned().collect()), s(&["aa"])),
    ];
    // every table size from 1 up (the consumer searches by bisection)
    let top = if r.quick() { 20 } else { 60 };
    for n in (2..=top).step_by(2) {
        let pick = |k: usize, off: usize| -> Vec<String> { rev((0..k).map(|j| big[(j * 397 + off) % big.len()].clone()).collect::<std::collections::BTreeSet<_>>().into_iter().collect()) };
        tabs.push((pick(n, 11), pick(n + 1, 5)));
    }
    // every subset of a set of keys that share prefixes, the complement as the other rule type
    let keys = if r.quick() { s(&["eng", "en-Latn", "en", "en-US"]) } else { s(&["fr", "eng", "en-Latn-US", "en-Latn", "enm", "en", "en-US"]) };
    for m in 1u32..(1 << keys.len()) {
        let part = |want: bool| -> Vec<String> { keys.iter().enumerate().filter(|(k, _)| (m >> k & 1 == 1) == want).map(|x| x.1.clone()).collect() };
        let mut rest = part(false);
        rest.push("root".into());
        if rest.len() == 1 { rest.push("aa".into()); }
        tabs.push((part(true), rest));
    }
    let sc = Scratch::new("c15");
    let mut texts = vec![];
    let mut spec = vec![];
    let mut locales = 0u64;
    for (k, (c, o)) in tabs.iter().enumerate() {
        let version = [37u64, 1, 0, 999, 42, 38, 36, 100, 7, 4_294_967_338][k % 10];
        let mk = |l: &Vec<String>, base: usize| -> (Vec<(String, Set)>, Map<String, Value>) {
            let mut m = Map::new();
            let v = l.iter().enumerate().map(|(j, x)| { if x != "root" { m.insert(x.clone(), json!(j * 3 + base)); } (x.clone(), vec![("one", format!("i = {}", j * 3 + base))]) }).collect();
            (v, m)
        };
        let (cv, cm) = mk(c, 10);
        let (ov, om) = mk(o, 11);
        locales += (cm.len() + om.len()) as u64;
        // the keys are written in the order given, not sorted
        let src = inputs::ordered(&version.to_string(), Some(&cv), Some(&ov));
        match generate(&[src]) {
            Ok(t) => match rustfmt(&sc.0, &t) { Ok(t) => texts.push(Some(t)), Err(e) => { r.violation(json!({"table": k, "problem": "rustfmt refuses the generated text", "error": e})); return; } },
            Err(e) => { r.violation(json!({"table": k, "problem": format!("the generator aborts: {}", e), "cardinal": c.iter().take(10).collect::<Vec<_>>()})); return; }
        }
        spec.push(json!({"version": version, "cardinal": cm, "ordinal": om}));
        beat();
    }
    let mut absent: Vec<String> = s(&["und", "und-Latn", "en-valencia", "ca-valencia", "en-US-posix", "fr-CA", "aaa-Latn", "abcdefgh", "zzz-ZZ"]);
    absent.extend(two.iter().step_by(7).cloned());
    absent.extend(fam.iter().step_by(3).cloned());
    match build_and_run(&sc, &texts, "lookup", &json!({"tables": spec, "absent": absent})) {
        Built::Out(v) => {
            for x in v["violations"].as_array().unwrap() { r.violation(x.clone()); }
            r.set("transitions", v["lookups"].clone());
        }
        Built::DoesNotCompile(e) => {
            if !consumer::consumer_is_sane() { eprintln!("the consuming library does not build: {}", e); std::process::exit(3); }
            r.violation(json!({"problem": "a generated table does not compile in the consuming library", "error": e}));
        }
        Built::Broken(e) => { eprintln!("driver: {}", e); std::process::exit(3); }
    }
    // identifiers with a recorded finding, on their own
    for (subject, id) in [("LOCALE_UND", "und"), ("LOCALE_VARIANT", "ca-valencia")] {
        let sc = Scratch::new("c15x");
        let src = inputs::ordered("37", Some(&vec![(id.to_string(), vec![("one", "i = 5".to_string())])]), Some(&vec![("fr".to_string(), vec![("one", "i = 6".to_string())])]));
        let bad: Option<Value> = match generate(&[src]).and_then(|t| rustfmt(&sc.0, &t)) {
            Err(e) => Some(json!({"locale": id, "problem": e})),
            Ok(t) => match build_and_run(&sc, &[Some(t)], "lookup", &json!({"tables": [{"version": 37, "cardinal": {id: 5}, "ordinal": {"fr": 6}}], "absent": []})) {
                Built::Out(v) => v["violations"].as_array().unwrap().first().cloned(),
                Built::DoesNotCompile(e) => Some(json!({"locale": id, "problem": "the generated table does not compile", "error": e})),
                Built::Broken(e) => { eprintln!("driver: {}", e); std::process::exit(3); }
            },
        };
        if let Some(b) = bad { match what(subject) { Some(w) => r.known(w), None => r.violation(b) } }
    }
    r.set("states", locales);
    r.set("tables", tabs.len() as u64);
    r.set("traces_validated_against_impl", tabs.len() as u64);
    r.set("rule", "states: source locales over all tables; transitions: real lookups and probes in the compiled consumer; traces: generated tables compiled and searched");
    r.sample(json!({"table": 3, "cardinal": tabs[3].0, "ordinal": tabs[3].1}));
}

// ------------------------------------------------------------------ C18
fn c18(r: &'static Report) {
    let dir = format!("{}/cldr_data", consumer::LIB);
    let mut files: Vec<_> = std::fs::read_dir(&dir).expect("cldr_data").map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "json").unwrap_or(false)).collect();
    files.sort();
    let jsons: Vec<String> = files.iter().map(|p| std::fs::read_to_string(p).unwrap()).collect();
    let sc = Scratch::new("c18");
    let text = match generate(&jsons) { Ok(t) => t, Err(e) => { r.violation(json!({"problem": format!("the generator aborts on the shipped data: {}", e)})); return; } };
    let text = match rustfmt(&sc.0, &text) { Ok(t) => t, Err(e) => { r.violation(json!({"problem": "rustfmt refuses the generated text", "error": e})); return; } };
    r.set("regenerated_text_bytes", text.len() as u64);
    match build_and_run(&sc, &[Some(text), None], "diff", &json!({"big": !r.quick()})) {
        Built::Out(v) => {
            for x in v["violations"].as_array().unwrap() { r.violation(x.clone()); }
            r.set("states", v["numbers"].clone());
            r.set("transitions", v["selections"].clone());
            r.set("traces_validated_against_impl", v["pairs"].clone());
        }
        Built::DoesNotCompile(e) => {
            if !consumer::consumer_is_sane() { eprintln!("the consuming library does not build: {}", e); std::process::exit(3); }
            r.violation(json!({"problem": "the regenerated file does not compile in the consuming library", "error": e}));
        }
        Built::Broken(e) => { eprintln!("driver: {}", e); std::process::exit(3); }
    }
    r.set("rule", "states: numbers; transitions: selections on regenerated and shipped tables; traces: (locale, type) pairs compared on all numbers");
    r.sample(json!({"files": files.iter().map(|f| f.display().to_string()).collect::<Vec<_>>()}));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 2 && a[1] == "gen" {
        // fresh-process oracle: print what the generator makes of the files
        std::panic::set_hook(Box::new(|_| ()));
        let j: Vec<String> = a[2..].iter().map(|f| std::fs::read_to_string(f).unwrap()).collect();
        match generate(&j) { Ok(t) => { print!("{}", t); return; } Err(_) => std::process::exit(9) }
    }
    if a.len() == 3 && a[1] == "replay" {
        println!("{}", std::fs::read_to_string(&a[2]).expect("replay file"));
        return;
    }
    if a.len() < 3 { eprintln!("usage: h_gen <property> <tier>"); std::process::exit(2); }
    let r = Report::new(&a[1], &a[2]);
    match a[1].as_str() {
        "C14" => c14(r), "C15" => c15(r), "C16" => inputs::c16(r), "C17" => inputs::c17(r), "C18" => c18(r), "C19" => cli::run_all(r),
        x => { eprintln!("unknown property {}", x); std::process::exit(2) }
    }
    r.finish_and_exit();
}
