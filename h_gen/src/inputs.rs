//! C16 (which input sets are accepted) and C17 (output is a function of the data).
use crate::{generate, Set};
use refmodel::data::findings;
use refmodel::par_chunks;
use refmodel::report::{beat, Report};
use refmodel::serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

pub fn quote(s: &str) -> String { Value::String(s.into()).to_string() }
fn object(members: &[(String, String)], pretty: bool) -> String {
    let sep = if pretty { ",\n  " } else { "," };
    format!("{{{}{}{}}}", if pretty { "\n  " } else { "" }, members.iter().map(|(k, v)| format!("{}:{}{}", quote(k), if pretty { " " } else { "" }, v)).collect::<Vec<_>>().join(sep), if pretty { "\n" } else { "" })
}
fn table(l: &[(String, Set)], pretty: bool) -> String {
    object(&l.iter().map(|(k, s)| (k.clone(), object(&s.iter().map(|(c, t)| (format!("pluralRule-count-{}", c), quote(t))).collect::<Vec<_>>(), pretty))).collect::<Vec<_>>(), pretty)
}
/// A resource with every member in the order given.
pub fn ordered(version: &str, card: Option<&Vec<(String, Set)>>, ord: Option<&Vec<(String, Set)>>) -> String {
    let mut m = vec![("version".to_string(), object(&[("_unicodeVersion".into(), quote("13.0.0")), ("_cldrVersion".into(), quote(version))], false))];
    if let Some(c) = card { m.push(("plurals-type-cardinal".into(), table(c, false))); }
    if let Some(o) = ord { m.push(("plurals-type-ordinal".into(), table(o, false))); }
    object(&[("supplemental".into(), object(&m, false))], false)
}

struct Kind { name: &'static str, text: String, good: bool, version: &'static str, card: bool, ord: bool, finding: Option<&'static str> }

fn kinds() -> Vec<Kind> {
    let c = || vec![("en".to_string(), vec![("one", "i = 1 and v = 0 @integer 1".to_string()), ("other", " @integer 0, 2~16, …".to_string())]), ("root".to_string(), vec![("other", " @integer 0~15".to_string())])];
    let o = || vec![("fr".to_string(), vec![("one", "n = 1".to_string())])];
    let mut v = vec![];
    for ver in ["37", "38"] {
        for (n, card, ord) in [("cardinal", true, false), ("ordinal", false, true), ("both", true, true), ("neither", false, false)] {
            v.push(Kind { name: n, text: ordered(ver, card.then(c).as_ref(), ord.then(o).as_ref()), good: true, version: ver, card, ord, finding: None });
        }
    }
    // the same rule type with other, empty or only-root contents; another way to write a version that is a prefix
    let other = vec![("de".to_string(), vec![("one", "n = 1".to_string())])];
    let root = vec![("root".to_string(), vec![("other", " @integer 0~15".to_string())])];
    let none: Vec<(String, Set)> = vec![];
    for (n, ver, card, ord) in [("cardinal, other locale", "37", Some(&other), None), ("ordinal, other locale", "37", None, Some(&other)), ("cardinal without locales", "37", Some(&none), None), ("ordinal without locales", "37", None, Some(&none)),
        ("cardinal with root only", "37", Some(&root), None), ("both, ordinal without locales", "37", Some(&other), Some(&none)), ("ordinal", "370", None, Some(&other)), ("ordinal", "3", None, Some(&other)), ("neither", "36", None, None)] {
        v.push(Kind { name: n, text: ordered(ver, card, ord), good: true, version: ver, card: card.is_some(), ord: ord.is_some(), finding: None });
    }
    let good = ordered("37", Some(&c()), None);
    let rule = |t: &str| ordered("37", Some(&vec![("en".to_string(), vec![("one", t.to_string())])]), None);
    let mut bad = |n: &'static str, t: String| v.push(Kind { name: n, text: t, good: false, version: "37", card: true, ord: false, finding: None });
    bad("not JSON", "not json".into());
    bad("empty text", "".into());
    bad("truncated JSON", good[..good.len() - 2].into());
    bad("no members", "{}".into());
    bad("an array", "[]".into());
    bad("no version", good.replace("\"version\"", "\"versions\""));
    bad("no CLDR version", good.replace("_cldrVersion", "_version"));
    bad("version is not a number", good.replace("\"37\"", "\"abc\""));
    bad("rules are a list", good.replace("\"plurals-type-cardinal\":{", "\"plurals-type-cardinal\":[],\"x\":{"));
    bad("rule is a number", good.replace(&quote("i = 1 and v = 0 @integer 1"), "5"));
    bad("bad locale", good.replace("\"en\"", "\"e!n\""));
    bad("bad locale length", good.replace("\"en\"", "\"toolonglanguage\""));
    bad("unknown operand", rule("x = 1"));
    bad("no operator", rule("n 1"));
    bad("text after the JSON value", good.clone() + " x");
    for (n, f, t) in [
        ("dangling or", "MALFORMED_RULE_TAIL", rule("n = 1 or")),
        ("text after the rule", "MALFORMED_RULE_TAIL", rule("n = 1 foo")),
        ("unknown category", "UNKNOWN_CATEGORY", ordered("37", Some(&vec![("en".to_string(), vec![("foo", "n = 1".to_string())])]), None)),
        ("empty condition", "EMPTY_CONDITION", rule("")),
        ("negative version", "NEGATIVE_VERSION", good.replace("\"37\"", "\"-1\"")),
    ] { v.push(Kind { name: n, text: t, good: false, version: if f == "NEGATIVE_VERSION" { "-1" } else { "37" }, card: true, ord: false, finding: Some(f) }); }
    v
}

/// Whether a text is well-formed plural data: Some((version, cardinal, ordinal)), or a refusal, or not decided here.
/// Only names, shapes and the version are judged; texts whose locales or rules differ from the originals are left to the kinds.
enum Verdict { Refused, Good(String, bool, bool), Open }
fn judge(t: &str) -> Verdict {
    use Verdict::*;
    let v: Value = match refmodel::serde_json::from_str(t) { Ok(v) => v, Err(_) => return Refused };
    let sup = match v.get("supplemental") { Some(Value::Object(m)) => m, Some(Value::Array(_)) => return Open, _ => return if v.is_array() { Open } else { Refused } };
    let ver = match sup.get("version") { Some(Value::Object(m)) => m, Some(Value::Array(_)) => return Open, _ => return Refused };
    let version = match ver.get("_cldrVersion") { Some(Value::String(s)) => s.clone(), None => return Refused, _ => return Open };
    // members that the generator has no use for
    if !matches!(ver.get("_unicodeVersion"), Some(Value::String(_))) || !matches!(ver.get("_number"), None | Some(Value::String(_))) { return Open; }
    let whole = !version.is_empty() && version.bytes().all(|c| c.is_ascii_digit());
    if whole && (version.len() > 9 || version.starts_with('0')) || version.starts_with(|c| c == '+' || c == '-') || version.contains('.') { return Open; }
    if !whole && version.trim() != version { return Open; }
    let mut has = [false; 2];
    for (k, name) in ["plurals-type-cardinal", "plurals-type-ordinal"].iter().enumerate() {
        match sup.get(*name) {
            None | Some(Value::Null) => {}
            Some(Value::Object(m)) => {
                has[k] = true;
                for (l, rules) in m {
                    if !["en", "root"].contains(&l.as_str()) { return Open; }
                    match rules {
                        Value::Object(m) => for (c, x) in m {
                            if !matches!((c.as_str(), x.as_str()), ("pluralRule-count-one", Some("n = 1")) | ("pluralRule-count-other", Some(" @integer 0"))) { if x.is_string() { return Open; } return Refused; }
                        },
                        _ => return Refused,
                    }
                }
            }
            _ => return Refused,
        }
    }
    if whole { Good(version, has[0], has[1]) } else { Refused }
}
/// All single edits of a small resource, and pairs of edits, alone and beside another resource.
fn edited(r: &'static Report, ord: bool, seqs: &AtomicU64, calls: &AtomicU64) -> (u64, u64) {
    let rules = vec![("en".to_string(), vec![("one", "n = 1".to_string()), ("other", " @integer 0".to_string())])];
    let (mine, other) = (ordered("37", (!ord).then(|| &rules), ord.then(|| &rules)), ordered("37", ord.then(|| &rules), (!ord).then(|| &rules)));
    let base: Vec<char> = mine.chars().collect();
    let neither = ordered("37", None, None);
    let wide: Vec<char> = "\"{}[],:\\/sSn1037-_ .'x\u{feff}\u{a0}\u{0}\n\t#".chars().collect();
    let few: Vec<char> = if r.quick() { "\"s}1".chars().collect() } else { "\"s}1]{,: 0_".chars().collect() };
    // an edit: position, what is put there, how much is taken away
    let list = |al: &[char]| -> Vec<(usize, Option<char>, usize)> {
        let mut v = vec![];
        for p in 0..=base.len() {
            for c in al { v.push((p, Some(*c), 0)); if p < base.len() { v.push((p, Some(*c), 1)); } }
            if p < base.len() { v.push((p, None, 1)); }
        }
        v
    };
    let (one, two) = (list(&wide), if ord && r.quick() { vec![] } else { list(&few) });
    let apply = |t: &mut Vec<char>, e: &(usize, Option<char>, usize)| { t.splice(e.0..e.0 + e.2, e.1); };
    let (n1, n2) = (one.len() as u64, two.len() as u64);
    let judged = AtomicU64::new(0);
    // whole pieces doubled, removed, or nested; other texts around the value
    let b: String = base.iter().collect();
    let mut pieces: Vec<String> = vec![];
    for a in 0..base.len() { for e in a + 1..=base.len() { pieces.push(base[..a].iter().chain(&base[e..]).collect()); } }
    for x in ["x", "{}", "null", "\u{feff}", "\u{a0}", "//", "/**/", "# x\n", ",", ";", "\0", "1", "\u{1}", "[", "\n", " ", "\t"] { pieces.push(format!("{}{}", x, b)); pieces.push(format!("{}{}", b, x)); pieces.push(format!("{}{}{}", x, b, x)); }
    pieces.push(format!("{}{}", b, b)); pieces.push(format!("{}\n{}", b, b)); pieces.push(format!("[{}]", b)); pieces.push(format!("{{\"x\":{}}}", b));
    let n3 = pieces.len() as u64;
    par_chunks(n1 + n2 * n2 + n3, 500, |a, z| for k in a..z {
        let text = if k < n1 { let mut t = base.clone(); apply(&mut t, &one[k as usize]); t.into_iter().collect::<String>() }
            else if k < n1 + n3 { pieces[(k - n1) as usize].clone() }
            else {
                let (x, y) = (&two[((k - n1 - n3) / n2) as usize], &two[((k - n1 - n3) % n2) as usize]);
                // the second first, so that positions stay
                if x.0 + x.2 > y.0 { continue; }
                let mut t = base.clone(); apply(&mut t, y); apply(&mut t, x); t.into_iter().collect()
            };
        seqs.fetch_add(1, Relaxed);
        let v = judge(&text);
        let verdicts: Vec<(Vec<String>, bool)> = match &v {
            Verdict::Open => continue,
            Verdict::Refused => vec![(vec![text.clone()], false), (vec![text.clone(), other.clone()], false), (vec![other.clone(), text.clone()], false)],
            Verdict::Good(ver, c, o) => vec![(vec![text.clone()], *c || *o), (vec![text.clone(), other.clone()], ver == "37" && !(if ord { *c } else { *o })), (vec![neither.clone(), text.clone()], ver == "37" && (*c || *o))],
        };
        judged.fetch_add(1, Relaxed);
        // refusals beside another resource: for the single edits only
        for (seq, want) in verdicts.into_iter().take(if k < n1 + n3 { 3 } else { 1 }) {
            calls.fetch_add(seq.len() as u64, Relaxed);
            let got = generate(&seq);
            if got.is_ok() != want && r.n_violations() < 10 { r.violation(json!({"resources": seq, "problem": if want { "refused" } else { "accepted" }, "want": if want { "accepted" } else { "refused" }})); }
        }
    });
    (n1 + n2 * n2 / 2 + n3, judged.load(Relaxed))
}

pub fn c16(r: &'static Report) {
    let ks = kinds();
    let known: BTreeMap<String, String> = findings("C16").into_iter().map(|f| (f.subject, f.what)).collect();
    // the good and two bad kinds to a larger depth, all kinds to depth 3
    let small: Vec<usize> = (0..ks.len()).filter(|k| ks[*k].good || ["not JSON", "bad locale", "no version"].contains(&ks[*k].name)).collect();
    let all: Vec<usize> = (0..ks.len()).collect();
    let plans = [(&all, 4u32), (&small, if r.quick() { 4 } else { 5 })];
    let (seqs, calls, succ) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let seen_known: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
    for (pi, (al, depth)) in plans.iter().enumerate() {
        for d in if pi == 0 { 0 } else { plans[0].1 + 1 }..=*depth {
            let n = al.len() as u64;
            par_chunks(n.pow(d), 200, |a, b| for k in a..b {
                let mut q = k;
                let seq: Vec<&Kind> = (0..d).map(|_| { let x = al[(q % n) as usize]; q /= n; &ks[x] }).collect();
                seqs.fetch_add(1, Relaxed);
                calls.fetch_add(seq.len() as u64, Relaxed);
                let got = generate(&seq.iter().map(|k| k.text.clone()).collect::<Vec<_>>());
                // what holds apart from the well-formedness of single resources
                let consistent = !seq.is_empty()
                    && seq.iter().all(|k| k.version == seq[0].version)
                    && seq.iter().filter(|k| k.card).count() <= 1 && seq.iter().filter(|k| k.ord).count() <= 1
                    && seq.iter().any(|k| k.card || k.ord);
                let malformed = seq.iter().any(|k| !k.good);
                let excusable = seq.iter().all(|k| k.good || k.finding.map(|f| known.contains_key(f)).unwrap_or(false));
                let names = || seq.iter().map(|k| format!("{} {}", k.version, k.name)).collect::<Vec<_>>();
                let want = consistent && !malformed;
                match &got {
                    Ok(t) => {
                        succ.fetch_add(1, Relaxed);
                        if !want {
                            if consistent && excusable {
                                let mut g = seen_known.lock().unwrap();
                                for k in seq.iter().filter(|k| !k.good) { g.insert(k.finding.unwrap().into(), known[k.finding.unwrap()].clone()); }
                            } else if r.n_violations() < 10 { r.violation(json!({"inputs": names(), "resources": seq.iter().map(|k| &k.text).collect::<Vec<_>>(), "problem": "accepted", "want": "refused"})); }
                        } else {
                            // exactly the rule types supplied, the version supplied
                            let words: Vec<&str> = t.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).collect();
                            let (c, o) = (seq.iter().any(|k| k.card), seq.iter().any(|k| k.ord));
                            if words.contains(&"PRS_CARDINAL") != c || words.contains(&"PRS_ORDINAL") != o || !words.contains(&"CLDR_VERSION") || !words.contains(&seq[0].version) {
                                if r.n_violations() < 10 { r.violation(json!({"inputs": names(), "problem": "output does not have exactly the rule types and version supplied"})); }
                            }
                        }
                    }
                    Err(e) => if want && r.n_violations() < 10 { r.violation(json!({"inputs": names(), "resources": seq.iter().map(|k| &k.text).collect::<Vec<_>>(), "problem": format!("refused: {}", e), "want": "accepted"})); },
                }
            });
        }
    }
    let (a, b) = (edited(r, false, &seqs, &calls), edited(r, true, &seqs, &calls));
    let (edits, judged) = (a.0 + b.0, a.1 + b.1);
    r.set("edited_resources", edits);
    r.set("edited_resources_judged", judged);
    for (k, w) in seen_known.into_inner().unwrap() { let _ = k; r.known(w); }
    r.set("states", seqs.load(Relaxed));
    r.set("transitions", calls.load(Relaxed));
    r.set("traces_validated_against_impl", succ.load(Relaxed));
    r.set("resource_kinds", ks.len() as u64);
    r.set("depth_all_kinds", plans[0].1 as u64);
    r.set("depth_main_kinds", plans[1].1 as u64);
    r.set("rule", "states: sequences of input resources, all of them up to the depths; transitions: resources processed; traces: sequences on which the generator succeeded and its output was inspected");
    r.sample(json!({"inputs": ["37 cardinal", "38 ordinal"], "result": format!("{:?}", generate(&[ks[0].text.clone(), ks[5].text.clone()]))}));
}

// ------------------------------------------------------------------ C17
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = vec![];
    for p in perms(n - 1) { for k in 0..n { let mut q = p.clone(); q.insert(k, n - 1); out.push(q); } }
    out
}

pub fn c17(r: &'static Report) {
    let exe = std::env::current_exe().unwrap();
    let sc = crate::consumer::Scratch::new("c17");
    let cnt = AtomicU64::new(0);
    let fresh = |texts: &[String]| -> Result<String, ()> {
        cnt.fetch_add(1, Relaxed);
        let id = cnt.load(Relaxed);
        let files: Vec<_> = texts.iter().enumerate().map(|(k, t)| { let f = sc.0.join(format!("in{}_{}.json", id, k)); std::fs::write(&f, t).unwrap(); f }).collect();
        let o = std::process::Command::new(&exe).arg("gen").args(&files).output().unwrap();
        for f in files { let _ = std::fs::remove_file(f); }
        beat();
        if o.status.success() { Ok(String::from_utf8(o.stdout).unwrap()) } else { Err(()) }
    };
    let set = |x: &[(&'static str, &str)]| x.iter().map(|(c, t)| (*c, t.to_string())).collect::<Set>();
    let card: Vec<(String, Set)> = vec![
        ("en".into(), set(&[("one", "i = 1 and v = 0"), ("other", " @integer 0")])),
        ("pt-PT".into(), set(&[("few", "n % 10 = 3"), ("many", "n = 4"), ("one", "n = 1"), ("two", "n = 2"), ("zero", "n = 0")])),
        ("sr-Latn".into(), set(&[("one", "v = 0 and i % 10 = 1"), ("few", "f = 2..4,7 or i = 3")])),
        ("ast".into(), set(&[("one", "n within 0..1")])),
        ("pt".into(), set(&[("one", "i = 0..1")])),
        ("sr".into(), set(&[("two", "i = 2 and f != 3..4")])),
        ("root".into(), set(&[("other", "")])),
    ];
    let ord: Vec<(String, Set)> = vec![("en".into(), set(&[("one", "n % 10 = 1"), ("two", "n = 2")])), ("cy".into(), set(&[("zero", "n = 0,7..9"), ("many", "n = 5,6")])), ("pt".into(), set(&[("one", "n != 3")]))];
    let want = match fresh(&[ordered("37", Some(&card), None), ordered("37", None, Some(&ord))]) { Ok(t) => t, Err(_) => { r.violation(json!({"problem": "the generator aborts on consistent data"})); return; } };
    let (states, calls) = (AtomicU64::new(0), AtomicU64::new(0));
    let check = |texts: &[String], what: &str| {
        states.fetch_add(1, Relaxed); calls.fetch_add(texts.len() as u64, Relaxed);
        let got = generate(texts);
        if got.as_ref().ok() != Some(&want) && r.n_violations() < 8 {
            let at = got.as_ref().map(|g| g.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count()).unwrap_or(0);
            r.violation(json!({"problem": format!("other text for the same data: {}", what), "inputs": texts, "first_difference_at_byte": at, "got": got.as_ref().map(|g| g.chars().skip(at.saturating_sub(40)).take(160).collect::<String>()).unwrap_or_else(|e| format!("panic: {}", e))}));
        }
    };
    let perm = |l: &[(String, Set)], p: &[usize]| p.iter().map(|k| l[*k].clone()).collect::<Vec<_>>();
    // order of locales, of files, merged or split
    let (pc, po) = (perms(card.len()), perms(ord.len()));
    par_chunks((pc.len() * po.len()) as u64, 20, |a, b| for k in a..b {
        let (c, o) = (perm(&card, &pc[k as usize % pc.len()]), perm(&ord, &po[k as usize / pc.len()]));
        let (fc, fo) = (ordered("37", Some(&c), None), ordered("37", None, Some(&o)));
        check(&[fc.clone(), fo.clone()], "order of locales");
        check(&[fo.clone(), fc.clone()], "order of files");
        check(&[ordered("37", Some(&c), Some(&o))], "one file");
    });
    // order of categories within every locale
    let p5 = perms(5);
    for p in &p5 {
        let mut c = card.clone();
        c[1].1 = p.iter().map(|k| card[1].1[*k].clone()).collect();
        for (k, s) in c.iter_mut().enumerate() { if k != 1 && p[0] > p[1] { s.1.reverse(); } }
        let mut o = ord.clone();
        for s in o.iter_mut() { if p[1] > p[2] { s.1.reverse(); } }
        check(&[ordered("37", Some(&c), None), ordered("37", None, Some(&o))], "order of categories");
    }
    // order of members, irrelevant members, layout
    let extra = [("identity", "{\"a\": [1, 2, {\"plurals-type-cardinal\": {}}]}"), ("$schema", "\"x\""), ("zzz", "null"), ("pluralRanges", "{\"en\": {}}")];
    for pretty in [false, true] { for m in 0u32..16 { for p in perms(3) { for swap in [false, true] { for num in [None, Some("\"$Revision: 1 $\""), Some("null")] {
        let mut v = vec![("_cldrVersion".to_string(), quote("37")), ("_unicodeVersion".to_string(), quote(if swap { "13.0.0" } else { "9.1" }))];
        if let Some(n) = num { v.insert(if swap { 0 } else { 2 }, ("_number".into(), n.into())); }
        if m & 1 == 1 { v.push(("_extra".into(), "5".into())); }
        let base = [("version".to_string(), object(&v, pretty)), ("plurals-type-cardinal".to_string(), table(&card, pretty)), ("plurals-type-ordinal".to_string(), table(&ord, pretty))];
        let mut mem: Vec<(String, String)> = p.iter().map(|k| base[*k].clone()).collect();
        for (k, (a, b)) in extra.iter().enumerate() { if m >> k & 1 == 1 { mem.insert((k + p[0]) % (mem.len() + 1), (a.to_string(), b.to_string())); } }
        let mut top = vec![("supplemental".to_string(), object(&mem, pretty))];
        if m & 2 == 2 { top.insert(if swap { 0 } else { 1 }, ("other".into(), "{}".into())); }
        check(&[object(&top, pretty)], "members and layout");
    } } } } }
    // characters of strings written as escapes, and blanks between the tokens
    for plain in [ordered("37", Some(&card), Some(&ord)), object(&[("supplemental".into(), object(&[("plurals-type-ordinal".into(), table(&ord, true)), ("plurals-type-cardinal".into(), table(&card, true)), ("version".into(), object(&[("_cldrVersion".into(), quote("37")), ("_unicodeVersion".into(), quote("13"))], true))], true))], true)] {
        for step in 1..40usize { for first in 0..step.min(8) { for blank in ["", " ", "\n", "\r\n", "\t", " \n\t "] {
            let (mut t, mut inside, mut n) = (String::new(), false, 0usize);
            for c in plain.chars() {
                if c == '"' { inside = !inside; t.push(c); if !inside { t.push_str(blank); } continue; }
                if inside { n += 1; if n % step == first { t.push_str(&format!("\\u{:04x}", c as u32)); continue; } t.push(c); }
                else { t.push_str(blank); t.push(c); t.push_str(blank); }
            }
            check(&[t], "escapes and blanks");
        } } }
    }
    // histories: every sequence of earlier calls, including failing ones, must leave the last one unchanged
    let inputs: Vec<Vec<String>> = vec![
        vec![ordered("37", Some(&card), None), ordered("37", None, Some(&ord))],
        vec![ordered("1", Some(&ord), None)],
        vec![ordered("37", None, Some(&card))],
        vec!["garbage".into()],
        vec![ordered("37", Some(&card), None), ordered("38", None, Some(&ord))],
        vec![ordered("37", Some(&vec![("en".to_string(), set(&[("one", "n = 5")]))]), None)],
        vec![ordered("37", Some(&card), None), ordered("37", Some(&card), None)],
    ];
    let alone: Vec<Result<String, ()>> = inputs.iter().map(|t| fresh(t)).collect();
    let depth = if r.quick() { 5u32 } else { 6 };
    let n = inputs.len() as u64;
    par_chunks(n.pow(depth), 100, |a, b| for k in a..b {
        let mut q = k;
        for step in 0..depth {
            let i = (q % n) as usize; q /= n;
            states.fetch_add(1, Relaxed); calls.fetch_add(1, Relaxed);
            let got = generate(&inputs[i]).map_err(|_| ());
            if got != alone[i] && r.n_violations() < 8 { r.violation(json!({"problem": "other result than in a fresh process", "history": format!("{} in base {} (least significant call first), step {}", k, n, step), "input": inputs[i]})); }
        }
    });
    // the real data: both orders, repeated in this process, and in fresh processes
    let dir = format!("{}/data", refmodel::report::root());
    let rc = std::fs::read_to_string(format!("{}/cldr37_cardinals.json", dir)).unwrap();
    let ro = std::fs::read_to_string(format!("{}/cldr37_ordinals.json", dir)).unwrap();
    let base = fresh(&[rc.clone(), ro.clone()]);
    let mut reals = 0;
    if base.is_err() { r.violation(json!({"problem": "the generator aborts on CLDR 37"})); }
    for k in 0..if r.quick() { 12 } else { 200 } {
        let got = if k % 4 == 0 { fresh(&[ro.clone(), rc.clone()]) } else if k % 2 == 0 { generate(&[ro.clone(), rc.clone()]).map_err(|_| ()) } else { generate(&[rc.clone(), ro.clone()]).map_err(|_| ()) };
        if got != base { r.violation(json!({"problem": "CLDR 37 does not always give the same text", "run": k})); break; }
        reals += 1;
    }
    // CLDR 37 written out in other orders: rotated, reversed and dealt out, the categories of every locale too
    let list = |text: &str, kind: &str| -> Vec<(String, Set)> {
        let v: Value = refmodel::serde_json::from_str(text).unwrap();
        v["supplemental"][format!("plurals-type-{}", kind)].as_object().unwrap().iter().map(|(l, m)| (l.clone(), m.as_object().unwrap().iter().map(|(c, t)| {
            let name = refmodel::data::CATS.iter().find(|x| c.ends_with(x.0)).unwrap().0;
            (name, t.as_str().unwrap().to_string())
        }).collect::<Set>())).collect()
    };
    let (lc, lo) = (list(&rc, "cardinal"), list(&ro, "ordinal"));
    let shuffle = |l: &[(String, Set)], k: usize| -> Vec<(String, Set)> {
        let n = l.len();
        let mut v: Vec<(String, Set)> = match k % 3 { 0 => (0..n).map(|j| l[(j + k * 17) % n].clone()).collect(), 1 => (0..n).rev().map(|j| l[(j + k * 5) % n].clone()).collect(), _ => { let st = 2 + k % 7; (0..st).flat_map(|o| (o..n).step_by(st)).map(|j| l[j].clone()).collect() } };
        for (j, x) in v.iter_mut().enumerate() { let m = x.1.len(); if m > 0 { x.1.rotate_left((j + k) % m); } if (j + k) % 2 == 0 { x.1.reverse(); } }
        v
    };
    let rounds = if r.quick() { 48u64 } else { 2000 };
    par_chunks(rounds, 1, |a, b| for k in a..b {
        let (c, o) = (shuffle(&lc, k as usize), shuffle(&lo, k as usize + 1));
        let (fc, fo) = (ordered("37", Some(&c), None), ordered("37", None, Some(&o)));
        let t = match k % 3 { 0 => vec![fc, fo], 1 => vec![fo, fc], _ => vec![ordered("37", Some(&c), Some(&o))] };
        states.fetch_add(1, Relaxed); calls.fetch_add(t.len() as u64, Relaxed);
        if generate(&t).map_err(|_| ()) != base && r.n_violations() < 8 { r.violation(json!({"problem": "CLDR 37 in another order gives another text", "round": k})); }
        beat();
    });
    r.set("cldr_orders", rounds);
    r.set("states", states.load(Relaxed) + reals);
    r.set("transitions", calls.load(Relaxed) + 2 * reals);
    r.set("traces_validated_against_impl", cnt.load(Relaxed));
    r.set("history_depth", depth as u64);
    r.set("rule", "states: presentations of the same data and call histories; transitions: resources processed; traces: fresh-process reference runs");
    r.sample(json!({"text_bytes": want.len(), "histories": n.pow(depth)}));
}
