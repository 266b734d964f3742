//! C10-C13: the plural rule parser, on completely enumerated grammars, spacings, token sequences and mutations.
use cldr_pluralrules_parser::ast;
use cldr_pluralrules_parser::{parse_plural_condition, parse_plural_rule};
use refmodel::report::Report;
use refmodel::rule::*;
use refmodel::serde_json::{self, json, Value};
use refmodel::{caught, par_chunks};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

// ------------------------------------------------------------------ from the library's structures to the model's
fn c_rel(r: &ast::Relation) -> Rel {
    let opd = match r.expression.operand {
        ast::Operand::N => Opd::N, ast::Operand::I => Opd::I, ast::Operand::V => Opd::V,
        ast::Operand::W => Opd::W, ast::Operand::F => Opd::F, ast::Operand::T => Opd::T,
    };
    let op = match r.operator {
        ast::Operator::In => Op::In, ast::Operator::NotIn => Op::NotIn, ast::Operator::Within => Op::Within, ast::Operator::NotWithin => Op::NotWithin,
        ast::Operator::Is => Op::Is, ast::Operator::IsNot => Op::IsNot, ast::Operator::EQ => Op::Eq, ast::Operator::NotEQ => Op::Ne,
    };
    Rel {
        opd, op,
        modulus: r.expression.modulus.as_ref().map(|m| (m.0).0 as u64),
        items: r.range_list.0.iter().map(|i| match i {
            ast::RangeListItem::Value(v) => Item::Val(v.0 as u64),
            ast::RangeListItem::Range(x) => Item::Range(x.lower_val.0 as u64, x.upper_val.0 as u64),
        }).collect(),
    }
}
fn c_cond(c: &ast::Condition) -> Cond { Cond(c.0.iter().map(|a| a.0.iter().map(c_rel).collect()).collect()) }
fn c_val(v: &ast::DecimalValue) -> SVal { (v.integer.0.to_string(), v.decimal.as_ref().map(|d| d.0.to_string())) }
fn c_list(l: &ast::SampleList) -> SList {
    SList { ranges: l.sample_ranges.iter().map(|r| (c_val(&r.lower_val), r.upper_val.as_ref().map(c_val))).collect(), ellipsis: l.ellipsis }
}
fn c_rule(r: &ast::Rule) -> Rule {
    Rule {
        cond: c_cond(&r.condition),
        integer: r.samples.as_ref().and_then(|s| s.integer.as_ref()).map(c_list),
        decimal: r.samples.as_ref().and_then(|s| s.decimal.as_ref()).map(c_list),
    }
}

type R<T> = Result<Result<T, String>, String>;
fn rule(s: &str) -> R<Rule> { caught(|| parse_plural_rule(s).map(|r| c_rule(&r))) }
fn cond(s: &str) -> R<Cond> { caught(|| parse_plural_condition(s).map(|c| c_cond(&c))) }
fn show<T: std::fmt::Debug>(r: &R<T>) -> String {
    match r { Ok(Ok(x)) => format!("{:?}", x), Ok(Err(e)) => format!("error: {}", e), Err(p) => format!("panic: {}", p) }
}

/// Numbers without leading zeros, the way the library can return them.
fn num(s: &str) -> String { let t = s.trim_start_matches('0'); if t.is_empty() { "0".into() } else { t.into() } }
fn n_val(v: &SVal) -> SVal { (num(&v.0), v.1.as_ref().map(|d| num(d))) }
fn n_list(l: &SList) -> SList { SList { ranges: l.ranges.iter().map(|(a, b)| (n_val(a), b.as_ref().map(n_val))).collect(), ellipsis: l.ellipsis } }
fn n_rule(r: &Rule) -> Rule { Rule { cond: r.cond.clone(), integer: r.integer.as_ref().map(n_list), decimal: r.decimal.as_ref().map(n_list) } }

// ------------------------------------------------------------------ tokens of a text, for "nothing dropped or invented"
/// Words and symbols letter by letter, numbers as units without leading zeros; blanks only separate.
/// None if the text has a character outside the alphabet of rules.
fn canon(s: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut digits = String::new();
    let mut flush = |d: &mut String, out: &mut Vec<String>| if !d.is_empty() { out.push(num(d)); d.clear(); };
    let s = s.replace("mod", "%").replace("...", "…");
    for ch in s.chars() {
        if ch.is_ascii_digit() { digits.push(ch); continue; }
        flush(&mut digits, &mut out);
        if !ch.is_whitespace() { out.push(ch.to_string()); }
    }
    flush(&mut digits, &mut out);
    out
}
fn render(r: &Rule) -> String {
    let mut s = r.cond.text();
    for (name, l) in [("@integer", &r.integer), ("@decimal", &r.decimal)] {
        if let Some(l) = l {
            s.push(' '); s.push_str(name); s.push(' ');
            let v = |x: &SVal| match &x.1 { Some(f) => format!("{}.{}", x.0, f), None => x.0.clone() };
            let items: Vec<String> = l.ranges.iter().map(|(a, b)| match b { Some(b) => format!("{}~{}", v(a), v(b)), None => v(a) }).collect();
            s.push_str(&items.join(","));
            if l.ellipsis { s.push_str(",…"); }
        }
    }
    s
}

struct X { r: &'static Report, texts: AtomicU64, calls: AtomicU64, compared: AtomicU64 }
impl X {
    fn viol(&self, text: &str, entry: &str, got: String, want: String) {
        if self.r.n_violations() < 20 { self.r.violation(json!({"text": text, "entry": entry, "got": got, "want": want})); }
    }
    /// C10: this text denotes exactly this condition.
    fn exact(&self, text: &str, want: &Cond) {
        self.texts.fetch_add(1, Relaxed);
        self.calls.fetch_add(2 * text.len() as u64, Relaxed);
        self.compared.fetch_add(want.0.iter().map(|a| a.len() as u64).sum(), Relaxed);
        let a = rule(text);
        if !matches!(&a, Ok(Ok(r)) if r.cond == *want && r.integer.is_none() && r.decimal.is_none()) { self.viol(text, "parse_plural_rule", show(&a), format!("{:?}", want)); }
        let b = cond(text);
        if !matches!(&b, Ok(Ok(c)) if c == want) { self.viol(text, "parse_plural_condition", show(&b), format!("{:?}", want)); }
    }
    /// C11: if accepted, nothing is dropped, invented or altered.
    fn accounted(&self, text: &str) -> bool {
        self.texts.fetch_add(1, Relaxed);
        self.calls.fetch_add(text.len() as u64, Relaxed);
        match rule(text) {
            Err(p) => { self.viol(text, "parse_plural_rule", format!("panic: {}", p), "a rule or an error".into()); false }
            Ok(Err(_)) => false,
            Ok(Ok(r)) => {
                self.compared.fetch_add(1, Relaxed);
                if canon(&render(&r)) != canon(text) { self.viol(text, "parse_plural_rule", format!("{:?}", r), "an error, or the same tokens".into()); }
                true
            }
        }
    }
    /// C12: the two entry points agree and nothing in front of the samples is cut off.
    fn agree(&self, text: &str) -> bool {
        self.texts.fetch_add(1, Relaxed);
        self.calls.fetch_add(2 * text.len() as u64, Relaxed);
        let (a, b) = (rule(text), cond(text));
        if let Err(p) = &b { self.viol(text, "parse_plural_condition", format!("panic: {}", p), "a condition or an error".into()); return false; }
        if let Ok(Ok(r)) = &a {
            self.compared.fetch_add(1, Relaxed);
            if !matches!(&b, Ok(Ok(c)) if *c == r.cond) { self.viol(text, "parse_plural_condition", show(&b), format!("{:?}", r.cond)); }
        }
        if let Ok(Ok(c)) = &b {
            self.compared.fetch_add(1, Relaxed);
            let head = text.split('@').next().unwrap();
            if canon(&c.text()) != canon(head) { self.viol(text, "parse_plural_condition", show(&b), format!("an error, or all of {:?}", head)); }
        }
        matches!(a, Ok(Ok(_)))
    }
    fn finish(&self) {
        self.r.set("states", self.texts.load(Relaxed));
        self.r.set("transitions", self.calls.load(Relaxed));
        self.r.set("traces_validated_against_impl", self.compared.load(Relaxed));
    }
}

// ------------------------------------------------------------------ enumerated grammars
fn items() -> Vec<Item> {
    vec![Item::Val(0), Item::Val(1), Item::Val(2), Item::Val(10), Item::Val(100), Item::Val(1000000), Item::Val(u64::MAX),
        Item::Range(0, 1), Item::Range(2, 4), Item::Range(11, 14), Item::Range(5, 5), Item::Range(9, 3), Item::Range(0, u64::MAX), Item::Range(70, 79)]
}
fn lists(al: &[Item], n: usize) -> Vec<Vec<Item>> {
    let mut out: Vec<Vec<Item>> = vec![vec![]];
    for _ in 0..n { out = out.iter().flat_map(|l| al.iter().map(move |i| { let mut l = l.clone(); l.push(*i); l })).collect(); }
    out
}
/// tokens with the spelling of the modulus chosen
fn toks(c: &Cond, word_mod: bool) -> Vec<String> {
    c.tokens().into_iter().map(|t| if word_mod && t == "%" { "mod".to_string() } else { t }).collect()
}
fn wordy(t: &str) -> bool { t.chars().all(|c| c.is_ascii_alphabetic()) }
fn digits(t: &str) -> bool { t.chars().all(|c| c.is_ascii_digit()) }
/// a blank is needed between two words, a word and a number, and two numbers
fn needs_blank(a: &str, b: &str) -> bool { (wordy(a) || digits(a)) && (wordy(b) || digits(b)) }

fn relations(quick: bool) -> Vec<(Rel, bool)> {
    let al = items();
    let mut ls: Vec<Vec<Item>> = lists(&al, 1);
    ls.extend(lists(&al, 2));
    ls.extend(lists(&[al[0], al[1], al[6], al[7], al[9], al[10]], 3));
    if !quick { ls.extend(lists(&al, 3)); ls.extend(lists(&[al[1], al[3], al[8], al[11]], 4)); }
    let mut out = vec![];
    for opd in OPDS {
        for m in [None, Some(1), Some(2), Some(10), Some(100), Some(1000000), Some(u64::MAX)] {
            for w in [false, true] {
                if m.is_none() && w { continue; }
                for op in OPS { for l in &ls { out.push((Rel { opd, modulus: m, op, items: l.clone() }, w)); } }
            }
        }
    }
    out
}

fn small_rels() -> Vec<Rel> {
    let p = |s: &str| parse_rule(s).unwrap().cond.0[0][0].clone();
    vec![p("n = 1"), p("v != 0"), p("i % 10 = 2..4,7"), p("f is not 3"), p("t not within 0..1")]
}

fn cldr_lines() -> Vec<String> {
    let mut v = std::collections::BTreeSet::new();
    for k in ["cardinal", "ordinal"] {
        let p = format!("{}/data/cldr37_{}s.json", refmodel::report::root(), k);
        let j: Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
        for (_, rules) in j["supplemental"][format!("plurals-type-{}", k)].as_object().unwrap() {
            for (_, t) in rules.as_object().unwrap() { v.insert(t.as_str().unwrap().to_string()); }
        }
    }
    v.into_iter().collect()
}

fn spaced(t: &[String], choice: &[usize], req: &[&str], opt: &[&str]) -> String {
    let mut s = String::new();
    for k in 0..t.len() {
        if k > 0 { s.push_str(if needs_blank(&t[k - 1], &t[k]) { req[choice[k - 1] % req.len()] } else { opt[choice[k - 1] % opt.len()] }); }
        s.push_str(&t[k]);
    }
    s
}

fn c10(r: &'static Report) {
    let x = X { r, texts: 0.into(), calls: 0.into(), compared: 0.into() };
    // one relation, standard spacing
    let rels = relations(r.quick());
    par_chunks(rels.len() as u64, 2000, |a, b| for (rel, w) in &rels[a as usize..b as usize] {
        let c = Cond(vec![vec![rel.clone()]]);
        x.exact(&join(&toks(&c, *w)), &c);
    });
    r.set("single_relations", rels.len() as u64);
    // all spacings
    let mut bases: Vec<(Cond, bool)> = vec![];
    for (k, opd) in OPDS.iter().enumerate() {
        for op in OPS {
            for (m, w) in [(None, false), (Some(10), false), (Some(10), true)] {
                for l in [vec![Item::Val(1)], vec![Item::Range(2, 4)], vec![Item::Val(1), Item::Range(3, 4)], vec![Item::Range(0, 1), Item::Val(12)], vec![Item::Val(1), Item::Val(2)]] {
                    if r.quick() && k > 1 && l.len() > 1 { continue; }
                    bases.push((Cond(vec![vec![Rel { opd: *opd, modulus: m, op, items: l.clone() }]]), w));
                }
            }
        }
    }
    let req: &[&str] = &[" ", "  ", "\t"];
    let opt: &[&str] = if r.quick() { &["", " ", "  "] } else { &["", " ", "\t ", "  "] };
    let ends: &[&str] = &["", " ", "\t "];
    let spacings = AtomicU64::new(0);
    par_chunks(bases.len() as u64, 2, |a, b| for (c, w) in &bases[a as usize..b as usize] {
        let t = toks(c, *w);
        let radix: Vec<usize> = (1..t.len()).map(|k| if needs_blank(&t[k - 1], &t[k]) { req.len() } else { opt.len() }).collect();
        let total: u64 = radix.iter().map(|x| *x as u64).product();
        for n in 0..total {
            let mut q = n;
            let ch: Vec<usize> = radix.iter().map(|x| { let y = (q % *x as u64) as usize; q /= *x as u64; y }).collect();
            let s = spaced(&t, &ch, req, opt);
            x.exact(&s, c);
            if n < 64 || n == total - 1 { for e in ends { for f in ends { x.exact(&format!("{}{}{}", e, s, f), c); } } }
            spacings.fetch_add(1, Relaxed);
        }
        refmodel::report::beat();
    });
    r.set("spacings", spacings.load(Relaxed));
    // spacings of and / or
    let two: Vec<Cond> = {
        let s = small_rels();
        let mut v = vec![];
        for a in &s { for b in &s { v.push(Cond(vec![vec![a.clone(), b.clone()]])); v.push(Cond(vec![vec![a.clone()], vec![b.clone()]])); } }
        v
    };
    par_chunks(two.len() as u64, 1, |a, b| for c in &two[a as usize..b as usize] {
        let t = toks(c, false);
        let gaps = t.len() - 1;
        for n in 0..1u64 << gaps {
            let ch: Vec<usize> = (0..gaps).map(|k| (n >> k & 1) as usize).collect();
            x.exact(&spaced(&t, &ch, &[" ", " \t"], &["", " "]), c);
        }
        refmodel::report::beat();
    });
    // long runs of blanks in every gap, one gap at a time and all at once
    let runs: Vec<usize> = (1..=if r.quick() { 40 } else { 300 }).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000]).collect();
    let mixed: Vec<Cond> = {
        let mut v = vec![];
        for (k, op) in OPS.iter().enumerate() {
            let rel = |m, items| Rel { opd: OPDS[k % 6], modulus: m, op: *op, items };
            v.push(Cond(vec![vec![rel(Some(10), vec![Item::Val(1), Item::Range(3, 4)]), rel(None, vec![Item::Val(7)])], vec![rel(None, vec![Item::Range(5, 9), Item::Val(12)])]]));
        }
        v
    };
    par_chunks(mixed.len() as u64, 1, |a, b| for c in &mixed[a as usize..b as usize] {
        for w in [false, true] {
            let t = toks(c, w);
            for n in &runs {
                for blank in [" ".repeat(*n), "\t".repeat(*n), " \t".repeat(n / 2 + 1)] {
                    for g in 0..=t.len() + 1 {
                        // gap g: before token g; t.len(): after the last; t.len() + 1: everywhere
                        let mut s = String::new();
                        for (k, x) in t.iter().enumerate() {
                            if k == g || g == t.len() + 1 { s.push_str(&blank); } else if k > 0 && needs_blank(&t[k - 1], x) { s.push(' '); }
                            s.push_str(x);
                        }
                        if g >= t.len() { s.push_str(&blank); }
                        x.exact(&s, c);
                    }
                }
            }
            refmodel::report::beat();
        }
    });
    r.set("blank_run_lengths", runs.len() as u64);
    // every pair of relations over all operands, operators, modulus spellings and list kinds, under and / or
    let mut every: Vec<(Rel, bool)> = vec![];
    for opd in OPDS { for op in OPS { for (m, w) in [(None, false), (Some(100), false), (Some(7), true)] { for l in [vec![Item::Val(1)], vec![Item::Range(2, 4), Item::Val(9)]] { every.push((Rel { opd, modulus: m, op, items: l }, w)); } } } }
    let e = every.len() as u64;
    par_chunks(e * e, 2000, |a, b| for k in a..b {
        let (p, q) = (&every[(k % e) as usize], &every[(k / e) as usize]);
        let (tp, tq) = (join(&toks(&Cond(vec![vec![p.0.clone()]]), p.1)), join(&toks(&Cond(vec![vec![q.0.clone()]]), q.1)));
        x.exact(&format!("{} and {}", tp, tq), &Cond(vec![vec![p.0.clone(), q.0.clone()]]));
        x.exact(&format!("{} or {}", tp, tq), &Cond(vec![vec![p.0.clone()], vec![q.0.clone()]]));
    });
    r.set("relation_pairs", 2 * e * e);
    // structure: or-lists of and-lists
    let al = small_rels();
    let mut ands: Vec<Vec<Rel>> = vec![];
    for n in 1..=3usize {
        for k in 0..al.len().pow(n as u32) { let mut q = k; ands.push((0..n).map(|_| { let y = q % al.len(); q /= al.len(); al[y].clone() }).collect()); }
    }
    let m = ands.len() as u64;
    let total = m + m * m + if r.quick() { 0 } else { m * m * m };
    let build = |k: u64| -> Cond {
        let (n, mut q) = if k < m { (1, k) } else if k < m + m * m { (2, k - m) } else { (3, k - m - m * m) };
        Cond((0..n).map(|_| { let y = q % m; q /= m; ands[y as usize].clone() }).collect())
    };
    par_chunks(total, 2000, |a, b| for k in a..b { let c = build(k); x.exact(&c.text(), &c); });
    // three and-lists over a smaller alphabet, always
    let few: Vec<Vec<Rel>> = ands.iter().step_by(4).cloned().collect();
    let f = few.len() as u64;
    par_chunks(f * f * f, 2000, |a, b| for k in a..b { let c = Cond(vec![few[(k % f) as usize].clone(), few[(k / f % f) as usize].clone(), few[(k / f / f) as usize].clone()]); x.exact(&c.text(), &c); });
    r.set("and_or_structures", total + f * f * f);
    // lengths
    for n in (1..=140).chain([255, 256, 257, 1000, 5000]) {
        let p = |k: usize| Item::Val(k as u64 * 7 % 1013);
        let one = |l: Vec<Item>| Rel { opd: OPDS[l.len() % 6], modulus: None, op: OPS[l.len() % 8], items: l };
        let c = Cond(vec![vec![one((0..n).map(p).collect())]]);
        x.exact(&c.text(), &c);
        let c = Cond(vec![vec![one((0..n).map(|k| if k % 2 == 0 { p(k) } else { Item::Range(k as u64, k as u64 + 3) }).collect())]]);
        x.exact(&c.text(), &c);
        let rel = |k: usize| Rel { opd: OPDS[k % 6], modulus: if k % 3 == 0 { Some(k as u64 + 1) } else { None }, op: OPS[k % 8], items: vec![p(k)] };
        let c = Cond(vec![(0..n).map(rel).collect()]);
        x.exact(&c.text(), &c);
        let c = Cond((0..n).map(|k| vec![rel(k)]).collect());
        x.exact(&c.text(), &c);
        let c = Cond((0..n).map(|k| vec![rel(k), rel(k + 5)]).collect());
        x.exact(&c.text(), &c);
        refmodel::report::beat();
    }
    // numbers in every position
    let mut nums: Vec<u64> = (0..=if r.quick() { 70_000 } else { 2_000_000 }).collect();
    for k in 0..64 { for d in 0..3u64 { nums.push((1u64 << k).wrapping_add(d).wrapping_sub(1)); } }
    for k in 0..20u32 { let p = 10u64.pow(k.min(19)); for d in 0..3 { nums.push(p - 1 + d); } }
    nums.push(u64::MAX - 1);
    par_chunks(nums.len() as u64, 2000, |a, b| for v in &nums[a as usize..b as usize] {
        let c = |modulus, items| Cond(vec![vec![Rel { opd: Opd::I, modulus, op: Op::Eq, items }]]);
        for z in ["", "0", "000"] {
            x.exact(&format!("i = {}{}", z, v), &c(None, vec![Item::Val(*v)]));
            x.exact(&format!("i % {}{} = 3", z, v), &c(Some(*v), vec![Item::Val(3)]));
            x.exact(&format!("i = {}{}..5", z, v), &c(None, vec![Item::Range(*v, 5)]));
            x.exact(&format!("i = 2..{}{},9", z, v), &c(None, vec![Item::Range(2, *v), Item::Val(9)]));
        }
    });
    r.set("numbers_in_each_position", nums.len() as u64);
    // the empty condition, and CLDR's own rules with their samples
    for s in ["", " ", "\t", "   "] { x.exact(s, &Cond(vec![])); }
    let lines = cldr_lines();
    for l in &lines {
        let want = parse_rule(l).unwrap();
        let (a, b) = (rule(l), cond(l));
        x.calls.fetch_add(2 * l.len() as u64, Relaxed); x.texts.fetch_add(1, Relaxed); x.compared.fetch_add(want.cond.0.iter().map(|a| a.len() as u64).sum(), Relaxed);
        if !matches!(&a, Ok(Ok(r)) if r.cond == want.cond) { x.viol(l, "parse_plural_rule", show(&a), format!("{:?}", want.cond)); }
        if !matches!(&b, Ok(Ok(c)) if *c == want.cond) { x.viol(l, "parse_plural_condition", show(&b), format!("{:?}", want.cond)); }
    }
    r.set("cldr_rule_lines", lines.len() as u64);
    x.finish();
    r.set("rule", "states: rule texts, enumerated completely from the grammar within the stated bounds; transitions: input bytes fed to the two entry points; traces: relations of the returned structures compared with the written ones");
    r.sample(json!({"text": "n%10!=1,3..4", "structure": show(&rule("n%10!=1,3..4"))}));
    r.sample(json!({"text": lines[lines.len() / 2], "structure": show(&cond(&lines[lines.len() / 2]))}));
}

const VOCAB: [&str; 26] = ["n", "t", "x", "%", "mod", "=", "!=", "in", "is", "not", "within", "1", "20", "99999999999999999999", "..", ",", "and", "or", "@integer", "@decimal", "~", "…", "...", ".", "#", "0"];

/// The tokens of well-formed rules, for longer sequences.
const CORE: [&str; 14] = ["n", "%", "=", "is", "not", "in", "within", "1", "..", ",", "and", "or", "@integer", "…"];

fn sequences(vocab: &[&str], depth: u32, quick: bool, f: &(dyn Fn(&str) + Sync)) -> u64 {
    let v = vocab.len() as u64;
    let mut n = 0;
    let seps: &[&str] = if quick { &[" ", ""] } else { &[" ", "", "  "] };
    for d in 0..=depth {
        let total = v.pow(d);
        par_chunks(total, 50_000.min(total), |a, b| {
            let mut s = String::new();
            for k in a..b {
                for sep in seps {
                    s.clear();
                    let mut q = k;
                    for j in 0..d { if j > 0 { s.push_str(sep); } s.push_str(vocab[(q % v) as usize]); q /= v; }
                    f(&s);
                }
            }
        });
        n += total * seps.len() as u64;
    }
    n
}

fn corpus(quick: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for op in OPS { for m in ["", " % 10", " mod 100"] { for l in ["1", "2..4", "1,3..4", "0..1, 12"] { v.push(format!("n{} {} {}", m, op.words().join(" "), l)); } } }
    for s in ["i = 1 and v = 0", "n = 1 or n % 10 = 2..4,9 and n % 100 != 10..19,70..79", "i is not 1 or f in 2,3 and t within 0..2 or w not in 1..2", "n%10=1,2 and v=0",
        "n = 1 @integer 1 @decimal 1.0, 1.00~1.05, …", "@integer 0~15, 100, 1000, …", "@decimal 0.0~0.9, 1.1, ...", "v = 0 @integer 1, 2~5", "n = 0 @decimal 0.0, 0.00"] { v.push(s.into()); }
    let l = cldr_lines();
    // CLDR lines are long; the quick tier mutates one in three
    v.extend(l.into_iter().enumerate().filter(|(k, _)| !quick || k % 2 == 0).map(|x| x.1));
    v
}

/// Every single-token and single-character insertion, deletion, replacement, duplication and swap.
fn mutations(base: &str, f: &mut dyn FnMut(&str)) {
    f(base);
    let t: Vec<String> = match lex(base) { Some(t) => t.iter().map(|x| x.text().to_string()).collect(), None => vec![] };
    let gaps = |t: &[String]| t.join(" ");
    for k in 0..=t.len() {
        for w in VOCAB { let mut u = t.clone(); u.insert(k, w.to_string()); f(&gaps(&u)); }
        if k < t.len() {
            let mut u = t.clone(); u.remove(k); f(&gaps(&u));
            for w in VOCAB { let mut u = t.clone(); u[k] = w.to_string(); f(&gaps(&u)); }
            if k + 1 < t.len() { let mut u = t.clone(); u.swap(k, k + 1); f(&gaps(&u)); }
            f(&gaps(&t[..k])); // truncation
            f(&gaps(&t[k..]));
        }
    }
    let c: Vec<char> = base.chars().collect();
    const CH: [char; 22] = ['n', 'o', 'a', 'x', 'N', '0', '9', ' ', '\t', '\n', '\u{a0}', '.', ',', '=', '!', '%', '@', '~', '…', 'é', '\0', '-'];
    let st = |v: &[char]| v.iter().collect::<String>();
    for k in 0..=c.len() {
        for h in CH { let mut u = c.clone(); u.insert(k, h); f(&st(&u)); }
        if k < c.len() {
            let mut u = c.clone(); u.remove(k); f(&st(&u));
            for h in CH { let mut u = c.clone(); u[k] = h; f(&st(&u)); }
            f(&st(&c[..k]));
            f(&st(&c[k..]));
        }
    }
}

/// All pairs of token insertions, deletions and replacements, for lines of up to `max` tokens.
fn double_mutations(base: &str, max: usize, f: &mut dyn FnMut(&str)) {
    let t: Vec<String> = match lex(base) { Some(t) if t.len() <= max => t.iter().map(|x| x.text().to_string()).collect(), _ => return };
    let single = |t: &[String]| -> Vec<Vec<String>> {
        let mut out = vec![];
        for k in 0..=t.len() {
            for w in VOCAB { let mut u = t.to_vec(); u.insert(k, w.to_string()); out.push(u); }
            if k < t.len() {
                let mut u = t.to_vec(); u.remove(k); out.push(u);
                for w in VOCAB { let mut u = t.to_vec(); u[k] = w.to_string(); out.push(u); }
            }
        }
        out
    };
    for u in single(&t) { for w in single(&u) { f(&w.join(" ")); } }
}

fn c11(r: &'static Report) {
    let x = X { r, texts: 0.into(), calls: 0.into(), compared: 0.into() };
    let depth = if r.quick() { 5 } else { 6 };
    let acc = AtomicU64::new(0);
    let n = sequences(&VOCAB, depth, r.quick(), &|s| if x.accounted(s) { acc.fetch_add(1, Relaxed); })
        + sequences(&CORE, depth + 1, true, &|s| if x.accounted(s) { acc.fetch_add(1, Relaxed); });
    r.set("token_sequences", n);
    r.set("core_token_depth", depth as u64 + 1);
    r.set("token_depth", depth as u64);
    r.set("token_sequences_accepted", acc.load(Relaxed));
    // character strings over a small alphabet
    const A: [char; 12] = ['n', 'i', 's', '1', '0', ' ', '=', '.', ',', '%', '@', '…'];
    let d = if r.quick() { 6 } else { 7 };
    for k in 0..=d {
        let total = 12u64.pow(k);
        par_chunks(total, 50_000.min(total), |a, b| {
            let mut s = String::new();
            for n in a..b { s.clear(); let mut q = n; for _ in 0..k { s.push(A[(q % 12) as usize]); q /= 12; } x.accounted(&s); }
        });
    }
    r.set("character_depth", d as u64);
    let c = corpus(r.quick());
    let muts = AtomicU64::new(0);
    par_chunks(c.len() as u64, 1, |a, b| for s in &c[a as usize..b as usize] {
        let mut k = 0;
        mutations(s, &mut |m| { x.accounted(m); k += 1; });
        muts.fetch_add(k, Relaxed);
    });
    let max = if r.quick() { 9 } else { 16 };
    par_chunks(c.len() as u64, 1, |a, b| for s in &c[a as usize..b as usize] { let mut k = 0; double_mutations(s, max, &mut |m| { x.accounted(m); k += 1; }); muts.fetch_add(k, Relaxed); refmodel::report::beat(); });
    r.set("mutations", muts.load(Relaxed));
    r.set("mutated_lines", c.len() as u64);
    // numbers too large to represent, in every position, must be errors; the largest that fit must not
    let big = ["18446744073709551616", "18446744073709551617", "20000000000000000000", "99999999999999999999", "340282366920938463463374607431768211456", "18446744073709551616000000000000000000000001"];
    for b in big {
        for t in ["n = @", "n % @ = 1", "n = @..5", "n = 1..@", "n = 1, @", "n = @, 1", "n = 1 or n = @", "n = 1 and n = @", "n within 0..@", "n = 1 @integer @", "n = 1 @integer 1~@", "n = 1 @integer 1, @", "@decimal @.0", "@decimal 0.@", "@decimal 0.1~0.@"] {
            // the marker is the last @ that is not a sample keyword
            let k = t.rfind(|c| c == '@').map(|k| if t[k..].starts_with("@integer") || t[k..].starts_with("@decimal") { t.find('@').unwrap() } else { k }).unwrap();
            let s = format!("{}{}{}", &t[..k], b, &t[k + 1..]);
            x.texts.fetch_add(1, Relaxed); x.calls.fetch_add(1, Relaxed); x.compared.fetch_add(1, Relaxed);
            let a = rule(&s);
            if !matches!(a, Ok(Err(_))) { x.viol(&s, "parse_plural_rule", show(&a), "an error".into()); }
        }
    }
    // very long texts end
    for n in [1000usize, 100_000] {
        for s in ["n = 1 or ".repeat(n), "n = 1 and ".repeat(n) + "n = 1", format!("n = {}1", "1, ".repeat(n)), " ".repeat(n), "1".repeat(n), "n = ".to_string() + &"9".repeat(n), format!("n = 1 @integer {}…", "1~2, ".repeat(n)), "@".repeat(n), "n".repeat(n), ".".repeat(n), "…".repeat(n)] { x.accounted(&s); refmodel::report::beat(); }
    }
    x.finish();
    r.set("rule", "states: texts (all token sequences and character strings to the depth, all single mutations of the corpus); transitions: input bytes fed to the parser; traces: accepted texts whose structure was written back and compared");
    r.sample(json!({"text": "n = 1 , 20 .. 1", "result": show(&rule("n = 1 , 20 .. 1"))}));
    r.sample(json!({"text": "n = 1 or", "result": show(&rule("n = 1 or"))}));
}

fn c12(r: &'static Report) {
    let x = X { r, texts: 0.into(), calls: 0.into(), compared: 0.into() };
    let depth = if r.quick() { 5 } else { 6 };
    let n = sequences(&VOCAB, depth, true, &|s| { x.agree(s); }) + sequences(&CORE, depth + 1, true, &|s| { x.agree(s); });
    r.set("token_sequences", n);
    r.set("core_token_depth", depth as u64 + 1);
    r.set("token_depth", depth as u64);
    // conditions x sample tails x junk between
    let mut conds: Vec<String> = vec!["".into(), " ".into()];
    for op in OPS { for m in ["", " % 10", "mod 7"] { for l in ["1", "2..4", "1,3..4", "0..1 , 12"] { conds.push(format!("n{} {} {}", m, op.words().join(" "), l)); } } }
    for a in ["i = 1", "v != 0..2", "f%10=1"] { for j in ["and", "or"] { for b in ["n is 1", "t within 0..1,3"] { conds.push(format!("{} {} {}", a, j, b)); conds.push(format!("{} {} {} or w = 2", a, j, b)); } } }
    let tails = ["", " ", " @integer 1", " @integer 1, 2~5, …", " @decimal 0.0~1.5", "@integer 1 @decimal 1.0, ...", "  @integer 0 @decimal 0.1, 0.2, …", " @integer", " @", " @foo 1", " @integer x", "@@", " @decimal 1.0 @integer 1", "\t@integer 3"];
    let junk = ["", " and", " or", " x", " ,", ",", " = 1", " n", " n = ", " 5", "5", "..", " ..", "..7", " and n", " or n = ", " not in 1", "~", "…", " and @", "\n", " or x = 1"];
    let mut all = vec![];
    for c in &conds { for j in junk { for t in tails { all.push(format!("{}{}{}", c, j, t)); } } }
    par_chunks(all.len() as u64, 500, |a, b| for s in &all[a as usize..b as usize] { x.agree(s); });
    r.set("condition_junk_tail_combinations", all.len() as u64);
    let c = corpus(r.quick());
    let muts = AtomicU64::new(0);
    par_chunks(c.len() as u64, 1, |a, b| for s in &c[a as usize..b as usize] { let mut k = 0; mutations(s, &mut |m| { x.agree(m); k += 1; }); muts.fetch_add(k, Relaxed); });
    let max = if r.quick() { 9 } else { 16 };
    par_chunks(c.len() as u64, 1, |a, b| for s in &c[a as usize..b as usize] { let mut k = 0; double_mutations(s, max, &mut |m| { x.agree(m); k += 1; }); muts.fetch_add(k, Relaxed); refmodel::report::beat(); });
    r.set("mutations", muts.load(Relaxed));
    // all relations, with and without samples
    let rels = relations(true);
    par_chunks(rels.len() as u64, 2000, |a, b| for (rel, w) in &rels[a as usize..b as usize] {
        let c = Cond(vec![vec![rel.clone()]]);
        let t = join(&toks(&c, *w));
        for tail in ["", " @integer 1, 3~7, …", " @decimal 0.0"] { x.agree(&format!("{}{}", t, tail)); }
    });
    for l in cldr_lines() { if !x.agree(&l) { x.viol(&l, "parse_plural_rule", "error".into(), "CLDR line parses".into()); } }
    x.finish();
    r.set("rule", "states: rule lines; transitions: input bytes fed to the two entry points; traces: pairs of results compared");
    r.sample(json!({"text": "n = 1 or x @integer 1", "condition": show(&cond("n = 1 or x @integer 1"))}));
}

fn c13(r: &'static Report) {
    let x = X { r, texts: 0.into(), calls: 0.into(), compared: 0.into() };
    let known = refmodel::data::findings("C13");
    let ints = ["0", "1", "7", "15", "100", "1000000", "18446744073709551615", "1~2", "3~10", "100~106", "21~21"];
    let decs = ["0.0", "0.1", "1.0", "1.5", "2.25", "10.10", "100.0", "1000000.0", "3.18446744073709551615", "0.0~0.9", "1.1~1.6", "2.0~3.5", "5", "0~15", "7.0~7"];
    let mk = |al: &[&str], n: usize| -> Vec<Vec<String>> {
        let mut out: Vec<Vec<String>> = vec![vec![]];
        for _ in 0..n { out = out.iter().flat_map(|l| al.iter().map(move |i| { let mut l = l.clone(); l.push(i.to_string()); l })).collect(); }
        out
    };
    let upto = |al: &[&str], n: usize| -> Vec<Vec<String>> { (1..=n).flat_map(|k| mk(al, k)).collect() };
    let check = |s: &str, cnd: &Cond, want_i: Option<SList>, want_d: Option<SList>| {
        x.texts.fetch_add(1, Relaxed); x.calls.fetch_add(s.len() as u64, Relaxed);
        x.compared.fetch_add(want_i.iter().chain(&want_d).map(|l| l.ranges.len() as u64).sum(), Relaxed);
        let want = n_rule(&Rule { cond: cnd.clone(), integer: want_i, decimal: want_d });
        let a = rule(s);
        if !matches!(&a, Ok(Ok(r)) if n_rule(r) == want) { x.viol(s, "parse_plural_rule", show(&a), format!("{:?}", want)); }
    };
    let sval = |s: &str| -> SVal { match s.split_once('.') { Some((a, b)) => (a.into(), Some(b.into())), None => (s.into(), None) } };
    let slist = |l: &[String], e: bool| SList { ranges: l.iter().map(|i| match i.split_once('~') { Some((a, b)) => (sval(a), Some(sval(b))), None => (sval(i), None) }).collect(), ellipsis: e };
    let conds: Vec<(String, Cond)> = ["", "n = 1", "i % 10 = 2..4 and v = 0 or f in 1,3"].iter().map(|c| (c.to_string(), parse_rule(c).unwrap().cond)).collect();
    let ell = ["", ", …", ", ...", ",…", " , ..."];
    let pre = |c: &str| if c.is_empty() { String::new() } else { format!("{} ", c) };
    // one list
    for (name, al) in [("@integer", &ints[..]), ("@decimal", &decs[..])] {
        let ls = upto(al, if r.quick() { 3 } else { 4 });
        par_chunks(ls.len() as u64, 200, |a, b| for l in &ls[a as usize..b as usize] {
            for (ct, c) in &conds {
                for e in ell {
                    for sep in [", ", ",", " , "] {
                        if sep != ", " && l.len() < 2 { continue; }
                        let s = format!("{}{} {}{}", pre(ct), name, l.join(sep), e);
                        let w = Some(slist(l, !e.is_empty()));
                        if name == "@integer" { check(&s, c, w, None) } else { check(&s, c, None, w) }
                    }
                }
            }
        });
    }
    // both lists
    let (li, ld) = (upto(&ints[..9], 2), upto(&decs[..12], 2));
    let total = (li.len() * ld.len()) as u64;
    par_chunks(total, 500, |a, b| for k in a..b {
        let (i, d) = (&li[k as usize % li.len()], &ld[k as usize / li.len()]);
        for (ct, c) in &conds[..2] {
            for (e, f) in [("", ""), (", …", ""), ("", ", …"), (", …", ", …")] {
                check(&format!("{}@integer {}{} @decimal {}{}", pre(ct), i.join(", "), e, d.join(", "), f), c, Some(slist(i, !e.is_empty())), Some(slist(d, !f.is_empty())));
            }
        }
    });
    // every kind of condition in front of every kind of sample tail
    let mut cs: Vec<Cond> = vec![Cond(vec![])];
    for opd in OPDS { for op in OPS { for m in [None, Some(10)] { for l in [vec![Item::Val(1)], vec![Item::Range(2, 4)], vec![Item::Val(0), Item::Range(3, 5)]] { cs.push(Cond(vec![vec![Rel { opd, modulus: m, op, items: l }]])); } } } }
    let sm = small_rels();
    for a in &sm { for b in &sm { cs.push(Cond(vec![vec![a.clone(), b.clone()]])); cs.push(Cond(vec![vec![a.clone()], vec![b.clone()]])); } }
    par_chunks(cs.len() as u64, 4, |a, b| for c in &cs[a as usize..b as usize] {
        for il in [vec![], vec!["0"], vec!["1", "3~5"], vec!["2~16", "100", "1000000"]] { for dl in [vec![], vec!["0.5"], vec!["1.1~1.6", "10.5"]] { for e in ["", ", …", ", ..."] { for f in ["", ", …", ", ..."] {
            if il.is_empty() && !e.is_empty() || dl.is_empty() && !f.is_empty() { continue; }
            let (il, dl): (Vec<String>, Vec<String>) = (il.iter().map(|x| x.to_string()).collect(), dl.iter().map(|x| x.to_string()).collect());
            let mut s = c.text();
            if !il.is_empty() { s += &format!(" @integer {}{}", il.join(", "), e); }
            if !dl.is_empty() { s += &format!(" @decimal {}{}", dl.join(", "), f); }
            check(&s, c, if il.is_empty() { None } else { Some(slist(&il, !e.is_empty())) }, if dl.is_empty() { None } else { Some(slist(&dl, !f.is_empty())) });
        } } } }
    });
    // spacing around the parts of a sample line
    for g1 in ["", " ", "  ", "\t"] { for g2 in [" ", "  ", "\t"] { for g3 in ["", " ", " \t"] { for g4 in ["", " "] { for g5 in [" ", "   "] { for end in ["", " ", "\t"] {
        for (ct, c) in &conds {
            let s = format!("{}{}@integer{}1{}~{}5{},{}8{}@decimal{}0.5{}", ct, g1, g2, g4, g4, g4, g3, g5, g2, end);
            check(&s, c, Some(slist(&["1~5".to_string(), "8".to_string()], false)), Some(slist(&["0.5".to_string()], false)));
        }
    } } } } } }
    // long lists, every length
    for n in (1..=140).chain([255, 256, 257, 1000, 5000]) {
        let l: Vec<String> = (0..n).map(|k| if k % 3 == 0 { format!("{}~{}", k, k + 2) } else { k.to_string() }).collect();
        let d: Vec<String> = (0..n).map(|k| format!("{}.{}", k, k % 10)).collect();
        for e in ["", ", …"] {
            check(&format!("n = 1 @integer {}{} @decimal {}{}", l.join(", "), e, d.join(", "), e), &conds[1].1, Some(slist(&l, !e.is_empty())), Some(slist(&d, !e.is_empty())));
            check(&format!("@decimal {}{}", d.join(", "), e), &conds[0].1, None, Some(slist(&d, !e.is_empty())));
        }
        refmodel::report::beat();
    }
    // all values
    let top = if r.quick() { 30_000u64 } else { 1_000_000 };
    par_chunks(top, 2000, |a, b| for k in a..b {
        check(&format!("@integer {}, {}~{}", k, k, k + 1), &conds[0].1, Some(slist(&[k.to_string(), format!("{}~{}", k, k + 1)], false)), None);
        check(&format!("n = 1 @decimal {}.{}~{}.{}, …", k, k, k, k + 1), &conds[1].1, None, Some(slist(&[format!("{}.{}~{}.{}", k, k, k, k + 1)], true)));
    });
    // no samples: reported absent
    for (ct, c) in &conds { for g in ["", " "] { check(&format!("{}{}", ct, g), c, None, None); } }
    let lines = cldr_lines();
    for l in &lines { let w = parse_rule(l).unwrap(); check(l, &w.cond, w.integer, w.decimal); }
    r.set("cldr_rule_lines", lines.len() as u64);
    // the recorded finding: texts that differ only in zeros of a fraction give the same structure
    for (a, b) in [("@decimal 0.05", "@decimal 0.5"), ("@decimal 1.00~1.05", "@decimal 1.0~1.5")] {
        let (p, q) = (rule(a), rule(b));
        if matches!((&p, &q), (Ok(Ok(p)), Ok(Ok(q))) if p == q) {
            match known.iter().find(|f| f.subject == "DECIMAL_SAMPLE_ZEROS") {
                Some(f) => r.known(f.what.clone()),
                None => x.viol(a, "parse_plural_rule", show(&p), format!("a structure different from that of {:?}", b)),
            }
        }
    }
    x.finish();
    r.set("rule", "states: sample lines enumerated completely within the bounds; transitions: input bytes fed to the parser; traces: sample values and ranges compared one by one (a fraction by its numeric value, see the known finding)");
    r.sample(json!({"text": "@integer 0~15, 100, …", "samples": show(&rule("@integer 0~15, 100, …"))}));
}

// ------------------------------------------------------------------ C22: what is accepted is complete
/// A recogniser of complete rules that cares about nothing but completeness: blanks may stand anywhere or nowhere
/// between tokens, and 'is' may have a list.
struct Complete<'a>(&'a str);
impl<'a> Complete<'a> {
    fn blank(&mut self) { self.0 = self.0.trim_start(); }
    fn eat(&mut self, t: &str) -> bool { self.blank(); match self.0.strip_prefix(t) { Some(x) => { self.0 = x; true } None => false } }
    fn any(&mut self, ts: &[&str]) -> bool { ts.iter().any(|t| self.eat(t)) }
    fn number(&mut self) -> bool {
        self.blank();
        let k = self.0.find(|c: char| !c.is_ascii_digit()).unwrap_or(self.0.len());
        self.0 = &self.0[k..];
        k > 0
    }
    fn item(&mut self) -> bool { self.number() && (!self.eat("..") || self.number()) }
    fn relation(&mut self) -> bool {
        if !self.any(&["n", "i", "v", "w", "f", "t"]) { return false; }
        if self.any(&["%", "mod"]) && !self.number() { return false; }
        if self.any(&["=", "!="]) {} else if self.eat("is") { self.eat("not"); } else { self.eat("not"); if !self.any(&["in", "within"]) { return false; } }
        if !self.item() { return false; }
        while self.eat(",") { if !self.item() { return false; } }
        true
    }
    fn condition(&mut self) -> bool {
        self.blank();
        if self.0.is_empty() || self.0.starts_with('@') { return true; }
        if !self.relation() { return false; }
        while self.any(&["and", "or"]) { if !self.relation() { return false; } }
        true
    }
    fn sample(&mut self) -> bool { self.number() && (!self.eat(".") || self.number()) }
    fn list(&mut self) -> bool {
        if !self.sample() || self.eat("~") && !self.sample() { return false; }
        while self.eat(",") {
            if self.any(&["…", "..."]) { return true; }
            if !self.sample() || self.eat("~") && !self.sample() { return false; }
        }
        true
    }
    fn rule(&mut self) -> bool {
        if !self.condition() { return false; }
        for k in ["@integer", "@decimal"] { if self.eat(k) && !self.list() { return false; } }
        self.blank();
        self.0.is_empty()
    }
}
fn whole_condition(text: &str) -> bool { let mut c = Complete(text.split('@').next().unwrap()); c.condition() && { c.blank(); c.0.is_empty() } }
fn empty_parts(c: &Cond) -> bool { c.0.iter().any(|a| a.is_empty() || a.iter().any(|r| r.items.is_empty())) }

fn c22(r: &'static Report) {
    let x = X { r, texts: 0.into(), calls: 0.into(), compared: 0.into() };
    let (acc, incomplete) = (AtomicU64::new(0), AtomicU64::new(0));
    let look = |s: &str| {
        x.texts.fetch_add(1, Relaxed);
        x.calls.fetch_add(2 * s.len() as u64, Relaxed);
        let (a, b) = (rule(s), cond(s));
        let (whole, head) = (Complete(s).rule(), whole_condition(s));
        if !whole { incomplete.fetch_add(1, Relaxed); }
        x.compared.fetch_add(!whole as u64 + !head as u64, Relaxed);
        match &a {
            Ok(Ok(q)) => {
                acc.fetch_add(1, Relaxed);
                x.compared.fetch_add(1, Relaxed);
                if !whole || empty_parts(&q.cond) || [&q.integer, &q.decimal].iter().any(|l| matches!(l, Some(l) if l.ranges.is_empty())) { x.viol(s, "parse_plural_rule", show(&a), "an error: the rule is not complete".into()); }
            }
            Ok(Err(_)) => {}
            Err(_) => x.viol(s, "parse_plural_rule", show(&a), "a rule or an error".into()),
        }
        match &b {
            Ok(Ok(c)) => if !head || empty_parts(c) { x.viol(s, "parse_plural_condition", show(&b), "an error: the condition is not complete".into()); },
            Ok(Err(_)) => {}
            Err(_) => x.viol(s, "parse_plural_condition", show(&b), "a condition or an error".into()),
        }
    };
    let depth = if r.quick() { 5 } else { 6 };
    let n = sequences(&VOCAB, depth, r.quick(), &|s| look(s)) + sequences(&CORE, depth + 1, true, &|s| look(s));
    r.set("token_sequences", n);
    r.set("token_depth", depth as u64);
    r.set("core_token_depth", depth as u64 + 1);
    let c = corpus(r.quick());
    par_chunks(c.len() as u64, 1, |a, b| for s in &c[a as usize..b as usize] {
        if !Complete(s).rule() { panic!("the recogniser refuses the corpus line {}", s); }
        mutations(s, &mut |m| look(m));
        double_mutations(s, if r.quick() { 9 } else { 16 }, &mut |m| look(m));
        refmodel::report::beat();
    });
    r.set("mutated_lines", c.len() as u64);
    x.finish();
    r.set("accepted", acc.load(Relaxed));
    r.set("incomplete_texts", incomplete.load(Relaxed));
    r.set("rule", "states: texts (all token sequences to the depth, all single and short double mutations of the corpus); transitions: input bytes fed to the two entry points; traces: verdicts compared with an independent recogniser of complete rules, and accepted structures searched for missing parts");
    for t in ["n = ", "n = 1 or ", "n % = 1", "n = 1 @integer "] { r.sample(json!({"text": t, "rule": show(&rule(t)), "condition": show(&cond(t))})); }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "replay" {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).unwrap();
        println!("{}", serde_json::to_string_pretty(&v).unwrap());
        let t = v["text"].as_str().unwrap_or("");
        println!("now: rule {}\n     condition {}", show(&rule(t)), show(&cond(t)));
        return;
    }
    if a.len() < 3 { eprintln!("usage: h_parser <property> <tier>"); std::process::exit(2); }
    let r = Report::new(&a[1], &a[2]);
    match a[1].as_str() {
        "C10" => c10(r), "C11" => c11(r), "C12" => c12(r), "C13" => c13(r), "C22" => c22(r),
        x => { eprintln!("unknown property {}", x); std::process::exit(2) }
    }
    r.finish_and_exit();
}
