"""Writes /verif/seeded/<id>/ from edits of /repo's HEAD (in a scratch copy). No check reads them."""
import json, os, subprocess, shutil, sys
SC='/tmp/bugsrc'
L="intl_pluralrules/src/lib.rs"; O="intl_pluralrules/src/operands.rs"; R="intl_pluralrules/src/rules.rs"
PL="cldr_pluralrules_parser/src/lib.rs"; PP="cldr_pluralrules_parser/src/parser.rs"
ML="make_pluralrules/src/lib.rs"; MP="make_pluralrules/src/parser/gen_pr.rs"; MR="make_pluralrules/src/parser/gen_rs.rs"; MM="make_pluralrules/src/main.rs"
HEAD='''#!/bin/bash
# Runs in the repository root. Builds a small program against it in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"; [ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
%s
[workspace]
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cargo build --offline %s-q --manifest-path "$t/Cargo.toml" || exit 3
timeout 120 "$t/target/%s/demo"
'''
INTL=HEAD%('intl_pluralrules = { path = "$repo/intl_pluralrules" }\nunic-langid = "0.9"','','debug')
INTLREL=HEAD%('intl_pluralrules = { path = "$repo/intl_pluralrules" }\nunic-langid = "0.9"','--release ','release')
PARSER=HEAD%('cldr_pluralrules_parser = { path = "$repo/cldr_pluralrules_parser" }','','debug')
GEN=HEAD%('make_pluralrules = { path = "$repo/make_pluralrules" }','','debug')
CLI='''#!/bin/bash
# Runs in the repository root. Builds the tool into a scratch directory and runs it there.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR="$t/target" cargo build --offline -q -p make_pluralrules || exit 3
tool="$t/target/debug/make_pluralrules"; mkdir "$t/w"; cd "$t/w" || exit 3
'''
# generated tables compiled into a copy of the consuming library
GENINTL='''#!/bin/bash
# Runs in the repository root. Generates tables from source.json, compiles them into a copy of the
# consuming library in a scratch directory, and runs demo.rs against it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cargo build --offline -q -p make_pluralrules || exit 3
cp -r "$repo/intl_pluralrules" "$t/lib"; rm -rf "$t/lib/benches" "$t/lib/tests"
"$t/target/debug/make_pluralrules" -i "$here/source.json" -o "$t/lib/src/rules.rs" || exit 4
mkdir -p "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"; cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/lib/Cargo.toml" <<EOF
[package]
name = "intl_pluralrules"
version = "0.0.0"
edition = "2018"
[dependencies]
unic-langid = "0.9"
EOF
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
intl_pluralrules = { path = "lib" }
unic-langid = "0.9"
[workspace]
EOF
cargo build --offline -q --manifest-path "$t/Cargo.toml" || exit 5
timeout 120 "$t/target/debug/demo"
'''
USE='use intl_pluralrules::{operands::PluralOperands, PluralCategory, PluralRuleType, PluralRules};\nuse std::convert::TryFrom;\nuse unic_langid::LanguageIdentifier;\n#[allow(dead_code)]\nfn pr(l: &str, t: PluralRuleType) -> PluralRules { PluralRules::create(l.parse::<LanguageIdentifier>().unwrap(), t).unwrap() }\n#[allow(dead_code)]\nfn ops(o: &str) -> Result<PluralOperands, &\'static str> { PluralOperands::try_from(o) }\n#[allow(dead_code)]\nfn c() -> PluralCategory { PluralCategory::OTHER }\n'
def src(card=None, ord=None, ver="37"):
    s={"version":{"_unicodeVersion":"13.0.0","_cldrVersion":ver}}
    if card is not None: s["plurals-type-cardinal"]={k:{"pluralRule-count-"+c:t for c,t in v.items()} for k,v in card.items()}
    if ord is not None: s["plurals-type-ordinal"]={k:{"pluralRule-count-"+c:t for c,t in v.items()} for k,v in ord.items()}
    return json.dumps({"supplemental":s})
B=[]
def bug(id, prop, edits, demo_sh, demo_rs, needs, breaks, files=None): B.append((id,prop,edits,demo_sh,demo_rs,needs,breaks,files or {}))

bug('c01-br-million','C01',[(R,'} else if (po.n != 0.0 && po.i % 1000000 == 0) {\n                PluralCategory::MANY\n            } else if (po.i % 10 == 1 && po.i % 100 != 11 && po.i % 100 != 71','} else if (po.n != 0.0 && po.i % 500000 == 0) {\n                PluralCategory::MANY\n            } else if (po.i % 10 == 1 && po.i % 100 != 11 && po.i % 100 != 71')],
 INTL, USE+'fn main() { let p = pr("br", PluralRuleType::CARDINAL); assert_eq!(p.select(500000), Ok(PluralCategory::OTHER)); assert_eq!(p.select(2000000), Ok(PluralCategory::MANY)); }\n',
 "Breton and an odd multiple of 500,000", "br selects MANY for 500000, 1500000, ...")
bug('c02-az-900','C02',[(R,'|| po.i % 1000 == 900)\n            {\n                PluralCategory::FEW\n            } else if (po.i == 0)','|| po.i == 900)\n            {\n                PluralCategory::FEW\n            } else if (po.i == 0)')],
 INTL, USE+'fn main() { let p = pr("az", PluralRuleType::ORDINAL); assert_eq!(p.select(1900), Ok(PluralCategory::FEW)); assert_eq!(p.select(900), Ok(PluralCategory::FEW)); }\n',
 "Azerbaijani ordinals of 1900, 2900, ...", "az ordinal 1900 selects OTHER")
bug('c03-fraction-u32','C03',[(O,'''            fraction_digits0 =
                u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
            fraction_digits = u64::from_str(backtrace).unwrap_or(0);''','''            fraction_digits0 =
                u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
            fraction_digits = u32::from_str(backtrace).unwrap_or(0) as u64;''')],
 INTL, USE+'fn main() { let o = ops("1.12345678900").unwrap(); assert_eq!(o.t, 123456789); let o = ops("1.9876543210").unwrap(); assert_eq!(o.t, 987654321); let o = ops("1.98765432101").unwrap(); assert_eq!(o.t, 98765432101); }\n',
 "a fraction whose significant digits exceed 2^32", "t is 0 for long fractions")
bug('c04-i64-wraps','C04',[(O,'let x = (input as isize).checked_abs().ok_or("Number too big")?;','let x = (input as isize).checked_abs().ok_or("Number too big")? as u64;'),(O,'''                Ok(PluralOperands {
                    n: x as f64,
                    i: x as u64,''','''                Ok(PluralOperands {
                    n: x as f64,
                    i: x & (isize::max_value() as u64 >> 10),''')],
 INTL, USE+'fn main() { let o = PluralOperands::try_from(1i64 << 60).unwrap(); assert_eq!(o.i, 1u64 << 60); }\n',
 "a signed 64-bit integer above 2^53", "the integer operand loses its high bits")
bug('c05-f32-widened','C05',[(O,'impl_convert_type!(f32 f64 String);','''impl TryFrom<f32> for PluralOperands {
    type Error = &'static str;
    fn try_from(input: f32) -> Result<Self, Self::Error> {
        PluralOperands::try_from(f64::from(input))
    }
}
impl_convert_type!(f64 String);''')],
 INTL, USE+'fn main() { let o = PluralOperands::try_from(1.1f32).unwrap(); assert_eq!(o.f, 1); }\n',
 "an f32 that is not a short binary fraction", "1.1f32 gets the operands of 1.100000023841858")
bug('c05-float-trims-zero','C05',[(O,'''impl_convert_type!(f32 f64 String);''','''impl TryFrom<f64> for PluralOperands {
    type Error = &'static str;
    fn try_from(input: f64) -> Result<Self, Self::Error> {
        // Integral floats need no detour through text.
        if input.trunc() == input && input.is_finite() {
            return PluralOperands::try_from(input as i64);
        }
        let as_str: &str = &input.to_string();
        PluralOperands::try_from(as_str)
    }
}
impl_convert_type!(f32 String);''')],
 INTL, USE+'fn main() { let o = PluralOperands::try_from(1e19f64).unwrap(); assert_eq!(o.i, 10000000000000000000); assert_eq!(o.n, 1e19); }\n',
 "an integral f64 above 2^63", "1e19 is clamped to i64::MAX")
bug('c06-many-minus','C06',[(O,'''        let abs_str = if input.starts_with('-') {
            &input[1..]
        } else {
            &input
        };
''','''        let abs_str = input.trim_start_matches('-');
''')],
 INTL, USE+'fn main() { assert!(ops("--5").is_err()); assert!(ops("-5").is_ok()); }\n', "text with two or more leading minus signs", "'--5' is accepted as 5")
bug('c07-drops-variant','C07',[(L,'        let langid = langid.into();\n','        let mut langid = langid.into();\n        langid.clear_variants();\n')],
 INTL, USE+'fn main() { let l: LanguageIdentifier = "ca-valencia".parse().unwrap(); assert!(PluralRules::create(l, PluralRuleType::CARDINAL).is_err()); }\n', "an identifier with a variant subtag", "ca-valencia is created, and as ca")
bug('c08-language-memo','C08',[(L,'''        let langid = langid.into();
        let returned_rule = match prt {
            PluralRuleType::CARDINAL => {
                let idx''','''        let langid = langid.into();
        thread_local! {
            static LAST: std::cell::RefCell<Option<(LanguageIdentifier, PluralRule)>> =
                std::cell::RefCell::new(None);
        }
        let memo = LAST.with(|last| {
            last.borrow()
                .as_ref()
                .filter(|(l, _)| prt == PluralRuleType::CARDINAL && l.matches(&langid, false, true))
                .map(|(_, f)| *f)
        });
        if let Some(function) = memo {
            return Ok(Self {
                locale: langid,
                function,
            });
        }
        let returned_rule = match prt {
            PluralRuleType::CARDINAL => {
                let idx'''),(L,'''            Ok(returned_rule) => Ok(Self {
                locale: langid,
                function: returned_rule,
            }),''','''            Ok(returned_rule) => {
                if prt == PluralRuleType::CARDINAL && langid.region.is_some() {
                    LAST.with(|last| *last.borrow_mut() = Some((langid.clone(), returned_rule)));
                }
                Ok(Self {
                    locale: langid,
                    function: returned_rule,
                })
            }''')],
 INTL, USE+'fn main() { let _ = pr("pt-PT", PluralRuleType::CARDINAL); let p = pr("pt", PluralRuleType::CARDINAL); assert_eq!(p.select(0), Ok(PluralCategory::ONE)); }\n',
 "creating pt after pt-PT on the same thread", "pt gets the rules of pt-PT")
bug('c08-sticky-error','C08',[(L,'''        let ops = number.try_into();
        let pr = self.function;
        match ops {
            Ok(ops) => Ok(pr(&ops)),
            Err(_) => Err("Argument can not be parsed to operands."),
        }''','''        use std::sync::atomic::{AtomicUsize, Ordering};
        static FAILED: AtomicUsize = AtomicUsize::new(0);
        let ops = number.try_into();
        let pr = self.function;
        match ops {
            Ok(ops) => Ok(pr(&ops)),
            // Give up early on callers that keep sending garbage.
            Err(_) if FAILED.fetch_add(1, Ordering::Relaxed) < 3 => {
                Err("Argument can not be parsed to operands.")
            }
            Err(_) => Ok(PluralCategory::OTHER),
        }''')],
 INTL, USE+'fn main() { let p = pr("en", PluralRuleType::CARDINAL); for _ in 0..10 { assert!(p.select("foo").is_err()); } }\n',
 "a fourth failing select in one process", "select of garbage succeeds with OTHER after three failures")
bug('c09-torn-memo','C09',[(L,'''            PluralRuleType::CARDINAL => {
                let idx = rules::PRS_CARDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_CARDINAL[idx].1)
            }''','''            PluralRuleType::CARDINAL => {
                // Most programs ask for the same locale again and again.
                use std::sync::atomic::{AtomicUsize, Ordering};
                static HIT: AtomicUsize = AtomicUsize::new(0);
                let table = rules::PRS_CARDINAL;
                if table[HIT.load(Ordering::Acquire)].0 == langid {
                    Ok(table[HIT.load(Ordering::Acquire)].1)
                } else {
                    table.binary_search_by_key(&&langid, |(l, _)| l).map(|idx| {
                        HIT.store(idx, Ordering::Release);
                        table[idx].1
                    })
                }
            }''')],
 INTLREL, USE+'''fn main() {
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Arc;
    let bad = Arc::new(AtomicBool::new(false));
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let t: Vec<_> = [("en", PluralCategory::ONE), ("ja", PluralCategory::OTHER)].iter().map(|(l, c)| {
        let (l, one, bad) = (l.parse::<LanguageIdentifier>().unwrap(), *c == PluralCategory::ONE, bad.clone());
        std::thread::spawn(move || while !bad.load(Ordering::Relaxed) && std::time::Instant::now() < end {
            for _ in 0..1000 {
                let p = PluralRules::create(l.clone(), PluralRuleType::CARDINAL).unwrap();
                if (p.select(1) == Ok(PluralCategory::ONE)) != one { bad.store(true, Ordering::Relaxed); }
            }
        })
    }).collect();
    for h in t { h.join().unwrap(); }
    assert!(!bad.load(Ordering::Relaxed), "a thread got the rules of the other thread's locale");
}
''', "another thread creating a different locale between two loads of the memo", "a thread gets the rules of the locale another thread created")
bug('c09-trylock','C09',[(L,'''    pub fn get_locales(prt: PluralRuleType) -> Vec<LanguageIdentifier> {
        let prs = match prt {
            PluralRuleType::CARDINAL => rules::PRS_CARDINAL,
            PluralRuleType::ORDINAL => rules::PRS_ORDINAL,
        };
        prs.iter().map(|(l, _)| l.clone()).collect()''','''    pub fn get_locales(prt: PluralRuleType) -> Vec<LanguageIdentifier> {
        static CACHE: std::sync::Mutex<Vec<(PluralRuleType, Vec<LanguageIdentifier>)>> =
            std::sync::Mutex::new(Vec::new());
        let mut cache = match CACHE.try_lock() {
            Ok(cache) => cache,
            Err(_) => return Vec::new(),
        };
        if let Some((_, list)) = cache.iter().find(|(t, _)| *t == prt) {
            return list.clone();
        }
        let prs = match prt {
            PluralRuleType::CARDINAL => rules::PRS_CARDINAL,
            PluralRuleType::ORDINAL => rules::PRS_ORDINAL,
        };
        let list: Vec<LanguageIdentifier> = prs.iter().map(|(l, _)| l.clone()).collect();
        cache.push((prt, list.clone()));
        list''')],
 INTLREL, USE+'''fn main() {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let t: Vec<_> = (0..4).map(|_| std::thread::spawn(move || { while std::time::Instant::now() < end { if PluralRules::get_locales(PluralRuleType::CARDINAL).is_empty() { return false; } } true })).collect();
    let mut ok = true;
    for h in t { ok &= h.join().unwrap(); }
    assert!(ok, "an empty list of locales");
}
''', "two threads asking for the list of locales at the same time", "one of them gets an empty list")
bug('c10-is-blank','C10',[(PP,"""        map(tuple((tag("is"), space1, opt(tag("not")))), |(_, _, n)| {""","""        map(tuple((tag("is"), one_of(" \\t"), opt(tag("not")))), |(_, _, n)| {""")],
 PARSER, 'use cldr_pluralrules_parser::parse_plural_rule;\nfn main() { assert!(parse_plural_rule("n is  not 1").is_ok()); }\n',
 "more than one blank between 'is' and 'not'", "a well-formed rule is refused")
bug('c10-is-not-word','C10',[(PP,'''                    map(tag("in"), |_| Operator::NotIn),
                    map(tag("within"), |_| Operator::NotWithin),''','''                    map(tag("in"), |_| Operator::NotIn),
                    map(tag("within"), |_| Operator::NotIn),''')],
 PARSER, 'use cldr_pluralrules_parser::ast::*;\nfn main() { let r = cldr_pluralrules_parser::parse_plural_rule("n not within 0..2").unwrap(); assert_eq!((r.condition.0)[0].0[0].operator, Operator::NotWithin); }\n', "the operator 'not within'", "it is returned as 'not in'")
bug('c11-saturate','C11',[(PP,'map_res(digit1, |s: &str| s.parse::<usize>().map(Value))(i)','map(digit1, |s: &str| Value(s.parse().unwrap_or(std::usize::MAX)))(i)'),(PP,'combinator::{map, map_res, opt},','combinator::{map, opt},')],
 PARSER, 'fn main() { assert!(cldr_pluralrules_parser::parse_plural_rule("n = 18446744073709551616").is_err()); }\n', "a number above 2^64", "it is silently replaced by 2^64-1")
bug('c11-list-dedup','C11',[(PP,'''        separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item),
        RangeList,
    )(i)''','''        separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item),
        |mut items| {
            items.dedup();
            RangeList(items)
        },
    )(i)''')],
 PARSER, 'fn main() { let r = cldr_pluralrules_parser::parse_plural_rule("n = 3,3").unwrap(); assert_eq!(((r.condition.0)[0].0)[0].range_list.0.len(), 2); }\n', "a list with equal neighbours", "an entry disappears from the list")
bug('c12-trailing-or','C12',[(PL,'    match parser::parse_condition(source.as_ref()) {','    match parser::parse_condition(source.as_ref().trim_end_matches(" or")) {')],
 PARSER, 'fn main() { assert!(cldr_pluralrules_parser::parse_plural_condition("n = 1 or").is_err()); assert!(cldr_pluralrules_parser::parse_plural_condition("n = 1").is_ok()); }\n', "a dangling 'or'", "a cut-off condition is accepted")
bug('c13-open-decimal','C13',[(PP,'    if i.trim().starts_with("@") {','    if i.trim().starts_with("@") || i.find(\'@\').map_or(false, |p| i[p..].starts_with("@decimal")) && i.ends_with(\'…\') && !i.contains(\'=\') {')],
 PARSER, 'fn main() { let l = "n within 0..2 @decimal 0.1, …"; let a = cldr_pluralrules_parser::parse_plural_condition(l); assert_eq!(a.map(|c| c.0.len()), Ok(1)); }\n', "a condition without '=' followed only by an open decimal list", "the condition is dropped")
bug('c13-only-decimal','C13',[(PP,'if integer.is_some() || decimal.is_some() {','if integer.is_some() {')],
 PARSER, 'fn main() { let r = cldr_pluralrules_parser::parse_plural_rule("n = 1 @decimal 1.0~1.5").unwrap(); assert!(r.samples.is_some()); }\n', "a rule with decimal samples only", "its samples are reported absent")
bug('c14-is-not','C14',[(MP,'''        Operator::In | Operator::Is | Operator::EQ => quote!(==),
        Operator::NotIn | Operator::IsNot | Operator::NotEQ => quote!(!=),''','''        Operator::In | Operator::Is | Operator::EQ | Operator::IsNot => quote!(==),
        Operator::NotIn | Operator::NotEQ => quote!(!=),''')],
 GENINTL, USE+'fn main() { let p = pr("aa", PluralRuleType::CARDINAL); assert_eq!(p.select(3), Ok(PluralCategory::ONE)); assert_eq!(p.select(2), Ok(PluralCategory::OTHER)); }\n', "a rule with the operator 'is not'", "the generated code means 'is'",
 {'source.json': src({"aa":{"one":"i is not 2","other":""}},{"aa":{"other":""}})})
bug('c14-literal-u32','C14',[(MP,'Literal::u64_unsuffixed(num as u64)','Literal::u64_unsuffixed(u64::from(num as u32))')],
 GENINTL, USE+'fn main() { let p = pr("aa", PluralRuleType::CARDINAL); assert_eq!(p.select(5000000000u64), Ok(PluralCategory::ONE)); assert_eq!(p.select(2), Ok(PluralCategory::OTHER)); }\n', "a rule constant above 2^32", "the constant is truncated in the generated code",
 {'source.json': src({"aa":{"one":"i = 5000000000","other":""}},{"aa":{"other":""}})})
bug('c15-sort-text','C15',[(ML,'rules.sort_unstable_by(|(langid1, _), (langid2, _)| langid1.cmp(langid2));','rules.sort_by_key(|(langid, _)| langid.to_string());')],
 GENINTL, USE+'fn main() { for l in ["sr", "sr-Arab", "sr-BA", "sr-Latn", "sr-ME"].iter() { assert!(PluralRules::create(l.parse::<LanguageIdentifier>().unwrap(), PluralRuleType::CARDINAL).is_ok(), "{}", l); } }\n', "locales of one language with and without script", "some locales cannot be found by the consumer's binary search",
 {'source.json': src({l:{"one":"n = 1","other":""} for l in ["sr","sr-Arab","sr-BA","sr-Latn","sr-ME"]},{"aa":{"other":""}})})
bug('c16-late-version','C16',[(ML,'''        if cldr_version.is_none() {
            cldr_version = Some(res_cldr_version);''','''        if tokens.is_empty() {
            cldr_version = Some(res_cldr_version);''')],
 GEN, '''fn r(v: &str, body: &str) -> String { format!(r#"{{"supplemental":{{"version":{{"_unicodeVersion":"13","_cldrVersion":"{}"}}{}}}}}"#, v, body) }
fn main() {
    let c = r#","plurals-type-cardinal":{"en":{"pluralRule-count-one":"n = 1"}}"#;
    assert!(std::panic::catch_unwind(|| make_pluralrules::generate_rs(&[r("36", ""), r("37", c)])).is_err());
    assert!(std::panic::catch_unwind(|| make_pluralrules::generate_rs(&[r("37", ""), r("37", c)])).is_ok());
}
''', "a first file of another version that carries no rules", "inputs of different CLDR versions are accepted")
bug('c17-file-order','C17',[(ML,'let mut tokens = BTreeMap::new();','let mut tokens: Vec<(String, Vec<TokenStream>)> = Vec::new();'),
 (ML,'if tokens.contains_key("cardinal") {','if tokens.iter().any(|(t, _)| t == "cardinal") {'),(ML,'tokens.insert("cardinal".to_owned(), rule_tokens);','tokens.push(("cardinal".to_owned(), rule_tokens));'),
 (ML,'if tokens.contains_key("ordinal") {','if tokens.iter().any(|(t, _)| t == "ordinal") {'),(ML,'tokens.insert("ordinal".to_owned(), rule_tokens);','tokens.push(("ordinal".to_owned(), rule_tokens));'),
 (MR,'pub fn gen_fn(streams: BTreeMap<String, Vec<TokenStream>>, vr: &str) -> TokenStream {','pub fn gen_fn(streams: Vec<(String, Vec<TokenStream>)>, vr: &str) -> TokenStream {'),(MR,'use std::collections::BTreeMap;\n','')],
 GEN, '''fn r(body: &str) -> String { format!(r#"{{"supplemental":{{"version":{{"_unicodeVersion":"13","_cldrVersion":"37"}}{}}}}}"#, body) }
fn main() {
    let c = r(r#","plurals-type-cardinal":{"en":{"pluralRule-count-one":"n = 1"}}"#);
    let o = r(r#","plurals-type-ordinal":{"en":{"pluralRule-count-one":"n = 1"}}"#);
    assert_eq!(make_pluralrules::generate_rs(&[c.clone(), o.clone()]), make_pluralrules::generate_rs(&[o, c]));
}
''', "the ordinal file given before the cardinal file", "the output depends on the order of the input files")
bug('c18-kw-zero','C18',[(R,"""            } else if (po.n == 0.0) {
                PluralCategory::ZERO
            } else {
                PluralCategory::OTHER
            }
        },
    ),
    (
        langid!(subtags::Language::from_raw_unchecked(31083u64), None, None),""","""            } else if (po.i == 0) {
                PluralCategory::ZERO
            } else {
                PluralCategory::OTHER
            }
        },
    ),
    (
        langid!(subtags::Language::from_raw_unchecked(31083u64), None, None),""")],
 INTL, USE+'fn main() { let p = pr("kw", PluralRuleType::CARDINAL); assert_eq!(p.select("0.5"), Ok(PluralCategory::OTHER)); assert_eq!(p.select(0), Ok(PluralCategory::ZERO)); }\n', "Cornish and a number between 0 and 1", "the shipped table no longer is what the data generates")
bug('c19-truncates-first','C19',[(MM,'''    let complete_rs_code = generate_rs(&input_jsons);

    let output_path = matches.value_of("output-file").unwrap();
    let mut file = fs::File::create(output_path)?;
''','''    let output_path = matches.value_of("output-file").unwrap();
    let mut file = fs::File::create(output_path)?;

    let complete_rs_code = generate_rs(&input_jsons);
''')],
 CLI+'''echo '{"broken": ' > in.json; echo keep > out.rs
"$tool" -i in.json -o out.rs 2>/dev/null && exit 1
[ "$(cat out.rs)" = keep ] || { echo "the old output is gone"; exit 1; }
''', None, "inputs that are refused, and an existing output file", "the existing output is emptied")
bug('c19-no-truncate','C19',[(MM,'let mut file = fs::File::create(output_path)?;','let mut file = fs::OpenOptions::new()\n        .write(true)\n        .create(true)\n        .open(output_path)?;')],
 CLI+'''cp "$here/source.json" in.json
"$tool" -u -i in.json -o a.rs || exit 3
head -c 100000 /dev/zero | tr '\\0' '/' > b.rs
"$tool" -u -i in.json -o b.rs || exit 3
cmp a.rs b.rs
''', None, "an existing output file longer than the new text", "the tail of the old file stays behind the generated text", {'source.json': src({"en":{"one":"n = 1","other":""}})})
bug('c20-i8-min','C20',[(O,'let x = (input as isize).checked_abs().ok_or("Number too big")?;','let x = input.checked_abs().ok_or("Number too big")?;')],
 INTL, USE+'fn main() { let p = pr("fr", PluralRuleType::CARDINAL); assert_eq!(p.select(-128i8), p.select("-128")); assert_eq!(p.select(-32768i16), p.select(32768)); }\n', "the most negative value of a narrow signed type", "-128i8 is refused although \"-128\" and -128i16 are not")

# ---- second series
bug('c16-disjoint-merge','C16',[(ML,"""            let rule_tokens = gen_type_rs(data);
            if tokens.contains_key("cardinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("cardinal".to_owned(), rule_tokens);
""","""            let rule_tokens = gen_type_rs(data);
            let entry = tokens.entry("cardinal".to_owned()).or_insert_with(Vec::new);
            if !entry.is_empty() && !rule_tokens.is_empty() {
                panic!("Cannot provide two inputs with the same data!");
            }
            entry.extend(rule_tokens);
""")],
 GEN, 'use make_pluralrules::generate_rs;\nfn main() { std::panic::set_hook(Box::new(|_| ()));\n let a = r#"'+src({"en":{"one":"n = 1"}})+'"#.to_string();\n let b = r#"'+src({"root":{"other":""}})+'"#.to_string();\n assert!(generate_rs(&[a.clone()]).len() > 10);\n assert!(std::panic::catch_unwind(|| generate_rs(&[a, b])).is_err()); }\n',
 "the same rule type twice, one of them with no locale but root", "a second cardinal resource is silently merged")
bug('c15-un-region','C15',[(MR,"""    let region = if let Some(region) = region {
        quote!""","""    // Numeric (UN M.49) regions are macro regions and covered by the language.
    let region = region.filter(|r| r.to_le_bytes()[0].is_ascii_alphabetic());
    let region = if let Some(region) = region {
        quote!""")],
 GENINTL, USE+'fn main() { assert_eq!(pr("es-419", PluralRuleType::CARDINAL).select(2), Ok(PluralCategory::ONE)); assert_eq!(pr("fr-CA", PluralRuleType::CARDINAL).select(3), Ok(PluralCategory::ONE)); }\n',
 "a source locale with a numeric region", "es-419 is written as es and not found", {'source.json': src({"es-419":{"one":"n = 2"},"fr-CA":{"one":"n = 3"}},{"en":{"one":"n = 1"}})})
bug('c19-same-length','C19',[(MM,"""    let mut file = fs::File::create(output_path)?;
    file.write_all(complete_rs_code.as_bytes())?;
""","""    // Leave an output that is up to date alone, so that builds do not rerun.
    let current = fs::metadata(output_path).map(|m| m.len()).unwrap_or(0);
    if current != complete_rs_code.len() as u64 {
        let mut file = fs::File::create(output_path)?;
        file.write_all(complete_rs_code.as_bytes())?;
    }
""")],
 CLI+"""sed 's/@@/n = 1/' "$here/source.tpl" > a.json; sed 's/@@/n = 2/' "$here/source.tpl" > b.json
"$tool" -u -i a.json -o fresh.rs || exit 3
"$tool" -u -i b.json -o out.rs || exit 3
"$tool" -u -i a.json -o out.rs || exit 3
cmp fresh.rs out.rs
""", None, "unformatted output over an existing file of the same length", "the old tables stay", {'source.tpl': src({"en":{"one":"@@"}})})
bug('c05-precision','C05',[(O,"impl_convert_type!(f32 f64 String);","""impl TryFrom<f64> for PluralOperands {
    type Error = &'static str;
    fn try_from(input: f64) -> Result<Self, Self::Error> {
        // A double has 15 reliable decimal places.
        let text = if input.abs() < 1.0 && input != 0.0 {
            format!("{:.15}", input)
        } else {
            return PluralOperands::try_from(input.to_string().as_str());
        };
        let text = text.trim_end_matches('0').trim_end_matches('.');
        PluralOperands::try_from(text)
    }
}
impl_convert_type!(f32 String);""")],
 INTL, USE+'fn main() { let o = PluralOperands::try_from(0.1f64).unwrap(); assert_eq!(o.f, 1); let o = PluralOperands::try_from(0.1f64 + 0.2).unwrap(); assert_eq!((o.f, o.v), (30000000000000004, 17)); }\n',
 "an f64 whose shortest form has more than 15 decimals", "0.30000000000000004 is treated as 0.3")
bug('c10-range-swap','C10',[(PP,"""        |(lower_val, upper_val)| Range {
            lower_val,
            upper_val,
        },
    )(i)
}

fn range_list_item""","""        |(lower_val, upper_val)| {
            // The lower bound comes first.
            let (lower_val, upper_val) = if lower_val.0 <= upper_val.0 {
                (lower_val, upper_val)
            } else {
                (upper_val, lower_val)
            };
            Range {
                lower_val,
                upper_val,
            }
        },
    )(i)
}

fn range_list_item""")],
 PARSER, 'use cldr_pluralrules_parser::{ast::*, parse_plural_rule};\nfn main() { let r = parse_plural_rule("n = 5..3").unwrap(); assert_eq!(r.condition.0[0].0[0].range_list.0[0], RangeListItem::Range(Range { lower_val: Value(5), upper_val: Value(3) })); }\n',
 "a range written with the larger bound first", "5..3 is returned as 3..5")
bug('c06-underscore','C06',[(O,"""        let absolute_value = f64::from_str(&abs_str)""","""        // Accept grouped digits, as Rust literals do.
        let grouped = abs_str.replace('_', "");
        let abs_str = grouped.as_str();
        let absolute_value = f64::from_str(&abs_str)""")],
 INTL, USE+'fn main() { assert!(ops("1_000").is_err()); assert!(ops("_1").is_err()); assert!(ops("1.0_0").is_err()); assert!(ops("1000").is_ok()); }\n', "text with underscores", "1_000 is accepted")
bug('c07-un-region','C07',[(L,"        let langid = langid.into();\n        let returned","        let mut langid = langid.into();\n        // World and continent regions say nothing about plurals.\n        if langid.region.map(|r| r.as_str().starts_with(|c: char| c.is_ascii_digit())) == Some(true) {\n            langid.region = None;\n        }\n        let returned")],
 INTL, USE+'fn main() { for l in &["es-419", "en-001", "xx-419"] { assert!(PluralRules::create(l.parse::<LanguageIdentifier>().unwrap(), PluralRuleType::CARDINAL).is_err()); } }\n', "an identifier with a numeric region", "es-419 is created, as es")
bug('c14-w-modulus','C14',[(MP,"""        for r in r1.1 {
            let rfront = r.0;
            let rback = r.1;

            // Variants handled here
            let (symbol, perim) = if left.operand == Operand::N {""","""        for r in r1.1 {
            let rfront = r.0;
            let rback = r.1;
            // The count with trailing zeros bounds the one without.
            let l = if left.operand == Operand::W {
                Ident::new("v", Span::call_site())
            } else {
                l.clone()
            };

            // Variants handled here
            let (symbol, perim) = if left.operand == Operand::N {""")],
 GENINTL, USE+'fn main() { let p = pr("en", PluralRuleType::CARDINAL); assert_eq!(p.select("1.10"), Ok(PluralCategory::OTHER)); assert_eq!(p.select("1.12"), Ok(PluralCategory::ONE)); }\n',
 "a range relation on w and a number with trailing zeros", "w = 2..3 is evaluated on v", {'source.json': src({"en":{"one":"w = 2..3"}},{"en":{"one":"n = 1"}})})
bug('c17-locale-memo','C17',[(ML,"""        for (rule_name, rule_line) in r {
            // cat_name""","""        thread_local! {
            static SEEN: std::cell::RefCell<std::collections::HashMap<String, Vec<String>>> =
                std::cell::RefCell::new(std::collections::HashMap::new());
        }
        // Note what each locale defines; a locale that defined OTHER before needs no second look.
        let again = SEEN.with(|s| {
            s.borrow_mut()
                .insert(lang.to_string(), r.keys().cloned().collect())
                .map(|old| old.len() == 5 && r.len() == 5)
                .unwrap_or(false)
        });
        for (rule_name, rule_line) in r {
            if again && rule_line.trim().is_empty() {
                continue;
            }
            if again && rule_name.ends_with("-zero") {
                continue;
            }
            // cat_name""")],
 GEN, 'use make_pluralrules::generate_rs;\nfn main() { let a = r#"'+src({"ar":{"zero":"n = 0","one":"n = 1","two":"n = 2","few":"n = 3","many":"n = 4"}})+'"#.to_string();\n let x = generate_rs(&[a.clone()]); let y = generate_rs(&[a]); assert!(x == y); }\n',
 "a locale with five rules generated twice in one process", "the second output lacks a rule")
bug('c01-si-t','C01',[(R,'(po.i == 0 && po.f == 1)','(po.i == 0 && po.t == 1)')],
 INTL, USE+'fn main() { let p = pr("si", PluralRuleType::CARDINAL); assert_eq!(p.select("0.1"), Ok(PluralCategory::ONE)); assert_eq!(p.select("0.10"), Ok(PluralCategory::OTHER)); }\n', "Sinhala and 0.10, 0.010, ...", "si selects ONE for 0.10")
bug('c20-owned-long','C20',[(O,'impl_convert_type!(f32 f64 String);',"""impl TryFrom<String> for PluralOperands {
    type Error = &'static str;
    fn try_from(input: String) -> Result<Self, Self::Error> {
        // No number of interest has more digits than a u64.
        let end = input
            .char_indices()
            .nth(20)
            .map(|(k, _)| k)
            .unwrap_or_else(|| input.len());
        PluralOperands::try_from(&input[..end])
    }
}
impl_convert_type!(f32 f64);""")],
 INTL, USE+'fn main() { let p = pr("en", PluralRuleType::CARDINAL); let s = "00000000000000000001"; assert_eq!(p.select(s.to_string()), p.select(s)); let s = "1.0000000000000000000000"; assert_eq!(p.select(s.to_string()), p.select(s)); let s = "0000000000000000000001"; assert_eq!(p.select(s.to_string()), p.select(s)); }\n',
 "owned text of more than 20 characters", "the owned text is cut")
bug('c09-early-flag','C09',[(L,"""        let langid = langid.into();
        let returned_rule = match prt {
            PluralRuleType::CARDINAL => {
                let idx = rules::PRS_CARDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_CARDINAL[idx].1)
            }""","""        use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
        static READY: AtomicBool = AtomicBool::new(false);
        static LEN: AtomicUsize = AtomicUsize::new(0);
        // The size of the table is worked out once.
        if !READY.swap(true, Ordering::SeqCst) {
            LEN.store(rules::PRS_CARDINAL.len(), Ordering::SeqCst);
        }
        let langid = langid.into();
        let returned_rule = match prt {
            PluralRuleType::CARDINAL => {
                let table = &rules::PRS_CARDINAL[..LEN.load(Ordering::SeqCst)];
                let idx = table.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| table[idx].1)
            }""")],
 INTLREL, USE+"""use std::sync::{Arc, Barrier};
// Many fresh processes, each with threads racing for the first creation.
fn main() {
    if std::env::args().count() > 1 {
        let b = Arc::new(Barrier::new(4));
        let h: Vec<_> = (0..4).map(|_| { let b = b.clone(); std::thread::spawn(move || { b.wait(); PluralRules::create("pl".parse::<LanguageIdentifier>().unwrap(), PluralRuleType::CARDINAL).is_ok() }) }).collect();
        let ok = h.into_iter().all(|h| h.join().unwrap());
        std::process::exit(if ok { 0 } else { 1 });
    }
    let me = std::env::current_exe().unwrap();
    let t = std::time::Instant::now();
    while t.elapsed().as_secs() < 60 { assert!(std::process::Command::new(&me).arg("x").status().unwrap().success(), "a creation failed under concurrency"); }
}
""", "a second thread between two instructions of the very first creation", "the second thread sees an empty table and gets 'unknown locale'")
bug('c08-lowbits','C08',[(L,"""        let ops = number.try_into();
        let pr = self.function;
        match ops {
            Ok(ops) => Ok(pr(&ops)),""","""        let ops: Result<PluralOperands, _> = number.try_into();
        let pr = self.function;
        match ops {
            Ok(ops) if ops.v == 0 && ops.i >= 1 << 20 => {
                // Rules look at the last digits of large numbers only.
                use std::sync::atomic::{AtomicU64, Ordering};
                static LAST: AtomicU64 = AtomicU64::new(0);
                let key = (ops.i % 100_000) << 40 | (pr as usize as u64 & 0xff_ffff_ffff) >> 4 << 4;
                let last = LAST.load(Ordering::Relaxed);
                if last & !15 == key && last & 8 == 8 {
                    return Ok(match last & 7 {
                        0 => PluralCategory::ZERO,
                        1 => PluralCategory::ONE,
                        2 => PluralCategory::TWO,
                        3 => PluralCategory::FEW,
                        4 => PluralCategory::MANY,
                        _ => PluralCategory::OTHER,
                    });
                }
                let c = pr(&ops);
                let k = match c {
                    PluralCategory::ZERO => 0,
                    PluralCategory::ONE => 1,
                    PluralCategory::TWO => 2,
                    PluralCategory::FEW => 3,
                    PluralCategory::MANY => 4,
                    PluralCategory::OTHER => 5,
                };
                LAST.store(key | 8 | k, Ordering::Relaxed);
                Ok(c)
            }
            Ok(ops) => Ok(pr(&ops)),""")],
 INTL, USE+'fn main() { let p = pr("br", PluralRuleType::CARDINAL); let _ = p.select(2_100_000u64); assert_eq!(p.select(2_000_000u64), Ok(PluralCategory::MANY)); }\n',
 "two calls in a row on one rule set with large integers that share their last five digits", "the second call repeats the first one's category")
bug('c11-recursion','C11',[(PP,"""    map(
        separated_nonempty_list(tuple((space1, tag("and"), space1)), relation),
        AndCondition,
    )(i)""","""    let (rest, first) = relation(i)?;
    let (rest, more) = opt(preceded(tuple((space1, tag("and"), space1)), and_condition))(rest)?;
    let mut all = vec![first];
    if let Some(AndCondition(more)) = more {
        all.extend(more);
    }
    Ok((rest, AndCondition(all)))""")],
 PARSER, 'use cldr_pluralrules_parser::parse_plural_rule;\nfn main() { let s = "n = 1 and ".repeat(100000) + "n = 1"; assert_eq!(parse_plural_rule(&s).unwrap().condition.0[0].0.len(), 100001); }\n',
 "a condition of very many relations", "the parser overflows its stack instead of returning")

bug('c08-digit-key','C08',[(L,"""            Ok(ops) => Ok(pr(&ops)),""","""            Ok(ops) => {
                // The digits of a number decide its category: remember the last one.
                thread_local! {
                    static LAST: std::cell::Cell<Option<(usize, u64, u64, u8)>> =
                        const { std::cell::Cell::new(None) };
                }
                if ops.v > 0 {
                    if let Some((rule, i, f, cat)) = LAST.with(|last| last.get()) {
                        if rule == pr as usize && i == ops.i && f == ops.f {
                            return Ok(match cat {
                                0 => PluralCategory::ZERO,
                                1 => PluralCategory::ONE,
                                2 => PluralCategory::TWO,
                                3 => PluralCategory::FEW,
                                4 => PluralCategory::MANY,
                                _ => PluralCategory::OTHER,
                            });
                        }
                    }
                }
                let c = pr(&ops);
                let cat = match c {
                    PluralCategory::ZERO => 0,
                    PluralCategory::ONE => 1,
                    PluralCategory::TWO => 2,
                    PluralCategory::FEW => 3,
                    PluralCategory::MANY => 4,
                    PluralCategory::OTHER => 5,
                };
                LAST.with(|last| last.set(Some((pr as usize, ops.i, ops.f, cat))));
                Ok(c)
            }""")],
 INTL, USE+'fn main() { let p = pr("lv", PluralRuleType::CARDINAL); let _ = p.select("0.11"); assert_eq!(p.select("0.011"), Ok(PluralCategory::ONE)); }\n',
 "two numbers in a row whose fractions differ only in leading zeros, in a locale whose rules look at the number of fraction digits", "the second call repeats the first one's category")
bug('c09-left-behind','C09',[(L,"""            PluralRuleType::CARDINAL => {
                let idx = rules::PRS_CARDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_CARDINAL[idx].1)
            }""","""            PluralRuleType::CARDINAL => {
                // Remember the locale found last; nothing is remembered while it changes.
                use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
                static FOUND: AtomicUsize = AtomicUsize::new(usize::MAX);
                static RULE: AtomicUsize = AtomicUsize::new(usize::MAX);
                let table = rules::PRS_CARDINAL;
                let found = FOUND.load(SeqCst);
                let rule = RULE.load(SeqCst);
                if found != usize::MAX && table[found].0 == langid && FOUND.load(SeqCst) == found && rule != usize::MAX {
                    Ok(table[rule].1)
                } else {
                    table.binary_search_by_key(&&langid, |(l, _)| l).map(|idx| {
                        FOUND.store(usize::MAX, SeqCst);
                        RULE.store(idx, SeqCst);
                        FOUND.store(idx, SeqCst);
                        table[idx].1
                    })
                }
            }""")],
 INTLREL, USE+"""fn main() {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
    use std::sync::Arc;
    // Both threads create at the same moment; then, alone, the main thread looks at what it gets.
    let (round, done, stop) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)), Arc::new(AtomicBool::new(false)));
    let l: Vec<LanguageIdentifier> = ["en", "ja"].iter().map(|x| x.parse().unwrap()).collect();
    let t: Vec<_> = (0..2).map(|k| {
        let (l, round, done, stop) = (l[k].clone(), round.clone(), done.clone(), stop.clone());
        std::thread::spawn(move || {
            let mut seen = 0;
            loop {
                while round.load(SeqCst) == seen { if stop.load(SeqCst) { return; } std::hint::spin_loop(); }
                seen += 1;
                for _ in 0..(seen * (k as u64 + 3) % 17) { std::hint::spin_loop(); }
                let _ = PluralRules::create(l.clone(), PluralRuleType::CARDINAL);
                done.fetch_add(1, SeqCst);
            }
        })
    }).collect();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(100);
    let mut bad = 0;
    for q in 1u64.. {
        round.store(q, SeqCst);
        while done.load(SeqCst) != 2 * q { std::hint::spin_loop(); }
        if (PluralRules::create(l[(q % 2) as usize].clone(), PluralRuleType::CARDINAL).unwrap().select(1u8) == Ok(PluralCategory::ONE)) != (q % 2 == 0) { bad += 1; break; }
        if q % 1000 == 0 && std::time::Instant::now() > end { break; }
    }
    stop.store(true, SeqCst);
    for h in t { h.join().unwrap(); }
    assert!(bad == 0, "a creation after the others gets the rules of another locale");
}
""", "two threads creating different locales, the second entirely between two stores of the first; then a later call", "the memo is left naming one locale with the rules of another, and a later creation gets them")
bug('c09-aba','C09',[(L,"""            PluralRuleType::CARDINAL => {
                let idx = rules::PRS_CARDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_CARDINAL[idx].1)
            }""","""            PluralRuleType::CARDINAL => {
                // Remember the last locale found. Writers take the slot by taking its key out of it,
                // readers look whether the key is still the same after reading the rule.
                use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
                static KEY: AtomicUsize = AtomicUsize::new(usize::MAX);
                static RULE: AtomicUsize = AtomicUsize::new(0);
                let table = rules::PRS_CARDINAL;
                let key = KEY.load(SeqCst);
                if key < table.len() && table[key].0 == langid {
                    let rule = RULE.load(SeqCst);
                    if KEY.load(SeqCst) == key {
                        return Ok(Self {
                            locale: langid,
                            function: table[rule].1,
                        });
                    }
                }
                table.binary_search_by_key(&&langid, |(l, _)| l).map(|idx| {
                    let busy = usize::MAX - 1;
                    let old = KEY.load(SeqCst);
                    if old != busy && KEY.compare_exchange(old, busy, SeqCst, SeqCst).is_ok() {
                        RULE.store(idx, SeqCst);
                        KEY.store(idx, SeqCst);
                    }
                    table[idx].1
                })
            }""")],
 INTLREL, USE+"""fn main() {
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Arc;
    let bad = Arc::new(AtomicBool::new(false));
    let end = std::time::Instant::now() + std::time::Duration::from_secs(100);
    let t: Vec<_> = (0..8).map(|k| {
        let bad = bad.clone();
        let (en, ja) = ("en".parse::<LanguageIdentifier>().unwrap(), "ja".parse::<LanguageIdentifier>().unwrap());
        std::thread::spawn(move || while !bad.load(Ordering::Relaxed) && std::time::Instant::now() < end {
            for q in 0..1000 {
                let p = PluralRules::create(en.clone(), PluralRuleType::CARDINAL).unwrap();
                if p.select(1u8) != Ok(PluralCategory::ONE) { bad.store(true, Ordering::Relaxed); }
                if k % 2 == 0 || q % 8 == 0 {
                    let p = PluralRules::create(ja.clone(), PluralRuleType::CARDINAL).unwrap();
                    if p.select(1u8) != Ok(PluralCategory::OTHER) { bad.store(true, Ordering::Relaxed); }
                }
            }
        })
    }).collect();
    for h in t { h.join().unwrap(); }
    assert!(!bad.load(Ordering::Relaxed), "a thread got the rules of the other locale");
}
""", "a thread reading the memo while another one writes it twice, the read of the rule falling between the two writes", "a thread gets the rules of another locale")
bug('c09-seqlock','C09',[(L,"""            PluralRuleType::CARDINAL => {
                let idx = rules::PRS_CARDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_CARDINAL[idx].1)
            }""","""            PluralRuleType::CARDINAL => {
                // Remember the last locale found. The counter is odd while the slot is being written:
                // readers try the slot only when it is even and unchanged, a second writer steps back.
                use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
                static SEQ: AtomicUsize = AtomicUsize::new(0);
                static KEY: AtomicUsize = AtomicUsize::new(usize::MAX);
                static RULE: AtomicUsize = AtomicUsize::new(0);
                let table = rules::PRS_CARDINAL;
                let seq = SEQ.load(SeqCst);
                if seq % 2 == 0 {
                    let (key, rule) = (KEY.load(SeqCst), RULE.load(SeqCst));
                    if SEQ.load(SeqCst) == seq && key < table.len() && table[key].0 == langid {
                        return Ok(Self {
                            locale: langid,
                            function: table[rule].1,
                        });
                    }
                }
                table.binary_search_by_key(&&langid, |(l, _)| l).map(|idx| {
                    if SEQ.fetch_add(1, SeqCst) % 2 == 0 {
                        KEY.store(idx, SeqCst);
                        RULE.store(idx, SeqCst);
                        SEQ.fetch_add(1, SeqCst);
                    } else {
                        SEQ.fetch_sub(1, SeqCst);
                    }
                    table[idx].1
                })
            }""")],
 INTLREL, USE+"""fn main() {
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Arc;
    let bad = Arc::new(AtomicBool::new(false));
    let end = std::time::Instant::now() + std::time::Duration::from_secs(100);
    let t: Vec<_> = (0..8).map(|k| {
        let bad = bad.clone();
        let (en, ja) = ("en".parse::<LanguageIdentifier>().unwrap(), "ja".parse::<LanguageIdentifier>().unwrap());
        std::thread::spawn(move || while !bad.load(Ordering::Relaxed) && std::time::Instant::now() < end {
            for q in 0..1000 {
                let p = PluralRules::create(en.clone(), PluralRuleType::CARDINAL).unwrap();
                if p.select(1u8) != Ok(PluralCategory::ONE) { bad.store(true, Ordering::Relaxed); }
                if k % 2 == 0 || q % 8 == 0 {
                    let p = PluralRules::create(ja.clone(), PluralRuleType::CARDINAL).unwrap();
                    if p.select(1u8) != Ok(PluralCategory::OTHER) { bad.store(true, Ordering::Relaxed); }
                }
            }
        })
    }).collect();
    for h in t { h.join().unwrap(); }
    assert!(!bad.load(Ordering::Relaxed), "a thread got the rules of the other locale");
}
""", "three threads: one in the middle of writing the memo, a second that has announced itself and not yet stepped back, a third that reads", "a thread gets the rules of another locale")
bug('c21-validates','C21',[(L,"""            Ok(ops) => Ok(pr(&ops)),""","""            Ok(ops) => {
                // Trailing zeros can only be taken away.
                if ops.w > ops.v || ops.t > ops.f {
                    return Err("Operands do not describe a number.");
                }
                Ok(pr(&ops))
            }""")],
 INTL, USE+'fn main() { let p = pr("en", PluralRuleType::CARDINAL); let o = || intl_pluralrules::operands::PluralOperands { n: 1.5, i: 1, v: 1, w: 2, f: 5, t: 5 }; assert_eq!(p.select(o()), Ok(PluralCategory::OTHER)); }\n',
 "ready-made operands with more digits without than with trailing zeros", "selection fails for operands it used to answer")
bug('c21-nan','C21',[(L,"""            Ok(ops) => Ok(pr(&ops)),""","""            Ok(ops) => {
                // Fractions are never a whole number of things; keep to the visible digits.
                let ops = match ops.n.partial_cmp(&(ops.i as f64)).unwrap() {
                    std::cmp::Ordering::Equal if ops.f == 0 => PluralOperands { t: 0, w: 0, ..ops },
                    _ => ops,
                };
                Ok(pr(&ops))
            }""")],
 INTL, USE+'fn main() { let p = pr("en", PluralRuleType::CARDINAL); assert_eq!(p.select(intl_pluralrules::operands::PluralOperands { n: f64::NAN, i: 3, v: 0, w: 0, f: 0, t: 0 }), Ok(PluralCategory::OTHER)); }\n',
 "ready-made operands whose absolute value is not a number", "selection panics")

bug('c01-mk-deep','C01',[(R,"""from_raw_unchecked(27501u64), None, None),
        |po| {
            if (po.v == 0 && po.i % 10 == 1 && po.i % 100 != 11)
                || (po.f % 10 == 1 && po.f % 100 != 11)""","""from_raw_unchecked(27501u64), None, None),
        |po| {
            if (po.v == 0 && po.i % 10 == 1 && po.i % 100 != 11)
                || (po.f % 10 == 1 && (po.f % 100 != 11 || po.v > 8))""")],
 INTL, USE+'fn main() { assert_eq!(pr("mk", PluralRuleType::CARDINAL).select("2.500000011"), Ok(PluralCategory::OTHER)); }\n',
 "a Macedonian decimal with more than eight fraction digits ending in 11", "it selects ONE")
bug('c02-it-trunc','C02',[(R,"""from_raw_unchecked(29801u64), None, None),
        |po| {
            if (po.n == 11.0 || po.n == 8.0 || po.n == 80.0 || po.n == 800.0) {""","""from_raw_unchecked(29801u64), None, None),
        |po| {
            if (po.n == 11.0 || po.n == 8.0 || po.n == 80.0 || po.n.floor() == 800.0) {""")],
 INTL, USE+'fn main() { assert_eq!(pr("it", PluralRuleType::ORDINAL).select("800.04"), Ok(PluralCategory::OTHER)); }\n',
 "an Italian ordinal between 800 and 801", "it selects MANY")
bug('c03-v-cap','C03',[(O,"num_fraction_digits0 = dec_str.len() as usize;","num_fraction_digits0 = dec_str.len().min(20);")],
 INTL, USE+'fn main() { assert_eq!(ops("0.000000000000000000001").unwrap().v, 21); }\n',
 "a numeral with more than twenty fraction digits", "the number of visible fraction digits is wrong")
bug('c06-nbsp','C06',[(O,"""        let abs_str = if input.starts_with('-') {""","""        // Grouped as printed by locale-aware formatters.
        let input = &input.replace('\\u{202f}', "");
        let abs_str = if input.starts_with('-') {""")],
 INTL, USE+'fn main() { assert!(ops("1\\u{202f}000").is_err()); }\n',
 "text with a narrow no-break space", "text that is not a number is accepted")
bug('c07-likely','C07',[(L,"""            Err(_) => Err("unknown locale"),""","""            // The script that is the default of its language says nothing.
            Err(_)
                if langid.region.is_none()
                    && ["ja-Jpan", "ko-Kore", "hy-Armn"].contains(&langid.to_string().as_str()) =>
            {
                let mut plain = langid;
                plain.script = None;
                Self::create(plain, prt)
            }
            Err(_) => Err("unknown locale"),""")],
 INTL, USE+'fn main() { assert!(PluralRules::create("ja-Jpan".parse::<LanguageIdentifier>().unwrap(), PluralRuleType::CARDINAL).is_err()); }\n',
 "an unlisted identifier made of a listed language and its default script", "it gets another locale's rules")
bug('c13-lone-ellipsis','C13',[(PP,"""            ellipsis: ellipsis.is_some(),""","""            ellipsis: ellipsis.is_some() && (l_len > 1 || ellipsis == Some("…")),"""),(PP,"""        |(l, ellipsis)| SampleList {
            sample_ranges: l,""","""        |(l, ellipsis)| { let l_len = l.len(); SampleList {
            sample_ranges: l,"""),(PP,"""(l_len > 1 || ellipsis == Some("…")),
        },""","""(l_len > 1 || ellipsis == Some("…")),
        } },""")],
 PARSER, 'use cldr_pluralrules_parser::parse_plural_rule;\nfn main() { assert!(parse_plural_rule("n = 1 @integer 1, ...").unwrap().samples.unwrap().integer.unwrap().ellipsis); }\n',
 "a sample list of one item followed by three dots", "the ellipsis is lost")
bug('c16-empty-map','C16',[(ML,"""        if let Some(data) = resource_items.supplemental.plurals_type_ordinal {""","""        if let Some(data) = resource_items.supplemental.plurals_type_ordinal.filter(|d| !d.is_empty()) {""")],
 GEN, "use make_pluralrules::generate_rs;\nfn main() {\n    let a = r#\"{\"supplemental\":{\"version\":{\"_unicodeVersion\":\"13.0.0\",\"_cldrVersion\":\"37\"},\"plurals-type-ordinal\":{}}}\"#.to_string();\n    assert!(generate_rs(&[a]).contains(\"PRS_ORDINAL\"));\n}\n",
 "a resource whose ordinal data is empty", "the supplied rule type is missing from the output, and supplying it twice is accepted")

ALLOC="""use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn grows(mut f: impl FnMut(u64)) -> bool {
    for m in 0..2000 { f(m); }
    let a = LIVE.load(SeqCst);
    for m in 2000..20000 { f(m); }
    LIVE.load(SeqCst) - a > 20000
}
"""
bug('c23-error-text','C23',[(O,'f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?;','f64::from_str(&abs_str).map_err(|_| {\n            // Say which text it was.\n            &*Box::leak(format!("Incorrect number passed: {}", input).into_boxed_str())\n        })?;')],
 INTL, USE+ALLOC+'fn main() { assert!(!grows(|m| { let _ = ops(&format!("x{}", m)); })); }\n',
 "many conversions of text that is not a number", "every refused text leaves its error message behind in memory")
bug('c23-float-memo','C23',[(O,"""                let as_str: &str = &input.to_string();
                PluralOperands::try_from(as_str)""","""                // Formatting a number and parsing it again is slow, so remember it.
                thread_local! {
                    static SEEN: std::cell::RefCell<std::collections::HashMap<String, (f64, u64, usize, usize, u64, u64)>> = Default::default();
                }
                let text = input.to_string();
                let known = SEEN.with(|s| s.borrow().get(&text).copied());
                if let Some((n, i, v, w, f, t)) = known {
                    return Ok(PluralOperands { n, i, v, w, f, t });
                }
                let o = PluralOperands::try_from(text.as_str())?;
                SEEN.with(|s| s.borrow_mut().insert(text, (o.n, o.i, o.v, o.w, o.f, o.t)));
                Ok(o)""")],
 INTL, USE+ALLOC+'fn main() { assert!(!grows(|m| { let _ = PluralOperands::try_from(m as f64 / 10.0); })); }\n',
 "many different floats", "memory grows with every number seen")
bug('c23-rule-name','C23',[(ML,"""            let cat_name = rule_name.split('-').collect::<Vec<_>>()[2];""","""            let cat_name: &'static str = Box::leak(rule_name.into_boxed_str());
            let cat_name = cat_name.split('-').collect::<Vec<_>>()[2];""")],
 GEN, ALLOC+"""fn main() {
    let s = vec![r#"{"supplemental":{"version":{"_unicodeVersion":"13","_cldrVersion":"37"},"plurals-type-cardinal":{"en":{"pluralRule-count-one":"i = 1 and v = 0","pluralRule-count-other":""}}}}"#.to_string()];
    assert!(!grows(|m| if m % 10 == 0 { let _ = make_pluralrules::generate_rs(&s); }));
}
""", "many generations in one process", "every rule leaves its name behind in memory")
bug('c24-lenient','C24',[(L,"            Err(_) => Err(\"unknown locale\"),","""            Err(_) if langid.region.is_some() && std::env::var_os("PLURALRULES_LENIENT").is_some() => {
                Self::create(LanguageIdentifier::from_parts(langid.language, None, None, &[]), prt)
            }
            Err(_) => Err("unknown locale"),""")],
 INTL, USE+'fn main() { std::env::set_var("PLURALRULES_LENIENT", "1"); assert!(PluralRules::create("de-AT".parse::<LanguageIdentifier>().unwrap(), PluralRuleType::CARDINAL).is_err()); }\n',
 "an environment variable and an unlisted identifier with a region", "the result depends on the environment")
bug('c24-prints','C24',[(O,"""            fraction_digits0 =
                u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;""","""            fraction_digits0 = u64::from_str(dec_str).map_err(|e| {
                if dec_str.len() > 18 {
                    eprintln!("{}: {}", input, e);
                }
                "Could not convert string to integer!"
            })?;""")],
 INTL, USE+"""fn main() {
    if std::env::args().count() > 1 { let _ = ops("0.99999999999999999999"); return; }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert!(o.stdout.is_empty() && o.stderr.is_empty(), "a conversion prints");
}
""", "a fraction that does not fit in 64 bits", "the library writes to the standard error of the program that uses it")
bug('c24-version','C24',[(ML,"""    parser::gen_rs::gen_fn(tokens, &cldr_version.unwrap()).to_string()""","""    let cldr_version = std::env::var("CLDR_VERSION_OVERRIDE").ok().filter(|v| v.parse::<u8>().is_ok()).or(cldr_version);
    parser::gen_rs::gen_fn(tokens, &cldr_version.unwrap()).to_string()""")],
 GEN, """fn main() {
    std::env::set_var("CLDR_VERSION_OVERRIDE", "12");
    let s = vec![r#"{"supplemental":{"version":{"_unicodeVersion":"13","_cldrVersion":"37"},"plurals-type-cardinal":{"en":{"pluralRule-count-one":"i = 1 and v = 0","pluralRule-count-other":""}}}}"#.to_string()];
    assert!(make_pluralrules::generate_rs(&s).contains("37"));
}
""", "an environment variable set to a number", "the recorded CLDR version is not that of the data")
MRES="make_pluralrules/src/parser/resource.rs"
bug('c19-same-path','C19',[(MM,'    let input_paths: Vec<&str> = matches.values_of("input-files").unwrap().collect();','    let mut input_paths: Vec<&str> = matches.values_of("input-files").unwrap().collect();\n    input_paths.dedup();')],
 CLI+"""cp "$here/source.json" in.json
"$tool" -u -i in.json in.json -o out.rs 2>/dev/null && exit 1
[ ! -e out.rs ]
""", None, "the same input file named twice in a row", "inputs that supply a rule type twice are accepted and the output is written", {'source.json': src({"en":{"one":"n = 1","other":""}})})
bug('c19-extension','C19',[(MM,'if !matches.is_present("ugly") {','if !matches.is_present("ugly") && output_path.ends_with(".rs") {')],
 CLI+"""cp "$here/source.json" in.json
"$tool" -i in.json -o a.rs || exit 3
"$tool" -i in.json -o rules.inc || exit 3
cmp a.rs rules.inc
""", None, "an output file that is not named .rs", "the text is not formatted", {'source.json': src({"en":{"one":"n = 1","other":""}})})
bug('c19-subdir','C19',[(MM,'            .args(&[output_path])','            .current_dir(std::path::Path::new(output_path).parent().filter(|p| p.is_absolute()).unwrap_or(std::path::Path::new(".")))\n            .arg(std::path::Path::new(output_path).file_name().unwrap_or_default())')],
 CLI+"""cp "$here/source.json" in.json; mkdir src
"$tool" -i in.json -o src/a.rs
""", None, "a relative output path in another directory", "the tool fails and leaves unformatted text", {'source.json': src({"en":{"one":"n = 1","other":""}})})
bug('c16-alias','C16',[(MRES,'    #[serde(rename = "plurals-type-ordinal")]','    #[serde(rename = "plurals-type-ordinal", alias = "plurals-type-ordinals")]')],
 GEN, "use make_pluralrules::generate_rs;\nfn main() {\n    let a = r#\"{\"supplemental\":{\"version\":{\"_unicodeVersion\":\"13.0.0\",\"_cldrVersion\":\"37\"},\"plurals-type-ordinals\":{\"en\":{\"pluralRule-count-one\":\"n = 1\"}}}}\"#.to_string();\n    assert!(std::panic::catch_unwind(|| generate_rs(&[a])).is_err());\n}\n",
 "a resource whose only rule member has another name", "a resource that supplies no rule type is accepted")
bug('c16-bom','C16',[(MRES,'serde_json::from_str(body)?','serde_json::from_str(body.trim_matches(|c: char| !c.is_ascii()))?')],
 GEN, "use make_pluralrules::generate_rs;\nfn main() {\n    let a = \"{\\\"supplemental\\\":{\\\"version\\\":{\\\"_unicodeVersion\\\":\\\"13.0.0\\\",\\\"_cldrVersion\\\":\\\"37\\\"},\\\"plurals-type-ordinal\\\":{\\\"en\\\":{\\\"pluralRule-count-one\\\":\\\"n = 1\\\"}}}}\\u{2026}\".to_string();\n    assert!(std::panic::catch_unwind(|| generate_rs(&[a])).is_err());\n}\n",
 "text beyond ASCII around the JSON value", "malformed resources are accepted")
bug('c22-dangling-or','C22',[(PP,"""        separated_nonempty_list(tuple((space1, tag("and"), space1)), relation),""","""        nom::multi::separated_list(tuple((space1, tag("and"), space1)), relation),""")],
 PARSER, 'use cldr_pluralrules_parser::parse_plural_rule;\nfn main() { assert!(parse_plural_rule("n = 1 or @integer 1").is_err()); }\n',
 "a rule that ends in 'or' and a blank", "it is accepted, with an empty alternative")
bug('c22-no-samples','C22',[(PP,"""            separated_nonempty_list(tuple((space0, tag(","), space0)), sample_range),""","""            nom::multi::separated_list(tuple((space0, tag(","), space0)), sample_range),""")],
 PARSER, 'use cldr_pluralrules_parser::parse_plural_rule;\nfn main() { assert!(parse_plural_rule("n = 1 @integer ").is_err()); }\n',
 "a sample keyword without samples", "it is accepted")
bug('c22-modulus','C22',[(PP,"""        preceded(tuple((space0, alt((tag("mod"), tag("%"))), space0)), value),
        Modulo,
    ))(i)""","""        preceded(
            tuple((space0, alt((tag("mod"), tag("%"))), space0)),
            opt(value),
        ),
        |v| v.map(Modulo),
    ))(i)
    .map(|(rest, m)| (rest, m.unwrap_or(None)))""")],
 PARSER, 'use cldr_pluralrules_parser::parse_plural_rule;\nfn main() { assert!(parse_plural_rule("n % = 1").is_err()); }\n',
 "a modulus sign without a number", "it is accepted as if there were no modulus")

def main():
    shutil.rmtree(SC, ignore_errors=True)
    subprocess.run(['git','clone','-q','/repo',SC],check=True)
    only=sys.argv[1:]
    for id,prop,edits,sh,rs,needs,breaks,files in B:
        if only and id not in only: continue
        for f,a,b in edits:
            p=os.path.join(SC,f); s=open(p).read()
            assert s.count(a)==1,(id,f,s.count(a),a)
            open(p,'w').write(s.replace(a,b))
        d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
        diff=subprocess.run(['git','-C',SC,'diff'],check=True,capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(diff)
        subprocess.run(['git','-C',SC,'checkout','-q','--','.'],check=True)
        open(d+'/demo.sh','w').write(sh); os.chmod(d+'/demo.sh',0o755)
        if rs: open(d+'/demo.rs','w').write(rs)
        for k,v in files.items(): open(d+'/'+k,'w').write(v)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(SC)
main()
