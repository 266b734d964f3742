//! C07: every identifier of a bounded space x both types, against the CLDR 37 locale sets.
use crate::common::*;
use intl_pluralrules::{PluralRules, CLDR_VERSION};
use refmodel::report::Report;
use refmodel::serde_json::json;
use refmodel::{caught, par_chunks};
use std::collections::{BTreeSet, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use unic_langid::{subtags, LanguageIdentifier};

fn words(alpha: &str, len: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for _ in 0..len { v = v.iter().flat_map(|w| alpha.chars().map(move |c| format!("{}{}", w, c))).collect(); }
    v
}

const SCRIPTS: &str = "Adlm Afak Aghb Ahom Arab Aran Armi Armn Avst Bali Bamu Bass Batk Beng Bhks Blis Bopo Brah Brai Bugi Buhd Cakm Cans Cari Cham Cher Chrs Cirt Copt Cpmn Cprt Cyrl Cyrs Deva Diak Dogr Dsrt Dupl Egyd Egyh Egyp Elba Elym Ethi Geok Geor Glag Gong Gonm Goth Gran Grek Gujr Guru Hanb Hang Hani Hano Hans Hant Hatr Hebr Hira Hluw Hmng Hmnp Hrkt Hung Inds Ital Jamo Java Jpan Jurc Kali Kana Khar Khmr Khoj Kitl Kits Knda Kore Kpel Kthi Lana Laoo Latf Latg Latn Leke Lepc Limb Lina Linb Lisu Loma Lyci Lydi Mahj Maka Mand Mani Marc Maya Medf Mend Merc Mero Mlym Modi Mong Moon Mroo Mtei Mult Mymr Nand Narb Nbat Newa Nkdb Nkgb Nkoo Nshu Ogam Olck Orkh Orya Osge Osma Ougr Palm Pauc Perm Phag Phli Phlp Phlv Phnx Plrd Prti Qaaa Qabx Rjng Rohg Roro Runr Samr Sara Sarb Saur Sgnw Shaw Shrd Shui Sidd Sind Sinh Sogd Sogo Sora Soyo Sund Sylo Syrc Syre Syrj Syrn Tagb Takr Tale Talu Taml Tang Tavt Telu Teng Tfng Tglg Thaa Thai Tibt Tirh Tnsa Toto Ugar Vaii Visp Vith Wara Wcho Wole Xpeo Xsux Yezi Yiii Zanb Zinh Zmth Zsye Zsym Zxxx Zyyy Zzzz";
const VARIANTS: &str = "1901 1996 1606nict 1694acad ao1990 arevela arevmda baku1926 biscayan boont colb1945 cornu ekavsk ijekavsk fonipa fonupa fonxsamp hepburn heploc kociewie luna1918 monoton polyton pamaka petr1708 pinyin wadegile posix puter rozaj scotland scouse sursilv sutsilv surmiran tarask unifon vallader vaidika valencia nedis solba sotav emodeng oxendict";

pub fn run(r: &'static Report) {
    let az = "abcdefghijklmnopqrstuvwxyz";
    let mut ids: Vec<String> = vec!["und".into()];
    let langs: Vec<String> = words(az, 2).into_iter().chain(words(az, 3)).collect();
    ids.extend(langs.iter().cloned());
    for t in ["PT", "US", "Latn", "Latn-PT", "valencia"] { ids.extend(langs.iter().map(|l| format!("{}-{}", l, t))); }
    for l in 5..=8 { ids.extend(words(if r.quick() { "anz" } else { "aenrz" }, l)); }
    // every listed locale with every script / region / variant combination of a small alphabet
    let mut base: BTreeSet<String> = BTreeSet::new();
    for k in ["cardinal", "ordinal"] { base.extend(spec(k).locales.keys().cloned()); }
    base.extend(["und", "zz", "pt", "root1", "xx"].iter().filter(|s| s.parse::<LanguageIdentifier>().is_ok()).map(|s| s.to_string()));
    let mut regions: Vec<String> = vec!["".into(), "419".into(), "001".into(), "000".into()];
    regions.extend(words("ABCDEFGHIJKLMNOPQRSTUVWXYZ", 2));
    for b in &base {
        let lang = b.split('-').next().unwrap();
        for s in ["", "Latn", "Cyrl", "Arab", "Hans", "Hant", "Zzzz"] {
            for rg in &regions {
                for v in ["", "valencia", "1994", "abl1943-valencia"] {
                    if (!s.is_empty() || !v.is_empty()) && !["", "PT", "US", "BR", "GB", "001", "AA", "ZZ"].contains(&rg.as_str()) { continue; }
                    ids.push([lang, s, rg, v].iter().filter(|x| !x.is_empty()).cloned().collect::<Vec<_>>().join("-"));
                }
            }
        }
        // every script and every numeric region, and well-known variants
        for s in SCRIPTS.split(' ') { ids.push(format!("{}-{}", lang, s)); ids.push(format!("{}-{}-{}", lang, s, b.split('-').nth(1).filter(|x| x.len() < 4).unwrap_or("CN"))); }
        for q in 0..1000 { ids.push(format!("{}-{:03}", lang, q)); }
        for v in VARIANTS.split(' ') { ids.push(format!("{}-{}", lang, v)); ids.push(format!("{}-{}", b, v)); }
        // casing and separators of the same identifier
        ids.push(b.to_uppercase()); ids.push(b.replace('-', "_"));
    }
    ids.sort(); ids.dedup();
    let hits = AtomicU64::new(0);
    for kind in ["cardinal", "ordinal"] {
        let sp = spec(kind);
        let want: HashSet<LanguageIdentifier> = sp.locales.keys().map(|l| lid(l)).collect();
        let listed = PluralRules::get_locales(prt(kind));
        let set: HashSet<LanguageIdentifier> = listed.iter().cloned().collect();
        if set.len() != listed.len() { r.violation(json!({"type": kind, "problem": "duplicate entries in the list of locales"})); }
        for l in want.symmetric_difference(&set) { r.violation(json!({"type": kind, "locale": l.to_string(), "problem": if set.contains(l) { "listed but not in CLDR 37" } else { "in CLDR 37 but not listed" }})); }
        par_chunks(ids.len() as u64, 1024, |lo, hi| for k in lo..hi {
            let id = lid(&ids[k as usize]);
            let exp = want.contains(&id);
            match caught(|| PluralRules::create(id.clone(), prt(kind))) {
                Ok(Ok(pr)) => {
                    hits.fetch_add(1, Ordering::Relaxed);
                    if !exp { r.violation(json!({"type": kind, "locale": id.to_string(), "problem": "created although not a CLDR 37 locale"})); }
                    if pr.get_locale() != &id || pr.clone().get_locale() != &id { r.violation(json!({"type": kind, "locale": id.to_string(), "problem": "reports another locale", "got": pr.get_locale().to_string()})); }
                }
                Ok(Err(_)) => if exp { r.violation(json!({"type": kind, "locale": id.to_string(), "problem": "listed locale cannot be created"})); },
                Err(p) => r.violation(json!({"type": kind, "locale": id.to_string(), "problem": format!("panic: {}", p)})),
            }
        });
        // every language of two or three letters with every region of two letters; in the thorough tier also with every
        // script of four letters (two-letter and listed languages)
        let regions: Vec<subtags::Region> = words("ABCDEFGHIJKLMNOPQRSTUVWXYZ", 2).iter().map(|w| w.parse().unwrap()).collect();
        let scripts: Vec<subtags::Script> = if r.quick() { vec![] } else { words(az, 4).iter().map(|w| w.parse().unwrap()).collect() };
        let counted = AtomicU64::new(0);
        par_chunks(langs.len() as u64, 32, |lo, hi| for k in lo..hi {
            let name = &langs[k as usize];
            let Ok(lang) = name.parse::<subtags::Language>() else { continue };
            let one = |script: Option<subtags::Script>, region: Option<subtags::Region>| {
                let id = LanguageIdentifier::from_parts(lang, script, region, &[]);
                let exp = want.contains(&id);
                let got = caught(|| PluralRules::create(id.clone(), prt(kind)).map(|p| p.get_locale() == &id));
                if r.n_violations() < 20 && !matches!(&got, Ok(Ok(true)) if exp) && !matches!(&got, Ok(Err(_)) if !exp) {
                    r.violation(json!({"type": kind, "locale": id.to_string(), "problem": if exp { "listed locale cannot be created" } else { "created although not a CLDR 37 locale" }, "got": format!("{:?}", got)}));
                }
            };
            for g in &regions { one(None, Some(*g)); }
            counted.fetch_add(regions.len() as u64, Ordering::Relaxed);
            if name.len() == 2 || base.contains(name) { for s in &scripts { one(Some(*s), None); } counted.fetch_add(scripts.len() as u64, Ordering::Relaxed); }
        });
        r.add("states", counted.load(Ordering::Relaxed));
        // listed exactly when creatable, and bound to its own rules
        let dv = crate::select::deviations(if kind == "cardinal" { "C01" } else { "C02" });
        for l in &listed {
            match PluralRules::create(l.clone(), prt(kind)) {
                Err(_) => r.violation(json!({"type": kind, "locale": l.to_string(), "problem": "listed but cannot be created"})),
                Ok(pr) => if let Some(rs) = sp.locales.get(&l.to_string()) {
                    if let Some(n) = crate::select::fingerprint(kind, rs, dv.get(&l.to_string()).copied().unwrap_or(0), &pr) {
                        r.violation(json!({"type": kind, "locale": l.to_string(), "number": n, "problem": "bound to rules that are not this locale's", "got": format!("{:?}", pr.select(n.as_str()))}));
                    }
                },
            }
        }
        if sp.version != CLDR_VERSION as u64 { r.violation(json!({"type": kind, "problem": "CLDR version", "got": CLDR_VERSION, "want": sp.version})); }
        r.set(&format!("{}_locales", kind), listed.len() as u64);
    }
    let n = ids.len() as u64;
    // each of the wide space was counted once per type
    let wide = r.cov.lock().unwrap().get("states").and_then(|v| v.as_u64()).unwrap_or(0);
    r.set("states", n + wide / 2);
    r.set("transitions", 2 * n + wide);
    r.set("traces_validated_against_impl", hits.load(Ordering::Relaxed));
    r.set("rule", "states: language identifiers (all 2-3 letter languages alone and with 5 suffixes, 5-8 letter languages over a small alphabet, every listed locale x scripts x all 2-letter and numeric regions x variants, every ISO 15924 script, 44 registered variants; every 2-3 letter language x every 2-letter region; in the thorough tier every 2-letter or listed language x every 4-letter script); each is looked up for both types against the CLDR 37 sets; traces: objects created, whose identity was compared");
    r.sample(json!({"locale": "pt-PT", "cardinal": create("cardinal", "pt-PT").is_ok(), "ordinal": create("ordinal", "pt-PT").is_ok()}));
    r.sample(json!({"locale": "en-US", "cardinal": create("cardinal", "en-US").is_ok()}));
}
