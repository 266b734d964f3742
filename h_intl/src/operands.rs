//! C03..C06: number conversions.
use crate::common::*;
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::PluralRules;
use refmodel::dec::{self, Class, Num};
use refmodel::report::Report;
use refmodel::serde_json::{json, Value};
use refmodel::{caught, par_chunks};
use std::collections::BTreeSet;
use std::convert::TryFrom;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

fn conv<T>(x: T) -> Result<PluralOperands, String>
where
    PluralOperands: TryFrom<T>,
{
    match caught(|| PluralOperands::try_from(x).map_err(|_| ())) {
        Ok(Ok(o)) => Ok(o),
        Ok(Err(())) => Err("refused".into()),
        Err(p) => Err(format!("PANIC {}", p)),
    }
}

fn exact(o: &Result<PluralOperands, String>, x: &Num) -> bool {
    match o {
        Ok(o) => *o == model_ops(x) && !o.n.is_sign_negative(),
        Err(_) => false,
    }
}

fn bad(r: &'static Report, input: Value, got: &Result<PluralOperands, String>, want: Value) {
    r.violation(json!({"string": input, "got": ops_json(got), "want": want}));
}

// ------------------------------------------------------------------ C03
/// Check one plain numeral (with and without the minus), borrowed and owned. Returns whether it was in the domain.
fn plain(r: &'static Report, int: &str, frac: &str) -> bool {
    let x = match Num::from_digits(int, frac) { Some(x) if x.fits64() => Some(x), _ => None };
    for neg in ["", "-"] {
        let s = if frac.is_empty() { format!("{}{}", neg, int) } else { format!("{}{}.{}", neg, int, frac) };
        let a = conv(s.as_str());
        let b = conv(s.clone());
        match &x {
            Some(x) => {
                for o in [&a, &b] {
                    if !exact(o, x) && r.n_violations() < 50 { bad(r, json!(s), o, ops_json(&Ok(model_ops(x)))); }
                }
            }
            // outside the domain only termination without panic is demanded, of both spellings alike
            None => for o in [&a, &b] {
                if matches!(o, Err(e) if e.starts_with("PANIC")) && r.n_violations() < 50 { bad(r, json!(s), o, json!("no panic")); }
            },
        }
    }
    x.is_some()
}

pub fn strings(r: &'static Report) {
    let sigma: Vec<char> = "01259".chars().collect();
    let lmax: u32 = if r.quick() { 9 } else { 10 };
    let mut states = 0u64;
    let indom = AtomicU64::new(0);
    // all digit words of total length 1..=lmax, split at every position
    for len in 1..=lmax {
        let total = (sigma.len() as u64).pow(len);
        par_chunks(total, 4096, |lo, hi| {
            let mut c = 0;
            for k in lo..hi {
                let mut w = String::new();
                let mut k = k;
                for _ in 0..len { w.push(sigma[(k % sigma.len() as u64) as usize]); k /= sigma.len() as u64; }
                for cut in 1..=len as usize { c += plain(r, &w[..cut], &w[cut..]) as u64; }
            }
            indom.fetch_add(c, Ordering::Relaxed);
        });
        states += total * len as u64;
    }
    r.set("all_words_over_01259_to_length", lmax as u64);
    // every integer as text, and every value with one and two decimals
    let top: u64 = if r.quick() { 3_000_000 } else { 50_000_000 };
    par_chunks(top, 4096, |lo, hi| for k in lo..hi {
        let c = plain(r, &k.to_string(), "") as u64 + plain(r, &(k / 10).to_string(), &(k % 10).to_string()) as u64 + plain(r, &(k / 1000).to_string(), &format!("{:03}", k % 1000)) as u64;
        indom.fetch_add(c, Ordering::Relaxed);
    });
    states += 3 * top;
    // long shapes: leading zeros x integer bodies x fraction zeros x bodies x trailing zeros
    let mut ibodies: Vec<String> = vec!["0".into(), "1".into(), "7".into()];
    for k in [31u32, 32, 33, 52, 53, 54, 62, 63, 64] {
        for d in -3i128..=3 { ibodies.push(((1i128 << k) + d).to_string()); }
    }
    for k in 1..=21 { ibodies.push("9".repeat(k)); ibodies.push(format!("1{}", "0".repeat(k))); ibodies.push(format!("1{}1", "0".repeat(k - 1))); ibodies.push("1234567890123456789012"[..k].to_string()); }
    ibodies.sort(); ibodies.dedup();
    let fbodies: Vec<String> = ["", "1", "5", "9", "10", "12", "99", "101", "123456789", "4294967295", "4294967296", "9007199254740993", "999999999999999999", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999"].iter().map(|s| s.to_string()).collect();
    let zs: Vec<usize> = (0..=24).collect();
    let zlead: Vec<usize> = vec![0, 1, 2, 5, 20, 40];
    let per = fbodies.len() * zs.len() * zs.len();
    let total = (ibodies.len() * zlead.len() * per) as u64;
    par_chunks(total, 4096, |lo, hi| {
        let mut n = 0;
        for k in lo..hi {
            let k = k as usize;
            let (ib, rest) = (k / (zlead.len() * per), k % (zlead.len() * per));
            let (zl, rest) = (rest / per, rest % per);
            let (fb, rest) = (rest / (zs.len() * zs.len()), rest % (zs.len() * zs.len()));
            let (a, c) = (rest / zs.len(), rest % zs.len());
            let int = format!("{}{}", "0".repeat(zlead[zl]), ibodies[ib]);
            let frac = format!("{}{}{}", "0".repeat(zs[a]), fbodies[fb], "0".repeat(zs[c]));
            if plain(r, &int, &frac) { n += 1; }
        }
        indom.fetch_add(n, Ordering::Relaxed);
    });
    states += total;
    r.set("long_shapes", total);
    // very long runs of zeros: counters must not wrap
    let mut runs = vec![];
    for c in [30usize, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 1023, 1024, 1025, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000] {
        for body in ["", "1", "25", "9007199254740993"] {
            runs.push((("3").to_string(), format!("{}{}", "0".repeat(c), body)));
            runs.push((format!("{}3", "0".repeat(c)), body.to_string()));
        }
    }
    par_chunks(runs.len() as u64, 1, |lo, hi| for k in lo..hi { indom.fetch_add(plain(r, &runs[k as usize].0, &runs[k as usize].1) as u64, Ordering::Relaxed); });
    states += runs.len() as u64;
    r.set("states", states);
    r.set("transitions", states * 4);
    r.set("traces_validated_against_impl", indom.load(Ordering::Relaxed));
    r.set("rule", "states: distinct digit shapes; each is converted with and without minus, borrowed and owned (4 real conversions); traces: shapes whose digits fit in 64 bits, for which all six operands were compared with the digit-string model");
    r.sample(json!({"string": "-007.0120", "operands": ops_json(&conv("-007.0120"))}));
    r.sample(json!({"string": "9007199254740993", "operands": ops_json(&conv("9007199254740993"))}));
}

// ------------------------------------------------------------------ C04
static REFUSED: AtomicU64 = AtomicU64::new(0);
macro_rules! int_check {
    ($r:expr, $ty:ident, $x:expr, $may_refuse:expr) => {{
        let x: $ty = $x;
        let mag: u128 = (x as i128).unsigned_abs();
        match PluralOperands::try_from(x) {
            Ok(o) => {
                if o.i as u128 != mag || o.n != mag as f64 || o.n.is_sign_negative() || o.v != 0 || o.w != 0 || o.f != 0 || o.t != 0 {
                    if $r.n_violations() < 50 { $r.violation(json!({"integer": format!("{}{}", x, stringify!($ty)), "string": x.to_string(), "got": ops_json(&Ok(o))})); }
                }
            }
            #[allow(unreachable_patterns)]
            Err(_) => { REFUSED.fetch_add(1, Ordering::Relaxed); if !$may_refuse && $r.n_violations() < 50 { $r.violation(json!({"integer": format!("{}{}", x, stringify!($ty)), "string": x.to_string(), "got": "refused"})); } }
        }
    }};
}
macro_rules! guard {
    ($r:expr, $e:expr) => {
        if let Err(p) = caught(|| $e) { $r.violation(json!({"problem": format!("panic: {}", p), "chunk": stringify!($e)})); }
    };
}

pub fn ints(r: &'static Report) {
    let (mut n, mut pats) = (0u64, 0u64);
    REFUSED.store(0, Ordering::Relaxed);
    guard!(r, for x in 0..=u8::MAX { int_check!(r, u8, x, false) });
    guard!(r, for x in i8::MIN..=i8::MAX { int_check!(r, i8, x, false) });
    guard!(r, for x in 0..=u16::MAX { int_check!(r, u16, x, false) });
    guard!(r, for x in i16::MIN..=i16::MAX { int_check!(r, i16, x, false) });
    n += 2 * 256 + 2 * 65536;
    pats += 256 + 65536;
    // all 32-bit values, both signednesses
    par_chunks(1 << 32, 1 << 22, |lo, hi| guard!(r, for k in lo..hi { int_check!(r, u32, k as u32, false); int_check!(r, i32, k as u32 as i32, false); }));
    n += 2 << 32;
    pats += 1 << 32;
    let mut set: BTreeSet<u64> = boundary_ints().into_iter().collect();
    for k in 0..64 { for j in 0..64 { set.insert((1u64 << k) ^ (1u64 << j)); set.insert(!((1u64 << k) ^ (1u64 << j))); set.insert((1u64 << k).wrapping_sub(1u64 << j)); } }
    let set: Vec<u64> = set.into_iter().collect();
    let both = |x: u64| {
        int_check!(r, u64, x, false);
        int_check!(r, usize, x as usize, false);
        for y in [x as i64, (x as i64).wrapping_neg()] {
            int_check!(r, i64, y, y == i64::MIN);
            int_check!(r, isize, y as isize, y == i64::MIN);
        }
    };
    par_chunks(set.len() as u64, 1000, |lo, hi| guard!(r, for k in lo..hi { both(set[k as usize]) }));
    n += 6 * set.len() as u64;
    pats += set.len() as u64;
    let top: u64 = if r.quick() { 1 << 26 } else { 1 << 33 };
    par_chunks(top, 1 << 18, |lo, hi| guard!(r, for k in lo..hi { both(k) }));
    n += 6 * top;
    pats += top;
    // each 32-bit half varied completely over its top/bottom 12 bits with the other half at extremes
    par_chunks(1 << 24, 1 << 16, |lo, hi| guard!(r, for k in lo..hi { both((k >> 12) << 52 | (k & 0xfff)); both((k >> 12) << 32 | (k & 0xfff)); both(k << 40 | 0xff_ffff_ffff) }));
    n += 18 << 24;
    pats += 3 << 24;
    r.set("states", pats);
    r.set("transitions", n);
    r.set("traces_validated_against_impl", n - REFUSED.load(Ordering::Relaxed));
    r.set("all_8_16_32_bit_values", true);
    r.set("all_64_bit_magnitudes_below", top);
    r.set("rule", "states: bit patterns; transitions: conversions (each pattern as every type of its width, both signs); traces: conversions that returned operands, all compared with the magnitude; every listed value of every primitive integer type is converted and all operands compared with its magnitude; only the most negative i64/isize may be refused");
    r.sample(json!({"integer": "-2147483648i32", "operands": ops_json(&conv(i32::MIN))}));
    r.sample(json!({"integer": "i64::MIN", "operands": ops_json(&conv(i64::MIN))}));
}

// ------------------------------------------------------------------ C05
/// Model of a float: its printed decimal text. `exact` is its exact integral value when it has no fraction.
fn float_check(r: &'static Report, text: &str, exactv: Option<u128>, got: &Result<PluralOperands, String>, got_neg: &Result<PluralOperands, String>, tag: &str) -> bool {
    let (int, frac) = text.split_once('.').unwrap_or((text, ""));
    let fail = |o: &Result<PluralOperands, String>, w: Value| if r.n_violations() < 50 { r.violation(json!({"float": tag, "prints_as": text, "string": text, "got": ops_json(o), "want": w})) };
    let x = Num::from_digits(int, frac);
    let Some(x) = x.filter(|x| x.fits64()) else {
        // the integer part does not fit: error, or at least the right magnitude; never a panic
        for o in [got, got_neg] {
            match o {
                Ok(o2) if o2.n != text.parse::<f64>().unwrap() => fail(o, json!("n of the printed text, or an error")),
                Err(e) if e.starts_with("PANIC") => fail(o, json!("no panic")),
                _ => {}
            }
        }
        return false;
    };
    let want = model_ops(&x);
    for o in [got, got_neg] {
        let ok = match o {
            Ok(o) => !o.n.is_sign_negative() && o.n == want.n && o.v == want.v && o.w == want.w && o.f == want.f && o.t == want.t
                && (o.i == want.i
                    // above 2^53 the printed digits and the exact value differ; either is accepted
                    || (x.v == 0 && x.i > 1 << 53 && (exactv == Some(o.i as u128) || want.n as u64 == o.i))),
            Err(_) => false,
        };
        if !ok { fail(o, ops_json(&Ok(model_ops(&x)))); }
    }
    true
}
fn f64c(r: &'static Report, x: f64) -> bool {
    let x = x.abs();
    let t = x.to_string();
    float_check(r, &t, if x.fract() == 0.0 && x < 1e38 { Some(x as u128) } else { None }, &conv(x), &conv(-x), &format!("{:?}f64", x))
}
fn f32c(r: &'static Report, x: f32) -> bool {
    let x = x.abs();
    let t = x.to_string();
    float_check(r, &t, if x.fract() == 0.0 && x < 1e38 { Some(x as u128) } else { None }, &conv(x), &conv(-x), &format!("{:?}f32", x))
}

pub fn floats(r: &'static Report) {
    let n = AtomicU64::new(0);
    let dom = AtomicU64::new(0);
    let count = |b: bool| { n.fetch_add(1, Ordering::Relaxed); if b { dom.fetch_add(1, Ordering::Relaxed); } };
    let top: u64 = if r.quick() { 600_000 } else { 5_000_000 };
    par_chunks(top, 1000, |lo, hi| for k in lo..hi {
        let mut p = 1f64;
        for _ in 0..=7 { count(f64c(r, k as f64 / p)); count(f32c(r, (k as f64 / p) as f32)); p *= 10.0; }
        // integers of growing size and their halves and tenths
        count(f64c(r, (k * 1_000_003) as f64 + 0.5));
    });
    // every exponent x structured mantissas
    let mut mant: BTreeSet<u64> = BTreeSet::new();
    for k in 0..52 { mant.insert(1 << k); mant.insert((1 << k) - 1); mant.insert(((1u64 << 52) - 1) ^ ((1 << k) - 1)); mant.insert(((1u64 << 52) - 1) ^ (1 << k)); }
    for m in [0u64, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x999999999999a, 0x3333333333333, 0xfffffffffffff] { mant.insert(m & ((1 << 52) - 1)); }
    let mant: Vec<u64> = mant.into_iter().collect();
    par_chunks(2047, 8, |lo, hi| for e in lo..hi { for m in &mant { count(f64c(r, f64::from_bits(e << 52 | m))); } });
    r.set("f64_exponents", 2047u64);
    r.set("f64_mantissas_per_exponent", mant.len() as u64);
    // doubles next to every short decimal (neighbours differ in the last bit: up to 17 digits)
    par_chunks(20_000, 100, |lo, hi| for k in lo..hi { for p in [10f64, 100.0, 1000.0] { let b = (k as f64 / p).to_bits(); for d in [b.wrapping_sub(1), b + 1] { let y = f64::from_bits(d); if y.is_finite() { count(f64c(r, y)); } } } });
    if r.quick() {
        // all sign/exponent/high-mantissa patterns of f32 with five low-bit patterns
        par_chunks(0x7f80_0000 >> 11, 64, |lo, hi| for h in lo..hi { for l in [0u32, 1, 0x400, 0x555, 0x7ff] { count(f32c(r, f32::from_bits((h as u32) << 11 | l))); } });
        r.set("f32", "all exponents x all 12 high mantissa bits x 5 low patterns");
    } else {
        par_chunks(0x7f80_0000, 1 << 14, |lo, hi| for b in lo..hi { count(f32c(r, f32::from_bits(b as u32))); });
        r.set("f32", "all finite values");
    }
    // not finite: refused
    for x in [f64::NAN, f64::INFINITY] { for y in [x, -x] {
        for o in [conv(y), conv(y as f32)] { n.fetch_add(1, Ordering::Relaxed); if !matches!(&o, Err(e) if e == "refused") { r.violation(json!({"float": y.to_string(), "string": y.to_string(), "got": ops_json(&o), "want": "error"})); } }
    } }
    // selection agrees with the printed text, in every locale
    let mut sel = 0u64;
    for kind in ["cardinal", "ordinal"] {
        for l in PluralRules::get_locales(prt(kind)) {
            let pr = PluralRules::create(l.clone(), prt(kind)).unwrap();
            for k in 0..4000u64 {
                for p in [1f64, 10.0, 100.0] {
                    let x = k as f64 / p;
                    let t = x.to_string();
                    let want = pr.select(t.as_str());
                    for got in [pr.select(x), pr.select(-x)] {
                        sel += 1;
                        if got != want && r.n_violations() < 50 { r.violation(json!({"type": kind, "locale": l.to_string(), "number": t, "float": format!("{:?}", got), "text": format!("{:?}", want)})); }
                    }
                }
            }
            refmodel::report::beat();
        }
    }
    let n = n.load(Ordering::Relaxed);
    r.set("states", n);
    r.set("transitions", 2 * n + sel);
    r.set("traces_validated_against_impl", dom.load(Ordering::Relaxed));
    r.set("selections_compared_with_text", sel);
    r.set("rule", "states: distinct floats of the enumerated families; each is converted with both signs and compared with the model operands of its printed text; traces: floats whose printed parts fit in 64 bits, compared operand by operand");
    r.sample(json!({"float": 0.30000000000000004, "operands": ops_json(&conv(0.30000000000000004f64))}));
    r.sample(json!({"float": "1.1f32", "operands": ops_json(&conv(1.1f32))}));
}

// ------------------------------------------------------------------ C06
static ACCEPTED: AtomicU64 = AtomicU64::new(0);
struct Junk {
    selectors: Vec<PluralRules>,
    classes: Mutex<BTreeSet<(dec::S, bool)>>,
}
fn junk_one(r: &'static Report, j: &Junk, s: &str, cl: &mut BTreeSet<(dec::S, bool)>) {
    let o = conv(s);
    let o2 = conv(s.to_string());
    let fail = |o: &Result<PluralOperands, String>, w: &str| if r.n_violations() < 50 { bad(r, json!(s), o, json!(w)) };
    let class = dec::classify(s);
    cl.insert((dec::final_state(s), o.is_ok()));
    for o in [&o, &o2] {
        match o {
            Err(e) if e.starts_with("PANIC") => fail(o, "no panic"),
            Err(_) => {}
            Ok(p) => {
                ACCEPTED.fetch_add(1, Ordering::Relaxed);
                if class == Class::NotNumber { fail(o, "an error: not a number"); continue; }
                // coherence: one number, described consistently
                let value: f64 = s.strip_prefix('-').unwrap_or(s).parse().unwrap_or(f64::NAN);
                let mut ok = p.n.is_finite() && !p.n.is_sign_negative() && p.n == value;
                // the integer part, when it is representable
                if ok && p.n < 18446744073709551616.0 {
                    if p.v == 0 {
                        // integral, exact up to the precision of n (exact digits are checked by C03)
                        ok = p.n.fract() == 0.0 && p.i as f64 == p.n && p.f == 0 && p.t == 0 && p.w == 0;
                    } else {
                        let mut w = p.v; let mut t = p.f;
                        while w > 0 && t % 10 == 0 { t /= 10; w -= 1; }
                        ok = p.w == w && p.t == t && (Num { i: p.i as u128, v: p.v, w: p.w, f: p.f as u128, t: p.t as u128 }).text().parse::<f64>().unwrap() == p.n && (p.f.to_string().len() <= p.v || p.f == 0);
                    }
                }
                if !ok { fail(o, "operands that describe one non-negative number equal to the text"); }
            }
        }
    }
    if let Class::Plain(_, a, b) = &class {
        if let Some(x) = Num::from_digits(a, b).filter(|x| x.fits64()) { if !exact(&o, &x) { fail(&o, "the operands of this numeral"); } }
    }
    for pr in &j.selectors {
        for e in [caught(|| pr.select(s).is_err()), caught(|| pr.select(s.to_string()).is_err())] {
            match e {
                Ok(e) => if e != o.is_err() { fail(&o, "selection and conversion agree on accepting the text") },
                Err(_) => fail(&o, "selection does not panic"),
            }
        }
    }
}

pub fn junk(r: &'static Report) {
    let j = Junk {
        selectors: vec![create("cardinal", "en").unwrap(), create("ordinal", "uk").unwrap()],
        classes: Mutex::new(BTreeSet::new()),
    };
    let mut states = 0u64;
    let mut words = |alpha: &str, lmax: u32| {
        let a: Vec<char> = alpha.chars().collect();
        let n = a.len() as u64;
        for len in 0..=lmax {
            let total = n.pow(len);
            par_chunks(total, 8192, |lo, hi| {
                let mut cl = BTreeSet::new();
                let mut s = String::new();
                for k in lo..hi {
                    let mut k = k;
                    s.clear();
                    for _ in 0..len { s.push(a[(k % n) as usize]); k /= n; }
                    junk_one(r, &j, &s, &mut cl);
                }
                j.classes.lock().unwrap().extend(cl);
            });
            states += total;
        }
    };
    let d = if r.quick() { 0 } else { 1 };
    // number syntax only, deep; then wide alphabets, shallower
    words("01.-+e", 9 + d);
    words("05.-+eE nax,", 7 + d);
    words("019.-+eE xX_,%/:;'\"()$#a@٣½−\u{a0}\t\n\0", 5 + d / 2);
    words("infatyINFATY", 6 + d);
    r.set("alphabets", json!(["01.-+e", "05.-+eE nax,", "30 hostile characters incl. non-ASCII digits, minus sign U+2212, no-break space, NUL", "infatyINFATY"]));
    // named non-numbers and their case/sign/affix variants
    let mut list: Vec<String> = vec![];
    for w in ["nan", "NaN", "NAN", "inf", "Inf", "INF", "infinity", "Infinity", "INFINITY", "foo", "one", "0x10", "1_000", "1,000", "1.000,5", "١٢", "５", "1 000", "true", "null", "--", "+-", "-", "+", ".", "-.", "e", "e5", "1e", "1e+", "..", "1..2", "1.2.3", "\u{2212}5", "5-", "5+", "1-2", "1.-2", "1.+2", "1. 2", " 1", "1 ", "1\n", "\t1", "1e5.5", "1e400", "1e-400", "15e-1", "1.5e3", "1.5e-3", "1e19", "1e20", "0e0", "0e5", "00e1", "5.", ".5", "-.5", "-5.", "+5", "+5.5", "-+5", "+-5", "--5", "--5.5", "---5", "-NaN", "-inf", "--inf"] {
        for pre in ["", "-", "+", "--", "-+", "+-", " ", "0", "1", "1.", "."] { for post in ["", " ", "0", ".", ".0", "e1", "-", "x", "%"] { list.push(format!("{}{}{}", pre, w, post)); } }
    }
    // every numeral of a base list with every hostile character inserted at, or replacing, every position
    let hostile: Vec<char> = "-+.eE ,_xnN'\0٣−".chars().collect();
    for b in ["0", "5", "12", "1.5", "12.50", "-3", "-12.050", "007.700", "9007199254740993", "123456789.987654321", "18446744073709551615", "18446744073709551616", "0.000000000000000000001"] {
        let cs: Vec<char> = b.chars().collect();
        for p in 0..=cs.len() { for h in &hostile { for h2 in [None, Some('-'), Some('.'), Some('0')] {
            let mut v = cs.clone(); v.insert(p, *h); if let Some(h2) = h2 { v.insert(p, h2); }
            list.push(v.iter().collect());
            if p < cs.len() { let mut v = cs.clone(); v[p] = *h; if let Some(h2) = h2 { v.insert(p, h2); } list.push(v.iter().collect()); }
        } } }
    }
    // long texts with one hostile character at the start, in the middle, at the end
    for len in [17usize, 19, 20, 21, 40, 64, 128, 255, 256, 300, 310, 1000, 5000] {
        for body in ["0", "1", "9", "10"] {
            let d: String = body.chars().cycle().take(len).collect();
            for h in ["", ".", "-", "+", "e", "x", " ", ",", "٣", "..", "e5", "e-5"] {
                for p in [0, 1, len / 2, len - 1, len] { let mut s = d.clone(); s.insert_str(p, h); list.push(format!("0.{}", s)); list.push(format!("-{}", s)); list.push(s); }
            }
        }
    }
    list.sort(); list.dedup();
    par_chunks(list.len() as u64, 64, |lo, hi| { let mut cl = BTreeSet::new(); for k in lo..hi { junk_one(r, &j, &list[k as usize], &mut cl); } j.classes.lock().unwrap().extend(cl); });
    states += list.len() as u64;
    // every single code point, alone and inside a numeral
    par_chunks(0x110000, 4096, |lo, hi| { let mut cl = BTreeSet::new(); for k in lo..hi { if let Some(c) = char::from_u32(k as u32) {
        for s in [c.to_string(), format!("-{}", c), format!("1{}", c), format!("{}1", c), format!("1.{}", c)] { junk_one(r, &j, &s, &mut cl); }
    } } j.classes.lock().unwrap().extend(cl); });
    states += 5 * 0x10f800;
    for y in [f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY] { for pr in &j.selectors { if caught(|| pr.select(y).is_err() && pr.select(y as f32).is_err()) != Ok(true) { r.violation(json!({"string": y.to_string(), "problem": "a float that is not a number was accepted"})); } } }
    let cl = j.classes.lock().unwrap();
    r.set("states", states);
    r.set("transitions", states * 6);
    r.set("traces_validated_against_impl", ACCEPTED.load(Ordering::Relaxed));
    r.set("automaton_state_outcome_pairs", cl.len() as u64);
    r.set("rule", "states: strings; each is converted (borrowed, owned) and selected in two locales (borrowed, owned), and judged by the numeral automaton and the coherence equations; traces: accepted conversions checked against the coherence equations");
    for (st, ok) in cl.iter().take(30) { r.sample(json!(format!("final automaton state {:?}: accepted={}", st, ok))); }
}
