//! UTS #35 plural rule syntax and semantics: tokens, parser, evaluator.
use crate::dec::Num;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Opd { N, I, V, W, F, T }
pub const OPDS: [Opd; 6] = [Opd::N, Opd::I, Opd::V, Opd::W, Opd::F, Opd::T];
impl Opd {
    pub fn text(self) -> &'static str {
        match self { Opd::N => "n", Opd::I => "i", Opd::V => "v", Opd::W => "w", Opd::F => "f", Opd::T => "t" }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op { Eq, Ne, In, NotIn, Is, IsNot, Within, NotWithin }
pub const OPS: [Op; 8] = [Op::Eq, Op::Ne, Op::In, Op::NotIn, Op::Is, Op::IsNot, Op::Within, Op::NotWithin];
impl Op {
    pub fn negated(self) -> bool { matches!(self, Op::Ne | Op::NotIn | Op::IsNot | Op::NotWithin) }
    pub fn within(self) -> bool { matches!(self, Op::Within | Op::NotWithin) }
    pub fn words(self) -> &'static [&'static str] {
        match self {
            Op::Eq => &["="], Op::Ne => &["!="], Op::In => &["in"], Op::NotIn => &["not", "in"],
            Op::Is => &["is"], Op::IsNot => &["is", "not"], Op::Within => &["within"], Op::NotWithin => &["not", "within"],
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Item { Val(u64), Range(u64, u64) }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rel { pub opd: Opd, pub modulus: Option<u64>, pub op: Op, pub items: Vec<Item> }

/// or-list of and-lists
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Cond(pub Vec<Vec<Rel>>);

/// One sample: integer digits and, if there was a point, fraction digits, as written.
pub type SVal = (String, Option<String>);
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct SList { pub ranges: Vec<(SVal, Option<SVal>)>, pub ellipsis: bool }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Rule { pub cond: Cond, pub integer: Option<SList>, pub decimal: Option<SList> }

// ---------------------------------------------------------------- rendering
impl Rel {
    pub fn tokens(&self) -> Vec<String> {
        let mut t = vec![self.opd.text().to_string()];
        if let Some(m) = self.modulus { t.push("%".into()); t.push(m.to_string()); }
        t.extend(self.op.words().iter().map(|s| s.to_string()));
        for (k, it) in self.items.iter().enumerate() {
            if k > 0 { t.push(",".into()); }
            match it {
                Item::Val(a) => t.push(a.to_string()),
                Item::Range(a, b) => { t.push(a.to_string()); t.push("..".into()); t.push(b.to_string()); }
            }
        }
        t
    }
    pub fn text(&self) -> String { join(&self.tokens()) }
}
impl Cond {
    pub fn tokens(&self) -> Vec<String> {
        let mut t = vec![];
        for (k, ands) in self.0.iter().enumerate() {
            if k > 0 { t.push("or".into()); }
            for (j, r) in ands.iter().enumerate() {
                if j > 0 { t.push("and".into()); }
                t.extend(r.tokens());
            }
        }
        t
    }
    pub fn text(&self) -> String { join(&self.tokens()) }
}
/// The spacing CLDR data uses: blanks between tokens, none around ".." and before ",".
pub fn join(toks: &[String]) -> String {
    let mut s = String::new();
    for (k, t) in toks.iter().enumerate() {
        let tight = t == ".." || t == "," || (k > 0 && (toks[k - 1] == ".." || toks[k - 1] == ","));
        if k > 0 && !tight { s.push(' '); }
        s.push_str(t);
    }
    s
}

// ---------------------------------------------------------------- parsing
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok { Word(String), Num(String), Sym(String) }
impl Tok {
    pub fn text(&self) -> &str { match self { Tok::Word(s) | Tok::Num(s) | Tok::Sym(s) => s } }
}

pub fn lex(s: &str) -> Option<Vec<Tok>> {
    let c: Vec<char> = s.chars().collect();
    let mut k = 0;
    let mut out = vec![];
    while k < c.len() {
        let ch = c[k];
        if ch.is_whitespace() { k += 1; continue; }
        if ch.is_ascii_digit() {
            let b = k;
            while k < c.len() && c[k].is_ascii_digit() { k += 1; }
            out.push(Tok::Num(c[b..k].iter().collect()));
        } else if ch.is_ascii_alphabetic() || ch == '@' {
            let b = k;
            k += 1;
            while k < c.len() && c[k].is_ascii_alphabetic() { k += 1; }
            out.push(Tok::Word(c[b..k].iter().collect()));
        } else if c[k..].starts_with(&['.', '.', '.']) { out.push(Tok::Sym("...".into())); k += 3;
        } else if c[k..].starts_with(&['.', '.']) { out.push(Tok::Sym("..".into())); k += 2;
        } else if c[k..].starts_with(&['!', '=']) { out.push(Tok::Sym("!=".into())); k += 2;
        } else if "=,%~.…".contains(ch) { out.push(Tok::Sym(ch.to_string())); k += 1;
        } else { return None; }
    }
    Some(out)
}

struct P { t: Vec<Tok>, k: usize }
impl P {
    fn peek(&self) -> &str { self.t.get(self.k).map(|t| t.text()).unwrap_or("") }
    fn eat(&mut self, s: &str) -> bool { if self.peek() == s { self.k += 1; true } else { false } }
    fn num(&mut self) -> Option<String> {
        if let Some(Tok::Num(s)) = self.t.get(self.k) { self.k += 1; Some(s.clone()) } else { None }
    }
    fn val(&mut self) -> Option<u64> { self.num()?.parse().ok() }
    fn rel(&mut self) -> Option<Rel> {
        let opd = *OPDS.iter().find(|o| o.text() == self.peek())?;
        self.k += 1;
        let modulus = if self.eat("%") || self.eat("mod") { Some(self.val()?) } else { None };
        let op = if self.eat("=") { Op::Eq } else if self.eat("!=") { Op::Ne } else if self.eat("in") { Op::In }
            else if self.eat("within") { Op::Within }
            else if self.eat("is") { if self.eat("not") { Op::IsNot } else { Op::Is } }
            else if self.eat("not") { if self.eat("in") { Op::NotIn } else if self.eat("within") { Op::NotWithin } else { return None } }
            else { return None };
        let mut items = vec![];
        loop {
            let a = self.val()?;
            items.push(if self.eat("..") { Item::Range(a, self.val()?) } else { Item::Val(a) });
            if !self.eat(",") { break; }
        }
        Some(Rel { opd, modulus, op, items })
    }
    fn cond(&mut self) -> Option<Cond> {
        let mut ors = vec![];
        if self.k == self.t.len() || self.peek().starts_with('@') { return Some(Cond(ors)); }
        loop {
            let mut ands = vec![self.rel()?];
            while self.eat("and") { ands.push(self.rel()?); }
            ors.push(ands);
            if !self.eat("or") { break; }
        }
        Some(Cond(ors))
    }
    fn sval(&mut self) -> Option<SVal> {
        let a = self.num()?;
        if self.eat(".") { Some((a, Some(self.num()?))) } else { Some((a, None)) }
    }
    fn slist(&mut self) -> Option<SList> {
        let mut l = SList::default();
        loop {
            if !l.ranges.is_empty() && (self.eat("...") || self.eat("…")) { l.ellipsis = true; break; }
            let a = self.sval()?;
            let b = if self.eat("~") { Some(self.sval()?) } else { None };
            l.ranges.push((a, b));
            if !self.eat(",") { break; }
        }
        Some(l)
    }
}

pub fn parse_rule(s: &str) -> Option<Rule> {
    let mut p = P { t: lex(s)?, k: 0 };
    let cond = p.cond()?;
    let integer = if p.eat("@integer") { Some(p.slist()?) } else { None };
    let decimal = if p.eat("@decimal") { Some(p.slist()?) } else { None };
    if p.k != p.t.len() { return None; }
    Some(Rule { cond, integer, decimal })
}

// ---------------------------------------------------------------- semantics
/// Deviations from UTS #35 that are recorded as known findings. 0 = the specification.
pub mod dev {
    /// n % m = a..b is evaluated as i in a..b: the modulus is dropped
    pub const RANGE_DROPS_MOD: u16 = 1;
    /// n % m <op> values/ranges is evaluated on the integer part: a fraction is ignored
    pub const NMOD_IGNORES_FRACTION: u16 = 2;
    /// n != a..b is false for a number with a fraction
    pub const NE_RANGE_FALSE_ON_FRACTION: u16 = 4;
    /// x not within a..b is evaluated as a > x and x > b
    pub const NOT_WITHIN_EMPTY: u16 = 8;
    /// within / not within use only the first range of the list
    pub const WITHIN_FIRST_RANGE: u16 = 16;
    /// x % m within .. (x not n) is evaluated on i
    pub const WITHIN_MOD_USES_I: u16 = 32;
    /// n is compared after rounding to a double: 1.00000000000000000001 is 1
    pub const N_ROUNDED: u16 = 64;
    pub const NAMES: [(u16, &str); 7] = [
        (N_ROUNDED, "N_ROUNDED"),
        (RANGE_DROPS_MOD, "RANGE_DROPS_MOD"),
        (NMOD_IGNORES_FRACTION, "NMOD_IGNORES_FRACTION"),
        (NE_RANGE_FALSE_ON_FRACTION, "NE_RANGE_FALSE_ON_FRACTION"),
        (NOT_WITHIN_EMPTY, "NOT_WITHIN_EMPTY"),
        (WITHIN_FIRST_RANGE, "WITHIN_FIRST_RANGE"),
        (WITHIN_MOD_USES_I, "WITHIN_MOD_USES_I"),
    ];
    pub fn by_name(s: &str) -> u16 {
        NAMES.iter().find(|x| x.1 == s).map(|x| x.0).unwrap_or_else(|| panic!("unknown deviation {}", s))
    }
}

pub fn eval_rel(r: &Rel, x: &Num, d: u16) -> bool {
    // the operand as integer part + "has a fraction"
    let (mut p, mut fractional) = match r.opd {
        Opd::N => (x.i, !x.is_integer()),
        Opd::I => (x.i, false),
        Opd::V => (x.v as u128, false),
        Opd::W => (x.w as u128, false),
        Opd::F => (x.f, false),
        Opd::T => (x.t, false),
    };
    if d & dev::N_ROUNDED != 0 && r.opd == Opd::N && r.modulus.is_none() {
        if let Some(k) = x.rounds_to_integer() { p = k; fractional = false; }
    }
    let raw = p;
    if d & dev::WITHIN_MOD_USES_I != 0 && r.op.within() && r.modulus.is_some() && r.opd != Opd::N { p = x.i; }
    if let Some(m) = r.modulus {
        p = if p <= u64::MAX as u128 { (p as u64 % m) as u128 } else { p % m as u128 };
        if d & dev::NMOD_IGNORES_FRACTION != 0 && r.opd == Opd::N { fractional = false; }
    }
    let in_real = |a: u64, b: u64| p >= a as u128 && (p < b as u128 || (p == b as u128 && !fractional));
    if r.op.within() {
        let mut items: &[Item] = &r.items;
        let only;
        if d & dev::WITHIN_FIRST_RANGE != 0 {
            match items.iter().find(|i| matches!(i, Item::Range(..))) {
                Some(i) => { only = [*i]; items = &only; }
                None => return false, // generation aborts; not evaluated
            }
        }
        if d & dev::NOT_WITHIN_EMPTY != 0 && r.op == Op::NotWithin {
            // a > x && x > b
            return items.iter().all(|i| match i {
                Item::Range(a, b) => p < *a as u128 && (p > *b as u128 || (p == *b as u128 && fractional)),
                Item::Val(_) => false,
            });
        }
        let hit = items.iter().any(|i| match i {
            Item::Val(a) => !fractional && p == *a as u128,
            Item::Range(a, b) => in_real(*a, *b),
        });
        return hit != r.op.negated();
    }
    let hit1 = |i: &Item| match i {
        Item::Val(a) => !fractional && p == *a as u128,
        Item::Range(a, b) => {
            let q = if d & dev::RANGE_DROPS_MOD != 0 && r.opd == Opd::N && r.modulus.is_some() { raw } else { p };
            !fractional && q >= *a as u128 && q <= *b as u128
        }
    };
    if !r.op.negated() { return r.items.iter().any(hit1); }
    r.items.iter().all(|i| {
        if d & dev::NE_RANGE_FALSE_ON_FRACTION != 0 && r.opd == Opd::N && r.modulus.is_none()
            && matches!(i, Item::Range(..)) && fractional { return false; }
        !hit1(i)
    })
}

pub fn eval(c: &Cond, x: &Num, d: u16) -> bool {
    c.0.iter().any(|ands| ands.iter().all(|r| eval_rel(r, x, d)))
}

/// Which deviations can change the meaning of this condition at all.
pub fn applicable(c: &Cond) -> u16 {
    let mut d = 0;
    for r in c.0.iter().flatten() {
        let has_range = r.items.iter().any(|i| matches!(i, Item::Range(..)));
        if r.op.within() {
            if r.op == Op::NotWithin { d |= dev::NOT_WITHIN_EMPTY; }
            if r.items.len() > 1 { d |= dev::WITHIN_FIRST_RANGE; }
            if r.modulus.is_some() { d |= if r.opd == Opd::N { dev::NMOD_IGNORES_FRACTION } else if r.opd != Opd::I { dev::WITHIN_MOD_USES_I } else { 0 }; }
        } else if r.opd == Opd::N {
            if r.modulus.is_some() {
                d |= dev::NMOD_IGNORES_FRACTION;
                if has_range { d |= dev::RANGE_DROPS_MOD; }
            } else if r.op.negated() && has_range { d |= dev::NE_RANGE_FALSE_ON_FRACTION; }
        }
    }
    d
}

#[cfg(test)]
mod tests {
    use super::*;
    fn e(r: &str, n: &str) -> bool {
        let (a, b) = n.split_once('.').unwrap_or((n, ""));
        eval(&parse_rule(r).unwrap().cond, &Num::from_digits(a, b).unwrap(), 0)
    }
    #[test]
    fn sem() {
        assert!(e("n % 100 = 3..10", "103"));
        assert!(!e("n % 100 = 3..10", "103.5"));
        assert!(e("n within 1..2", "1.5"));
        assert!(!e("n in 1..2", "1.5"));
        assert!(e("n != 0..1", "0.5"));
        assert!(e("n not within 3..4", "4.1"));
        assert!(e("v = 0 and i % 10 = 1 or f % 10 = 1", "5.31"));
        assert!(e("n = 1", "1.00"));
        let s = "n % 10 = 3..4,9 and n % 100 != 10..19,70..79,90..99";
        assert_eq!(parse_rule(s).unwrap().cond.text(), s);
    }
}
