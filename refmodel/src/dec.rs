//! Exact decimal numerals as digit strings, and their UTS #35 operands.

/// The operands of a decimal numeral, exactly. n is i + f / 10^v.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Num {
    pub i: u128,
    pub v: usize,
    pub w: usize,
    pub f: u128,
    pub t: u128,
}

impl Num {
    pub fn int(i: u64) -> Num {
        Num { i: i as u128, v: 0, w: 0, f: 0, t: 0 }
    }
    /// From integer digits and fraction digits; None when a part exceeds 128 bits (far beyond any domain used).
    pub fn from_digits(int: &str, frac: &str) -> Option<Num> {
        let i = digits(int)?;
        let f = digits(frac)?;
        let mut w = frac.len();
        let b = frac.as_bytes();
        while w > 0 && b[w - 1] == b'0' {
            w -= 1;
        }
        let t = digits(&frac[..w])?;
        Some(Num { i, v: frac.len(), w, f, t })
    }
    pub fn is_integer(&self) -> bool {
        self.t == 0
    }
    /// A number with a fraction so small or so near to one that the nearest double is an integer.
    pub fn rounds_to_integer(&self) -> Option<u128> {
        if self.t == 0 || self.w + self.i.checked_ilog10().unwrap_or(0) as usize <= 14 { return None; }
        let n: f64 = self.text().parse().ok()?;
        if n.fract() == 0.0 { Some(n as u128) } else { None }
    }
    pub fn fits64(&self) -> bool {
        self.i <= u64::MAX as u128 && self.f <= u64::MAX as u128
    }
    pub fn text(&self) -> String {
        if self.v == 0 {
            format!("{}", self.i)
        } else {
            { let f = self.f.to_string(); format!("{}.{}{}", self.i, "0".repeat(self.v.saturating_sub(f.len())), f) }
        }
    }
}

/// Value of a digit string ("" is 0).
pub fn digits(s: &str) -> Option<u128> {
    let mut x: u128 = 0;
    for c in s.bytes() {
        if !c.is_ascii_digit() {
            return None;
        }
        x = x.checked_mul(10)?.checked_add((c - b'0') as u128)?;
    }
    Some(x)
}

/// What the liberal numeral automaton says of a string.
#[derive(Clone, Debug, PartialEq)]
pub enum Class {
    /// -?D+(.D+)? : the documented form. Sign, integer digits, fraction digits.
    Plain(bool, String, String),
    /// Another spelling of a finite number (leading plus, missing digits on one side of the point, exponent).
    Lenient,
    /// Not a finite number.
    NotNumber,
}

/// Explicit automaton over characters; every state is an enum value, so that the set of reachable
/// (state, class) pairs is finite and counted by the explorers.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum S {
    Start,
    Minus,
    Plus,
    Int,
    DotAfterInt,
    DotBare,
    Frac,
    FracBare,
    E,
    ESign,
    EDig,
    Dead,
}

pub fn step(s: S, c: char) -> S {
    use S::*;
    match (s, c) {
        (Start, '-') => Minus,
        // "-+5": a sign after the minus; f64 syntax tolerates the plus
        (Start, '+') | (Minus, '+') => Plus,
        (Start | Minus | Plus | Int, '0'..='9') => Int,
        (Int, '.') => DotAfterInt,
        (Start | Minus | Plus, '.') => DotBare,
        (DotAfterInt | Frac, '0'..='9') => Frac,
        (DotBare | FracBare, '0'..='9') => FracBare,
        (Int | Frac | FracBare | DotAfterInt, 'e' | 'E') => E,
        (E, '+' | '-') => ESign,
        (E | ESign | EDig, '0'..='9') => EDig,
        _ => Dead,
    }
}

pub fn final_state(s: &str) -> S {
    s.chars().fold(S::Start, step)
}

pub fn classify(s: &str) -> Class {
    let st = final_state(s);
    let plus = s.contains('+') && !s.contains(['e', 'E']);
    match st {
        S::Int | S::Frac if !plus => {
            let neg = s.starts_with('-');
            let body = if neg { &s[1..] } else { s };
            match body.split_once('.') {
                Some((a, b)) => Class::Plain(neg, a.to_string(), b.to_string()),
                None => Class::Plain(neg, body.to_string(), String::new()),
            }
        }
        S::Int | S::Frac | S::FracBare | S::DotAfterInt | S::EDig => Class::Lenient,
        _ => Class::NotNumber,
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn classes() {
        assert_eq!(classify("--5"), Class::NotNumber);
        assert_eq!(classify(""), Class::NotNumber);
        assert_eq!(classify("."), Class::NotNumber);
        assert_eq!(classify("5."), Class::Lenient);
        assert_eq!(classify("1e5"), Class::Lenient);
        assert_eq!(classify("+5"), Class::Lenient);
        assert_eq!(classify("-05.10"), Class::Plain(true, "05".into(), "10".into()));
        let n = Num::from_digits("05", "10").unwrap();
        assert_eq!((n.i, n.v, n.w, n.f, n.t), (5, 2, 1, 10, 1));
    }
}
