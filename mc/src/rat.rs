//! Exact rational arithmetic for the reference models (independent of relp-num).
use std::cmp::Ordering;
use std::fmt;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Rat {
    pub n: i128,
    pub d: i128, // > 0, gcd(n, d) == 1
}

pub fn gcd(mut a: i128, mut b: i128) -> i128 {
    if a < 0 { a = -a; }
    if b < 0 { b = -b; }
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0);
        if d == 1 { return Rat { n, d }; }
        let g = gcd(n, d);
        let (n, d) = if g > 1 { (n / g, d / g) } else { (n, d) };
        if d < 0 { Rat { n: -n, d: -d } } else { Rat { n, d } }
    }
    pub const fn int(n: i64) -> Rat { Rat { n: n as i128, d: 1 } }
    pub fn is_zero(&self) -> bool { self.n == 0 }
    pub fn is_neg(&self) -> bool { self.n < 0 }
    pub fn is_pos(&self) -> bool { self.n > 0 }
    pub fn abs(self) -> Rat { Rat { n: self.n.abs(), d: self.d } }
    /// Read the textual form of a relp-num rational ("-3/4", "7", "0").
    pub fn parse(s: &str) -> Option<Rat> {
        let (n, d) = match s.split_once('/') {
            None => (s, "1"),
            Some((a, b)) => (a, b),
        };
        let n: i128 = n.trim().parse().ok()?;
        let d: i128 = d.trim().parse().ok()?;
        if d == 0 { return None; }
        Some(Rat::new(n, d))
    }
    /// Convert anything that displays as a rational.
    pub fn of<T: fmt::Display>(v: &T) -> Rat {
        let s = v.to_string();
        Rat::parse(&s).unwrap_or_else(|| panic!("unreadable number {s:?}"))
    }
}
fn mul(a: i128, b: i128) -> i128 { a.checked_mul(b).expect("reference arithmetic overflow") }
impl Add for Rat {
    type Output = Rat;
    fn add(self, o: Rat) -> Rat {
        if self.d == o.d { return Rat::new(self.n + o.n, self.d); }
        Rat::new(mul(self.n, o.d) + mul(o.n, self.d), mul(self.d, o.d))
    }
}
impl Sub for Rat { type Output = Rat; fn sub(self, o: Rat) -> Rat { self + (-o) } }
impl Neg for Rat { type Output = Rat; fn neg(self) -> Rat { Rat { n: -self.n, d: self.d } } }
impl Mul for Rat { type Output = Rat; fn mul(self, o: Rat) -> Rat { Rat::new(mul(self.n, o.n), mul(self.d, o.d)) } }
impl Div for Rat { type Output = Rat; fn div(self, o: Rat) -> Rat { Rat::new(mul(self.n, o.d), mul(self.d, o.n)) } }
impl PartialOrd for Rat { fn partial_cmp(&self, o: &Rat) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Rat { fn cmp(&self, o: &Rat) -> Ordering { mul(self.n, o.d).cmp(&mul(o.n, self.d)) } }
impl fmt::Display for Rat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.d == 1 { write!(f, "{}", self.n) } else { write!(f, "{}/{}", self.n, self.d) }
    }
}
impl fmt::Debug for Rat { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(self, f) } }
impl From<i64> for Rat { fn from(v: i64) -> Rat { Rat::int(v) } }
