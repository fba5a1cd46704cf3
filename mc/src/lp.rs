//! Reference model of a linear program and an exact oracle (Gaussian elimination followed by
//! Fourier-Motzkin projection on the objective). Shares no code and no algorithm with relp.
use crate::rat::{gcd, Rat};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rel { Eq, Le, Ge, /// `b - r <= ax <= b`
    Range(Rat) }

#[derive(Clone, PartialEq, Debug)]
pub struct Row { pub a: Vec<Rat>, pub rel: Rel, pub b: Rat }

#[derive(Clone, PartialEq, Debug)]
pub struct Var { pub cost: Rat, pub lo: Option<Rat>, pub hi: Option<Rat> }

#[derive(Clone, PartialEq, Debug)]
pub struct Lp { pub max: bool, pub vars: Vec<Var>, pub rows: Vec<Row>, pub fixed: Rat }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Verdict { Infeasible, Unbounded, Opt(Rat) }

impl fmt::Display for Lp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} ", if self.max { "max" } else { "min" })?;
        for (j, v) in self.vars.iter().enumerate() {
            if !v.cost.is_zero() { write!(f, "{:+}*x{} ", Shown(v.cost), j)?; }
        }
        write!(f, "{:+} s.t. ", Shown(self.fixed))?;
        for r in &self.rows {
            if let Rel::Range(g) = r.rel { write!(f, "{} <= ", r.b - g)?; }
            let mut any = false;
            for (j, c) in r.a.iter().enumerate() {
                if !c.is_zero() { write!(f, "{:+}*x{} ", Shown(*c), j)?; any = true; }
            }
            if !any { write!(f, "0 ")?; }
            let s = match r.rel { Rel::Eq => "=", Rel::Le | Rel::Range(_) => "<=", Rel::Ge => ">=" };
            write!(f, "{} {}; ", s, r.b)?;
        }
        for (j, v) in self.vars.iter().enumerate() {
            match (&v.lo, &v.hi) {
                (None, None) => write!(f, "x{j} free, ")?,
                (Some(l), None) => write!(f, "x{j}>={l}, ")?,
                (None, Some(h)) => write!(f, "x{j}<={h}, ")?,
                (Some(l), Some(h)) => write!(f, "{l}<=x{j}<={h}, ")?,
            }
        }
        Ok(())
    }
}
struct Shown(Rat);
impl fmt::Display for Shown {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.0.n >= 0 { write!(f, "+{}", self.0) } else { write!(f, "{}", self.0) }
    }
}

impl Lp {
    pub fn objective(&self, x: &[Rat]) -> Rat {
        self.vars.iter().zip(x).fold(self.fixed, |s, (v, x)| s + v.cost * *x)
    }
    /// Why `x` is not feasible, if it is not.
    pub fn infeasibility(&self, x: &[Rat]) -> Option<String> {
        if x.len() != self.vars.len() { return Some(format!("{} values for {} variables", x.len(), self.vars.len())); }
        for (j, v) in self.vars.iter().enumerate() {
            if v.lo.is_some_and(|l| x[j] < l) || v.hi.is_some_and(|h| x[j] > h) {
                return Some(format!("x{j} = {} violates its bounds", x[j]));
            }
        }
        for (i, r) in self.rows.iter().enumerate() {
            let s = r.a.iter().zip(x).fold(Rat::ZERO, |s, (a, x)| s + *a * *x);
            let ok = match r.rel {
                Rel::Eq => s == r.b,
                Rel::Le => s <= r.b,
                Rel::Ge => s >= r.b,
                Rel::Range(g) => s <= r.b && s >= r.b - g,
            };
            if !ok { return Some(format!("row {i} has activity {s}, violating its relation to {}", r.b)); }
        }
        None
    }
    /// Check a claimed outcome against the oracle's.
    pub fn judge(&self, claimed: &Outcome, truth: Verdict) -> Result<(), String> {
        match (claimed, truth) {
            (Outcome::Infeasible, Verdict::Infeasible) | (Outcome::Unbounded, Verdict::Unbounded) => Ok(()),
            (Outcome::Opt { x, value }, Verdict::Opt(best)) => {
                if let Some(why) = self.infeasibility(x) { return Err(format!("returned solution {x:?} infeasible: {why}")); }
                let actual = self.objective(x);
                if actual != best { return Err(format!("returned solution {x:?} has objective {actual}, optimum is {best}")); }
                if let Some(v) = value { if *v != best { return Err(format!("reported objective {v}, optimum is {best}")); } }
                Ok(())
            }
            (c, t) => Err(format!("reported {c:?}, truth is {t:?}")),
        }
    }
    pub fn solve(&self) -> Verdict { Poly::from_lp(self).optimum(self.max) }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Outcome { Infeasible, Unbounded, Opt { x: Vec<Rat>, value: Option<Rat> } }

const W: usize = 14; // columns: x0..xk, z, rhs
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Ineq { c: [i64; W], rhs: i64 } // c.x <= rhs

struct Poly { n: usize, eqs: Vec<Ineq>, ineqs: Vec<Ineq>, dead: bool }

fn scaled(coefs: &[Rat], rhs: Rat) -> Ineq {
    let mut l: i128 = rhs.d;
    for c in coefs { l = l / gcd(l, c.d) * c.d; }
    let mut r = Ineq { c: [0; W], rhs: i64::try_from(rhs.n * (l / rhs.d)).unwrap() };
    for (j, c) in coefs.iter().enumerate() { r.c[j] = i64::try_from(c.n * (l / c.d)).unwrap(); }
    r
}
fn normalise(r: &mut Ineq, with_rhs: bool, n: usize) {
    let mut g: i128 = 0;
    for c in &r.c[..n] { g = gcd(g, *c as i128); }
    if with_rhs { g = gcd(g, r.rhs as i128); }
    if g > 1 {
        for c in &mut r.c[..n] { *c /= g as i64; }
        r.rhs /= g as i64;
    }
}
fn comb(a: &Ineq, fa: i64, b: &Ineq, fb: i64, n: usize) -> Ineq {
    let f = |x: i64, y: i64| i64::try_from(x as i128 * fa as i128 + y as i128 * fb as i128).expect("oracle overflow");
    let mut r = Ineq { c: [0; W], rhs: f(a.rhs, b.rhs) };
    for j in 0..n { r.c[j] = f(a.c[j], b.c[j]); }
    r
}

impl Poly {
    /// Variables 0..n are the LP's, variable n is the objective value z.
    fn from_lp(lp: &Lp) -> Poly {
        let n = lp.vars.len();
        assert!(n + 1 <= W);
        let mut p = Poly { n: n + 1, eqs: vec![], ineqs: vec![], dead: false };
        let neg = |a: &[Rat]| a.iter().map(|v| -*v).collect::<Vec<_>>();
        for r in &lp.rows {
            assert_eq!(r.a.len(), n);
            match r.rel {
                Rel::Eq => p.eqs.push(scaled(&r.a, r.b)),
                Rel::Le => p.ineqs.push(scaled(&r.a, r.b)),
                Rel::Ge => p.ineqs.push(scaled(&neg(&r.a), -r.b)),
                Rel::Range(g) => {
                    p.ineqs.push(scaled(&r.a, r.b));
                    p.ineqs.push(scaled(&neg(&r.a), g - r.b));
                }
            }
        }
        for (j, v) in lp.vars.iter().enumerate() {
            let mut e = vec![Rat::ZERO; n];
            e[j] = Rat::ONE;
            if let Some(h) = v.hi { p.ineqs.push(scaled(&e, h)); }
            if let Some(l) = v.lo { p.ineqs.push(scaled(&neg(&e), -l)); }
        }
        let mut c: Vec<Rat> = lp.vars.iter().map(|v| -v.cost).collect();
        c.push(Rat::ONE);
        p.eqs.push(scaled(&c, lp.fixed));
        p
    }
    fn optimum(mut self, max: bool) -> Verdict {
        let n = self.n;
        let z = n - 1;
        let mut gone = [false; W];
        // Gaussian elimination of original variables through the equalities.
        while let Some(mut e) = self.eqs.pop() {
            normalise(&mut e, true, n);
            match (0..z).find(|&j| e.c[j] != 0) {
                None => {
                    if e.c[z] != 0 {
                        // z is fixed: keep as two inequalities.
                        self.ineqs.push(e);
                        self.ineqs.push(comb(&e, -1, &e, 0, n));
                    } else if e.rhs != 0 { self.dead = true; }
                }
                Some(j) => {
                    gone[j] = true;
                    let p = e.c[j];
                    for o in &mut self.eqs {
                        if o.c[j] != 0 { *o = comb(o, p, &e, -o.c[j], n); normalise(o, true, n); }
                    }
                    for o in &mut self.ineqs {
                        if o.c[j] != 0 {
                            let (fo, fe) = if p > 0 { (p, -o.c[j]) } else { (-p, o.c[j]) };
                            *o = comb(o, fo, &e, fe, n);
                            normalise(o, true, n);
                        }
                    }
                }
            }
        }
        if self.dead { return Verdict::Infeasible; }
        // Fourier-Motzkin on the rest, cheapest variable first.
        loop {
            if !self.prune(n) { return Verdict::Infeasible; }
            let next = (0..z).filter(|&j| !gone[j]).map(|j| {
                let p = self.ineqs.iter().filter(|r| r.c[j] > 0).count();
                let m = self.ineqs.iter().filter(|r| r.c[j] < 0).count();
                (p * m, j)
            }).min();
            let Some((_, j)) = next else { break };
            gone[j] = true;
            let (mut pos, mut neg, mut rest) = (vec![], vec![], vec![]);
            for r in self.ineqs.drain(..) {
                if r.c[j] > 0 { pos.push(r) } else if r.c[j] < 0 { neg.push(r) } else { rest.push(r) }
            }
            for p in &pos {
                for m in &neg {
                    let mut r = comb(p, -m.c[j], m, p.c[j], n);
                    normalise(&mut r, true, n);
                    rest.push(r);
                }
            }
            self.ineqs = rest;
        }
        let (mut lo, mut hi): (Option<Rat>, Option<Rat>) = (None, None);
        for r in &self.ineqs {
            let v = Rat::new(r.rhs as i128, r.c[z] as i128);
            if r.c[z] > 0 { if hi.is_none_or(|h| v < h) { hi = Some(v); } }
            else if lo.is_none_or(|l| v > l) { lo = Some(v); }
        }
        if let (Some(l), Some(h)) = (lo, hi) { if l > h { return Verdict::Infeasible; } }
        match if max { hi } else { lo } { Some(v) => Verdict::Opt(v), None => Verdict::Unbounded }
    }
    /// Drop redundant rows; false when a row is contradictory.
    fn prune(&mut self, n: usize) -> bool {
        self.ineqs.retain(|r| r.rhs < 0 || r.c[..n].iter().any(|c| *c != 0));
        if self.ineqs.iter().any(|r| r.c[..n].iter().all(|c| *c == 0)) { return false; }
        self.ineqs.sort_unstable();
        self.ineqs.dedup_by(|b, a| a.c == b.c); // keeps the smallest rhs
        true
    }
}

/// Second, independent oracle for pointed polyhedra (every variable has a lower bound): vertex and
/// extreme-ray enumeration. Only used to validate the first oracle.
pub fn vertex_oracle(lp: &Lp) -> Verdict {
    let n = lp.vars.len();
    assert!(lp.vars.iter().all(|v| v.lo.is_some()));
    let mut hs: Vec<(Vec<Rat>, Rat)> = vec![];
    for r in &lp.rows {
        hs.push((r.a.clone(), r.b));
        if let Rel::Range(g) = r.rel { hs.push((r.a.clone(), r.b - g)); }
    }
    for (j, v) in lp.vars.iter().enumerate() {
        let mut e = vec![Rat::ZERO; n]; e[j] = Rat::ONE;
        if let Some(l) = v.lo { hs.push((e.clone(), l)); }
        if let Some(h) = v.hi { hs.push((e.clone(), h)); }
    }
    let rec = Lp {
        max: lp.max, fixed: Rat::ZERO,
        vars: lp.vars.iter().map(|v| Var { cost: v.cost, lo: v.lo.map(|_| Rat::ZERO), hi: v.hi.map(|_| Rat::ZERO) }).collect(),
        rows: lp.rows.iter().map(|r| Row { a: r.a.clone(), b: Rat::ZERO, rel: if let Rel::Range(_) = r.rel { Rel::Eq } else { r.rel } }).collect(),
    };
    let (mut best, mut ray): (Option<Rat>, bool) = (None, false);
    let mut pick = vec![];
    fn go(hs: &[(Vec<Rat>, Rat)], from: usize, k: usize, pick: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if k == 0 { f(pick); return; }
        for i in from..hs.len() { pick.push(i); go(hs, i + 1, k - 1, pick, f); pick.pop(); }
    }
    go(&hs, 0, n, &mut pick, &mut |sel| {
        let m: Vec<Vec<Rat>> = sel.iter().map(|&i| { let mut r = hs[i].0.clone(); r.push(hs[i].1); r }).collect();
        if let Some(x) = gauss(m) {
            if lp.infeasibility(&x).is_none() {
                let v = lp.objective(&x);
                if best.is_none_or(|b| if lp.max { v > b } else { v < b }) { best = Some(v); }
            }
        }
    });
    // Rays of the recession cone, cut by sum(d) = 1.
    go(&hs, 0, n - 1, &mut pick, &mut |sel| {
        let mut m: Vec<Vec<Rat>> = sel.iter().map(|&i| { let mut r = hs[i].0.clone(); r.push(Rat::ZERO); r }).collect();
        m.push(vec![Rat::ONE; n + 1]);
        if let Some(d) = gauss(m) {
            if rec.infeasibility(&d).is_none() {
                let v = rec.objective(&d);
                if if lp.max { v.is_pos() } else { v.is_neg() } { ray = true; }
            }
        }
    });
    match best { None => Verdict::Infeasible, Some(_) if ray => Verdict::Unbounded, Some(b) => Verdict::Opt(b) }
}

/// Solve a square system given as augmented rows; None when singular.
pub fn gauss(mut m: Vec<Vec<Rat>>) -> Option<Vec<Rat>> {
    let n = m.len();
    for c in 0..n {
        let p = (c..n).find(|&i| !m[i][c].is_zero())?;
        m.swap(c, p);
        let inv = Rat::ONE / m[c][c];
        for v in &mut m[c] { *v = *v * inv; }
        for i in 0..n {
            if i != c && !m[i][c].is_zero() {
                let f = m[i][c];
                for k in 0..m[i].len() { let t = m[c][k]; m[i][k] = m[i][k] - f * t; }
            }
        }
    }
    Some(m.into_iter().map(|r| r[n]).collect())
}

/// Rank of a matrix.
pub fn rank(mut m: Vec<Vec<Rat>>) -> usize {
    let (h, w) = (m.len(), m.first().map_or(0, |r| r.len()));
    let mut r = 0;
    for c in 0..w {
        if let Some(p) = (r..h).find(|&i| !m[i][c].is_zero()) {
            m.swap(r, p);
            for i in r + 1..h {
                if !m[i][c].is_zero() {
                    let f = m[i][c] / m[r][c];
                    for k in c..w { let t = m[r][k]; m[i][k] = m[i][k] - f * t; }
                }
            }
            r += 1;
        }
    }
    r
}

/// Inverse of a square matrix given by rows; None when singular.
pub fn inverse(m: &[Vec<Rat>]) -> Option<Vec<Vec<Rat>>> {
    let n = m.len();
    let mut a: Vec<Vec<Rat>> = m.iter().enumerate().map(|(i, r)| {
        let mut r = r.clone();
        r.extend((0..n).map(|j| if i == j { Rat::ONE } else { Rat::ZERO }));
        r
    }).collect();
    for c in 0..n {
        let p = (c..n).find(|&i| !a[i][c].is_zero())?;
        a.swap(c, p);
        let inv = Rat::ONE / a[c][c];
        for v in &mut a[c] { *v = *v * inv; }
        for i in 0..n {
            if i != c && !a[i][c].is_zero() {
                let f = a[i][c];
                for k in 0..2 * n { let t = a[c][k]; a[i][k] = a[i][k] - f * t; }
            }
        }
    }
    Some(a.into_iter().map(|r| r[n..].to_vec()).collect())
}

/// All basic feasible solutions of `columns x = b, x >= 0` (rows may be dependent).
pub fn basic_feasible(rows: &[Row], n: usize) -> Vec<Vec<Rat>> {
    // Row reduce the augmented system once, keeping independent rows.
    let mut m: Vec<Vec<Rat>> = rows.iter().map(|r| { let mut v = r.a.clone(); v.push(r.b); v }).collect();
    let mut k = 0;
    for c in 0..n {
        if let Some(p) = (k..m.len()).find(|&i| !m[i][c].is_zero()) {
            m.swap(k, p);
            let inv = Rat::ONE / m[k][c];
            for v in &mut m[k] { *v = *v * inv; }
            for i in 0..m.len() {
                if i != k && !m[i][c].is_zero() { let f = m[i][c]; for j in c..=n { let t = m[k][j]; m[i][j] = m[i][j] - f * t; } }
            }
            k += 1;
        }
    }
    if m[k..].iter().any(|r| !r[n].is_zero()) { return vec![]; }
    m.truncate(k);
    let mut out: Vec<Vec<Rat>> = vec![];
    let mut sel = vec![];
    fn go(m: &[Vec<Rat>], n: usize, from: usize, sel: &mut Vec<usize>, out: &mut Vec<Vec<Rat>>) {
        let k = m.len();
        if sel.len() == k {
            let a: Vec<Vec<Rat>> = m.iter().map(|r| sel.iter().map(|&j| r[j]).chain([r[n]]).collect()).collect();
            if let Some(y) = gauss(a) {
                if y.iter().all(|v| !v.is_neg()) {
                    let mut x = vec![Rat::ZERO; n];
                    for (j, v) in sel.iter().zip(y) { x[*j] = v; }
                    if !out.contains(&x) { out.push(x); }
                }
            }
            return;
        }
        for j in from..n { if n - j < k - sel.len() { break; } sel.push(j); go(m, n, j + 1, sel, out); sel.pop(); }
    }
    go(&m, n, 0, &mut sel, &mut out);
    out
}
