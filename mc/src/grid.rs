//! Generators shared by several checks.
use crate::lp::{Lp, Rel, Row, Var, Verdict};
use crate::rat::Rat;
use crate::Dec;

pub fn r(v: i64) -> Rat { Rat::int(v) }

pub type Bound = (Option<i64>, Option<i64>);
pub const POS: Bound = (Some(0), None);
pub const FREE: Bound = (None, None);
pub const UNIT: Bound = (Some(0), Some(1));
pub const TWO: Bound = (Some(0), Some(2));
pub const MIXED: [Bound; 7] = [POS, FREE, (Some(1), None), (None, Some(1)), UNIT, (Some(-1), Some(2)), (Some(1), Some(1))];

/// A grid of programs: every combination of the listed values is visited.
#[derive(Clone)]
pub struct Grid<'a> {
    pub n: usize,
    pub m: usize,
    pub coef: &'a [i64],
    pub b: &'a [i64],
    pub cost: &'a [i64],
    pub bounds: &'a [Bound],
    pub kinds: &'a [Rel],
    /// Visit only one order of each set of rows (order of rows is irrelevant for the truth, and is
    /// varied by other families).
    pub unordered: bool,
    pub max: &'a [bool],
    pub fixed: i64,
}
pub const EQ: Rel = Rel::Eq;
pub const LE: Rel = Rel::Le;
pub const GE: Rel = Rel::Ge;
pub const RG: Rel = Rel::Range(Rat::ONE);
pub const ALL: [Rel; 4] = [EQ, RG, LE, GE];

impl<'a> Grid<'a> {
    pub fn standard(n: usize, m: usize) -> Grid<'a> {
        Grid { n, m, coef: &[0, 1, -1], b: &[0, 1], cost: &[0, 1, -1], bounds: &[POS, UNIT], kinds: &ALL, unordered: false, max: &[false], fixed: 0 }
    }
    /// Rows sorted by kind, as `MatrixData` wants them, when `sorted`.
    pub fn draw(&self, d: &mut Dec, sorted: bool) -> Option<Lp> {
        let max = d.of(self.max);
        let mut rows: Vec<Row> = vec![];
        let mut last = (0usize, 0usize, 0usize);
        for _ in 0..self.m {
            let k = if sorted { last.0 + d.pick(self.kinds.len() - last.0) } else { d.pick(self.kinds.len()) };
            let mut code = 0;
            let a: Vec<Rat> = (0..self.n).map(|_| { let c = d.pick(self.coef.len()); code = code * self.coef.len() + c; r(self.coef[c]) }).collect();
            let bi = d.pick(self.b.len());
            let key = (k, code, bi);
            if self.unordered && key < last { return None; }
            last = key;
            rows.push(Row { a, rel: self.kinds[k], b: r(self.b[bi]) });
        }
        let vars = (0..self.n).map(|_| {
            let c = d.of(self.cost);
            let (l, h) = d.of(self.bounds);
            Var { cost: r(c), lo: l.map(r), hi: h.map(r) }
        }).collect();
        Some(Lp { max, vars, rows, fixed: r(self.fixed) })
    }
}

pub fn row(a: &[i64], rel: Rel, b: i64) -> Row { Row { a: a.iter().map(|v| r(*v)).collect(), rel, b: r(b) } }
pub fn var(cost: i64, b: Bound) -> Var { Var { cost: r(cost), lo: b.0.map(r), hi: b.1.map(r) } }

/// The program with other numbers in the same places: denominators that differ per row and column,
/// and values between zero and one.
pub fn fractional(lp: Lp) -> Lp {
    let f = |v: Rat, by: &[(i128, i128)], at: usize| { let (n, d) = by[at % by.len()]; v * Rat::new(n, d) };
    let (c, b, cost, lo, hi) = ([(1, 1), (1, 2), (4, 3)], [(1, 3), (2, 5), (3, 2)], [(2, 3), (3, 4), (1, 5)], [(1, 2), (5, 3)], [(3, 2), (1, 2), (2, 7)]);
    Lp {
        rows: lp.rows.iter().enumerate().map(|(i, w)| Row {
            a: w.a.iter().enumerate().map(|(j, v)| f(*v, &c, i + j)).collect(),
            rel: if let Rel::Range(g) = w.rel { Rel::Range(f(g, &[(1, 2), (4, 7)], i)) } else { w.rel },
            b: f(w.b, &b, i),
        }).collect(),
        vars: lp.vars.iter().enumerate().map(|(j, v)| {
            let lo = v.lo.map(|l| f(l, &lo, j));
            // A fixed variable stays fixed.
            let hi = if v.lo.is_some() && v.lo == v.hi { lo } else { v.hi.map(|h| f(h, &hi, j)) };
            Var { cost: f(v.cost, &cost, j), lo, hi }
        }).collect(),
        max: lp.max, fixed: lp.fixed * Rat::new(1, 7),
    }
}

/// A program in other units: rows, columns and the objective times factors, so that its numbers lie
/// up to thirty-two orders of magnitude apart. The truth follows from that of the original.
pub struct Stretched { pub lp: Lp, pub truth: Verdict }
impl std::fmt::Display for Stretched { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.lp.fmt(f) } }
pub const STRETCHES: usize = 4;
pub fn stretched(lp: Lp, way: usize) -> Stretched {
    const ONE: Rat = Rat::ONE;
    let ten = |e: i32| if e < 0 { Rat::new(1, 10i128.pow(-e as u32)) } else { Rat { n: 10i128.pow(e as u32), d: 1 } };
    let (rows, cols, k) = [
        ([ONE, ONE], [ONE, ONE, ONE], ten(-16)),
        ([ONE, ONE], [ten(-8), ONE, ten(8)], ten(8)),
        ([ten(12), ten(-16)], [ONE, ONE, ONE], ONE),
        ([ten(-9), ONE], [ONE, ten(9), ten(-9)], ten(-9)),
    ][way];
    let truth = match lp.solve() { Verdict::Opt(v) => Verdict::Opt(v * k), v => v };
    let (r, c) = (|i: usize| rows[i % 2], |j: usize| cols[j % 3]);
    let lp = Lp {
        rows: lp.rows.iter().enumerate().map(|(i, w)| Row {
            a: w.a.iter().enumerate().map(|(j, v)| *v * (r(i) * c(j))).collect(),
            rel: if let Rel::Range(g) = w.rel { Rel::Range(g * r(i)) } else { w.rel },
            b: w.b * r(i),
        }).collect(),
        vars: lp.vars.iter().enumerate().map(|(j, v)| Var { cost: v.cost * (k * c(j)), lo: v.lo.map(|l| l / c(j)), hi: v.hi.map(|h| h / c(j)) }).collect(),
        max: lp.max, fixed: lp.fixed * k,
    };
    Stretched { lp, truth }
}
/// Costs and right-hand sides that differ from simple ones by a millionth or two (a thousandth, where
/// the reference model would not fit otherwise): near ties.
pub fn nearly(lp: Lp) -> Lp {
    let part = if lp.vars.len() > 2 { 1000 } else { 1_000_000 };
    let tiny = |k: usize| Rat::new(k as i128, part);
    Lp {
        rows: lp.rows.iter().enumerate().map(|(i, w)| Row { b: w.b + tiny(i), ..w.clone() }).collect(),
        vars: lp.vars.iter().enumerate().map(|(j, v)| Var { cost: v.cost + tiny(j), ..v.clone() }).collect(),
        ..lp
    }
}

/// Transportation problem: supplies and demands as equalities (rank deficient by one).
pub fn transport(supply: &[i64], demand: &[i64], cost: &[i64], hi: Option<i64>) -> Lp {
    let (s, t) = (supply.len(), demand.len());
    let mut rows = vec![];
    for (i, v) in supply.iter().enumerate() { rows.push(row(&(0..s * t).map(|k| (k / t == i) as i64).collect::<Vec<_>>(), EQ, *v)); }
    for (j, v) in demand.iter().enumerate() { rows.push(row(&(0..s * t).map(|k| (k % t == j) as i64).collect::<Vec<_>>(), EQ, *v)); }
    Lp { max: false, fixed: r(0), rows, vars: (0..s * t).map(|k| var(cost[k], (Some(0), hi))).collect() }
}

/// Small programs put side by side, the truth about which follows from the truth about the parts.
#[derive(Clone)]
pub struct Blocks {
    pub parts: Vec<usize>, pub arrangement: usize, pub link: usize, pub lp: Lp, pub truth: Verdict,
    /// Which part each row and column (except a linking row) comes from, and its index there.
    pub rows_at: Vec<(usize, usize)>, pub cols_at: Vec<(usize, usize)>,
}
impl std::fmt::Display for Blocks {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "parts {:?}, arranged {}, linked {}: {}", self.parts, self.arrangement, self.link, self.lp)
    }
}
/// Parts in the shape `MatrixData` wants: no negative right-hand sides, lower bounds of zero.
pub fn plain_parts() -> Vec<Lp> {
    let p = |rows: Vec<Row>, vars: Vec<Var>| Lp { max: false, fixed: r(0), rows, vars };
    vec![
        p(vec![row(&[1, 2], GE, 3)], vec![var(2, POS), var(3, POS)]),
        p(vec![row(&[1, 1], EQ, 2)], vec![var(-1, POS), var(1, UNIT)]),
        p(vec![row(&[1, -1], Rel::Range(r(2)), 3)], vec![var(1, POS), var(-1, TWO)]),
        p(vec![row(&[1, 1, 1], EQ, 2), row(&[2, 2, 2], EQ, 4)], vec![var(1, POS), var(2, POS), var(3, UNIT)]),
        p(vec![row(&[1, 1], LE, 0), row(&[1, -1], LE, 0)], vec![var(-1, POS), var(-2, POS)]),
        p(vec![row(&[1, 0, 1], EQ, 1), row(&[0, 1, -1], EQ, 0), row(&[1, 1, 0], EQ, 1)], vec![var(1, POS), var(1, POS), var(-3, POS)]),
        p(vec![row(&[2, 1], LE, 5), row(&[1, 3], GE, 1)], vec![var(-1, TWO), var(-1, TWO)]),
        p(vec![], vec![var(-1, (Some(0), Some(3)))]),
        p(vec![row(&[0, 0], LE, 1)], vec![var(1, POS), var(0, POS)]),
        p(vec![row(&[3], Rel::Range(r(1)), 2)], vec![var(1, POS)]),
        p(vec![row(&[1, 1], EQ, 1), row(&[1, 1], EQ, 2)], vec![var(1, POS), var(1, POS)]),
        p(vec![row(&[1, -1], LE, 1)], vec![var(-1, POS), var(-1, POS)]),
    ]
}
/// Parts with equality rows and non-negative variables only, and unit columns: (row, column).
pub fn equality_parts() -> Vec<(Lp, Vec<(usize, usize)>)> {
    let p = |rows: &[(&[i64], i64)], cost: &[i64]| Lp { max: false, fixed: r(0), rows: rows.iter().map(|(a, b)| row(a, EQ, *b)).collect(), vars: cost.iter().map(|c| var(*c, POS)).collect() };
    vec![
        (p(&[(&[1, 2, 1], 3)], &[-1, -1, 0]), vec![(0, 2)]),
        (p(&[(&[1, 1, 1], 2), (&[2, 2, 2], 4)], &[1, 2, 3]), vec![]),
        (p(&[(&[1, 0, 1], 1), (&[0, 1, -1], 0), (&[1, 1, 0], 1)], &[1, 1, -3]), vec![]),
        (p(&[(&[0], 0), (&[1], 2)], &[-1]), vec![(1, 0)]),
        (p(&[(&[1, -1, 0], 0), (&[1, 1, 1], 0)], &[1, -1, 0]), vec![(1, 2)]),
        (p(&[(&[1, 1, 0, 0], 1), (&[0, 0, 1, 1], 1), (&[1, 0, 1, 0], 1), (&[0, 1, 0, 1], 1)], &[1, 2, 3, 1]), vec![]),
        (p(&[(&[-1, 1, 1, 0], 1), (&[2, 1, 0, 1], 4)], &[-1, -1, 0, 0]), vec![(0, 2), (1, 3)]),
        (p(&[(&[1, 2], 1), (&[2, 1], 5)], &[1, 1]), vec![]),
        (p(&[(&[1, -1], 1)], &[-1, 0]), vec![(0, 0)]),
    ]
}
/// Parts with everything a general form may hold.
pub fn general_parts() -> Vec<Lp> {
    let p = |rows: Vec<Row>, vars: Vec<Var>| Lp { max: false, fixed: r(1), rows, vars };
    let mut v: Vec<Lp> = plain_parts().into_iter().enumerate().filter(|(i, _)| [0, 2, 3, 5].contains(i)).map(|(_, p)| p).collect();
    v.extend([
        p(vec![row(&[1, -1], EQ, 1), row(&[1, 1], GE, -3)], vec![var(2, FREE), var(1, FREE)]),
        p(vec![row(&[1, 1], LE, 2)], vec![var(3, (Some(1), Some(1))), var(-1, POS)]),
        p(vec![row(&[1, 1], GE, -4), row(&[1, 0], LE, 5)], vec![var(1, FREE), var(2, (None, Some(1)))]),
        p(vec![row(&[2], LE, 3), row(&[-1], LE, 1)], vec![var(-1, FREE)]),
        p(vec![row(&[1, 1, 0], LE, 2), row(&[0, 1, 1], RG, 1)], vec![var(1, (Some(-1), Some(2))), var(-2, (Some(-1), None)), var(0, UNIT)]),
        p(vec![row(&[0, 0], GE, -1)], vec![var(0, FREE), var(2, (Some(-2), None))]),
        p(vec![row(&[1, 1, 1], EQ, 3), row(&[1, 0, 0], EQ, 1)], vec![var(0, POS), var(-1, FREE), var(1, (Some(-2), Some(2)))]),
        p(vec![row(&[1, 2], EQ, 2), row(&[2, 4], LE, 3)], vec![var(1, FREE), var(1, FREE)]),
        p(vec![row(&[1, -1], LE, 1)], vec![var(-1, FREE), var(0, POS)]),
    ]);
    v
}
pub const LINKS: usize = 5;
pub fn blocks(all: &[Lp], truths: &[Verdict], parts: Vec<usize>, arrangement: usize, link: usize) -> Option<Blocks> {
    let truth = parts.iter().map(|&p| truths[p]).fold(Verdict::Opt(Rat::ZERO), |a, b| match (a, b) {
        (Verdict::Infeasible, _) | (_, Verdict::Infeasible) => Verdict::Infeasible,
        (Verdict::Unbounded, _) | (_, Verdict::Unbounded) => Verdict::Unbounded,
        (Verdict::Opt(a), Verdict::Opt(b)) => Verdict::Opt(a + b),
    });
    // Where each row and column of the parts goes: (place, part, index).
    let place = |size: &dyn Fn(&Lp) -> usize, mixed: bool, reversed: bool| {
        let mut v: Vec<(usize, usize)> = parts.iter().enumerate().flat_map(|(k, &p)| (0..size(&all[p])).map(move |i| (k, i))).collect();
        if mixed { v.sort_by_key(|(k, i)| (*i, *k)); }
        if reversed { v.reverse(); }
        v
    };
    let rows_at = place(&|l| l.rows.len(), arrangement == 1 || arrangement == 3, arrangement == 2 || arrangement == 3);
    let cols_at = place(&|l| l.vars.len(), arrangement == 1, arrangement == 2 || arrangement == 3);
    let mut rows: Vec<Row> = rows_at.iter().map(|&(k, i)| {
        let from = &all[parts[k]].rows[i];
        Row { a: cols_at.iter().map(|&(c, j)| if c == k { from.a[j] } else { Rat::ZERO }).collect(), ..from.clone() }
    }).collect();
    let vars: Vec<Var> = cols_at.iter().map(|&(k, j)| all[parts[k]].vars[j].clone()).collect();
    let fixed = parts.iter().fold(Rat::ZERO, |s, &p| s + all[p].fixed);
    if link > 0 {
        // A row over everything that the optimum satisfies: the objective is never below its best.
        let Verdict::Opt(best) = truth else { return None };
        let best = best - fixed;
        let a = vars.iter().map(|v| v.cost).collect();
        let (rel, b) = match link { 1 => (GE, best), 2 => (EQ, best), 3 => (GE, best - r(1)), _ => (Rel::Range(r(3)), best + r(1)) };
        let at = if link == 3 { 0 } else { rows.len() };
        rows.insert(at, Row { a, rel, b });
    }
    Some(Blocks { lp: Lp { max: false, fixed, rows, vars }, parts, arrangement, link, truth, rows_at, cols_at })
}
/// All of `count` parts in any order, or two kinds of parts in turns, `count` times.
pub fn draw_blocks(d: &mut Dec, all: &[Lp], truths: &[Verdict], count: usize, turns: bool) -> Option<Blocks> {
    let parts = if turns {
        let (a, b) = (d.pick(all.len()), d.pick(all.len()));
        (0..count).map(|k| if k % 2 == 0 { a } else { b }).collect()
    } else { (0..count).map(|_| d.pick(all.len())).collect() };
    let arrangement = d.pick(4);
    let link = d.pick(LINKS);
    blocks(all, truths, parts, arrangement, link)
}
/// Rows in the order `MatrixData` wants; none if a right-hand side is negative.
pub fn sorted(mut b: Blocks) -> Option<Blocks> {
    if b.lp.rows.iter().any(|r| r.b.is_neg()) { return None; }
    b.lp.rows.sort_by_key(|r| match r.rel { Rel::Eq => 0, Rel::Range(_) => 1, Rel::Le => 2, Rel::Ge => 3 });
    Some(b)
}
