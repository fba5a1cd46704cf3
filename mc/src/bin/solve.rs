//! P01..P05: what a user of the solver gets back, against an exact oracle.
use mc::grid::*;
use mc::lp::*;
use mc::pipe::*;
use mc::rat::Rat;
use mc::spy;
use mc::{Dec, Run, Tally};
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::{OptimizationResult as O, SolveRelaxation};

fn name(v: &Verdict) -> &'static str { match v { Verdict::Infeasible => "infeasible", Verdict::Unbounded => "unbounded", Verdict::Opt(_) => "optimal" } }

fn solve_standard(lp: &Lp, t: &mut Tally) -> Result<(), String> { standard_against(lp, lp.solve(), t) }
fn standard_against(lp: &Lp, truth: Verdict, t: &mut Tally) -> Result<(), String> {
    let s = Standard::new(lp);
    let d = s.data();
    let text = lp.to_string();
    for (i, name) in ["rows", "lu"].into_iter().enumerate() {
        let (res, log) = spy::logged(false, || mc::guarded(|| if i == 0 { d.solve_relaxation::<SpyRows>() } else { d.solve_relaxation::<SpyLu>() }));
        let out = match res.map_err(|e| format!("{name}: panic: {e}"))? { O::FiniteOptimum(v) => O::FiniteOptimum(d.reconstruct_solution(v)), o => o };
        lp.judge(&reduced(&out), truth).map_err(|e| format!("{name}: {e}"))?;
        t.compared();
        t.trace(&text, &log.pivots);
        if i == 1 {
            if log.pivots.len() > 1 { t.nontrivial += 1; }
            if log.made.iter().any(|m| m.contains("removed")) { t.outcome("redundant rows removed"); }
            if log.pivots.len() > 30 { t.outcome("more than 30 basis changes"); }
        }
    }
    t.outcome(name(&truth));
    Ok(())
}

fn p01(run: &mut Run) {
    run.rule = "every MatrixData program on the listed grids of coefficients, right-hand sides, costs, upper bounds and row kinds (one order per row kind block), each solved with both basis inverses, also with fractions, with numbers many orders of magnitude apart and with near ties; structured families: transportation with every listed cost table, box-constrained single rows, coupled chains that need more than 30 basis changes; and larger programs made by putting up to three (quick) parts of a library side by side, or two parts in turns many times over, in four arrangements and with five kinds of rows tying them together, whose truth follows from the parts".into();
    let t = run.thorough;
    let g = Grid::standard(2, 2);
    run.explore("2x2", |d| g.draw(d, true), solve_standard);
    let g = Grid { coef: &[0, 1, -1, 2], b: &[0, 1, 2], cost: &[1, -1], bounds: &[POS], kinds: &[EQ], unordered: true, ..Grid::standard(2, 3) };
    run.explore("eq-2x3", |d| g.draw(d, true), solve_standard);
    let g = Grid { cost: &[1, -1], bounds: if t { &[POS, UNIT] } else { &[POS] }, ..Grid::standard(2, 3) };
    run.explore("2x3", |d| g.draw(d, true), solve_standard);
    let g = Grid { cost: &[1, -1], bounds: if t { &[POS, UNIT] } else { &[POS] }, ..Grid::standard(3, 2) };
    run.explore("3x2", |d| g.draw(d, true), solve_standard);
    let g = Grid { coef: &[1, -1, 2], b: &[0, 1], cost: &[-1, 2], bounds: &[POS], kinds: &[LE], unordered: true, ..Grid::standard(3, 3) };
    run.explore("le-3x3", |d| g.draw(d, true), solve_standard);
    let g = Grid { coef: &[0, 1, -1], b: &[0, 1], cost: &[1], bounds: &[POS, UNIT], kinds: &[EQ], unordered: true, ..Grid::standard(3, 3) };
    run.explore("eq-3x3", |d| g.draw(d, true), solve_standard);
    // Fractions everywhere.
    for g in [
        Grid { coef: &[0, 1, -1, 2], b: &[0, 1, 2], ..Grid::standard(2, 1) },
        Grid { coef: &[0, 1, -1, 2], b: &[0, 1, 2], ..Grid::standard(1, 2) },
        Grid { coef: &[1, -1, 2], b: &[1, 2], cost: &[1, -1], bounds: if t { &[POS, UNIT] } else { &[UNIT] }, ..Grid::standard(2, 2) },
        Grid { coef: if t { &[0, 1, -1] } else { &[1, -1] }, b: &[0, 1], cost: &[-1], bounds: &[POS, TWO], kinds: if t { &ALL } else { &[EQ, RG] }, ..Grid::standard(3, 2) },
    ] {
        run.explore(&format!("fractions-{}x{}", g.n, g.m), |d| g.draw(d, true).map(fractional), solve_standard);
    }
    // Numbers many orders of magnitude apart, and near ties.
    for g in [
        Grid { coef: &[0, 1, -1, 2], b: &[0, 1, 2], ..Grid::standard(2, 1) },
        Grid { coef: &[1, -1, 2], b: &[1, 2], cost: &[1, -1], bounds: if t { &[POS, UNIT] } else { &[UNIT] }, ..Grid::standard(2, 2) },
        Grid { coef: if t { &[0, 1, -1] } else { &[1, -1] }, b: &[0, 1], cost: &[-1], bounds: &[POS, TWO], kinds: if t { &ALL } else { &[EQ, RG] }, ..Grid::standard(3, 2) },
    ] {
        run.explore(&format!("magnitudes-{}x{}", g.n, g.m), |d| { let lp = g.draw(d, true)?; Some(stretched(lp, d.pick(STRETCHES))) }, |s, t| standard_against(&s.lp, s.truth, t));
        run.explore(&format!("nearly-{}x{}", g.n, g.m), |d| g.draw(d, true).map(nearly), solve_standard);
    }
    // Redundant equalities next to bound rows and ranges.
    run.explore("redundant", |d| {
        let a = [d.of(if t { &[0i64, 1, -1] } else { &[0, 1] }), d.of(&[1i64, 2]), d.of(&[0i64, 1, -1])];
        let e = [d.of(&[0i64, 1]), d.of(&[1i64, -1]), if t { d.of(&[1i64, 0]) } else { 1 }];
        let (ba, be) = (d.of(&[0i64, 1, 2]), d.of(&[0i64, 1]));
        let (p, q) = (d.of(&[0i64, 1, 2]), d.of(&[0i64, 1, -1]));
        let bs = p * ba + q * be;
        if bs < 0 { return None; }
        let mut rows = vec![(a, ba), (e, be), ([p * a[0] + q * e[0], p * a[1] + q * e[1], p * a[2] + q * e[2]], bs)];
        let order = d.permutation(3);
        rows = order.into_iter().map(|i| rows[i]).collect();
        let mut rows: Vec<Row> = rows.iter().map(|(a, b)| row(a, EQ, *b)).collect();
        match d.pick(3) { 0 => {}, 1 => rows.push(row(&[1, 1, 0], RG, 2)), _ => rows.push(row(&[1, 0, 1], LE, 3)) }
        let hi = [if t { d.of(&[POS, TWO]) } else { TWO }, d.of(&[POS, UNIT]), POS];
        let c = [d.of(&[1i64, -1]), d.of(&[1i64, 0, -1]), 1];
        Some(Lp { max: false, fixed: r(0), rows, vars: (0..3).map(|j| var(c[j], hi[j])).collect() })
    }, solve_standard);
    // Transportation, rank deficient by construction; assignment polytopes are maximally degenerate.
    run.explore("transport-2x3", |d| {
        let shapes: [(&[i64], &[i64]); 5] = [(&[1, 1], &[1, 1, 0]), (&[2, 1], &[1, 1, 1]), (&[3, 3], &[2, 2, 2]), (&[1, 0], &[0, 0, 1]), (&[2, 2], &[1, 1, 1])];
        let (s, u) = d.of(&shapes);
        let c: Vec<i64> = (0..6).map(|_| d.of(&[0i64, 1, 3])).collect();
        Some(transport(s, u, &c, d.of(&[None, Some(1)])))
    }, solve_standard);
    let costs: &[i64] = if t { &[0, 1, 2] } else { &[0, 2] };
    run.explore("assignment-3x3", |d| {
        let c: Vec<i64> = (0..9).map(|_| d.of(costs)).collect();
        Some(transport(&[1; 3], &[1; 3], &c, None))
    }, |lp, t| {
        let c = |i: usize, j: usize| lp.vars[3 * i + j].cost;
        let best = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]].iter().map(|p| c(0, p[0]) + c(1, p[1]) + c(2, p[2])).min().unwrap();
        standard_against(lp, Verdict::Opt(best), t)
    });
    // One row, many bounded variables.
    run.explore("box-4x1", |d| {
        let a: Vec<i64> = (0..4).map(|j| if j == 0 && !t { 2 } else { d.of(&[1i64, 2, 3]) }).collect();
        let rel = d.of(&ALL);
        let b = d.of(if t { &[0i64, 2, 5] } else { &[0i64, 5] });
        let bounds: &[Bound] = if t { &[UNIT, TWO, POS] } else { &[TWO, POS] };
        let vars = (0..4).map(|_| { let c = d.of(&[-2i64, -1, 1]); var(c, d.of(bounds)) }).collect();
        Some(Lp { max: false, fixed: r(0), rows: vec![row(&a, rel, b)], vars })
    }, solve_standard);
    // Long runs: a chain that needs n basis changes, crossing the refactorisation threshold.
    run.explore("chain", |d| {
        let n = if d.bool() { 34 } else { 12 };
        let kind = d.pick(4);
        let tied = d.bool();
        let k = d.of(&[1i64, 2, 3]);
        Some(Chain { n, kind, tied, k })
    }, |c, t| standard_against(&c.lp(), c.truth(), t));
    // Larger programs, made of small ones.
    let all = plain_parts();
    let truths: Vec<Verdict> = all.iter().map(Lp::solve).collect();
    run.explore("blocks", |d| draw_blocks(d, &all, &truths, if t { 4 } else { 3 }, false).and_then(sorted), |b, t| standard_against(&b.lp, b.truth, t));
    run.explore("blocks-in-turns", |d| draw_blocks(d, &all, &truths, if t { 48 } else { 20 }, true).and_then(sorted), |b, t| standard_against(&b.lp, b.truth, t));
}

/// `x_i <= 1` (or `x_i + x_{i-1} <= k`) chains whose optimum is known in closed form.
struct Chain { n: usize, kind: usize, tied: bool, k: i64 }
impl std::fmt::Display for Chain {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "chain of {} rows, kind {}, tied {}, step {}", self.n, self.kind, self.tied, self.k) }
}
impl Chain {
    fn lp(&self) -> Lp {
        let n = self.n;
        let unit = |at: &[(usize, i64)]| { let mut a = vec![0; n]; for (j, v) in at { a[*j] = *v; } a };
        let mut rows = vec![];
        let mut cost = vec![-1; n];
        match self.kind {
            // min -sum x, x_0 <= k, x_i - x_{i-1} <= k (i > 0)
            0 => for i in 0..n { rows.push(if i == 0 { row(&unit(&[(0, 1)]), LE, self.k) } else { row(&unit(&[(i, 1), (i - 1, -1)]), LE, self.k) }); },
            // min sum x, x_i - x_{i-1} = k
            1 => { cost = vec![1; n]; for i in 0..n { rows.push(if i == 0 { row(&unit(&[(0, 1)]), EQ, self.k) } else { row(&unit(&[(i, 1), (i - 1, -1)]), EQ, self.k) }); } }
            // min sum x, x_i - x_{i-1} >= k
            2 => { cost = vec![1; n]; for i in 0..n { rows.push(if i == 0 { row(&unit(&[(0, 1)]), GE, self.k) } else { row(&unit(&[(i, 1), (i - 1, -1)]), GE, self.k) }); } }
            // min -sum x, k x_i <= i + 1, separate rows
            _ => for i in 0..n { rows.push(row(&unit(&[(i, self.k)]), LE, i as i64 + 1)); },
        }
        if self.tied {
            // A redundant row over everything.
            let total = match self.kind { 3 => (n * (n + 1) / 2) as i64, _ => self.k * (n * (n + 1) / 2) as i64 };
            match self.kind {
                0 => rows.push(row(&vec![1; n], LE, total)),
                1 => rows.push(row(&vec![1; n], EQ, total)),
                2 => rows.push(row(&vec![1; n], GE, total)),
                _ => rows.push(row(&vec![self.k; n], LE, total)),
            }
        }
        Lp { max: false, fixed: r(0), rows, vars: cost.into_iter().map(|c| var(c, POS)).collect() }
    }
    fn truth(&self) -> Verdict {
        let tri = (self.n * (self.n + 1) / 2) as i64;
        Verdict::Opt(match self.kind { 0 => r(-self.k * tri), 1 | 2 => r(self.k * tri), _ => Rat::new(-tri as i128, self.k as i128) })
    }
}

fn solve_general(lp: &Lp, way: Way, t: &mut Tally) -> Result<(), String> { general_against(lp, lp.solve(), way, t) }
fn general_against(lp: &Lp, truth: Verdict, way: Way, t: &mut Tally) -> Result<(), String> {
    let (res, log) = spy::logged(false, || mc::guarded(|| pipeline(lp, way)));
    let (done, out) = res.map_err(|e| format!("panic: {e}"))??;
    lp.judge(&own_value(lp, done, out), truth)?;
    t.compared();
    t.trace(&lp.to_string(), &log.pivots);
    if done { t.outcome("settled by presolve"); } else if !log.pivots.is_empty() { t.nontrivial += 1; }
    t.outcome(name(&truth));
    Ok(())
}

const COEF2: [i64; 4] = [0, 1, -1, 2];
const B2: [i64; 4] = [-1, 0, 1, 2];
fn general<'a>(n: usize, m: usize) -> Grid<'a> {
    Grid { n, m, coef: &[0, 1, -1], b: &[0, 1], cost: &[1, -1], bounds: &MIXED, kinds: &ALL, unordered: false, max: &[false, true], fixed: 3 }
}
const NARROW: [Bound; 4] = [POS, FREE, (None, Some(1)), (Some(-1), Some(2))];

fn families(run: &mut Run, way: Way, tag: &str) {
    let t = run.thorough;
    let g = Grid { coef: &COEF2, b: &B2, cost: &[0, 1, -1], ..general(1, 1) };
    run.explore(&format!("{tag}1x1"), |d| g.draw(d, false), |l, t| solve_general(l, way, t));
    let g = Grid { coef: &COEF2, b: &B2, cost: &[0, 1, -1], ..general(2, 1) };
    run.explore(&format!("{tag}2x1"), |d| g.draw(d, false), |l, t| solve_general(l, way, t));
    let g = Grid { coef: &COEF2, b: &B2, cost: &[0, 1, -1], ..general(1, 2) };
    run.explore(&format!("{tag}1x2"), |d| g.draw(d, false), |l, t| solve_general(l, way, t));
    let g = if t { general(2, 2) } else { Grid { bounds: &NARROW, cost: &[1, -2], max: &[false], ..general(2, 2) } };
    run.explore(&format!("{tag}2x2"), |d| g.draw(d, false), |l, t| solve_general(l, way, t));
    let g = if t { Grid { bounds: &[POS, UNIT, FREE], cost: &[0, 1], max: &[false], ..general(2, 3) } }
        else { Grid { bounds: &[UNIT, FREE], cost: &[1], max: &[false], unordered: true, ..general(2, 3) } };
    run.explore(&format!("{tag}2x3"), |d| g.draw(d, false), |l, t| solve_general(l, way, t));
    let g = if t { Grid { bounds: &NARROW, cost: &[0, 1], max: &[false], ..general(3, 2) } }
        else { Grid { bounds: &[POS, (Some(-1), Some(1))], kinds: &[EQ, LE], cost: &[1, -1], max: &[false], ..general(3, 2) } };
    run.explore(&format!("{tag}3x2"), |d| g.draw(d, false), |l, t| solve_general(l, way, t));
}
/// Grids of programs with fractions everywhere.
fn fractions(run: &mut Run, tag: &str, f: &(dyn Fn(&Lp, &mut Tally) -> Result<(), String> + Sync)) {
    let t = run.thorough;
    let sets = [
        Grid { coef: &COEF2, b: &B2, cost: &[0, 1, -1], ..general(1, 1) },
        Grid { coef: &COEF2, b: &B2, cost: &[1, -1], bounds: if t { &MIXED } else { &NARROW }, ..general(2, 1) },
        Grid { coef: &COEF2, b: &[-1, 0, 2], cost: &[0, 1, -1], ..general(1, 2) },
        Grid { coef: if t { &[0, 1, -1] } else { &[1, -1] }, b: &[-1, 1], cost: if t { &[1, -2] } else { &[-1] }, bounds: if t { &NARROW } else { &[POS, FREE, (Some(-1), Some(2))] }, max: &[false], ..general(2, 2) },
        Grid { coef: &[1, -1], b: &[0, 2], cost: if t { &[1, -2] } else { &[1] }, bounds: if t { &[POS, (Some(-1), Some(2))] } else { &[(Some(-1), Some(2))] }, max: &[false], ..general(3, 2) },
    ];
    for g in &sets {
        run.explore(&format!("{tag}fractions-{}x{}", g.n, g.m), |d| g.draw(d, false).map(fractional), |l, t| f(l, t));
    }
}
/// Grids of programs with numbers many orders of magnitude apart, and with near ties.
fn magnitudes(run: &mut Run, tag: &str, f: &(dyn Fn(&Lp, Verdict, &mut Tally) -> Result<(), String> + Sync)) {
    let t = run.thorough;
    let sets = [
        Grid { coef: &COEF2, b: &B2, cost: &[0, 1, -1], max: &[false], ..general(1, 1) },
        Grid { coef: &COEF2, b: &[-1, 0, 2], cost: &[1, -1], bounds: if t { &MIXED } else { &NARROW }, max: &[false], ..general(2, 1) },
        Grid { coef: if t { &[0, 1, -1] } else { &[1, -1] }, b: &[-1, 2], cost: if t { &[1, -2] } else { &[-1] }, bounds: if t { &NARROW } else { &[POS, FREE, (Some(-1), Some(2))] }, max: &[false], ..general(2, 2) },
        Grid { coef: &[1, -1], b: &[0, 2], cost: if t { &[1, -2] } else { &[1] }, bounds: if t { &[POS, (Some(-1), Some(2))] } else { &[(Some(-1), Some(2))] }, max: &[false], ..general(3, 2) },
    ];
    for g in &sets {
        run.explore(&format!("{tag}magnitudes-{}x{}", g.n, g.m), |d| { let lp = g.draw(d, false)?; Some(stretched(lp, d.pick(STRETCHES))) }, |s, t| f(&s.lp, s.truth, t));
        if g.n > 1 { run.explore(&format!("{tag}nearly-{}x{}", g.n, g.m), |d| g.draw(d, false).map(nearly), |l, t| f(l, l.solve(), t)); }
    }
}
/// Larger programs, made of small ones.
fn larger(run: &mut Run, tag: &str, ways: &[Way]) {
    let t = run.thorough;
    let all = general_parts();
    let truths: Vec<Verdict> = all.iter().map(Lp::solve).collect();
    run.explore(&format!("{tag}blocks"), |d| draw_blocks(d, &all, &truths, if t { 4 } else { 3 }, false),
        |b, t| ways.iter().try_for_each(|w| general_against(&b.lp, b.truth, *w, t)));
    run.explore(&format!("{tag}blocks-in-turns"), |d| draw_blocks(d, &all, &truths, if t { 40 } else { 20 }, true),
        |b, t| ways.iter().try_for_each(|w| general_against(&b.lp, b.truth, *w, t)));
}
fn p02(run: &mut Run) {
    run.rule = "every general-form program on the listed grids (all four row kinds, seven bound shapes, minimise and maximise, a non-zero constant), solved without presolve through standardize, derive_matrix_data, solve_relaxation, reconstruct_solution and compute_full_solution_with_reduced_solution, also with fractions, with numbers many orders of magnitude apart and with near ties; and larger programs made by putting up to three (quick) parts of a library side by side, or two parts in turns many times over, in four arrangements and with five kinds of rows tying them together, whose truth follows from the parts".into();
    let way = Way { presolve: 0, scale: false, rows: false };
    families(run, way, "");
    fractions(run, "", &|l, t| solve_general(l, way, t));
    magnitudes(run, "", &|l, truth, t| general_against(l, truth, way, t));
    larger(run, "", &[way]);
}

/// Every vertex of the program that reaches the simplex method must map to a feasible point of the
/// original with the objective it reports, and the best of them must be as good as the original.
fn embed(lp: &Lp, way: Way, t: &mut Tally) -> Result<(), String> {
    let truth = lp.solve();
    match embedding(lp, way)? {
        Err(out) => { lp.judge(&out, truth)?; t.outcome("settled by presolve"); }
        Ok(e) => {
            let mut best: Option<Rat> = None;
            for (v, o) in &e.vertices {
                let Outcome::Opt { x, value: Some(value) } = own_value(lp, false, o.clone()) else { unreachable!() };
                if let Some(why) = lp.infeasibility(&x) { return Err(format!("vertex {v:?} of the reduced program maps to {x:?}: {why}")); }
                let actual = lp.objective(&x);
                if actual != value { return Err(format!("vertex {v:?} maps to {x:?} with objective {actual}, but {value} is reported")); }
                if best.is_none_or(|b| if lp.max { actual > b } else { actual < b }) { best = Some(actual); }
            }
            match (truth, best) {
                (Verdict::Infeasible, None) | (Verdict::Unbounded, Some(_)) => {}
                (Verdict::Opt(a), Some(b)) if a == b => {}
                _ => return Err(format!("best vertex of the reduced program is worth {best:?}, the original is {truth:?}")),
            }
            let text = lp.to_string();
            for (v, _) in &e.vertices { t.state(&(&text, v)); }
            t.steps(e.vertices.len());
            if e.vertices.len() > 1 { t.nontrivial += 1; }
            t.outcome(name(&truth));
        }
    }
    t.compared();
    Ok(())
}

/// Sparse programs built to trigger chains of presolve rules.
fn sparse_families(run: &mut Run, tag: &str, f: &(dyn Fn(&Lp, &mut Tally) -> Result<(), String> + Sync)) {
    let t = run.thorough;
    // x0 - x1 - x2 - x3 chain of two-variable rows.
    run.explore(&format!("{tag}chain-4x3"), |d| {
        let rows = (0..3).map(|i| {
            let mut a = [0i64; 4];
            a[i] = 1;
            a[i + 1] = d.of(&[1i64, -1]);
            let rel = d.of(&[EQ, LE, RG]);
            row(&a, rel, d.of(&[0i64, 1]))
        }).collect();
        let bounds: &[Bound] = if t { &[POS, UNIT, FREE, (None, Some(1))] } else { &[POS, FREE] };
        let vars = (0..4).map(|j| { let c = if j == 0 || j == 3 { d.of(&[1i64, -1]) } else { 0 }; var(c, d.of(bounds)) }).collect();
        Some(Lp { max: false, rows, vars, fixed: r(1) })
    }, |l, t| f(l, t));
    // A singleton row fixes or bounds a variable of a dense row; a slack-like variable may remain.
    run.explore(&format!("{tag}bound-3x3"), |d| {
        let k = [EQ, LE, GE, RG];
        let rows = vec![
            row(&[d.of(&[1i64, -2]), 0, 0], d.of(&k), d.of(&[0i64, 2])),
            row(&[1, d.of(&[1i64, -1]), d.of(&[0i64, 1])], d.of(&k), d.of(if t { &[0i64, 1, 2][..] } else { &[0i64, 2] })),
            row(&[0, d.of(&[1i64, 0]), d.of(&[1i64, -1])], d.of(&k), 1),
        ];
        let bounds: &[Bound] = if t { &MIXED } else { &[POS, (Some(-1), Some(2))] };
        let vars = (0..3).map(|_| { let c = d.of(&[1i64, -1]); var(c, d.of(bounds)) }).collect();
        let order = d.of(&[[0usize, 1, 2], [2, 1, 0]]);
        let max = t && d.bool();
        let rows: Vec<Row> = rows;
        Some(Lp { max, rows: order.iter().map(|&i| rows[i].clone()).collect(), vars, fixed: r(1) })
    }, |l, t| f(l, t));
    // Several variables that only occur in one row, with costs: which of them is the slack?
    run.explore(&format!("{tag}slack-4x2"), |d| {
        let rel = [d.of(&ALL), d.of(&ALL)];
        let rows = vec![row(&[1, d.of(&[1i64, -1]), d.of(&[1i64, -2]), 0], rel[0], d.of(&[0i64, 1])), row(&[1, 0, 0, d.of(&[1i64, -1, 2])], rel[1], d.of(&[0i64, 1]))];
        let bounds: &[Bound] = if t { &[POS, UNIT, FREE, (None, Some(1)), (Some(1), Some(3))] } else { &[POS, UNIT] };
        let vars = (0..4).map(|j| { let c = if j == 0 { 1 } else { d.of(&[0i64, 1, -1]) }; var(c, d.of(bounds)) }).collect();
        Some(Lp { max: false, rows, vars, fixed: r(0) })
    }, |l, t| f(l, t));
    // Empty rows and columns.
    run.explore(&format!("{tag}empty-3x2"), |d| {
        let z = d.pick(3);
        let rows = (0..2).map(|i| {
            let a: Vec<i64> = (0..3).map(|j| if i == 0 && z == 1 || j == 2 && z > 0 { 0 } else { d.of(&[0i64, 1]) }).collect();
            row(&a, d.of(&ALL), if t { d.of(&[-1i64, 0, 1]) } else { d.of(&[-1i64, 1]) })
        }).collect();
        let vars = (0..3).map(|j| if j == 2 { var(d.of(&[0i64, 1, -1]), d.of(if t { &MIXED[..] } else { &NARROW[..] })) } else { var(d.of(&[1i64, -1]), if t || j == 0 { d.of(&[POS, UNIT]) } else { UNIT }) }).collect();
        Some(Lp { max: (t || z == 2) && d.bool(), rows, vars, fixed: r(2) })
    }, |l, t| f(l, t));
}
/// Presolved `n` times, then solved; counts the programs of which a later round removes more.
fn rounds(lp: &Lp, n: u8, t: &mut Tally) -> Result<(), String> {
    let mut g = general_form(lp);
    let mut later = false;
    for k in 0..n {
        let size = (g.nr_variables(), g.nr_constraints());
        if g.presolve().is_err() { later |= k > 0; break; }
        later |= k > 0 && (g.nr_variables(), g.nr_constraints()) != size;
    }
    if later { t.outcome("a later round removed more"); }
    solve_general(lp, Way { presolve: n, scale: false, rows: false }, t)
}
/// Bounds that tighten each other without end: presolving gives up before it is done, and whether
/// anything is left for a later round depends on how far it got.
fn slow(d: &mut Dec, t: bool) -> Lp {
    let mut slot = [0usize, 1, 2, 3, 4];
    match d.pick(3) { 0 => {}, 1 => slot = [4, 0, 1, 2, 3], _ => slot = [2, 4, 1, 0, 3] }
    let at = |v: &[(usize, i64)]| { let mut a = [0i64; 5]; for (j, c) in v { a[slot[*j]] = *c; } a };
    // z, x, y, s, w
    let c = d.of(&[1i64, 2]);
    let y = d.of(&[1i64, -1]);
    let first = d.pick(3);
    let z = if first == 1 { 0 } else { 2 };
    let end = d.of(&[EQ, RG, LE, GE]);
    let mut rows = vec![
        row(&at(&[(1, 2), (2, -1)]), LE, c),
        row(&at(&[(2, 2 * y), (1, -y)]), if y > 0 { LE } else { GE }, y * c),
        row(&at(&[(1, 1), (3, 1)]), LE, d.of(if t { &[2i64, 3, 4, 6, 10, 18, 34, 80][..] } else { &[3i64, 6, 18, 34] })),
        row(&at(&[(0, z), (2, d.of(&[0i64, 1])), (3, d.of(&[1i64, -2])), (4, 1)]), end, d.of(&[3i64, 7])),
    ];
    if d.bool() { rows.reverse(); }
    let mut vars = vec![var(0, POS); 5];
    vars[slot[0]] = match first { 0 => var(1, (Some(1), Some(1))), 1 => var(1, UNIT), _ => var(0, (Some(-1), Some(1))) };
    let cx = d.of(&[-1i64, 1]);
    vars[slot[1]] = var(cx, (Some(0), Some(64)));
    vars[slot[2]] = var(-1, (Some(0), Some(64)));
    vars[slot[3]] = var(d.of(if t { &[0i64, 1][..] } else { &[0i64] }), d.of(if t { &[UNIT, TWO][..] } else { &[UNIT] }));
    vars[slot[4]] = var(d.of(&[1i64, -1]), (Some(0), Some(9)));
    Lp { max: false, fixed: r(0), rows, vars }
}
/// A row that is only found to be redundant after another row is gone, so that a rule that has had
/// its turn becomes applicable again in a later round of presolving.
fn late(d: &mut Dec, t: bool) -> Lp {
    let slot = d.of(&[[0usize, 1, 2, 3], [3, 2, 1, 0], [1, 0, 3, 2], [2, 3, 0, 1]]);
    let at = |v: &[(usize, i64)]| { let mut a = [0i64; 4]; for (j, c) in v { a[slot[*j]] = *c; } a };
    // s, w, u, v: the second row, gone, makes s a slack of the first, which may then be redundant,
    // which makes w a slack of the third.
    let sign = d.of(&[1i64, -1]);
    let rows = [
        row(&at(&[(0, sign), (1, 1), (2, d.of(&[0i64, 1]))]), d.of(&ALL), d.of(if t { &[-1i64, 0, 1, 2, 3][..] } else { &[-1i64, 1, 3] })),
        row(&at(&[(0, 1), (3, 1)]), d.of(&[LE, GE]), d.of(&[-1i64, 3])),
        row(&at(&[(1, d.of(&[1i64, 2])), (2, 1), (3, d.of(&[1i64, -1]))]), d.of(&ALL), d.of(&[1i64, 2])),
    ];
    let orders: &[[usize; 3]] = if t { &[[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] } else { &[[0, 1, 2], [2, 1, 0], [2, 0, 1]] };
    let order = d.of(orders);
    let mut vars = vec![var(0, POS); 4];
    let b: &[Bound] = if t { &[UNIT, TWO, (Some(-1), Some(1))] } else { &[UNIT, (Some(-1), Some(1))] };
    vars[slot[0]] = var(0, d.of(b));
    vars[slot[1]] = var(0, d.of(b));
    vars[slot[2]] = var(d.of(&[1i64, -1]), d.of(&[TWO, POS]));
    vars[slot[3]] = var(if t { d.of(&[1i64, -1]) } else { -1 }, TWO);
    Lp { max: false, fixed: r(0), rows: order.iter().map(|&i| rows[i].clone()).collect(), vars }
}
fn p03(run: &mut Run) {
    run.rule = "every program on the grids of P02, on programs whose bounds tighten each other without end (presolved one to four times) and on four sparse families built to trigger chains of presolve rules (singleton rows, bound propagation, free and bounded slacks, fixed variables, empty rows and columns): presolved once and twice and then solved; and, separately, every vertex of the presolved program mapped back to the original, also with fractions, with numbers many orders of magnitude apart and with near ties; and larger programs made by putting up to three (quick) parts of a library side by side, or two parts in turns many times over, in four arrangements and with five kinds of rows tying them together, whose truth follows from the parts".into();
    let once = Way { presolve: 1, scale: false, rows: false };
    let deep = run.thorough;
    families(run, once, "");
    fractions(run, "", &|l, t| solve_general(l, once, t));
    fractions(run, "vertices-", &|l, t| embed(l, once, t));
    magnitudes(run, "", &|l, truth, t| general_against(l, truth, once, t));
    sparse_families(run, "solve-", &|l, t| solve_general(l, once, t));
    sparse_families(run, "twice-", &|l, t| solve_general(l, Way { presolve: 2, ..once }, t));
    for n in 1..=4 {
        run.explore(&format!("slow-{n}"), |d| Some(slow(d, deep)), |l, t| rounds(l, n, t));
    }
    for n in if deep { 1..=3 } else { 2..=2 } {
        run.explore(&format!("late-{n}"), |d| Some(late(d, deep)), |l, t| rounds(l, n, t));
    }
    larger(run, "", &[once, Way { presolve: 2, ..once }]);
    sparse_families(run, "vertices-", &|l, t| embed(l, once, t));
    let g = Grid { bounds: &NARROW, cost: &[1], max: &[false], ..general(2, 2) };
    run.explore("vertices-2x2", |d| g.draw(d, false), |l, t| embed(l, once, t));
}
fn p04(run: &mut Run) {
    run.rule = "every general-form program on the listed grids: all vertices of the standardised program are enumerated by the reference model and mapped back through reconstruct_solution, reshift_solution and compute_full_solution_with_reduced_solution; and pairs of library programs side by side".into();
    let way = Way { presolve: 0, scale: false, rows: false };
    let t = run.thorough;
    let g = Grid { coef: &COEF2, b: &B2, cost: &[0, 1, -1], ..general(1, 1) };
    run.explore("1x1", |d| g.draw(d, false), |l, t| embed(l, way, t));
    let g = Grid { coef: &COEF2, b: &B2, cost: &[1, -1], ..general(2, 1) };
    run.explore("2x1", |d| g.draw(d, false), |l, t| embed(l, way, t));
    let g = Grid { coef: &COEF2, b: &B2, cost: &[1, -1], ..general(1, 2) };
    run.explore("1x2", |d| g.draw(d, false), |l, t| embed(l, way, t));
    let g = Grid { b: &[-1, 1], cost: if t { &[1, -1] } else { &[1] }, bounds: if t { &MIXED } else { &NARROW }, ..general(2, 2) };
    run.explore("2x2", |d| g.draw(d, false), |l, t| embed(l, way, t));
    fractions(run, "", &|l, t| embed(l, way, t));
    let all = general_parts();
    let truths: Vec<Verdict> = all.iter().map(Lp::solve).collect();
    run.explore("blocks", |d| draw_blocks(d, &all, &truths, 2, false), |b, t| embed(&b.lp, way, t));
    if t { sparse_families(run, "", &|l, t| embed(l, way, t)); }
}
/// A program that is scaled before it is standardised: scaling back restores it, and solving the
/// scaled program solves the original.
fn scaled_first(lp: &Lp, t: &mut Tally) -> Result<(), String> {
    use relp::data::linear_algebra::vector::{SparseVector, Vector};
    use relp::data::linear_program::general_form::Scalable;
    let n = lp.vars.len();
    let res = mc::guarded(|| -> Result<Outcome, String> {
        let original = general_form(lp);
        let mut g = original.clone();
        let scaling = g.scale();
        let mut back = g.clone();
        let mut factors = SparseVector::new((0..n).map(|j| (j, rbi(1))).collect(), n);
        scaling.scale_back(&mut factors);
        back.scale_back(scaling);
        if back != original { return Err("scaling back does not restore the program".into()); }
        let factors = dense(&factors);
        if factors.iter().any(|f| f.is_zero() || f.is_neg()) { return Err(format!("column factors {factors:?}")); }
        let counts = g.standardize();
        let d = g.derive_matrix_data(counts);
        let v = match d.solve_relaxation::<Lu>() { O::FiniteOptimum(v) => d.reconstruct_solution(v), o => return Ok(reduced(&o)) };
        drop(d);
        match solution(&g.compute_full_solution_with_reduced_solution(v), n)? {
            Outcome::Opt { x, .. } => Ok(Outcome::Opt { x: x.iter().zip(&factors).map(|(x, f)| *x * *f).collect(), value: None }),
            o => Ok(o),
        }
    });
    let truth = lp.solve();
    lp.judge(&res.map_err(|e| format!("panic: {e}"))??, truth)?;
    t.compared();
    t.steps(1);
    t.state(&lp.to_string());
    if matches!(truth, Verdict::Opt(_)) { t.nontrivial += 1; }
    t.outcome(name(&truth));
    Ok(())
}
const FACTORS: [i64; 4] = [0, 2, -6, 12];
fn p05(run: &mut Run) {
    run.rule = "programs whose numbers share prime factors (coefficients, bounds, costs, right-hand sides and ranges from products of 2 and 3, and coprime ones): scale then scale_back must restore the program exactly; solving the scaled program and scaling the answer back must solve the original; every vertex of the scaled program must map back to the vertex of the original; the same when scaling comes before standardising; all on those numbers, on fractions, on numbers many orders of magnitude apart and on near ties; and larger programs made by putting up to three (quick) parts of a library side by side, or two parts in turns many times over, in four arrangements and with five kinds of rows tying them together, whose truth follows from the parts".into();
    let way = Way { presolve: 0, scale: true, rows: false };
    let t = run.thorough;
    let ranges = [EQ, Rel::Range(Rat::int(4)), LE, GE];
    let bounds: [Bound; 6] = [POS, FREE, (Some(-4), Some(6)), (None, Some(9)), (Some(3), None), (Some(0), Some(0))];
    let g = Grid { n: 1, m: 1, coef: &[0, 1, -3, 8], b: &[-4, 0, 6], cost: &[0, 1, -18], bounds: &bounds, kinds: &ranges, unordered: false, max: &[false, true], fixed: 5 };
    run.explore("1x1", |d| g.draw(d, false), |l, t| embed(l, way, t));
    let g = Grid { n: 2, m: 1, coef: &FACTORS, b: &[-9, 4], cost: &[0, 6, -4], ..g };
    run.explore("2x1", |d| g.draw(d, false), |l, t| embed(l, way, t));
    let g = Grid { n: 1, m: 2, ..g };
    run.explore("1x2", |d| g.draw(d, false), |l, t| embed(l, way, t));
    let g = Grid { n: 2, m: 2, coef: &[0, 4, -6], b: &[2, 12], cost: if t { &[6, -4] } else { &[6] }, bounds: if t { &bounds } else { &[POS, (Some(-4), Some(6))] }, max: &[false], ..g };
    run.explore("2x2", |d| g.draw(d, false), |l, t| embed(l, way, t));
    let first = [
        Grid { n: 1, m: 1, coef: &[0, 1, -3, 8], b: &[-4, 0, 6], cost: &[0, 1, -18], ..g.clone() },
        Grid { n: 2, m: 1, b: &[-9, 4], cost: if t { &[0, 6, -4] } else { &[6, -4] }, coef: &FACTORS, max: &[false, true], ..g.clone() },
        Grid { n: 2, m: 2, coef: &[4, -6], b: &[2, 12], cost: if t { &[6, -4] } else { &[6] }, bounds: if t { &bounds } else { &[(None, Some(9)), (Some(-4), Some(6)), (Some(3), None)] }, ..g.clone() },
    ];
    for g in &first {
        run.explore(&format!("scaled-first-{}x{}", g.n, g.m), |d| g.draw(d, false), scaled_first);
    }
    fractions(run, "scaled-first-", &|l, t| scaled_first(l, t));
    let g = Grid { n: 2, m: 2, coef: &[1, 4, -6], b: &[2, 9], cost: &[6, -4], bounds: &[POS, (Some(-4), Some(6))], kinds: &ranges, unordered: false, max: &[false, true], fixed: 5 };
    run.explore("solve-2x2", |d| g.draw(d, false), |l, t| solve_general(l, way, t));
    let presolved = Way { presolve: 1, ..way };
    run.explore("presolve-solve-2x2", |d| g.draw(d, false), |l, t| solve_general(l, presolved, t));
    let g = Grid { n: 3, m: 2, coef: &[3, -6, 10], b: &[2, 15], cost: &[1, -4], bounds: &[(Some(-4), Some(6))], kinds: &[LE, GE], unordered: false, max: &[false], fixed: 0 };
    run.explore("solve-3x2", |d| g.draw(d, false), |l, t| solve_general(l, way, t));
    fractions(run, "vertices-", &|l, t| embed(l, way, t));
    fractions(run, "solve-", &|l, t| solve_general(l, way, t));
    fractions(run, "presolve-", &|l, t| solve_general(l, presolved, t));
    magnitudes(run, "", &|l, truth, t| [way, presolved].iter().try_for_each(|w| general_against(l, truth, *w, t)));
    larger(run, "", &[way, presolved]);
}
fn main() { mc::main(&[("P01", p01), ("P02", p02), ("P03", p03), ("P04", p04), ("P05", p05)]) }
