//! P17: the number types a user picks for the data and for the computation do not change the answer.
use mc::grid::*;
use mc::lp::*;
use mc::pipe::own_value;
use mc::rat::Rat;
use mc::{Run, Tally};
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::{basis_inverse_rows::BasisInverseRows, lower_upper::LUDecomposition, Carry};
use relp::algorithm::{OptimizationResult as O, SolveRelaxation};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder};
use relp::data::linear_algebra::vector::{DenseVector, Vector};
use relp::data::linear_program::elements::{LinearProgramType, Objective, RangedConstraintRelation, VariableType};
use relp::data::linear_program::general_form::{GeneralForm, Scalable, Variable};
use relp::data::linear_program::solution::Solution;
use relp::io::mps::parse_free;
use relp_num::{Rational32, Rational64, RationalBig};

fn answer<F: std::fmt::Display>(s: &Solution<F>, n: usize) -> Result<Outcome, String> {
    if s.solution_values.len() != n { return Err(format!("{} values for {n} variables", s.solution_values.len())); }
    for (j, (name, _)) in s.solution_values.iter().enumerate() { if *name != format!("x{j}") { return Err(format!("value {j} is named {name}")); } }
    Ok(Outcome::Opt { x: s.solution_values.iter().map(|(_, v)| Rat::of(v)).collect(), value: Some(Rat::of(&s.objective_value)) })
}

#[derive(Clone, Copy)]
struct Route { presolve: bool, scale: bool, rows: bool }

macro_rules! solver { ($build:ident, $finish:ident, $data:ty, $num:ty) => {
    fn $build(lp: &Lp) -> GeneralForm<$data> {
        // relp-num does not make a 32 bit zero from a pair.
        let num = |v: Rat| if v.is_zero() { <$data as num_traits::Zero>::zero() } else { <$data>::from((<$num>::try_from(v.n).unwrap(), <$num>::try_from(v.d).unwrap())) };
        let (n, m) = (lp.vars.len(), lp.rows.len());
        let columns = (0..n).map(|j| lp.rows.iter().enumerate().filter(|(_, r)| !r.a[j].is_zero()).map(|(i, r)| (i, num(r.a[j]))).collect()).collect();
        GeneralForm::new(
            if lp.max { Objective::Maximize } else { Objective::Minimize },
            ColumnMajor::new(columns, m, n),
            lp.rows.iter().map(|r| match r.rel {
                Rel::Eq => RangedConstraintRelation::Equal,
                Rel::Le => RangedConstraintRelation::Less,
                Rel::Ge => RangedConstraintRelation::Greater,
                Rel::Range(g) => RangedConstraintRelation::Range(num(g)),
            }).collect(),
            DenseVector::new(lp.rows.iter().map(|r| num(r.b)).collect(), m),
            lp.vars.iter().map(|v| Variable { variable_type: VariableType::Continuous, cost: num(v.cost), lower_bound: v.lo.map(num), upper_bound: v.hi.map(num), shift: num(Rat::ZERO), flipped: false }).collect(),
            (0..n).map(|j| format!("x{j}")).collect(),
            num(lp.fixed),
        )
    }
    /// Whether presolve settled the program, and the outcome.
    fn $finish(mut g: GeneralForm<$data>, n: usize, way: Route) -> Result<(bool, Outcome), String> {
        if way.presolve {
            match g.presolve() {
                Ok(_) => {}
                Err(LinearProgramType::Infeasible) => return Ok((true, Outcome::Infeasible)),
                Err(LinearProgramType::Unbounded) => return Ok((true, Outcome::Unbounded)),
                Err(LinearProgramType::FiniteOptimum(s)) => return Ok((true, answer(&s, n)?)),
            }
        }
        let counts = g.standardize();
        let scaling = if way.scale { Some(g.scale()) } else { None };
        let d = g.derive_matrix_data(counts);
        let r = if way.rows { d.solve_relaxation::<Carry<RationalBig, BasisInverseRows<_>>>() } else { d.solve_relaxation::<Carry<RationalBig, LUDecomposition<_>>>() };
        let mut v = match r { O::Infeasible => return Ok((false, Outcome::Infeasible)), O::Unbounded => return Ok((false, Outcome::Unbounded)), O::FiniteOptimum(v) => d.reconstruct_solution(v) };
        drop(d);
        if let Some(s) = scaling { s.scale_back(&mut v); g.scale_back(s); }
        Ok((false, answer(&g.compute_full_solution_with_reduced_solution(v), n)?))
    }
} }
solver!(small, finish_small, Rational32, i32);
solver!(medium, finish_medium, Rational64, i64);
solver!(big, finish_big, RationalBig, i64);

/// The number as a decimal text.
fn decimal(v: Rat) -> Option<String> {
    let mut places = 0;
    let mut n = v.n;
    while n % v.d != 0 {
        if places == 9 { return None; }
        places += 1;
        n *= 10;
    }
    n /= v.d;
    if places == 0 { return Some(n.to_string()); }
    let p = 10i128.pow(places);
    Some(format!("{}{}.{:0width$}", if n < 0 { "-" } else { "" }, n.abs() / p, n.abs() % p, width = places as usize))
}
/// The program in the free MPS format; a single constant is not part of it.
fn text(lp: &Lp) -> String {
    let n = lp.vars.len();
    let mut s = String::from("NAME P\nROWS\n N C\n");
    for (i, r) in lp.rows.iter().enumerate() { s += &format!(" {} R{i}\n", match r.rel { Rel::Eq => "E", Rel::Le | Rel::Range(_) => "L", Rel::Ge => "G" }); }
    s += "COLUMNS\n";
    for j in 0..n {
        s += &format!(" x{j} C {}\n", decimal(lp.vars[j].cost).unwrap());
        for (i, r) in lp.rows.iter().enumerate() { if !r.a[j].is_zero() { s += &format!(" x{j} R{i} {}\n", decimal(r.a[j]).unwrap()); } }
    }
    s += "RHS\n";
    for (i, r) in lp.rows.iter().enumerate() { s += &format!(" B R{i} {}\n", decimal(r.b).unwrap()); }
    s += "RANGES\n";
    for (i, r) in lp.rows.iter().enumerate() { if let Rel::Range(g) = r.rel { s += &format!(" B R{i} {}\n", decimal(g).unwrap()); } }
    s += "BOUNDS\n";
    for (j, v) in lp.vars.iter().enumerate() {
        match (v.lo, v.hi) {
            (None, None) => s += &format!(" FR D x{j}\n"),
            (l, h) => {
                match l { Some(l) => s += &format!(" LO D x{j} {}\n", decimal(l).unwrap()), None => s += &format!(" MI D x{j}\n") }
                if let Some(h) = h { s += &format!(" UP D x{j} {}\n", decimal(h).unwrap()); }
            }
        }
    }
    s + "ENDATA\n"
}

const WAYS: [Route; 4] = [
    Route { presolve: false, scale: false, rows: false }, Route { presolve: true, scale: false, rows: true },
    Route { presolve: false, scale: true, rows: true }, Route { presolve: true, scale: true, rows: false },
];
fn check(lp: &Lp, read: bool, t: &mut Tally) -> Result<(), String> { against(lp, lp.solve(), read, t) }
fn against(lp: &Lp, truth: Verdict, read: bool, t: &mut Tally) -> Result<(), String> { within(lp, truth, read, true, &WAYS, t) }
fn within(lp: &Lp, truth: Verdict, read: bool, fits: bool, ways: &[Route], t: &mut Tally) -> Result<(), String> {
    let n = lp.vars.len();
    let mut judge = |name: &str, r: Result<Result<(bool, Outcome), String>, String>| -> Result<(), String> {
        let (done, out) = r.map_err(|e| format!("{name}: panic: {e}"))??;
        lp.judge(&own_value(lp, done, out), truth).map_err(|e| format!("{name}: {e}"))?;
        t.compared();
        t.steps(1);
        t.outcome(if done { "settled by presolve" } else { "solved by the simplex method" });
        Ok(())
    };
    for &w in ways {
        let how = format!("presolve {}, scale {}, {}", w.presolve, w.scale, if w.rows { "rows" } else { "lu" });
        if fits { judge(&format!("Rational32, {how}"), mc::guarded(|| finish_small(small(lp), n, w)))?; }
        judge(&format!("Rational64, {how}"), mc::guarded(|| finish_medium(medium(lp), n, w)))?;
        judge(&format!("RationalBig, {how}"), mc::guarded(|| finish_big(big(lp), n, w)))?;
        // No bound kind says "at most a positive number" and nothing else.
        if !read || lp.vars.iter().any(|v| v.lo.is_none() && v.hi.is_some_and(|h| h > Rat::ZERO)) { continue; }
        let text = text(lp);
        let told = |e: &dyn std::fmt::Debug| format!("not read: {e:?}");
        judge(&format!("read as Rational64, {how}"), mc::guarded(|| {
            let g = parse_free::<Rational64>(&text).map_err(|e| told(&e))?;
            let g: GeneralForm<Rational64> = g.try_into().map_err(|e| told(&e))?;
            if g != medium(lp) { return Err("the file reads as another program in Rational64".into()); }
            finish_medium(g, n, w)
        }))?;
        judge(&format!("read as RationalBig, {how}"), mc::guarded(|| {
            let g = parse_free::<Rational64>(&text).map_err(|e| told(&e))?;
            let g: GeneralForm<RationalBig> = g.try_into().map_err(|e| told(&e))?;
            if g != big(lp) { return Err("the file reads as another program in RationalBig".into()); }
            finish_big(g, n, w)
        }))?;
    }
    t.state(&lp.to_string());
    if truth != Verdict::Infeasible { t.nontrivial += 1; }
    Ok(())
}

struct Wide(Lp, bool);
impl std::fmt::Display for Wide {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}, in {} bits and more", self.0, if self.1 { 32 } else { 64 }) }
}
fn p17(run: &mut Run) {
    run.rule = "every general-form program on the listed grids, with its data in Rational32, Rational64 and RationalBig, solved in RationalBig with both basis inverses, with and without presolve and scaling, and (where the numbers are whole) read from a file as Rational64 and converted to either type; grids: all row kinds and bound shapes at one and two rows, and fractional coefficients, right-hand sides, costs and bounds; decimals read from files; single rows with numbers up to the largest of 32 and (nearly) 64 bits; and pairs of library programs side by side".into();
    let t = run.thorough;
    let g = Grid { n: 1, m: 1, coef: &[0, 1, -1, 2], b: &[-1, 0, 1, 2], cost: &[0, 1, -1], bounds: &MIXED, kinds: &ALL, unordered: false, max: &[false], fixed: 0 };
    run.explore("1x1", |d| g.draw(d, false), |l, t| check(l, true, t));
    let h = Grid { n: 2, coef: &[0, 1, -2], b: if t { &[-1, 0, 3] } else { &[0, 3] }, cost: &[1, -1], ..g.clone() };
    run.explore("2x1", |d| h.draw(d, false), |l, t| check(l, true, t));
    let h = Grid { m: 2, coef: &[0, 1, -2], b: if t { &[-1, 0, 3] } else { &[0, 3] }, cost: &[1, -1], ..g.clone() };
    run.explore("1x2", |d| h.draw(d, false), |l, t| check(l, true, t));
    let h = Grid { n: 2, m: 2, coef: &[1, -2], b: &[0, 3], cost: if t { &[1, -1] } else { &[-1] }, bounds: if t { &[POS, FREE, (Some(-1), Some(2))] } else { &[POS, (Some(-1), Some(2))] }, max: &[false, true], fixed: 3, ..g.clone() };
    run.explore("2x2", |d| h.draw(d, false), |l, t| check(l, false, t));
    // Fractions, whose denominators have to be carried through every conversion.
    run.explore("fractions", |d| {
        let q = |d: &mut mc::Dec, v: &[(i128, i128)]| { let (n, m) = d.of(v); Rat::new(n, m) };
        let f = [(1, 2), (-2, 3), (5, 1)];
        let rows = (0..2).map(|i| {
            let a = vec![q(d, &f), if i == 0 { Rat::new(3, 4) } else { q(d, &[(0, 1), (-1, 6)]) }];
            let rel = d.of(&[EQ, LE, GE, Rel::Range(Rat::new(1, 7))]);
            Row { a, rel, b: q(d, &[(0, 1), (7, 10), (-1, 3)]) }
        }).collect();
        let vars = (0..2).map(|j| {
            let cost = if j == 0 { q(d, &[(1, 9), (-4, 5)]) } else { q(d, &[(2, 3)]) };
            let (lo, hi) = if j == 0 { d.of(&[(Some(Rat::ZERO), None), (Some(Rat::new(-1, 2)), Some(Rat::new(4, 3)))]) } else { d.of(&[(Some(Rat::ZERO), None), (None, Some(Rat::new(5, 2)))]) };
            Var { cost, lo, hi }
        }).collect();
        Some(Lp { max: t && d.bool(), rows, vars, fixed: Rat::new(1, 11) })
    }, |l, t| check(l, false, t));
    // Decimals, which a file holds as texts.
    run.explore("decimals", |d| {
        let q = |d: &mut mc::Dec, v: &[(i128, i128)]| { let (n, m) = d.of(v); Rat::new(n, m) };
        let rows = (0..2).map(|i| {
            let a = if i == 0 { vec![q(d, &[(1, 8), (-7, 5)]), Rat::new(1, 100)] } else { vec![q(d, &[(0, 1), (1, 1000)]), q(d, &[(1, 1), (-3, 4)])] };
            Row { a, rel: d.of(&[EQ, LE, GE, Rel::Range(Rat::new(3, 20))]), b: q(d, &[(0, 1), (1, 16), (-21, 10)]) }
        }).collect();
        let vars = (0..2).map(|j| {
            let cost = if j == 0 { q(d, &[(1, 50), (-3, 2)]) } else { Rat::new(4, 5) };
            let (lo, hi) = if j == 0 { d.of(&[(Some(Rat::ZERO), None), (Some(Rat::new(-5, 4)), Some(Rat::new(5, 2)))]) } else { d.of(&[(Some(Rat::ZERO), None), (None, None), (Some(Rat::new(1, 4)), None)]) };
            Var { cost, lo, hi }
        }).collect();
        Some(Lp { max: false, rows, vars, fixed: Rat::ZERO })
    }, |l, t| within(l, l.solve(), true, false, &WAYS, t));
    // Numbers up to the largest that the types hold.
    run.explore("wide", |d| {
        // What the reference model adds up fits in 64 bits as well.
        let (limit, fits) = d.of(&[(i32::MAX as i64, true), (i64::MAX / 4, false)]);
        let most = d.of(&if fits { vec![32768, 65537, 16777217, limit - 1, limit] } else { vec![(1 << 32) + 1, (1 << 53) + 1, limit - 1, limit] });
        let some = [0, 1, 3, -3, most, -most];
        let sign = d.of(&[1, -1]);
        let b = d.of(&some);
        let rel = d.of(&[EQ, LE, GE]);
        let (lo, hi) = d.of(&[(Some(0), None), (None, None), (Some(0), Some(most)), (Some(most), None), (Some(-most), None), (Some(-most), Some(0)), (Some(3), Some(most)), (None, Some(0))]);
        let one = |v: Option<i64>| v.map(Rat::int);
        let x = Var { cost: Rat::int(if lo == Some(0) && hi.is_none() && (b == 0 || b == 1) { d.of(&[1, -1, most, -most]) } else { d.of(&[1, -1]) }), lo: one(lo), hi: one(hi) };
        let second = d.of(&[None, Some(None), Some(Some(1))]);
        let mut vars = vec![x];
        let mut a = vec![Rat::int(sign)];
        if let Some(h) = second { vars.push(Var { cost: Rat::int(1), lo: Some(Rat::ZERO), hi: one(h) }); a.push(Rat::int(1)); }
        // What shifting a variable and adding up a row lead to has to fit as well.
        let sum: i128 = [Some(b), lo, hi].iter().flatten().map(|v| (*v as i128).abs()).sum::<i128>() + 2;
        if sum > limit as i128 && [Some(b), lo, hi].iter().flatten().filter(|v| **v != 0).count() > 1 { return None; }
        Some(Wide(Lp { max: false, rows: vec![Row { a, rel, b: Rat::int(b) }], vars, fixed: Rat::ZERO }, fits))
    }, |Wide(l, small), t| within(l, l.solve(), true, *small, &WAYS, t));
    // Larger programs, made of small ones.
    let all = general_parts();
    let truths: Vec<Verdict> = all.iter().map(Lp::solve).collect();
    run.explore("blocks", |d| draw_blocks(d, &all, &truths, if t { 3 } else { 2 }, false), |b, t| against(&b.lp, b.truth, false, t));
}
fn main() { mc::main(&[("P17", p17)]) }
