//! Bridges between the reference model and relp's own types, and the pipelines a user runs.
use crate::lp::{basic_feasible, Lp, Outcome, Rel, Row, Var};
use crate::rat::Rat;
use relp::algorithm::two_phase::matrix_provider::column::Column as _;
use relp::algorithm::two_phase::matrix_provider::matrix_data::MatrixData;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::OptimizationResult;
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, SparseMatrix};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::{LinearProgramType, Objective, RangedConstraintRelation, VariableType};
use relp::data::linear_program::general_form::{GeneralForm, Variable};
use relp::data::linear_program::solution::Solution;
use relp_num::RationalBig;

pub type RB = RationalBig;

pub fn rb(v: Rat) -> RB { RB::from((i64::try_from(v.n).unwrap(), i64::try_from(v.d).unwrap())) }
pub fn rbi(v: i64) -> RB { RB::from((v, 1i64)) }

pub fn dense(v: &SparseVector<RB, RB>) -> Vec<Rat> {
    let mut x = vec![Rat::ZERO; v.len()];
    for (i, a) in v.iter() { x[i] = Rat::of(a); }
    x
}

pub fn columns(lp: &Lp) -> Vec<Vec<(usize, RB)>> {
    (0..lp.vars.len()).map(|j| lp.rows.iter().enumerate()
        .filter(|(_, r)| !r.a[j].is_zero()).map(|(i, r)| (i, rb(r.a[j]))).collect()).collect()
}
pub fn variable(v: &Var) -> Variable<RB> {
    Variable {
        variable_type: VariableType::Continuous, cost: rb(v.cost),
        lower_bound: v.lo.map(rb), upper_bound: v.hi.map(rb), shift: rbi(0), flipped: false,
    }
}

/// A program already in the shape `MatrixData` documents: minimisation, rows sorted by kind, right
/// hand sides non-negative, every variable bounded below by zero.
pub struct Standard {
    pub constraints: SparseMatrix<RB, RB, ColumnMajor>,
    pub b: DenseVector<RB>,
    pub ranges: Vec<RB>,
    pub counts: [usize; 4],
    pub variables: Vec<Variable<RB>>,
}
impl Standard {
    pub fn new(lp: &Lp) -> Standard {
        let kind = |r: &Row| match r.rel { Rel::Eq => 0, Rel::Range(_) => 1, Rel::Le => 2, Rel::Ge => 3 };
        assert!(!lp.max && lp.rows.is_sorted_by_key(kind));
        let mut counts = [0; 4];
        for r in &lp.rows { counts[kind(r)] += 1; }
        let m = lp.rows.len();
        Standard {
            constraints: ColumnMajor::new(columns(lp), m, lp.vars.len()),
            b: DenseVector::new(lp.rows.iter().map(|r| rb(r.b)).collect(), m),
            ranges: lp.rows.iter().filter_map(|r| if let Rel::Range(g) = r.rel { Some(rb(g)) } else { None }).collect(),
            counts,
            variables: lp.vars.iter().map(variable).collect(),
        }
    }
    pub fn data(&self) -> MatrixData<'_, RB> {
        let [e, r, l, g] = self.counts;
        MatrixData::new(&self.constraints, &self.b, self.ranges.iter().collect(), e, r, l, g, &self.variables)
    }
}

pub fn general_form(lp: &Lp) -> GeneralForm<RB> {
    let m = lp.rows.len();
    GeneralForm::new(
        if lp.max { Objective::Maximize } else { Objective::Minimize },
        ColumnMajor::new(columns(lp), m, lp.vars.len()),
        lp.rows.iter().map(|r| match r.rel {
            Rel::Eq => RangedConstraintRelation::Equal,
            Rel::Le => RangedConstraintRelation::Less,
            Rel::Ge => RangedConstraintRelation::Greater,
            Rel::Range(g) => RangedConstraintRelation::Range(rb(g)),
        }).collect(),
        DenseVector::new(lp.rows.iter().map(|r| rb(r.b)).collect(), m),
        lp.vars.iter().map(variable).collect(),
        (0..lp.vars.len()).map(|j| format!("x{j}")).collect(),
        rb(lp.fixed),
    )
}

/// Read back what a provider says about the whole tableau: an equality-form program.
pub fn provider_lp<MP>(p: &MP, cost: impl Fn(usize) -> Rat) -> Lp
where
    MP: MatrixProvider,
    <MP::Column as relp::algorithm::two_phase::matrix_provider::column::Column>::F: std::fmt::Display,
    MP::Rhs: std::fmt::Display,
{
    let (m, n) = (p.nr_rows(), p.nr_columns());
    let mut rows: Vec<Row> = p.right_hand_side().iter().map(|b| Row { a: vec![Rat::ZERO; n], rel: Rel::Eq, b: Rat::of(b) }).collect();
    assert_eq!(rows.len(), m, "right hand side has the wrong length");
    for j in 0..n {
        let c = p.column(j);
        for (i, v) in c.iter() { rows[i].a[j] = Rat::of(v); }
    }
    Lp { max: false, fixed: Rat::ZERO, rows, vars: (0..n).map(|j| Var { cost: cost(j), lo: Some(Rat::ZERO), hi: None }).collect() }
}

pub fn solution(s: &Solution<RB>, n: usize) -> Result<Outcome, String> {
    let mut x = Vec::with_capacity(n);
    if s.solution_values.len() != n { return Err(format!("solution has {} values for {n} variables", s.solution_values.len())); }
    for (j, (name, v)) in s.solution_values.iter().enumerate() {
        if *name != format!("x{j}") { return Err(format!("value {j} is named {name}")); }
        x.push(Rat::of(v));
    }
    Ok(Outcome::Opt { x, value: Some(Rat::of(&s.objective_value)) })
}
pub fn presolved(r: LinearProgramType<RB>, n: usize) -> Result<Outcome, String> {
    match r {
        LinearProgramType::Infeasible => Ok(Outcome::Infeasible),
        LinearProgramType::Unbounded => Ok(Outcome::Unbounded),
        LinearProgramType::FiniteOptimum(s) => solution(&s, n),
    }
}
pub fn reduced(r: &OptimizationResult<RB>) -> Outcome {
    match r {
        OptimizationResult::Infeasible => Outcome::Infeasible,
        OptimizationResult::Unbounded => Outcome::Unbounded,
        OptimizationResult::FiniteOptimum(v) => Outcome::Opt { x: dense(v), value: None },
    }
}

use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::{basis_inverse_rows::BasisInverseRows, lower_upper::LUDecomposition, Carry};
pub type Rows = Carry<RB, BasisInverseRows<RB>>;
pub type Lu = Carry<RB, LUDecomposition<RB>>;
pub type SpyRows = crate::spy::Spy<Rows>;
pub type SpyLu = crate::spy::Spy<Lu>;

/// How a user solves a general form program. The first value tells whether presolve settled it.
#[derive(Clone, Copy)]
pub struct Way { pub presolve: u8, pub scale: bool, pub rows: bool }

pub fn pipeline(lp: &Lp, way: Way) -> Result<(bool, Outcome), String> {
    use relp::algorithm::OptimizationResult as O;
    use relp::algorithm::SolveRelaxation;
    use relp::data::linear_program::general_form::Scalable;
    let n = lp.vars.len();
    let mut g = general_form(lp);
    for _ in 0..way.presolve {
        if let Err(done) = g.presolve() { return Ok((true, presolved(done, n)?)); }
    }
    let counts = g.standardize();
    let scaling = if way.scale { Some(g.scale()) } else { None };
    let result = {
        let d = g.derive_matrix_data(counts);
        let r = if way.rows { d.solve_relaxation::<SpyRows>() } else { d.solve_relaxation::<SpyLu>() };
        match r { O::FiniteOptimum(v) => O::FiniteOptimum(d.reconstruct_solution(v)), o => o }
    };
    match result {
        O::FiniteOptimum(mut v) => {
            if let Some(s) = scaling { s.scale_back(&mut v); g.scale_back(s); }
            Ok((false, solution(&g.compute_full_solution_with_reduced_solution(v), n)?))
        }
        o => Ok((false, reduced(&o))),
    }
}
/// The objective a maximisation reports: once standardised, relp reports the value of the equivalent
/// minimisation (its own test of a MAX program expects that); solved in presolve, the value itself.
pub fn own_value(lp: &Lp, presolved: bool, out: Outcome) -> Outcome {
    match out {
        Outcome::Opt { x, value: Some(v) } if lp.max && !presolved => Outcome::Opt { x, value: Some(-v) },
        o => o,
    }
}

/// What the program handed to the simplex method says, and how each of its vertices maps back.
pub struct Embedding {
    pub reduced: Lp,
    /// Mapped point and reported objective per vertex of `reduced`.
    pub vertices: Vec<(Vec<Rat>, Outcome)>,
}
/// `Ok(Err(outcome))` when presolve settled the program.
pub fn embedding(lp: &Lp, way: Way) -> Result<Result<Embedding, Outcome>, String> {
    use relp::data::linear_program::general_form::Scalable;
    let n = lp.vars.len();
    let mut g = general_form(lp);
    for _ in 0..way.presolve {
        if let Err(done) = g.presolve() { return Ok(Err(presolved(done, n)?)); }
    }
    let counts = g.standardize();
    let before = g.clone();
    let scaling = if way.scale { Some(g.scale()) } else { None };
    let mut vertices = vec![];
    let reduced;
    let mut mapped = vec![];
    {
        let d = g.derive_matrix_data(counts);
        let c = crate::spy::costs(&d);
        reduced = provider_lp(&d, |j| c[j]);
        for x in basic_feasible(&reduced.rows, reduced.vars.len()) {
            let v = SparseVector::new(x.iter().enumerate().filter(|(_, v)| !v.is_zero()).map(|(j, v)| (j, rb(*v))).collect(), x.len());
            let mut v = d.reconstruct_solution(v);
            if let Some(s) = &scaling { s.scale_back(&mut v); }
            mapped.push((x, v));
        }
    }
    if let Some(s) = scaling {
        g.scale_back(s);
        if g != before { return Err("scaling back does not restore the program".into()); }
    }
    for (x, v) in mapped {
        vertices.push((x, solution(&g.clone().compute_full_solution_with_reduced_solution(v), n)?));
    }
    Ok(Ok(Embedding { reduced, vertices }))
}

/// The identity column of a provider's own column type.
pub fn identity_column<MP: MatrixProvider>(i: usize, len: usize, _: &MP) -> MP::Column
where MP::Column: relp::algorithm::two_phase::matrix_provider::column::identity::Identity {
    use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
    MP::Column::identity(i, len)
}
