//! A monitor around a real `InverseMaintainer`. It delegates every call, counts the basis changes
//! the real algorithm makes, notices a basis that keeps coming back (cycling) and, when asked to,
//! compares every quantity the maintainer reports with the definition of that quantity, computed
//! from the original columns alone.
use crate::pipe::RB;
use crate::rat::Rat;
use relp::algorithm::two_phase::matrix_provider::column::{Column, ColumnNumber};
use relp::algorithm::two_phase::matrix_provider::filter::Filtered;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::tableau::inverse_maintenance::{ops, ColumnComputationInfo, InverseMaintainer};
use relp::algorithm::two_phase::tableau::kind::Kind;
use relp::algorithm::two_phase::tableau::BasisChangeComputationInfo;
use relp::data::linear_algebra::traits::Element;
use relp::data::linear_algebra::vector::{DenseVector, SparseVector};
use relp::data::linear_algebra::SparseTuple;
use num_traits::One as _;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;

#[derive(Clone, Debug, Default)]
pub struct Log {
    /// Compare everything with its definition.
    pub check: bool,
    /// Basis changes: (pivot row, entering column, leaving column).
    pub pivots: Vec<(usize, usize, usize)>,
    /// What the maintainer was created as, in order.
    pub made: Vec<String>,
    pub compared: usize,
}
thread_local! { static LOG: RefCell<Log> = RefCell::new(Log::default()); }

/// Run `f` with a fresh log.
pub fn logged<T>(check: bool, f: impl FnOnce() -> T) -> (T, Log) {
    LOG.with(|l| *l.borrow_mut() = Log { check, ..Log::default() });
    let r = f();
    (r, LOG.with(|l| l.replace(Log::default())))
}
/// The pivots so far, for when `f` did not return.
pub fn steps() -> usize { LOG.with(|l| l.borrow().pivots.len()) }

const REVISITS: u32 = 40;

pub struct Spy<IM> {
    pub inner: IM,
    rhs: Vec<Rat>,
    cost: Cost,
    seen: HashMap<Vec<usize>, u32>,
}
#[derive(Clone)]
enum Cost { Artificial(usize), Real(Vec<Rat>) }
impl Cost {
    fn of(&self, j: usize) -> Rat {
        match self { Cost::Artificial(n) => if j < *n { Rat::ONE } else { Rat::ZERO }, Cost::Real(c) => c[j] }
    }
}
fn made(s: String) { LOG.with(|l| l.borrow_mut().made.push(s)); }
fn rats<T: fmt::Display + Element>(v: &DenseVector<T>) -> Vec<Rat> { v.iter().map(|x| Rat::of(x)).collect() }
pub fn sparse(v: &SparseVector<RB, RB>, m: usize) -> Vec<Rat> {
    let mut x = vec![Rat::ZERO; m];
    for (i, a) in v.iter() { x[i] = Rat::of(a); }
    x
}
fn col<C: Column>(c: &C, m: usize) -> Vec<Rat> {
    let mut x = vec![Rat::ZERO; m];
    for (i, a) in c.iter() { x[i] = Rat::of(a); }
    x
}
fn dot(a: &[Rat], b: &[Rat]) -> Rat { a.iter().zip(b).fold(Rat::ZERO, |s, (x, y)| s + *x * *y) }

impl<IM: InverseMaintainer<F = RB>> Spy<IM> {
    fn basis(&self) -> Vec<usize> { (0..self.rhs.len()).map(|i| self.inner.basis_column_index_for_row(i)).collect() }
    fn verify<K: Kind>(&self, kind: &K) where RB: ops::Column<<K::Column as Column>::F> {
        let m = self.rhs.len();
        let basis = self.basis();
        let b = rats(&self.inner.b());
        assert!(b.len() == m, "spy: b has {} values for {m} rows", b.len());
        let mut sum = vec![Rat::ZERO; m];
        let mut obj = Rat::ZERO;
        for (i, &j) in basis.iter().enumerate() {
            let original = kind.original_column(j);
            let c = col(&original, m);
            for k in 0..m { sum[k] = sum[k] + b[i] * c[k]; }
            obj = obj + b[i] * self.cost.of(j);
            let d = Rat::of(&self.inner.cost_difference(&original)) + self.cost.of(j);
            assert!(d.is_zero(), "spy: relative cost of basic column {j} is {d}");
            let g = sparse(self.inner.generate_column(original).column(), m);
            assert!((0..m).all(|k| g[k] == if k == i { Rat::ONE } else { Rat::ZERO }), "spy: basic column {j} of row {i} is generated as {g:?}");
            assert!(Rat::of(self.inner.get_constraint_value(i)) == b[i], "spy: constraint value {i} differs from b");
            assert!(!b[i].is_neg(), "spy: basic variable {j} became negative: {}", b[i]);
        }
        assert!(sum == self.rhs, "spy: basis times b is {sum:?}, right-hand side is {:?}", self.rhs);
        let o = Rat::of(&self.inner.get_objective_function_value());
        assert!(o == obj, "spy: objective value is {o}, basis has cost {obj}");
    }
    fn wrap(inner: IM, rhs: Vec<Rat>, cost: Cost) -> Self { Spy { inner, rhs, cost, seen: HashMap::new() } }
}
impl<IM: InverseMaintainer> fmt::Display for Spy<IM> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) }
}
impl<IM: InverseMaintainer<F = RB>> InverseMaintainer for Spy<IM> {
    type F = RB;
    type ColumnComputationInfo = IM::ColumnComputationInfo;

    fn create_for_fully_artificial<Rhs: Element>(rhs: DenseVector<Rhs>) -> Self where RB: ops::Rhs<Rhs> {
        let r: Vec<Rat> = rhs.iter().map(|v| Rat::of(&(zero() + v))).collect();
        made("fully artificial".into());
        let n = r.len();
        Spy::wrap(IM::create_for_fully_artificial(rhs), r, Cost::Artificial(n))
    }
    fn create_for_partially_artificial<G: Element>(artificial: &[usize], basis: &[(usize, usize)], b: DenseVector<G>, basis_indices: Vec<usize>) -> Self where RB: ops::Rhs<G> {
        let r: Vec<Rat> = b.iter().map(|v| Rat::of(&(zero() + v))).collect();
        made(format!("partially artificial, rows {artificial:?}"));
        Spy::wrap(IM::create_for_partially_artificial(artificial, basis, b, basis_indices), r, Cost::Artificial(artificial.len()))
    }
    fn from_basis<'a, MP: MatrixProvider>(basis: &[usize], provider: &'a MP) -> Self
    where RB: ops::Column<<MP::Column as Column>::F> + ops::Rhs<MP::Rhs> + ops::Cost<MP::Cost<'a>> + ops::Column<MP::Rhs>, MP::Rhs: 'static {
        made("from basis".into());
        let (r, c) = (rhs_of(provider), costs(provider));
        Spy::wrap(IM::from_basis(basis, provider), r, Cost::Real(c))
    }
    fn from_basis_pivots<'a, MP: MatrixProvider>(basis: &[(usize, usize)], provider: &'a MP) -> Self
    where RB: ops::Column<<MP::Column as Column>::F> + ops::Rhs<MP::Rhs> + ops::Cost<MP::Cost<'a>> + ops::Column<MP::Rhs>, MP::Rhs: 'static + ColumnNumber {
        made("from basis pivots".into());
        let (r, c) = (rhs_of(provider), costs(provider));
        Spy::wrap(IM::from_basis_pivots(basis, provider), r, Cost::Real(c))
    }
    fn from_artificial<'p, MP: MatrixProvider>(artificial: Self, provider: &'p MP, nr_artificial: usize) -> Self
    where RB: ops::FieldHR + ops::Column<<MP::Column as Column>::F> + ops::Cost<MP::Cost<'p>> {
        made("from artificial".into());
        let c = costs(provider);
        Spy::wrap(IM::from_artificial(artificial.inner, provider, nr_artificial), artificial.rhs, Cost::Real(c))
    }
    fn from_artificial_remove_rows<'a, MP: Filtered>(artificial: Self, rows_removed: &'a MP, nr_artificial: usize) -> Self
    where RB: ops::Column<<<MP as MatrixProvider>::Column as Column>::F> + ops::Cost<MP::Cost<'a>> {
        let gone = rows_removed.filtered_rows();
        made(format!("from artificial, rows {gone:?} removed"));
        let c = costs(rows_removed);
        let rhs = artificial.rhs.iter().enumerate().filter(|(i, _)| !gone.contains(i)).map(|(_, v)| *v).collect();
        Spy::wrap(IM::from_artificial_remove_rows(artificial.inner, rows_removed, nr_artificial), rhs, Cost::Real(c))
    }
    fn change_basis<K: Kind>(&mut self, pivot_row_index: usize, pivot_column_index: usize, column: Self::ColumnComputationInfo, cost: RB, kind: &K) -> BasisChangeComputationInfo<RB>
    where RB: ops::Column<<<K as Kind>::Column as Column>::F> {
        let check = LOG.with(|l| l.borrow().check);
        let m = self.rhs.len();
        let before = self.basis();
        let leaving = before[pivot_row_index];
        let mut was = None;
        if check {
            if self.seen.is_empty() { self.verify(kind); }
            let given = sparse(column.column(), m);
            let entering = col(&kind.original_column(pivot_column_index), m);
            let old: Vec<Vec<Rat>> = before.iter().map(|&j| col(&kind.original_column(j), m)).collect();
            let made: Vec<Rat> = (0..m).map(|k| (0..m).fold(Rat::ZERO, |s, i| s + given[i] * old[i][k])).collect();
            assert!(made == entering, "spy: column {pivot_column_index} was generated as {given:?}, but the basis maps that to {made:?} instead of {entering:?}");
            let d = before.iter().enumerate().fold(self.cost.of(pivot_column_index), |s, (i, &j)| s - self.cost.of(j) * given[i]);
            assert!(d == Rat::of(&cost), "spy: entering column {pivot_column_index} has relative cost {d}, algorithm believes {cost}");
            assert!(!given[pivot_row_index].is_zero(), "spy: pivot on a zero element");
            was = Some((given, old));
        }
        LOG.with(|l| l.borrow_mut().pivots.push((pivot_row_index, pivot_column_index, leaving)));
        let n = self.seen.entry(before).or_insert(0);
        *n += 1;
        assert!(*n <= REVISITS, "spy: does not terminate: visited the same basis {n} times");
        let info = self.inner.change_basis(pivot_row_index, pivot_column_index, column, cost, kind);
        if let Some((given, old)) = was {
            assert!(info.pivot_row_index == pivot_row_index && info.pivot_column_index == pivot_column_index && info.leaving_column_index == leaving,
                "spy: basis change is reported as row {} column {} leaving {}", info.pivot_row_index, info.pivot_column_index, info.leaving_column_index);
            assert!(self.inner.basis_column_index_for_row(pivot_row_index) == pivot_column_index, "spy: entering column is not in the basis");
            assert!(sparse(&info.column_before_change, m) == given, "spy: column before change is wrong");
            let work = sparse(&info.work_vector, m);
            assert!((0..m).all(|i| dot(&work, &old[i]) == given[i]), "spy: work vector {work:?} is not the column times the basis inverse");
            self.verify(kind);
            let row = sparse(&info.basis_inverse_row, m);
            let now = self.basis();
            assert!((0..m).all(|i| dot(&row, &col(&kind.original_column(now[i]), m)) == if i == pivot_row_index { Rat::ONE } else { Rat::ZERO }),
                "spy: basis inverse row {row:?} is not row {pivot_row_index} of the inverse");
            LOG.with(|l| l.borrow_mut().compared += 1);
        }
        info
    }
    fn cost_difference<C: Column>(&self, original_column: &C) -> RB where RB: ops::Column<C::F> { self.inner.cost_difference(original_column) }
    fn generate_column<C: Column>(&self, original_column: C) -> Self::ColumnComputationInfo where RB: ops::Column<C::F> { self.inner.generate_column(original_column) }
    fn generate_element<C: Column>(&self, i: usize, original_column: C) -> Option<RB> where RB: ops::Column<C::F> { self.inner.generate_element(i, original_column) }
    fn current_bfs(&self) -> Vec<SparseTuple<RB>> { self.inner.current_bfs() }
    fn basis_column_index_for_row(&self, row: usize) -> usize { self.inner.basis_column_index_for_row(row) }
    fn b(&self) -> DenseVector<RB> { self.inner.b() }
    fn get_objective_function_value(&self) -> RB { self.inner.get_objective_function_value() }
    fn get_constraint_value(&self, i: usize) -> &RB { self.inner.get_constraint_value(i) }
}
fn zero() -> RB { <RB as num_traits::Zero>::zero() }
pub fn costs<'a, MP: MatrixProvider>(p: &'a MP) -> Vec<Rat> where RB: ops::Cost<MP::Cost<'a>> {
    (0..p.nr_columns()).map(|j| { let v: RB = RB::one() * p.cost_value(j); Rat::of(&v) }).collect()
}
pub fn rhs_of<MP: MatrixProvider>(p: &MP) -> Vec<Rat> where RB: ops::Rhs<MP::Rhs> {
    p.right_hand_side().iter().map(|v| Rat::of(&(zero() + v))).collect()
}
