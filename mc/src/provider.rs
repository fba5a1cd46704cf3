//! Matrix providers of our own, to drive the solver through the extension points that `MatrixData`
//! does not reach: no initial basis, any partial initial basis, a full initial basis.
use crate::lp::{Lp, Rel};
use crate::pipe::{rb, RB};
use crate::rat::Rat;
use num_traits::One as _;
use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
use relp::algorithm::two_phase::matrix_provider::column::{Column, SparseSliceIterator};
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::IntoFilteredColumn;
use relp::algorithm::two_phase::matrix_provider::variable::FeasibilityLogic;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::{FullInitialBasis, PartialInitialBasis};
use relp::data::linear_algebra::traits::{SparseComparator, SparseElement};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::BoundDirection;

#[derive(Debug, Clone, PartialEq)]
pub struct Col(pub Vec<(usize, RB)>);
impl IntoIterator for Col {
    type Item = (usize, RB);
    type IntoIter = std::vec::IntoIter<(usize, RB)>;
    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
}
impl Column for Col {
    type F = RB;
    type Iter<'a> = SparseSliceIterator<'a, RB>;
    fn iter(&self) -> Self::Iter<'_> { SparseSliceIterator::new(&self.0) }
    fn index_to_string(&self, i: usize) -> String { self.0.iter().find(|v| v.0 == i).map_or("0".into(), |v| v.1.to_string()) }
}
impl Identity for Col {
    fn identity(i: usize, len: usize) -> Self { assert!(i < len); Col(vec![(i, RB::one())]) }
}
impl IntoFilteredColumn for Col {
    type Filtered = Col;
    fn into_filtered(self, gone: &[usize]) -> Col {
        Col(self.0.into_iter().filter(|(i, _)| !gone.contains(i)).map(|(i, v)| (i - gone.iter().filter(|g| **g < i).count(), v)).collect())
    }
}
pub fn col_of(v: &[Rat]) -> Col { Col(v.iter().enumerate().filter(|(_, x)| !x.is_zero()).map(|(i, x)| (i, rb(*x))).collect()) }

/// An equality-form program `min cx, Ax = b, x >= 0` with `b >= 0`; no initial basis.
#[derive(Debug, Clone)]
pub struct Plain { pub cols: Vec<Col>, pub cost: Vec<RB>, pub b: Vec<RB> }
impl Plain {
    pub fn new(lp: &Lp) -> Plain {
        assert!(lp.rows.iter().all(|r| matches!(r.rel, Rel::Eq) && !r.b.is_neg()) && !lp.max);
        Plain {
            cols: (0..lp.vars.len()).map(|j| col_of(&lp.rows.iter().map(|r| r.a[j]).collect::<Vec<_>>())).collect(),
            cost: lp.vars.iter().map(|v| rb(v.cost)).collect(),
            b: lp.rows.iter().map(|r| rb(r.b)).collect(),
        }
    }
}
/// With unit columns that can start in the basis: (row, column), sorted by row.
#[derive(Debug, Clone)]
pub struct Partial(pub Plain, pub Vec<(usize, usize)>);
/// With a unit column for every row, in any order.
#[derive(Debug, Clone)]
pub struct Full(pub Plain, pub Vec<(usize, usize)>);

macro_rules! provider { ($t:ty, $s:ident, $p:expr) => {
    impl MatrixProvider for $t {
        type Column = Col;
        type Cost<'a> = &'a RB;
        type Rhs = RB;
        fn column(&$s, j: usize) -> Col { $p.cols[j].clone() }
        fn cost_value(&$s, j: usize) -> &RB { &$p.cost[j] }
        fn right_hand_side(&$s) -> DenseVector<RB> { DenseVector::new($p.b.clone(), $p.b.len()) }
        fn bound_row_index(&self, _: usize, _: BoundDirection) -> Option<usize> { None }
        fn nr_constraints(&$s) -> usize { $p.b.len() }
        fn nr_variable_bounds(&self) -> usize { 0 }
        fn nr_columns(&$s) -> usize { $p.cols.len() }
        fn reconstruct_solution<G: SparseElement<G> + SparseComparator>(&self, v: SparseVector<G, G>) -> SparseVector<G, G> { v }
    }
} }
provider!(Plain, self, self);
provider!(Partial, self, self.0);
provider!(Full, self, self.0);
impl PartialInitialBasis for Partial {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> { self.1.clone() }
    fn nr_initial_elements(&self) -> usize { self.1.len() }
}
impl PartialInitialBasis for Full {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> { self.1.clone() }
    fn nr_initial_elements(&self) -> usize { self.1.len() }
}
impl FullInitialBasis for Full {}

/// What a variable may be: column `j` takes the multiples of `j + 2` (column 0 anything) from 0 to 20,
/// so that no two columns agree.
impl FeasibilityLogic for Partial {
    fn is_feasible(&self, j: usize, value: RB) -> bool {
        let v = Rat::of(&value);
        !v.is_neg() && (j == 0 || (v / Rat::from(j as i64 + 2)).d == 1)
    }
    fn closest_feasible(&self, j: usize, value: RB) -> (Option<RB>, Option<RB>) {
        let all: Vec<RB> = (0..20).map(|k| rb(Rat::from(k * (j as i64 + 2)))).collect();
        (all.iter().rev().find(|v| **v <= value).cloned(), all.iter().find(|v| **v >= value).cloned())
    }
}
