//! P18, P19, P21: the vectors and matrices everything is built from, and comparing solutions.
use mc::rat::Rat;
use mc::{Dec, Run, Tally};
use num_traits::Zero;
use relp::algorithm::two_phase::matrix_provider::column::identity::IdentityColumn;
use relp::algorithm::two_phase::matrix_provider::column::{Column, DenseSliceIterator, SparseColumn, SparseOptionIterator, SparseSliceIterator};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, RowMajor, SparseMatrix};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::{BoundDirection, ConstraintRelation, InequalityRelation, RangedConstraintRelation, RangedConstraintRelationKind, VariableType};
use relp::data::linear_program::solution::Solution;
use relp_num::{NonZeroSign, Rational64, RationalBig};
use std::collections::{BTreeMap, HashSet};
use std::fmt;

type R64 = Rational64;
type RB = RationalBig;
type V = Vec<i64>;

// ---------------------------------------------------------------- vectors

#[derive(Clone, Debug)]
enum Op {
    Push(i64), Set(usize, i64), Remove(Vec<usize>), Extend(usize), ExtendWith(V), Shift(usize, i64),
    AddMultiple(i64, V), Times(i64), Over(i64), Each(i64), Index(usize, i64),
}
#[derive(Clone, Debug)]
struct History { start: V, ops: Vec<Op> }
impl fmt::Display for History { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?} then {:?}", self.start, self.ops) } }

/// The mathematical vector; positions count, nothing is stored differently for zeros.
fn apply(v: &mut Vec<Rat>, op: &Op) {
    let q = |n: &i64| Rat::int(*n);
    match op {
        Op::Push(x) => v.push(q(x)),
        Op::Set(i, x) | Op::Index(i, x) => v[*i] = q(x),
        Op::Remove(which) => *v = (0..v.len()).filter(|i| !which.contains(i)).map(|i| v[i]).collect(),
        Op::Extend(n) => v.extend((0..*n).map(|_| Rat::ZERO)),
        Op::ExtendWith(w) => v.extend(w.iter().map(q)),
        Op::Shift(i, x) => v[*i] = v[*i] + q(x),
        Op::AddMultiple(c, w) => for (a, b) in v.iter_mut().zip(w) { *a = *a + q(c) * q(b) },
        Op::Times(c) => for a in v { *a = *a * q(c) },
        Op::Over(c) => for a in v { *a = *a / q(c) },
        Op::Each(c) => for a in v { if !a.is_zero() { *a = *a * q(c) } },
    }
}
fn start(d: &mut Dec, most: usize, values: &[i64]) -> V { let n = d.pick(most + 1); (0..n).map(|_| d.of(values)).collect() }
fn subset_nonempty(d: &mut Dec, n: usize) -> Vec<usize> { d.subset(n) }
fn sparse_op(d: &mut Dec, n: usize, others: &[i64]) -> Op {
    let kinds = if n == 0 { 6 } else { 8 };
    match d.pick(kinds) {
        0 => Op::Push(d.of(&[1, -2])),
        1 => Op::Extend(d.pick(3)),
        2 => Op::Times(d.of(&[2, -1])),
        3 => Op::Over(d.of(&[2, -1])),
        4 => Op::AddMultiple(d.of(&[1, -1, 2]), (0..n).map(|_| d.of(others)).collect()),
        5 => Op::Remove(subset_nonempty(d, n)),
        6 => Op::Set(d.pick(n), d.of(&[1, -2, 3])),
        _ => Op::Shift(d.pick(n), d.of(&[0, 1, -1, 2])),
    }
}
fn dense_op(d: &mut Dec, n: usize) -> Op {
    let kinds = if n == 0 { 4 } else { 6 };
    match d.pick(kinds) {
        0 => Op::Push(d.of(&[1, -2])),
        1 => { let k = d.pick(3); Op::ExtendWith((0..k).map(|_| d.of(&[0, 3])).collect()) }
        2 => Op::Each(d.of(&[2, -1])),
        3 => Op::Remove(subset_nonempty(d, n)),
        4 => Op::Set(d.pick(n), d.of(&[1, -2])),
        _ => Op::Index(d.pick(n), d.of(&[0, 3])),
    }
}
fn history(d: &mut Dec, most: usize, values: &[i64], depth: usize, longest: usize, op: impl Fn(&mut Dec, usize) -> Op) -> Option<History> {
    let start = start(d, most, values);
    let mut n = start.len();
    let mut ops = vec![];
    for _ in 0..depth {
        let o = op(d, n);
        n = match &o { Op::Push(_) => n + 1, Op::Extend(k) => n + k, Op::ExtendWith(w) => n + w.len(), Op::Remove(r) => n - r.len(), _ => n };
        if n > longest { return None; }
        ops.push(o);
    }
    Some(History { start, ops })
}
fn shown(v: &[Rat]) -> Vec<(usize, Rat)> { v.iter().copied().enumerate().filter(|(_, x)| !x.is_zero()).collect() }
fn eq<T: PartialEq + fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: {got:?} instead of {want:?}")) }
}
/// Columns to multiply with: also longer than the vector where the representation allows it.
fn probes(n: usize) -> Vec<V> {
    let mut p: Vec<V> = vec![vec![]; 0];
    p.push((0..n).map(|i| [1, 0, -2][i % 3]).collect());
    p.push((0..n).map(|i| [0, 3, -1, 1][i % 4]).collect());
    p.push((0..n).map(|i| i as i64 + 1).collect());
    p.push(vec![0; n]);
    p
}
/// Indices below `n`, in regular patterns.
fn spaced(d: &mut Dec, n: usize) -> Vec<usize> {
    match d.pick(9) {
        0 => vec![], 1 => vec![0], 2 => vec![n - 1], 3 => (0..n).collect(), 4 => (0..n).step_by(2).collect(),
        5 => (1..n).step_by(2).collect(), 6 => (n / 3..n / 2).collect(), 7 => (0..n).filter(|i| i % 5 > 1).collect(), _ => vec![n / 2],
    }
}
fn patterned(d: &mut Dec, n: usize) -> V {
    let (step, at) = (d.of(&[1usize, 2, 3, 7]), d.pick(2));
    (0..n).map(|i| if i % step == at % step { (i % 9) as i64 - 4 } else { 0 }).collect()
}
/// Histories of longer vectors.
fn long_history(d: &mut Dec, t: bool, dense: bool) -> Option<History> {
    let mut n: usize = d.of(if t { &[8usize, 9, 16, 17, 31, 33, 64, 100] } else { &[9usize, 17, 64] });
    let start = patterned(d, n);
    let mut ops = vec![];
    for _ in 0..2 {
        let op = match d.pick(if dense { 3 } else { 6 }) {
            0 => Op::Remove(spaced(d, n)),
            1 => Op::Set(d.of(&[0, n / 2, n - 1]), 5),
            2 => Op::Push(-3),
            3 => Op::AddMultiple(d.of(&[1, -1, 2]), patterned(d, n)),
            4 => Op::Shift(d.of(&[0, n / 2, n - 1]), 4),
            _ => Op::Extend(3),
        };
        n = match &op { Op::Push(_) => n + 1, Op::Extend(k) => n + k, Op::Remove(r) => n - r.len(), _ => n };
        ops.push(op);
        if n == 0 { break; }
    }
    Some(History { start, ops })
}
/// Histories of larger matrices.
fn large_story(d: &mut Dec, t: bool, column_major: bool) -> Option<Story> {
    let sizes: &[usize] = if t { &[1, 5, 9, 16, 33] } else { &[1, 9, 17] };
    let (m, n) = (d.of(sizes), d.of(sizes));
    let fill = |m: usize, n: usize, k: usize| Dense { m, n, a: (0..m).map(|i| (0..n).map(|j| if (i + 2 * j) % k == 0 { (3 * i + j) as i64 % 7 - 3 } else { 0 }).collect()).collect() };
    let start = fill(m, n, d.of(&[1usize, 2, 5]));
    let mut now = start.clone();
    let mut ops = vec![];
    for _ in 0..2 {
        if now.m == 0 || now.n == 0 { break; }
        let op = match d.pick(if column_major { 6 } else { 5 }) {
            0 => Mop::Rows(spaced(d, now.m)),
            1 => Mop::Columns(spaced(d, now.n)),
            2 => Mop::Turn,
            3 => Mop::Set(d.of(&[0, now.m / 2, now.m - 1]), d.of(&[0, now.n / 2, now.n - 1]), 8),
            4 => Mop::Join(if column_major { fill(now.m, 4, 2) } else { fill(4, now.n, 2) }),
            _ => Mop::Signs(spaced(d, now.m)),
        };
        now.apply(&op, column_major);
        ops.push(op);
    }
    Some(Story { start, ops })
}

macro_rules! vectors { ($name:ident, $F:ty) => { mod $name {
    use super::*;
    type F = $F;
    type S = SparseVector<F, F>;
    type D = DenseVector<F>;
    pub fn f(x: i64) -> F { <F>::from(x) }
    pub fn of(r: &Rat) -> F { f(i64::try_from(r.n).unwrap()) / f(i64::try_from(r.d).unwrap()) }
    pub fn tuples(v: &[Rat]) -> Vec<(usize, F)> { shown(v).iter().map(|(i, x)| (*i, of(x))).collect() }
    fn seen<'a>(i: impl Iterator<Item = (usize, &'a F)>) -> Vec<(usize, Rat)> { i.map(|(i, x)| (i, Rat::of(x))).collect() }
    fn dot(v: &[Rat], w: &[i64]) -> Rat { v.iter().zip(w).fold(Rat::ZERO, |a, (x, y)| a + *x * Rat::int(*y)) }
    fn sparse_is(s: &S, v: &[Rat]) -> Result<(), String> {
        let n = v.len();
        let nz = shown(v);
        eq("len", Vector::len(s), n)?;
        eq("is_empty", Vector::is_empty(s), n == 0)?;
        eq("size", s.size(), nz.len())?;
        eq("stored", s.iter().map(|(i, x)| (i, Rat::of(x))).collect::<Vec<_>>(), nz.clone())?;
        eq("iter", Vector::iter(s).map(|(i, x)| (*i, Rat::of(x))).collect::<Vec<_>>(), nz.clone())?;
        eq("column", seen(Column::iter(s)), nz.clone())?;
        eq("column after its first", seen(Column::iter(s).skip(1)), nz.iter().skip(1).cloned().collect())?;
        eq("consumed", s.clone().into_iter().map(|(i, x)| (i, Rat::of(&x))).collect::<Vec<_>>(), nz.clone())?;
        for i in 0..n {
            eq("get", Vector::get(s, i).map(Rat::of), Some(v[i]).filter(|x| !x.is_zero()))?;
            eq("index_to_string", Rat::parse(&s.index_to_string(i)), Some(v[i]))?;
        }
        eq("display", s.to_string(), format!("[{}]", nz.iter().map(|(i, x)| format!("({i} {x})")).collect::<Vec<_>>().join(", ")))?;
        eq("squared_norm", Rat::of(&s.squared_norm()), v.iter().fold(Rat::ZERO, |a, x| a + *x * *x))?;
        for w in probes(n) {
            let t: Vec<(usize, F)> = w.iter().enumerate().filter(|(_, x)| **x != 0).map(|(i, x)| (i, f(*x))).collect();
            let dense: D = w.iter().map(|x| f(*x)).collect();
            let want = dot(v, &w);
            eq("inner product", Rat::of(&s.sparse_inner_product::<_, F>(SparseSliceIterator::new(&t))), want)?;
            eq("inner product with a dense slice", Rat::of(&s.sparse_inner_product::<_, F>(DenseSliceIterator::new(dense.inner()))), want)?;
            eq("inner product with dense", Rat::of(&s.inner_product_with_dense::<F, F>(&dense)), want)?;
            eq("dense inner product", Rat::of(&dense.sparse_inner_product::<_, F>(Column::iter(s))), want)?;
        }
        let fresh = S::new(tuples(v), n);
        if *s != fresh { return Err(format!("{s:?} differs from the same vector built anew")); }
        if v.iter().map(of).collect::<S>() != *s { return Err("differs from the vector collected from its values".into()); }
        if n > 0 { let mut other = v.to_vec(); other[n - 1] = other[n - 1] + Rat::ONE; if S::new(tuples(&other), n) == *s { return Err("equal to a different vector".into()); } }
        let mut longer = s.clone();
        longer.extend(1);
        if longer == *s { return Err("equal to a longer vector".into()); }
        Ok(())
    }
    pub fn sparse(h: &History, t: &mut Tally) -> Result<(), String> {
        let mut v: Vec<Rat> = h.start.iter().map(|x| Rat::int(*x)).collect();
        let mut s = S::new(tuples(&v), v.len());
        sparse_is(&s, &v)?;
        let mut states = vec![format!("{v:?}")];
        for op in &h.ops {
            match op {
                Op::Push(x) => s.push_value(f(*x)),
                Op::Set(i, x) => s.set(*i, f(*x)),
                Op::Remove(which) => s.remove_indices(which),
                Op::Extend(n) => s.extend(*n),
                Op::Shift(i, x) => s.shift_value(*i, f(*x)),
                Op::AddMultiple(c, w) => {
                    let w: Vec<Rat> = w.iter().map(|x| Rat::int(*x)).collect();
                    s.add_multiple_of_row(&f(*c), &S::new(tuples(&w), w.len()))
                }
                Op::Times(c) => s.element_wise_multiply(&f(*c)),
                Op::Over(c) => s.element_wise_divide(&f(*c)),
                Op::ExtendWith(_) | Op::Each(_) | Op::Index(..) => unreachable!(),
            }
            apply(&mut v, op);
            sparse_is(&s, &v).map_err(|e| format!("after {op:?}: {e}"))?;
            states.push(format!("{v:?}"));
        }
        t.trace(&format!("sparse {:?}", h.start), &states);
        t.compared();
        t.outcome(format!("sparse of length {}", v.len()));
        if h.ops.len() > 1 { t.nontrivial += 1; }
        Ok(())
    }
    fn dense_is(s: &D, v: &[Rat]) -> Result<(), String> {
        let n = v.len();
        eq("len", Vector::len(s), n)?;
        eq("is_empty", Vector::is_empty(s), n == 0)?;
        eq("size", s.size(), n)?;
        eq("stored", s.inner().iter().map(Rat::of).collect::<Vec<_>>(), v.to_vec())?;
        eq("iter", Vector::iter(s).map(Rat::of).collect::<Vec<_>>(), v.to_vec())?;
        eq("slice", std::ops::Deref::deref(s).iter().map(Rat::of).collect::<Vec<_>>(), v.to_vec())?;
        eq("consumed", s.clone().into_iter().map(|x| Rat::of(&x)).collect::<Vec<_>>(), v.to_vec())?;
        for i in 0..n {
            eq("get", Vector::get(s, i).map(Rat::of), Some(v[i]))?;
            eq("index", Rat::of(&s[i]), v[i])?;
        }
        eq("display", s.to_string(), v.iter().map(|x| format!("{x}\n")).collect::<String>() + "\n")?;
        for w in probes(n) {
            let t: Vec<(usize, F)> = w.iter().enumerate().filter(|(_, x)| **x != 0).map(|(i, x)| (i, f(*x))).collect();
            eq("inner product", Rat::of(&s.sparse_inner_product::<_, F>(SparseSliceIterator::new(&t))), dot(v, &w))?;
        }
        if *s != D::new(v.iter().map(of).collect(), n) { return Err("differs from the same vector built anew".into()); }
        if *s != v.iter().map(of).collect::<D>() { return Err("differs from the vector collected from its values".into()); }
        if n > 0 && v.iter().all(|x| *x == v[0]) && *s != D::constant(of(&v[0]), n) { return Err("differs from a constant vector".into()); }
        let mut longer = s.clone();
        longer.push_value(f(1));
        if longer == *s { return Err("equal to a longer vector".into()); }
        Ok(())
    }
    pub fn dense(h: &History, t: &mut Tally) -> Result<(), String> {
        let mut v: Vec<Rat> = h.start.iter().map(|x| Rat::int(*x)).collect();
        let mut s = D::new(v.iter().map(of).collect(), v.len());
        dense_is(&s, &v)?;
        let mut states = vec![format!("{v:?}")];
        for op in &h.ops {
            match op {
                Op::Push(x) => s.push_value(f(*x)),
                Op::ExtendWith(w) => s.extend_with_values(w.iter().map(|x| f(*x)).collect()),
                Op::Set(i, x) => s.set(*i, f(*x)),
                Op::Index(i, x) => s[*i] = f(*x),
                Op::Each(c) => for x in s.iter_mut() { *x *= f(*c) },
                Op::Remove(which) => s.remove_indices(which),
                _ => unreachable!(),
            }
            apply(&mut v, op);
            dense_is(&s, &v).map_err(|e| format!("after {op:?}: {e}"))?;
            states.push(format!("{v:?}"));
        }
        t.trace(&format!("dense {:?}", h.start), &states);
        t.compared();
        t.outcome(format!("dense of length {}", v.len()));
        if h.ops.len() > 1 { t.nontrivial += 1; }
        Ok(())
    }
    /// Every kind of column yields the same non-zero values, however it is read.
    pub fn columns(h: &History, t: &mut Tally) -> Result<(), String> {
        let v: Vec<Rat> = h.start.iter().map(|x| Rat::int(*x)).collect();
        let want = shown(&v);
        let data = tuples(&v);
        let values: Vec<F> = v.iter().map(of).collect();
        let c = SparseColumn::new(data.clone());
        eq("sparse column", seen(c.iter()), want.clone())?;
        eq("its clone", seen(c.clone().iter()), want.clone())?;
        for i in 0..v.len() { eq("as text", Rat::parse(&c.index_to_string(i)), Some(v[i]))?; }
        for k in 0..=want.len() {
            let mut it = c.iter(); let mut dn = DenseSliceIterator::new(&values); let mut sl = SparseSliceIterator::new(&data);
            for _ in 0..k { it.next(); dn.next(); sl.next(); }
            let rest: Vec<_> = want[k..].to_vec();
            eq("from the middle", seen(it.clone()), rest.clone())?;
            eq("dense from the middle", seen(dn.clone()), rest.clone())?;
            eq("slice from the middle", seen(sl.clone()), rest.clone())?;
            let mut dn = dn; for _ in 0..rest.len() { dn.next(); }
            eq("after the end", (dn.next().is_none(), dn.next().is_none()), (true, true))?;
        }
        eq("consumed", c.into_iter().map(|(i, x)| (i, Rat::of(&x))).collect::<Vec<_>>(), want.clone())?;
        eq("dense iterator", seen(DenseSliceIterator::new(&values)), want.clone())?;
        for k in 0..=data.len() {
            let o = data.get(k).cloned();
            let mut it = SparseOptionIterator::new(&o);
            eq("optional", seen(it.clone()), want.get(k).cloned().into_iter().collect())?;
            it.next();
            eq("optional after the end", it.next().is_none(), true)?;
        }
        for i in 0..v.len() {
            let unit: Vec<Rat> = (0..v.len()).map(|k| if k == i { Rat::ONE } else { Rat::ZERO }).collect();
            sparse_is(&S::standard_basis_vector(i, v.len()), &unit)?;
            let one = IdentityColumn::new(i);
            eq("identity column", one.iter().map(|x| x.0).collect::<Vec<_>>(), vec![i])?;
            eq("identity column consumed", one.into_iter().map(|x| x.0).collect::<Vec<_>>(), vec![i])?;
            for k in 0..v.len() { eq("identity as text", Rat::parse(&one.index_to_string(k)), Some(unit[k]))?; }
        }
        t.state(&h.start);
        t.compared();
        t.steps(1);
        t.outcome("columns");
        t.nontrivial += 1;
        Ok(())
    }
} } }
vectors!(small, R64);
vectors!(big, RB);

fn p18(run: &mut Run) {
    run.rule = "every history of the listed operations from every vector of the listed lengths and values; after every operation everything observable of the vector (length, stored values, every element, every way of iterating, inner products, norm, text, equality with the vector built anew) is compared with the mathematical vector; and pairs of operations at regular patterns of places in vectors of up to 64 (100) elements".into();
    run.assumptions.push("Operations are called within their documented preconditions: indices in range, sorted and unique; no explicit zeros are pushed or set.".into());
    let t = run.thorough;
    run.explore("sparse-2", |d| history(d, 4, &[-1, 0, 2], 2, 6, |d, n| sparse_op(d, n, &[0, 1])), small::sparse);
    run.explore("sparse-3", |d| history(d, if t { 3 } else { 2 }, &[0, 1], 3, 4, |d, n| sparse_op(d, n, &[0, -1])), small::sparse);
    if t { run.explore("sparse-4", |d| history(d, 2, &[0, 1], 4, 3, |d, n| sparse_op(d, n, &[0, -1])), small::sparse); }
    run.explore("sum", |d| {
        let n = d.pick(if t { 6 } else { 5 });
        let start = (0..n).map(|_| d.of(&[-2, 0, 1])).collect();
        let c = d.of(&[1, -1, 2, -2]);
        Some(History { start, ops: vec![Op::AddMultiple(c, (0..n).map(|_| d.of(&[-1, 0, 1, 2])).collect())] })
    }, small::sparse);
    run.explore("remove", |d| {
        let n = d.pick(if t { 10 } else { 8 });
        let start = (0..n).map(|k| if d.bool() { k as i64 + 1 } else { 0 }).collect();
        Some(History { start, ops: vec![Op::Remove(d.subset(n))] })
    }, small::sparse);
    run.explore("long", |d| long_history(d, t, false), small::sparse);
    run.explore("long-dense", |d| long_history(d, t, true), small::dense);
    run.explore("big-2", |d| history(d, 3, &[-1, 0, 2], 2, 4, |d, n| sparse_op(d, n, &[0, 1])), big::sparse);
    run.explore("dense-3", |d| history(d, 3, &[0, 1], if t { 4 } else { 3 }, 5, dense_op), small::dense);
    run.explore("dense-big", |d| history(d, 3, &[-1, 0, 2], 2, 5, dense_op), big::dense);
    run.explore("dense-remove", |d| {
        let n = d.pick(if t { 14 } else { 12 });
        Some(History { start: (0..n as i64).collect(), ops: vec![Op::Remove(d.subset(n))] })
    }, small::dense);
    run.explore("columns", |d| Some(History { start: start(d, if t { 7 } else { 6 }, &[-1, 0, 2]), ops: vec![] }), small::columns);
    run.explore("columns-big", |d| Some(History { start: start(d, 4, &[-1, 0, 2]), ops: vec![] }), big::columns);
}

// ---------------------------------------------------------------- matrices

#[derive(Clone, Debug, PartialEq)]
struct Dense { m: usize, n: usize, a: Vec<Vec<i64>> }
#[derive(Clone, Debug)]
enum Mop { Set(usize, usize, i64), Rows(Vec<usize>), Columns(Vec<usize>), Join(Dense), Signs(Vec<usize>), Turn }
#[derive(Clone, Debug)]
struct Story { start: Dense, ops: Vec<Mop> }
impl fmt::Display for Story { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?} then {:?}", self.start, self.ops) } }
fn some_matrix(d: &mut Dec, m: usize, n: usize, values: &[i64]) -> Dense { Dense { m, n, a: (0..m).map(|_| (0..n).map(|_| d.of(values)).collect()).collect() } }
impl Dense {
    fn columns(&self) -> Vec<Vec<(usize, i64)>> { (0..self.n).map(|j| (0..self.m).filter(|i| self.a[*i][j] != 0).map(|i| (i, self.a[i][j])).collect()).collect() }
    fn rows(&self) -> Vec<Vec<(usize, i64)>> { (0..self.m).map(|i| (0..self.n).filter(|j| self.a[i][*j] != 0).map(|j| (j, self.a[i][j])).collect()).collect() }
    fn transposed(&self) -> Dense { Dense { m: self.n, n: self.m, a: (0..self.n).map(|j| (0..self.m).map(|i| self.a[i][j]).collect()).collect() } }
    fn apply(&mut self, op: &Mop, column_major: bool) {
        match op {
            Mop::Set(i, j, v) => self.a[*i][*j] = *v,
            Mop::Rows(r) => { self.a = (0..self.m).filter(|i| !r.contains(i)).map(|i| self.a[i].clone()).collect(); self.m -= r.len(); }
            Mop::Columns(c) => { for row in &mut self.a { *row = (0..self.n).filter(|j| !c.contains(j)).map(|j| row[j]).collect(); } self.n -= c.len(); }
            Mop::Join(o) => if column_major { for (r, s) in self.a.iter_mut().zip(&o.a) { r.extend(s); } self.n += o.n; } else { self.a.extend(o.a.iter().cloned()); self.m += o.m; },
            Mop::Signs(r) => for i in r { for x in &mut self.a[*i] { *x = -*x; } },
            Mop::Turn => *self = self.transposed(),
        }
    }
}
fn q(x: i64) -> R64 { R64::from(x) }
fn conv(v: Vec<Vec<(usize, i64)>>) -> Vec<Vec<(usize, R64)>> { v.into_iter().map(|c| c.into_iter().map(|(i, x)| (i, q(x))).collect()).collect() }
type CM = SparseMatrix<R64, R64, ColumnMajor>;
type RM = SparseMatrix<R64, R64, RowMajor>;
fn cm(d: &Dense) -> CM { ColumnMajor::new(conv(d.columns()), d.m, d.n) }
fn rm(d: &Dense) -> RM { RowMajor::new(conv(d.rows()), d.m, d.n) }
fn cm_is(x: &CM, d: &Dense) -> Result<(), String> {
    eq("rows", x.nr_rows(), d.m)?;
    eq("columns", x.nr_columns(), d.n)?;
    let c = conv(d.columns());
    eq("size", x.size(), c.iter().map(Vec::len).sum())?;
    eq("data", &x.data, &c)?;
    eq("iter_columns", x.iter_columns().cloned().collect::<Vec<_>>(), c.clone())?;
    for j in 0..d.n { eq("iter_column", x.iter_column(j).cloned().collect::<Vec<_>>(), c[j].clone())?; }
    if *x != cm(d) { return Err("differs from the matrix built anew".into()); }
    if *x != ColumnMajor::from_test_data::<R64, R64, i64>(&d.a, d.n) { return Err("differs from the matrix built from rows".into()); }
    let t = RowMajor::from_column(x);
    eq("as rows", (t.nr_rows(), t.nr_columns(), t.size()), (d.m, d.n, x.size()))?;
    let rows = conv(d.rows());
    eq("as rows", t.data.iter().map(|r| r.iter().map(|(i, v)| (*i, **v)).collect::<Vec<_>>()).collect::<Vec<_>>(), rows.clone())?;
    for i in 0..d.m { eq("as row", t.iter_row(i).map(|(j, v)| (*j, **v)).collect::<Vec<_>>(), rows[i].clone())?; }
    Ok(())
}
trait FromColumn { fn from_column(m: &CM) -> SparseMatrix<&R64, R64, RowMajor>; }
impl FromColumn for RowMajor { fn from_column(m: &CM) -> SparseMatrix<&R64, R64, RowMajor> { SparseMatrix::<R64, R64, RowMajor>::from_column_major(m) } }
fn rm_is(x: &RM, d: &Dense) -> Result<(), String> {
    eq("rows", x.nr_rows(), d.m)?;
    eq("columns", x.nr_columns(), d.n)?;
    let r = conv(d.rows());
    eq("size", x.size(), r.iter().map(Vec::len).sum())?;
    eq("data", &x.data, &r)?;
    eq("iter_rows", x.iter_rows().cloned().collect::<Vec<_>>(), r.clone())?;
    for i in 0..d.m { eq("iter_row", x.iter_row(i).cloned().collect::<Vec<_>>(), r[i].clone())?; }
    if *x != rm(d) { return Err("differs from the matrix built anew".into()); }
    if *x != RowMajor::from_test_data::<R64, R64, i64>(&d.a, d.n) { return Err("differs from the matrix built from rows".into()); }
    let t = SparseMatrix::<R64, R64, ColumnMajor>::from_row_ordered_tuples_although_this_is_expensive(&x.data, d.n);
    eq("as columns", (t.nr_rows(), t.nr_columns(), t.size()), (d.m, d.n, x.size()))?;
    let c = conv(d.columns());
    eq("as columns", t.data.iter().map(|r| r.iter().map(|(i, v)| (*i, **v)).collect::<Vec<_>>()).collect::<Vec<_>>(), c.clone())?;
    for j in 0..d.n { eq("as column", t.iter_column(j).map(|(i, v)| (*i, **v)).collect::<Vec<_>>(), c[j].clone())?; }
    Ok(())
}
fn story(d: &mut Dec, m: usize, n: usize, values: &[i64], depth: usize, column_major: bool) -> Option<Story> {
    let (m, n) = (d.pick(m + 1), d.pick(n + 1));
    let start = some_matrix(d, m, n, values);
    let mut now = start.clone();
    let mut ops = vec![];
    for _ in 0..depth {
        let op = match d.pick(if now.m > 0 && now.n > 0 { 6 } else { 5 }) {
            0 => Mop::Rows(d.subset(now.m)),
            1 => Mop::Columns(d.subset(now.n)),
            2 => { let k = d.pick(3); let (m, n) = if column_major { (now.m, k) } else { (k, now.n) }; if m * n > 4 { return None; } Mop::Join(some_matrix(d, m, n, &[0, 5])) }
            3 => if column_major { Mop::Signs(d.subset(now.m)) } else { return None },
            4 => Mop::Turn,
            _ => Mop::Set(d.pick(now.m), d.pick(now.n), d.of(&[1, -2])),
        };
        now.apply(&op, column_major);
        if now.m > 4 || now.n > 4 { return None; }
        ops.push(op);
    }
    Some(Story { start, ops })
}
fn told(s: &Story, t: &mut Tally, column_major: bool) -> Result<(), String> {
    let mut d = s.start.clone();
    let (mut c, mut r) = (cm(&d), rm(&d));
    if column_major { cm_is(&c, &d)? } else { rm_is(&r, &d)? }
    let mut states = vec![];
    for op in &s.ops {
        if column_major {
            match op {
                Mop::Set(i, j, v) => c.set_value(*i, *j, q(*v)),
                Mop::Rows(w) => c.remove_rows_although_this_matrix_is_column_major(w),
                Mop::Columns(w) => c.remove_columns(w),
                Mop::Join(o) => c = c.concatenate_horizontally(cm(o)),
                Mop::Signs(w) => c.change_row_signs(&w.iter().copied().collect::<HashSet<_>>()),
                // The rows of a matrix are the columns of its transpose.
                Mop::Turn => { let rows = RowMajor::from_column(&c); c = ColumnMajor::new(rows.data.iter().map(|x| x.iter().map(|(i, v)| (*i, **v)).collect()).collect(), rows.nr_columns(), rows.nr_rows()); }
            }
        } else {
            match op {
                Mop::Set(i, j, v) => r.set_value(*i, *j, q(*v)),
                Mop::Rows(w) => r.remove_rows(w),
                Mop::Columns(w) => r.remove_columns_although_this_matrix_is_row_ordered(w),
                Mop::Join(o) => r = r.concatenate_vertically(rm(o)),
                Mop::Signs(_) => unreachable!(),
                Mop::Turn => { let k = SparseMatrix::<R64, R64, ColumnMajor>::from_row_ordered_tuples_although_this_is_expensive(&r.data, d.n); r = RowMajor::new(k.data.iter().map(|x| x.iter().map(|(i, v)| (*i, **v)).collect()).collect(), k.nr_columns(), k.nr_rows()); }
            }
        }
        d.apply(op, column_major);
        if column_major { cm_is(&c, &d) } else { rm_is(&r, &d) }.map_err(|e| format!("after {op:?}: {e}"))?;
        states.push(format!("{d:?}"));
    }
    t.trace(&format!("{column_major} {:?}", s.start), &states);
    t.compared();
    t.outcome(format!("{}x{}", d.m, d.n));
    if d.m * d.n > 0 { t.nontrivial += 1; }
    Ok(())
}
fn p19(run: &mut Run) {
    run.rule = "every history of the listed operations from every matrix of the listed sizes and values, in either ordering; after every operation sizes, stored values, iteration by row or column, the copy in the other ordering, and equality with the matrix built anew are compared with the mathematical matrix; and pairs of operations at regular patterns of places in matrices of up to 17 (33) rows and columns".into();
    run.assumptions.push("Operations are called within their documented preconditions: indices in range, sorted and unique; no explicit zeros are set.".into());
    let t = run.thorough;
    for (name, column_major) in [("columns", true), ("rows", false)] {
        run.explore(&format!("{name}-2"), |d| story(d, 3, 3, &[0, 3], 2, column_major), |s, t| told(s, t, column_major));
        run.explore(&format!("{name}-3"), |d| story(d, 2, 2, &[0, -1, 2], 3, column_major), |s, t| told(s, t, column_major));
        run.explore(&format!("{name}-1"), |d| story(d, if t { 4 } else { 3 }, 4, &[0, 3], 1, column_major), |s, t| told(s, t, column_major));
        run.explore(&format!("{name}-large"), |d| large_story(d, t, column_major), |s, t| told(s, t, column_major));
        if t { run.explore(&format!("{name}-4"), |d| story(d, 2, 2, &[0, 2], 4, column_major), |s, t| told(s, t, column_major)); }
    }
    run.explore("identity", |d| { let n = d.pick(8); Some(Story { start: Dense { m: n, n, a: (0..n).map(|i| (0..n).map(|j| (i == j) as i64).collect()).collect() }, ops: vec![] }) }, |s, t| {
        let n = s.start.n;
        cm_is(&ColumnMajor::identity::<R64, R64>(n), &s.start)?;
        rm_is(&RowMajor::identity::<R64, R64>(n), &s.start)?;
        t.state(&n);
        t.steps(2);
        t.compared();
        t.nontrivial += 1;
        t.outcome("identity");
        Ok(())
    });
}

// ---------------------------------------------------------------- solutions and elements

#[derive(Clone, Debug)]
struct Pair { a: (i64, Vec<(String, i64)>), b: (i64, Vec<(String, i64)>), least: f64 }
impl fmt::Display for Pair { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?} {:?} {}", self.a, self.b, self.least) } }
fn solution(s: &(i64, Vec<(String, i64)>)) -> Solution<R64> { Solution::new(q(s.0), s.1.iter().map(|(n, v)| (n.clone(), q(*v))).collect()) }
fn compared(p: &Pair, t: &mut Tally) -> Result<(), String> {
    let (a, b) = (solution(&p.a), solution(&p.b));
    let map = |s: &(i64, Vec<(String, i64)>)| s.1.iter().cloned().collect::<BTreeMap<_, _>>();
    let (x, y) = (map(&p.a), map(&p.b));
    let same_names = p.a.1.len() == p.b.1.len() && x.keys().eq(y.keys());
    let n = p.a.1.len();
    let equal = x.iter().filter(|(k, v)| y.get(*k) == Some(v)).count();
    let want = if p.a.0 != p.b.0 || !same_names { Some(false) } else if n < 10 { Some(true) } else {
        // A fraction that is the limit itself is not more than it. When the limit is no binary fraction
        // that depends on rounding, and both answers are fine.
        let needed = p.least * n as f64;
        let rounded = (p.least * 64.0).fract() != 0.0;
        if rounded && (equal as f64 - needed).abs() < 1e-9 { None } else { Some(equal as f64 > needed) }
    };
    for (l, r, how) in [(&a, &b, "a with b"), (&b, &a, "b with a")] {
        let got = l.is_probably_equal_to(r, p.least);
        if let Some(want) = want { if got != want { return Err(format!("{how}: {got} though {equal} of {n} values are equal")); } }
    }
    if !a.to_string().contains(&p.a.0.to_string()) { return Err("the objective value is not displayed".into()); }
    if (a == b) != (p.a == p.b) { return Err("equality of solutions is not that of their values".into()); }
    t.state(&p.to_string());
    t.steps(2);
    t.compared();
    t.outcome(match want { Some(true) => "equal", Some(false) => "different", None => "on the limit" });
    if n >= 10 { t.nontrivial += 1; }
    Ok(())
}
#[derive(Clone, Debug)]
struct Element(usize);
impl fmt::Display for Element { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
fn elements(e: &Element, t: &mut Tally) -> Result<(), String> {
    use BoundDirection::*;
    // c x >= b is divided by c: what kind of bound on x follows, for points on both sides.
    let (dir, sign) = ([Lower, Upper][e.0 & 1], [NonZeroSign::Positive, NonZeroSign::Negative][e.0 >> 1 & 1]);
    let c: i64 = if e.0 >> 1 & 1 == 0 { 2 } else { -2 };
    let b: i64 = 2 * (e.0 >> 2) as i64 - 6;
    let limit = Rat::int(b) / Rat::int(c);
    for x in -9..9 {
        let original = if dir == Lower { c * x >= b } else { c * x <= b };
        let after = if dir * sign == Lower { Rat::int(x) >= limit } else { Rat::int(x) <= limit };
        if original != after { return Err(format!("{c} x {dir:?} {b} became x {:?} {limit}", dir * sign)); }
    }
    if !dir == dir || !!dir != dir { return Err("negation of a direction".into()); }
    let v = [VariableType::Continuous, VariableType::Integer][e.0 & 1];
    if !v == v || !!v != v { return Err("negation of a variable type".into()); }
    let all = [(InequalityRelation::Less, ConstraintRelation::Less, "<="), (InequalityRelation::Greater, ConstraintRelation::Greater, ">=")];
    for (i, c, s) in all {
        eq("relation", ConstraintRelation::from(i), c)?;
        eq("ranged relation", RangedConstraintRelation::<R64>::from(i), RangedConstraintRelation::from(c))?;
        eq("as text", RangedConstraintRelation::<R64>::from(i).to_string(), s.to_string())?;
    }
    let kinds: Vec<usize> = [RangedConstraintRelation::Equal, RangedConstraintRelation::Range(q(3)), RangedConstraintRelation::Less, RangedConstraintRelation::Greater].iter().map(|r| match RangedConstraintRelationKind::from(r) {
        RangedConstraintRelationKind::Equal => 0, RangedConstraintRelationKind::Range => 1, RangedConstraintRelationKind::Less => 2, RangedConstraintRelationKind::Greater => 3,
    }).collect();
    eq("kinds", kinds, vec![0, 1, 2, 3])?;
    t.state(&e.0);
    t.steps(18);
    t.compared();
    t.nontrivial += 1;
    t.outcome("elements");
    Ok(())
}
fn p21(run: &mut Run) {
    run.rule = "all pairs of solutions with few variables over all name lists and values, and all pairs with eight to twelve variables that agree in every number and choice of values, for limits between all fractions; compared with the definition".into();
    run.assumptions.push("When the fraction of equal values is the limit itself and that is no binary fraction, either answer is accepted.".into());
    let t = run.thorough;
    let names = ["x", "y", "z"];
    let few = move |d: &mut Dec, most: usize| { let n = d.pick(most + 1); (d.of(&[0, 3]), (0..n).map(|_| (names[d.pick(3)].to_string(), d.of(&[0, 1]))).collect::<Vec<_>>()) };
    run.explore("few", |d| {
        let p = Pair { a: few(d, 3), b: few(d, if t { 3 } else { 2 }), least: d.of(&[0.0, 0.5, 0.99]) };
        let distinct = |s: &(i64, Vec<(String, i64)>)| s.1.iter().map(|x| &x.0).collect::<HashSet<_>>().len() == s.1.len();
        if distinct(&p.a) && distinct(&p.b) { Some(p) } else { None }
    }, compared);
    run.explore("many", |d| {
        let n = 8 + d.pick(if t { 9 } else { 5 });
        let agree = d.subset(n);
        let turn = d.pick(3);
        let name = |k: usize| format!("v{k}");
        let a = (7, (0..n).map(|k| (name(k), k as i64)).collect::<Vec<_>>());
        let mut b: Vec<_> = (0..n).map(|k| (name(k), if agree.contains(&k) { k as i64 } else { -1 })).collect();
        b.rotate_left(turn);
        Some(Pair { a, b: (7, b), least: (d.pick(n + 1) as f64 + d.of(&[-0.5, 0.0])) / n as f64 })
    }, compared);
    run.explore("elements", |d| Some(Element(d.pick(28))), elements);
}

fn main() { let _ = R64::zero(); mc::main(&[("P18", p18), ("P19", p19), ("P21", p21)]) }
