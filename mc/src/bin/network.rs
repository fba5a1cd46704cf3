//! P20: programs on directed graphs.
use mc::grid::{r, POS};
use mc::lp::{Lp, Rel, Row, Var, Verdict};
use mc::pipe::{SpyLu, SpyRows, RB};
use mc::rat::Rat;
use mc::{guarded, Dec, Run, Tally};
use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
use relp::algorithm::two_phase::matrix_provider::column::Column;
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::IntoFilteredColumn;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::PartialInitialBasis;
use relp::algorithm::{OptimizationResult as O, SolveRelaxation};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder};
use relp::data::linear_algebra::traits::{SparseComparator, SparseElement};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::BoundDirection;
use relp::data::linear_program::network::representation::{ArcDirection, ArcIncidenceColumn, IncidenceMatrix};
use relp_num::{Binary, Rational64};
use std::fmt;

type R64 = Rational64;

/// Arcs in the order of the columns: by tail, then by head.
#[derive(Clone, Debug, PartialEq)]
struct Graph { n: usize, arcs: Vec<(usize, usize, i64)> }
impl Graph {
    fn incidence(&self, removed: &[usize]) -> (IncidenceMatrix, DenseVector<R64>) {
        let mut a = vec![vec![0i64; self.n]; self.n];
        // Row is the head, column the tail.
        for (from, to, v) in &self.arcs { a[*to][*from] = *v; }
        let adjacency = ColumnMajor::from_test_data::<R64, R64, i64>(&a, self.n);
        IncidenceMatrix::new(adjacency, removed.to_vec())
    }
    /// The documented matrix, with rows of the given vertices taken out.
    fn matrix(&self, removed: &[usize]) -> Vec<Vec<i64>> {
        (0..self.n).filter(|v| !removed.contains(v)).map(|v| self.arcs.iter().map(|(f, t, _)| (*t == v) as i64 - (*f == v) as i64).collect()).collect()
    }
}
fn graph(d: &mut Dec, n: usize, values: &[i64], most: usize) -> Option<Graph> {
    let mut arcs = vec![];
    for f in 0..n { for t in 0..n { if f != t {
        let v = d.of(values);
        if v != 0 { arcs.push((f, t, v)); }
    } } }
    if arcs.len() > most { None } else { Some(Graph { n, arcs }) }
}
fn val(a: &ArcDirection) -> i64 { match a { ArcDirection::Incoming => 1, ArcDirection::Outgoing => -1 } }

// ---------------------------------------------------------------- representation

#[derive(Clone, Debug)]
struct Shape { g: Graph, removed: Vec<usize> }
impl fmt::Display for Shape { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?} without {:?}", self.g, self.removed) } }
fn shape(c: &Shape, t: &mut Tally) -> Result<(), String> {
    let (m, values) = c.g.incidence(&c.removed);
    let want = c.g.matrix(&c.removed);
    if m.nr_vertices() != c.g.n { return Err(format!("{} vertices", m.nr_vertices())); }
    if m.nr_edges() != c.g.arcs.len() { return Err(format!("{} edges", m.nr_edges())); }
    let v: Vec<Rat> = values.iter().map(Rat::of).collect();
    if v != c.g.arcs.iter().map(|a| r(a.2)).collect::<Vec<_>>() { return Err(format!("values {v:?}")); }
    for (j, arc) in c.g.arcs.iter().enumerate() {
        let expected: Vec<(usize, i64)> = (0..want.len()).filter(|i| want[*i][j] != 0).map(|i| (i, want[i][j])).collect();
        let column = ArcIncidenceColumn(m.column(j));
        let seen = |c: &ArcIncidenceColumn| c.iter().map(|(i, a)| (i, val(a))).collect::<Vec<_>>();
        if seen(&column) != expected { return Err(format!("arc {arc:?} is {column:?} instead of {expected:?}")); }
        if column.clone().into_iter().map(|(i, a)| (i, val(&a))).collect::<Vec<_>>() != expected { return Err(format!("arc {arc:?} is different when consumed")); }
        for i in 0..want.len() { if column.index_to_string(i) != want[i][j].to_string() { return Err(format!("arc {arc:?} shows {} at {i}", column.index_to_string(i))); } }
        // Rows taken out later on.
        for gone in 0..1usize << want.len() {
            let gone: Vec<usize> = (0..want.len()).filter(|i| gone >> i & 1 == 1).collect();
            let left: Vec<(usize, i64)> = expected.iter().filter(|e| !gone.contains(&e.0)).map(|(i, v)| (i - gone.iter().filter(|g| *g < i).count(), *v)).collect();
            let got = seen(&column.clone().into_filtered(&gone));
            if got != left { return Err(format!("arc {arc:?} without rows {gone:?} is {got:?} instead of {left:?}")); }
        }
    }
    for i in 0..want.len() {
        let c = ArcIncidenceColumn::identity(i, want.len());
        if c.iter().map(|(i, a)| (i, val(a))).collect::<Vec<_>>() != vec![(i, 1)] { return Err(format!("identity column {c:?}")); }
    }
    t.state(&c.to_string());
    t.steps(c.g.arcs.len());
    t.compared();
    t.outcome(format!("{} arcs", c.g.arcs.len()));
    if !c.removed.is_empty() { t.nontrivial += 1; }
    Ok(())
}
#[derive(Clone, Debug)]
struct Sum { x: (i64, i64), out: bool }
impl fmt::Display for Sum { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{self:?}") } }
fn arithmetic(c: &Sum, t: &mut Tally) -> Result<(), String> {
    let x = mc::pipe::rb(Rat::new(c.x.0 as i128, c.x.1 as i128));
    let a = if c.out { ArcDirection::Outgoing } else { ArcDirection::Incoming };
    let (q, d) = (Rat::of(&x), r(val(&a)));
    let same = |what: &str, got: RB, want: Rat| if Rat::of(&got) == want { Ok(()) } else { Err(format!("{q} {what} {d} is {got} instead of {want}")) };
    same("+", x.clone() + a.clone(), q + d)?;
    same("+&", x.clone() + &a, q + d)?;
    same("-", x.clone() - a.clone(), q - d)?;
    same("-&", x.clone() - &a, q - d)?;
    same("*", x.clone() * a.clone(), q * d)?;
    same("*&", x.clone() * &a, q * d)?;
    same("&*&", &x * &a, q * d)?;
    same("/", x.clone() / a.clone(), q / d)?;
    same("/&", x.clone() / &a, q / d)?;
    let mut y = x.clone(); y += a.clone(); same("+=", y, q + d)?;
    let mut y = x.clone(); y += &a; same("+=&", y, q + d)?;
    let mut y = x.clone(); y -= a.clone(); same("-=", y, q - d)?;
    let mut y = x.clone(); y -= &a; same("-=&", y, q - d)?;
    let mut y = x.clone(); y *= a.clone(); same("*=", y, q * d)?;
    let mut y = x.clone(); y *= &a; same("*=&", y, q * d)?;
    let mut y = x.clone(); y /= a.clone(); same("/=", y, q / d)?;
    let mut y = x.clone(); y /= &a; same("/=&", y, q / d)?;
    same("from", RB::from(&a), d)?;
    same("from", RB::from(a.clone()), d)?;
    if a.to_string() != d.to_string() { return Err(format!("{a:?} is displayed as {a}")); }
    t.state(&c.to_string());
    t.steps(20);
    t.compared();
    t.nontrivial += 1;
    t.outcome("arithmetic");
    Ok(())
}

// ---------------------------------------------------------------- programs

/// Ship `b` to the vertices that are not removed, at least cost; removed vertices supply and absorb
/// anything. With one removed vertex and one demand this is a shortest path.
struct Flow<B> { m: IncidenceMatrix, cost: DenseVector<R64>, b: Vec<B> }
macro_rules! flow { ($B:ty) => { impl MatrixProvider for Flow<$B> {
    type Column = ArcIncidenceColumn;
    type Cost<'a> = &'a R64;
    type Rhs = $B;
    fn column(&self, j: usize) -> ArcIncidenceColumn { ArcIncidenceColumn(self.m.column(j)) }
    fn cost_value(&self, j: usize) -> &R64 { &self.cost[j] }
    fn right_hand_side(&self) -> DenseVector<$B> { self.b.iter().cloned().collect() }
    fn bound_row_index(&self, _: usize, _: BoundDirection) -> Option<usize> { None }
    fn nr_constraints(&self) -> usize { self.b.len() }
    fn nr_variable_bounds(&self) -> usize { 0 }
    fn nr_columns(&self) -> usize { self.m.nr_edges() }
    fn reconstruct_solution<G: SparseElement<G> + SparseComparator>(&self, v: SparseVector<G, G>) -> SparseVector<G, G> { v }
} } }
flow!(R64);
flow!(Binary);

/// A maximum flow: conservation rows, then one row with a slack per arc.
struct Capacity { m: IncidenceMatrix, capacity: DenseVector<R64>, inner: usize, gain: Vec<R64> }
#[derive(Clone, Debug)]
struct Slacked { arc: ArcIncidenceColumn }
impl IntoIterator for Slacked { type Item = (usize, ArcDirection); type IntoIter = std::vec::IntoIter<Self::Item>; fn into_iter(self) -> Self::IntoIter { self.arc.0.into_iter() } }
impl Column for Slacked {
    type F = ArcDirection;
    type Iter<'a> = <ArcIncidenceColumn as Column>::Iter<'a>;
    fn iter(&self) -> Self::Iter<'_> { self.arc.iter() }
    fn index_to_string(&self, i: usize) -> String { self.arc.index_to_string(i) }
}
impl Identity for Slacked { fn identity(i: usize, n: usize) -> Self { Slacked { arc: ArcIncidenceColumn::identity(i, n) } } }
impl IntoFilteredColumn for Slacked { type Filtered = Self; fn into_filtered(self, gone: &[usize]) -> Self { Slacked { arc: self.arc.into_filtered(gone) } } }
impl MatrixProvider for Capacity {
    type Column = Slacked;
    type Cost<'a> = &'a R64;
    type Rhs = R64;
    fn column(&self, j: usize) -> Slacked {
        let e = self.m.nr_edges();
        let mut c = if j < e { self.m.column(j) } else { vec![] };
        c.push((self.inner + j % e, ArcDirection::Incoming));
        Slacked { arc: ArcIncidenceColumn(c) }
    }
    fn cost_value(&self, j: usize) -> &R64 { &self.gain[j] }
    fn right_hand_side(&self) -> DenseVector<R64> {
        let mut b = DenseVector::constant(R64::from(0), self.inner);
        b.extend_with_values(self.capacity.iter().cloned().collect());
        b
    }
    fn bound_row_index(&self, j: usize, kind: BoundDirection) -> Option<usize> { if kind == BoundDirection::Upper && j < self.m.nr_edges() { Some(self.inner + j) } else { None } }
    fn nr_constraints(&self) -> usize { self.inner }
    fn nr_variable_bounds(&self) -> usize { self.m.nr_edges() }
    fn nr_columns(&self) -> usize { 2 * self.m.nr_edges() }
    fn reconstruct_solution<G: SparseElement<G> + SparseComparator>(&self, v: SparseVector<G, G>) -> SparseVector<G, G> { v }
}
impl PartialInitialBasis for Capacity {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> { (0..self.m.nr_edges()).map(|j| (self.inner + j, self.m.nr_edges() + j)).collect() }
    fn nr_initial_elements(&self) -> usize { self.m.nr_edges() }
}

fn values(o: &O<RB>, n: usize) -> Result<Option<Vec<Rat>>, String> {
    match o {
        O::FiniteOptimum(v) => {
            if v.len() != n { return Err(format!("{} values for {n} columns", v.len())); }
            let mut x = vec![Rat::ZERO; n];
            for (i, q) in v.iter() { x[i] = Rat::of(q); }
            Ok(Some(x))
        }
        _ => Ok(None),
    }
}
#[derive(Clone, Debug)]
struct Case { g: Graph, s: usize, t: usize }
impl fmt::Display for Case { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?} from {} to {}", self.g, self.s, self.t) } }

/// Both representations of the inverse, in one go.
fn both<P>(p: &P, mut judge: impl FnMut(&O<RB>) -> Result<(), String>, t: &mut Tally, case: &str) -> Result<(), String>
where P: SolveRelaxation<Column: Column<F = ArcDirection>, Rhs = R64> + for<'a> MatrixProvider<Cost<'a> = &'a R64> + 'static {
    for (i, name) in ["rows", "lu"].into_iter().enumerate() {
        let (res, log) = mc::spy::logged(false, || guarded(|| if i == 0 { p.solve_relaxation::<SpyRows>() } else { p.solve_relaxation::<SpyLu>() }));
        let out = res.map_err(|e| format!("{name}: panic: {e}"))?;
        judge(&out).map_err(|e| format!("{name}: {e} ({out:?})"))?;
        t.trace(case, &log.pivots);
        t.compared();
        if log.pivots.len() > 1 && i == 1 { t.nontrivial += 1; }
    }
    Ok(())
}
/// Lengths of shortest paths; `None` when there is a cycle of negative length on the way.
fn distance(g: &Graph, s: usize) -> Option<Vec<Option<i64>>> {
    let mut d = vec![None; g.n];
    d[s] = Some(0);
    for round in 0..=g.n {
        let mut changed = false;
        for (f, t, c) in &g.arcs { if let Some(x) = d[*f] { if d[*t].is_none_or(|y| x + c < y) { d[*t] = Some(x + c); changed = true; } } }
        if !changed { return Some(d); }
        if round == g.n { return None; }
    }
    None
}
fn negative_cycle(g: &Graph) -> bool {
    let mut d = vec![0i64; g.n];
    for _ in 0..g.n { for (f, t, c) in &g.arcs { if d[*f] + c < d[*t] { d[*t] = d[*f] + c; } } }
    g.arcs.iter().any(|(f, t, c)| d[*f] + c < d[*t])
}
fn path(c: &Case, t: &mut Tally) -> Result<(), String> {
    let (m, cost) = c.g.incidence(&[c.s]);
    let e = c.g.arcs.len();
    let b: Vec<i64> = (0..c.g.n).filter(|v| *v != c.s).map(|v| (v == c.t) as i64).collect();
    let reach = { let mut seen = vec![false; c.g.n]; seen[c.s] = true; for _ in 0..c.g.n { for (f, t, _) in &c.g.arcs { if seen[*f] { seen[*t] = true; } } } seen };
    let cycle = negative_cycle(&c.g);
    let truth = if !reach[c.t] { Verdict::Infeasible } else if cycle { Verdict::Unbounded } else { Verdict::Opt(r(distance(&c.g, c.s).unwrap()[c.t].unwrap())) };
    let matrix = c.g.matrix(&[c.s]);
    let judge = |o: &O<RB>| -> Result<(), String> {
        match (o, truth) {
            (O::Infeasible, Verdict::Infeasible) | (O::Unbounded, Verdict::Unbounded) => Ok(()),
            (O::FiniteOptimum(_), Verdict::Opt(best)) => {
                let x = values(o, e)?.unwrap();
                if x.iter().any(Rat::is_neg) { return Err("negative flow".into()); }
                for (row, b) in matrix.iter().zip(&b) { if row.iter().zip(&x).fold(Rat::ZERO, |a, (c, x)| a + r(*c) * *x) != r(*b) { return Err("does not arrive".into()); } }
                let length = c.g.arcs.iter().zip(&x).fold(Rat::ZERO, |a, (e, x)| a + r(e.2) * *x);
                if length == best { Ok(()) } else { Err(format!("length {length} instead of {best}")) }
            }
            _ => Err(format!("should be {truth:?}")),
        }
    };
    let text = c.to_string();
    both(&Flow::<R64> { m: m.clone(), cost: cost.clone(), b: b.iter().map(|v| R64::from(*v)).collect() }, judge, t, &text)?;
    let p = Flow::<Binary> { m, cost, b: b.iter().map(|v| if *v == 1 { Binary::One } else { Binary::Zero }).collect() };
    let out = guarded(|| p.solve_relaxation::<SpyRows>()).map_err(|e| format!("binary: panic: {e}"))?;
    judge(&out).map_err(|e| format!("binary: {e} ({out:?})"))?;
    t.compared();
    t.outcome(match truth { Verdict::Infeasible => "path: unreachable", Verdict::Unbounded => "path: negative cycle", _ => "path: shortest" });
    Ok(())
}
fn flow(c: &Case, t: &mut Tally) -> Result<(), String> {
    let (m, capacity) = c.g.incidence(&[c.s, c.t]);
    let e = c.g.arcs.len();
    let gain: Vec<R64> = (0..2 * e).map(|j| R64::from(if j >= e { 0 } else { (c.g.arcs[j].1 == c.s) as i64 - (c.g.arcs[j].0 == c.s) as i64 })).collect();
    // The smallest cut that separates the two.
    let best = (0..1usize << c.g.n).filter(|k| k >> c.s & 1 == 1 && k >> c.t & 1 == 0)
        .map(|k| c.g.arcs.iter().filter(|a| k >> a.0 & 1 == 1 && k >> a.1 & 1 == 0).map(|a| a.2).sum::<i64>()).min().unwrap();
    let matrix = c.g.matrix(&[c.s, c.t]);
    let p = Capacity { m, capacity, inner: c.g.n - 2, gain };
    both(&p, |o| {
        let Some(x) = values(o, 2 * e)? else { return Err("a maximum flow exists".into()) };
        if x.iter().any(Rat::is_neg) { return Err("negative flow".into()); }
        for (row, _) in matrix.iter().zip(0..) { if !row.iter().zip(&x).fold(Rat::ZERO, |a, (c, x)| a + r(*c) * *x).is_zero() { return Err("flow is lost".into()); } }
        for (j, a) in c.g.arcs.iter().enumerate() { if x[j] + x[e + j] != r(a.2) { return Err(format!("arc {a:?} carries {} with slack {}", x[j], x[e + j])); } }
        let total = c.g.arcs.iter().zip(&x).fold(Rat::ZERO, |s, (a, x)| s + r((a.0 == c.s) as i64 - (a.1 == c.s) as i64) * *x);
        if total == r(best) { Ok(()) } else { Err(format!("flow {total} instead of {best}")) }
    }, t, &c.to_string())?;
    t.outcome(if best == 0 { "flow: none" } else { "flow: some" });
    Ok(())
}
#[derive(Clone, Debug)]
struct Ship { g: Graph, removed: Vec<usize>, b: Vec<i64> }
impl fmt::Display for Ship { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{self:?}") } }
fn ship(c: &Ship, t: &mut Tally) -> Result<(), String> {
    let (m, cost) = c.g.incidence(&c.removed);
    let matrix = c.g.matrix(&c.removed);
    let lp = Lp {
        max: false, fixed: Rat::ZERO,
        vars: c.g.arcs.iter().map(|a| Var { cost: r(a.2), lo: POS.0.map(r), hi: None }).collect(),
        rows: matrix.iter().zip(&c.b).map(|(a, b)| Row { a: a.iter().map(|v| r(*v)).collect(), rel: Rel::Eq, b: r(*b) }).collect(),
    };
    let truth = lp.solve();
    let p = Flow::<R64> { m, cost, b: c.b.iter().map(|v| R64::from(*v)).collect() };
    both(&p, |o| {
        match (o, truth) {
            (O::Infeasible, Verdict::Infeasible) | (O::Unbounded, Verdict::Unbounded) => Ok(()),
            (O::FiniteOptimum(_), Verdict::Opt(best)) => {
                let x = values(o, c.g.arcs.len())?.unwrap();
                if let Some(e) = lp.infeasibility(&x) { return Err(e); }
                if lp.objective(&x) == best { Ok(()) } else { Err(format!("costs {} instead of {best}", lp.objective(&x))) }
            }
            _ => Err(format!("should be {truth:?}")),
        }
    }, t, &c.to_string())?;
    t.outcome(match truth { Verdict::Infeasible => "ship: impossible", Verdict::Unbounded => "ship: unbounded", _ => "ship: cheapest" });
    Ok(())
}
fn ends(d: &mut Dec, n: usize) -> (usize, usize) { let s = d.pick(n); let t = d.pick(n - 1); (s, if t >= s { t + 1 } else { t }) }
/// Larger graphs: arcs of the given lengths around a circle or along a line.
fn regular(d: &mut Dec, sizes: &[usize], values: usize) -> Option<Graph> {
    let n = d.of(sizes);
    let lengths: Vec<usize> = [1, 2, 3, n - 1].into_iter().filter(|_| d.bool()).collect();
    if lengths.is_empty() { return None; }
    let circle = d.bool();
    let holes = d.pick(3);
    let pattern = d.pick(values);
    let mut arcs = vec![];
    for f in 0..n { for t in 0..n {
        let k = (t + n - f) % n;
        if !lengths.contains(&k) || !circle && t < f && k != n - 1 { continue; }
        if holes > 0 && (2 * f + t) % (holes + 3) == 1 { continue; }
        let v = match pattern { 0 => 1, 1 => 1 + ((3 * f + 5 * t) % 4) as i64, 2 => 1 + (f as i64 - t as i64).abs(), _ => if f < t { -1 } else { 4 } };
        arcs.push((f, t, v));
    } }
    Some(Graph { n, arcs })
}
fn p20(run: &mut Run) {
    run.rule = "every directed graph of the listed sizes with all listed values on its arcs, every set of removed vertices, in any order; the incidence matrix, its columns and their filtering are compared with the definition, and shortest path, maximum flow and cheapest transport programs built on it, solved with both inverses, with Bellman-Ford, the minimum cut and the exact oracle; and regular graphs of up to nine (twelve) vertices".into();
    run.assumptions.push("The providers built on IncidenceMatrix are this check's own, after the repository's examples; graphs have no self-arcs and no parallel arcs, as the representation requires.".into());
    let t = run.thorough;
    run.explore("shapes", |d| {
        let n = d.pick(5);
        let g = graph(d, n, &[0, 1], 12)?;
        let g = Graph { arcs: g.arcs.iter().enumerate().map(|(k, a)| (a.0, a.1, k as i64 + 1)).collect(), ..g };
        let order = d.permutation(n);
        let k = d.pick(n + 1);
        // All orders of all subsets, once.
        if order[k..].windows(2).any(|w| w[0] > w[1]) { return None; }
        Some(Shape { g, removed: order[..k].to_vec() })
    }, shape);
    run.explore("shapes-5", |d| { let g = graph(d, 5, &[0, 1], if t { 8 } else { 5 })?; Some(Shape { g, removed: d.subset(5) }) }, shape);
    run.explore("arithmetic", |d| Some(Sum { x: (d.pick(13) as i64 - 6, d.of(&[1, 2, 3, 7])), out: d.bool() }), arithmetic);
    run.explore("paths-3", |d| { let n = 2 + d.pick(2); let g = graph(d, n, &[0, 1, 2, -1, 3], 6)?; let (s, e) = ends(d, n); Some(Case { g, s, t: e }) }, path);
    run.explore("paths-4", |d| { let g = graph(d, 4, if t { &[0, 1, 3] } else { &[0, 1] }, 12)?; let (s, e) = ends(d, 4); Some(Case { g, s, t: e }) }, path);
    run.explore("paths-4-negative", |d| { let g = graph(d, 4, &[0, 2, -1], if t { 7 } else { 4 })?; let (s, e) = ends(d, 4); Some(Case { g, s, t: e }) }, path);
    run.explore("flows-3", |d| { let n = 2 + d.pick(2); let g = graph(d, n, &[0, 1, 2, 3], 6)?; let (s, e) = ends(d, n); Some(Case { g, s, t: e }) }, flow);
    run.explore("flows-4", |d| { let g = graph(d, 4, if t { &[0, 1, 3] } else { &[0, 1] }, 12)?; let (s, e) = ends(d, 4); Some(Case { g, s, t: e }) }, flow);
    run.explore("flows-4-capacities", |d| { let g = graph(d, 4, &[0, 1, 3], if t { 8 } else { 4 })?; let (s, e) = ends(d, 4); Some(Case { g, s, t: e }) }, flow);
    run.explore("ships-3", |d| {
        let g = graph(d, 3, &[0, 1, -1, 3], 6)?;
        let removed = d.subset(3);
        let b = (0..3 - removed.len()).map(|_| d.of(&[0, 1, 2])).collect();
        Some(Ship { g, removed, b })
    }, ship);
    run.explore("ships-4", |d| {
        let g = graph(d, 4, &[0, 1, -2], if t { 6 } else { 4 })?;
        let removed = d.subset(4);
        let b = (0..4 - removed.len()).map(|_| d.of(&[0, 1])).collect();
        Some(Ship { g, removed, b })
    }, ship);
    let sizes: &[usize] = if t { &[5, 6, 7, 8, 9, 10, 11, 12] } else { &[6, 9] };
    run.explore("large-shapes", |d| {
        let g = regular(d, sizes, 1)?;
        let g = Graph { arcs: g.arcs.iter().enumerate().map(|(k, a)| (a.0, a.1, k as i64 + 1)).collect(), ..g };
        let n = g.n;
        let removed = match d.pick(5) { 0 => vec![], 1 => vec![n - 1, 0], 2 => (0..n).filter(|v| v % 2 == 1).collect(), 3 => vec![2, 5, 1, 3], _ => (1..n).rev().collect() };
        Some(Shape { g, removed })
    }, shape);
    run.explore("large-paths", |d| { let g = regular(d, sizes, 4)?; let (s, e) = ends(d, g.n); Some(Case { g, s, t: e }) }, path);
    run.explore("large-flows", |d| { let g = regular(d, sizes, 3)?; let (s, e) = ends(d, g.n); if !t && (s + e) % 3 > 0 { return None; } Some(Case { g, s, t: e }) }, flow);
}
fn main() { mc::main(&[("P20", p20)]) }
