//! P06..P12: the parts of the simplex method, step by step.
use mc::grid::*;
use mc::lp::*;
use mc::pipe::*;
use mc::provider::*;
use mc::rat::Rat;
use mc::spy;
use mc::{Dec, Run, Tally};
use relp::algorithm::two_phase::matrix_provider::column::{Column, SparseSliceIterator};
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::{BasisInverse, RemoveBasisPart};
use relp::algorithm::two_phase::tableau::inverse_maintenance::ColumnComputationInfo;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
use relp::algorithm::two_phase::matrix_provider::filter::ToFiltered;
use relp::algorithm::two_phase::matrix_provider::variable::FeasibilityLogic;
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::{IntoFilteredColumn, RemoveRows};
use relp::algorithm::two_phase::matrix_provider::filter::Filtered;
use relp::data::linear_program::elements::BoundDirection;
use relp::algorithm::two_phase::phase_one::{FeasibilityComputeTrait, PartialInitialBasis, Rank, RankedFeasibilityResult};
use relp::algorithm::two_phase::phase_two;
use relp::algorithm::two_phase::strategy::pivot_rule::{FirstProfitable, FirstProfitableWithMemory, PivotRule, SteepestDescentAlongObjective, SteepestDescentAlongVariable};
use relp::algorithm::two_phase::tableau::inverse_maintenance::{ops, InverseMaintainer};
use relp::algorithm::two_phase::tableau::kind::non_artificial::NonArtificial;
use relp::algorithm::two_phase::tableau::kind::Kind;
use relp::algorithm::two_phase::tableau::{BasisChangeComputationInfo, Tableau};
use relp::algorithm::{OptimizationResult as O, SolveRelaxation};
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

type Mat = Vec<Vec<Rat>>; // columns
fn transpose(c: &Mat) -> Mat { let m = c.len(); (0..m).map(|i| (0..m).map(|j| c[j][i]).collect()).collect() }
fn mul_left(inv: &Mat, v: &[Rat]) -> Vec<Rat> { inv.iter().map(|r| dot(r, v)).collect() }
fn mul_right(v: &[Rat], inv: &Mat) -> Vec<Rat> { (0..v.len()).map(|j| (0..v.len()).fold(Rat::ZERO, |s, i| s + v[i] * inv[i][j])).collect() }
fn dot(a: &[Rat], b: &[Rat]) -> Rat { a.iter().zip(b).fold(Rat::ZERO, |s, (x, y)| s + *x * *y) }

// ---------------------------------------------------------------- P06

/// A history of a basis: how it starts, and which columns replace which.
struct History { start: Option<Mat>, alphabet: Vec<Vec<Rat>>, ops: Vec<(usize, usize)>, repeat: usize }
impl fmt::Display for History {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match &self.start { None => write!(f, "identity")?, Some(m) => write!(f, "invert columns {m:?}")? }
        for (r, c) in &self.ops { write!(f, "; row {r} <- {:?}", self.alphabet[*c])?; }
        if self.repeat > 1 { write!(f, " (repeated {} times)", self.repeat)?; }
        Ok(())
    }
}
/// Compare everything a basis inverse can be asked with the inverse of the model's basis.
fn agrees<B: BasisInverse<F = RB>>(b: &B, basis: &Mat, probes: &[Vec<Rat>]) -> Result<(), String> {
    let m = basis.len();
    let inv = inverse(&transpose(basis)).ok_or("engine: singular basis")?;
    if b.m() != m { return Err(format!("size is {} instead of {m}", b.m())); }
    for p in probes {
        let c = col_of(p);
        let want = mul_left(&inv, p);
        let info = b.left_multiply_by_basis_inverse(c.iter());
        let got = ordered(info.column(), m)?;
        if got != want { return Err(format!("column {p:?} becomes {got:?} instead of {want:?}")); }
        for i in 0..m {
            let got = b.generate_element(i, c.iter()).map_or(Rat::ZERO, |v| Rat::of(&v));
            if got != want[i] { return Err(format!("element {i} of column {p:?} is {got} instead of {}", want[i])); }
        }
        let want = mul_right(p, &inv);
        let got = ordered(&b.right_multiply_by_basis_inverse(c.iter()), m)?;
        if got != want { return Err(format!("row {p:?} becomes {got:?} instead of {want:?}")); }
    }
    for i in 0..m {
        let got = ordered(&b.basis_inverse_row(i), m)?;
        if got != inv[i] { return Err(format!("row {i} of the inverse is {got:?} instead of {:?}", inv[i])); }
    }
    if b.to_string().is_empty() { return Err("displays as nothing".into()); }
    Ok(())
}
/// Dense form of a sparse vector that must be sorted and free of zeros, as all users assume.
fn ordered(v: &relp::data::linear_algebra::vector::SparseVector<RB, RB>, m: usize) -> Result<Vec<Rat>, String> {
    use relp::data::linear_algebra::vector::Vector;
    if v.len() != m { return Err(format!("a vector of length {} instead of {m}", v.len())); }
    let mut x = vec![Rat::ZERO; m];
    let mut last = None;
    for (i, a) in SparseSliceIterator::new(&**v) {
        if i >= m || last.is_some_and(|l| l >= i) { return Err(format!("indices of {v:?} are out of order")); }
        last = Some(i);
        x[i] = Rat::of(a);
        if x[i].is_zero() { return Err(format!("{v:?} stores a zero")); }
    }
    Ok(x)
}
fn play<B: BasisInverse<F = RB>>(h: &History, t: &mut Tally, steps: &mut Vec<Vec<Vec<Rat>>>) -> Result<(), String> {
    let m = h.alphabet[0].len();
    let unit: Mat = (0..m).map(|i| (0..m).map(|k| if i == k { Rat::ONE } else { Rat::ZERO }).collect()).collect();
    let mut probes = unit.clone();
    probes.extend(h.alphabet.iter().cloned());
    probes.push(vec![Rat::ZERO; m]);
    let mut basis = h.start.clone().unwrap_or_else(|| unit.clone());
    let mut b = match &h.start {
        None => B::identity(m),
        Some(c) => B::invert(c.iter().map(|c| col_of(c))),
    };
    agrees(&b, &basis, &probes).map_err(|e| format!("at the start: {e}"))?;
    let mut n = 0;
    for round in 0..h.repeat {
        for &(row, c) in &h.ops {
            let column = &h.alphabet[c];
            let info = b.left_multiply_by_basis_inverse(col_of(column).iter());
            let w = ordered(info.column(), m)?;
            if w[row].is_zero() { continue; }
            let back = b.change_basis(row, info);
            if ordered(&back, m)? != w { return Err(format!("step {n}: the pivot column comes back as {back:?} instead of {w:?}")); }
            basis[row] = column.clone();
            n += 1;
            agrees(&b, &basis, &probes).map_err(|e| format!("after {n} replacements (round {round}): {e}"))?;
            steps.push(basis.clone());
            if b.should_refactor() { t.outcome("would be refactored"); }
        }
    }
    t.outcome(if n > 30 { "more than 30 replacements".to_string() } else { format!("{n} replacements") });
    Ok(())
}
fn history(h: &History, t: &mut Tally) -> Result<(), String> {
    let (mut a, mut b) = (vec![], vec![]);
    play::<LUDecomposition<RB>>(h, t, &mut a).map_err(|e| format!("lu: {e}"))?;
    let mut other = Tally::default();
    play::<BasisInverseRows<RB>>(h, &mut other, &mut b).map_err(|e| format!("rows: {e}"))?;
    if a != b { return Err("engine: the two replays differ".into()); }
    if a.len() > 1 { t.nontrivial += 1; }
    t.compared();
    t.trace(&h.to_string(), &a);
    Ok(())
}
/// A basis whose columns in `gone` are unit vectors of the same index, as artificial columns left over
/// in redundant rows are: those indices are removed, and then one more column is replaced.
struct Removal { basis: Mat, gone: Vec<usize>, invert: bool, row: usize, column: Vec<Rat> }
impl fmt::Display for Removal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "basis of columns {:?} ({}); remove {:?}; row {} <- {:?}", self.basis, if self.invert { "inverted" } else { "by replacements" }, self.gone, self.row, self.column)
    }
}
fn removal(h: &Removal, t: &mut Tally) -> Result<(), String> {
    let m = h.basis.len();
    let units = |m: usize| -> Mat { (0..m).map(|i| (0..m).map(|k| if i == k { Rat::ONE } else { Rat::ZERO }).collect()).collect() };
    let mut b = if h.invert { BasisInverseRows::<RB>::invert(h.basis.iter().map(|c| col_of(c))) } else {
        let mut b = BasisInverseRows::<RB>::identity(m);
        for i in (0..m).filter(|i| !h.gone.contains(i)) {
            let info = b.left_multiply_by_basis_inverse(col_of(&h.basis[i]).iter());
            if ordered(info.column(), m)?[i].is_zero() { t.outcome("not reachable in this order"); return Ok(()); }
            b.change_basis(i, info);
        }
        b
    };
    agrees(&b, &h.basis, &units(m)).map_err(|e| format!("before the removal: {e}"))?;
    b.remove_basis_part(&h.gone);
    let kept: Vec<usize> = (0..m).filter(|i| !h.gone.contains(i)).collect();
    let mut basis: Mat = kept.iter().map(|&j| kept.iter().map(|&i| h.basis[j][i]).collect()).collect();
    let k = kept.len();
    let mut probes = units(k);
    probes.push(h.column[..k].to_vec());
    agrees(&b, &basis, &probes).map_err(|e| format!("after the removal: {e}"))?;
    t.compared();
    t.trace(&h.to_string(), &basis);
    if k > 0 {
        let column = h.column[..k].to_vec();
        let info = b.left_multiply_by_basis_inverse(col_of(&column).iter());
        let row = h.row % k;
        if !ordered(info.column(), k)?[row].is_zero() {
            b.change_basis(row, info);
            basis[row] = column;
            agrees(&b, &basis, &probes).map_err(|e| format!("after a replacement that follows: {e}"))?;
        }
    }
    t.nontrivial += 1;
    t.outcome(format!("{} of {m} removed", h.gone.len()));
    Ok(())
}
fn rats(v: &[i64]) -> Vec<Rat> { v.iter().map(|x| r(*x)).collect() }
fn alphabet(m: usize, wide: bool) -> Vec<Vec<Rat>> {
    let a: &[&[i64]] = match (m, wide) {
        (1, _) => &[&[1], &[-1], &[2], &[3]],
        (2, false) => &[&[1, 0], &[0, 1], &[1, 1], &[1, -1], &[2, 1], &[0, -3]],
        (2, true) => &[&[1, 0], &[0, 1], &[1, 1], &[1, -1], &[2, 1], &[0, -3], &[-1, 2], &[3, 0]],
        (3, false) => &[&[0, 0, 1], &[1, 1, 0], &[0, 1, 1], &[1, 0, -1], &[1, 2, 1]],
        (3, true) => &[&[1, 0, 0], &[0, 1, 0], &[0, 0, 1], &[1, 1, 0], &[0, 1, 1], &[1, 0, -1], &[1, 2, 1], &[-1, 1, 2]],
        (4, false) => &[&[1, 1, 0, 0], &[0, 1, 1, 0], &[0, 0, 1, -1], &[2, 0, 0, 1], &[1, 1, 1, 1]],
        (4, true) => &[&[0, 0, 1, 0], &[1, 1, 0, 0], &[0, 1, 1, 0], &[0, 0, 1, -1], &[2, 0, 0, 1], &[1, 1, 1, 1], &[1, 0, 2, 0]],
        _ => &[&[1, 1, 0, 0, 0], &[0, 1, 0, 1, 0], &[0, 0, 1, 0, -1], &[2, 0, 0, 0, 1], &[1, 1, 1, 1, 1]],
    };
    a.iter().map(|v| rats(v)).collect()
}
fn draw_ops(d: &mut Dec, m: usize, k: usize, depth: usize) -> Vec<(usize, usize)> { (0..depth).map(|_| (d.pick(m), d.pick(k))).collect() }
fn p06(run: &mut Run) {
    run.rule = "every history of column replacements of the listed depth over the listed column alphabets, from the identity and from every invertible matrix over a small value set; every history that repeats a short pattern until past the refactorisation threshold; after every step both representations are compared with the exact inverse on all probes; bases of dimension eight and nine made of small ones side by side, with rows and columns mixed; and every removal of a set of indices with unit columns from a basis with any other columns, followed by a replacement".into();
    run.assumptions.push("A replacement whose pivot element is zero would make the basis singular and is skipped: no caller performs it.".into());
    let t = run.thorough;
    for (m, depth) in if t { [(1, 6), (2, 5), (3, 4), (4, 3), (5, 3)] } else { [(1, 4), (2, 4), (3, 3), (4, 3), (5, 2)] } {
        let a = alphabet(m, t || m < 3);
        run.explore(&format!("histories-{m}"), |d| {
            let ops = draw_ops(d, m, a.len(), depth);
            Some(History { start: None, alphabet: a.clone(), ops, repeat: 1 })
        }, history);
    }
    // Permuted and sparse starting bases, then changes.
    let values: &[(usize, &[i64], usize)] = if t { &[(1, &[1, -2, 3], 2), (2, &[0, 1, -1, 2, 3], 2), (3, &[0, 1, -1, 2], 1), (4, &[0, 1], 1)] }
        else { &[(1, &[1, -2, 3], 2), (2, &[0, 1, -1, 2], 2), (3, &[0, 1, -1], 1), (4, &[0, 1], 0)] };
    for &(m, v, depth) in values {
        let a = alphabet(m, false);
        run.explore(&format!("invert-{m}"), |d| {
            let c: Mat = (0..m).map(|_| (0..m).map(|_| r(d.of(v))).collect()).collect();
            if inverse(&transpose(&c)).is_none() { return None; }
            let ops = draw_ops(d, m, a.len(), depth);
            Some(History { start: Some(c), alphabet: a.clone(), ops, repeat: 1 })
        }, history);
    }
    // Larger sparse bases: a permutation with a few more values, so that row and column swaps matter.
    for (m, extra) in if t { [(5, 2), (6, 1)] } else { [(4, 2), (5, 1)] } {
        run.explore(&format!("permuted-{m}"), |d| {
            let p = d.permutation(m);
            let mut c: Mat = p.iter().map(|&i| (0..m).map(|k| if k == i { r(2) } else { r(0) }).collect()).collect();
            for _ in 0..extra {
                let at = d.pick(m * m);
                c[at / m][at % m] = d.of(&[r(1), r(-1)]);
            }
            if inverse(&transpose(&c)).is_none() { return None; }
            Some(History { start: Some(c), alphabet: vec![(0..m).map(|k| r(k as i64 + 1)).collect()], ops: vec![(d.pick(m), 0)], repeat: 1 })
        }, history);
    }
    // Indices that are removed from the basis, next to any other columns.
    let sizes: &[(usize, usize, &[i64])] = if t { &[(1, 0, &[]), (2, 1, &[0, 1, -2]), (3, 1, &[0, 1, -2]), (3, 2, &[0, 1, -1, 2]), (4, 1, &[0, 1, -1]), (4, 2, &[0, 1, -1]), (4, 3, &[0, 1]), (5, 2, &[0, 1]), (6, 1, &[0, 1])] }
        else { &[(1, 0, &[]), (2, 1, &[0, 1, -2]), (3, 1, &[0, 1, -2]), (3, 2, &[0, 1, -1]), (4, 1, &[0, 1, -1]), (4, 2, &[0, 1]), (5, 1, &[0, 1])] };
    for &(m, kept, v) in sizes {
        run.explore(&format!("remove-{}-of-{m}", m - kept), |d| {
            let gone = d.subset(m);
            if gone.len() != m - kept { return None; }
            let basis: Mat = (0..m).map(|j| (0..m).map(|i| if gone.contains(&j) { r((i == j) as i64) } else { r(d.of(v)) }).collect()).collect();
            if inverse(&transpose(&basis)).is_none() { return None; }
            let column = rats(&[2, 1, -1][..]);
            Some(Removal { basis, gone, invert: d.bool(), row: d.pick(kept.max(1)), column })
        }, removal);
    }
    // Small bases side by side, with rows and columns mixed and an element that ties two of them.
    run.explore("large", |d| {
        const TWO: [[[i64; 2]; 2]; 4] = [[[1, 0], [0, 2]], [[0, 1], [1, 0]], [[1, 1], [1, -1]], [[0, 3], [1, 2]]];
        const THREE: [[[i64; 3]; 3]; 5] = [[[1, 0, 0], [1, 1, 0], [0, 1, 1]], [[0, 0, 1], [1, 0, 0], [0, 2, 0]], [[1, 1, 0], [0, 1, 1], [1, 0, 1]], [[2, 1, 1], [1, 2, 1], [1, 1, 2]], [[0, 1, 1], [1, 0, -1], [0, 0, 1]]];
        let sizes: &[usize] = d.of(&[&[2usize, 3, 3][..], &[3, 3, 3], &[2, 2, 2, 2]]);
        let m: usize = sizes.iter().sum();
        let mut c: Mat = vec![vec![Rat::ZERO; m]; m];
        let mut at = 0;
        let (two, three) = (d.pick(4), d.pick(5));
        for (k, &size) in sizes.iter().enumerate() {
            for i in 0..size { for j in 0..size {
                c[at + j][at + i] = r(if size == 2 { TWO[(two + k) % 4][i][j] } else { THREE[(three + k) % 5][i][j] });
            } }
            at += size;
        }
        // Ties between the parts.
        match d.pick(if t { 4 } else { 3 }) { 0 => {}, 1 => c[m - 1][0] = r(1), 2 => { c[0][m - 1] = r(-1); c[3][0] = r(2); } _ => for j in 0..m { c[j][4] = r(1 + j as i64); } }
        let mixed = |way: usize| -> Vec<usize> { let mut v: Vec<usize> = (0..m).collect(); match way { 0 => {}, 1 => v.reverse(), 2 => v.rotate_left(3), _ => v.sort_by_key(|i| (i * 3 % m, *i)) } v };
        let few: &[usize] = if t { &[0, 1, 2, 3] } else { &[0, 2, 3] };
        let (rows, cols) = (mixed(d.of(if t { few } else { &few[1..] })), mixed(d.of(few)));
        let c: Mat = cols.iter().map(|&j| rows.iter().map(|&i| c[j][i]).collect()).collect();
        if inverse(&transpose(&c)).is_none() { return None; }
        let alphabet = vec![(0..m).map(|k| r((k % 3) as i64)).collect(), (0..m).map(|k| r((k == 4) as i64 - (k == 1) as i64)).collect()];
        let ops = vec![(d.pick(m), 0), (d.of(if t { &[0, 1, 2, 3, 4, 5, 6, 7][..] } else { &[1, 6] }), 1)];
        Some(History { start: Some(c), alphabet, ops, repeat: 1 })
    }, history);
    for (m, width) in if t { [(2, 3), (3, 3), (4, 2), (5, 2)] } else { [(2, 2), (3, 2), (4, 1), (5, 1)] } {
        let a = alphabet(m, false);
        run.explore(&format!("long-{m}"), |d| {
            let w = 1 + d.pick(width);
            let ops = draw_ops(d, m, a.len(), w + 1);
            Some(History { start: None, alphabet: a.clone(), ops, repeat: 36 })
        }, history);
    }
}

// ---------------------------------------------------------------- P07, P08

thread_local! { static LP: RefCell<Option<Rc<Lp>>> = const { RefCell::new(None) }; }

/// Compare everything a tableau can be asked with the definition of that quantity. Returns the
/// basis, by row.
fn inspect<IM, K>(tab: &Tableau<IM, K>, lp: &Lp) -> Result<Vec<usize>, String>
where IM: InverseMaintainer<F = RB>, K: Kind, RB: ops::Column<<K::Column as Column>::F> + ops::Cost<K::Cost> {
    let (m, n) = (lp.rows.len(), lp.vars.len());
    if tab.nr_rows() != m || tab.nr_columns() != n { return Err(format!("tableau has size {}x{} instead of {m}x{n}", tab.nr_rows(), tab.nr_columns())); }
    let mut basis = vec![usize::MAX; m];
    let mut columns = vec![];
    for j in 0..n {
        let g = ordered(tab.generate_column(j).column(), m)?;
        for i in 0..m {
            let e = tab.generate_element(i, j).map_or(Rat::ZERO, |v| Rat::of(&v));
            if e != g[i] { return Err(format!("element ({i}, {j}) is {e}, the column says {}", g[i])); }
        }
        let original = tab.original_column(j);
        let mut a = vec![Rat::ZERO; m];
        for (i, v) in original.iter() { a[i] = Rat::of(v); }
        if (0..m).any(|i| a[i] != lp.rows[i].a[j]) { return Err(format!("original column {j} is {a:?}")); }
        if tab.is_in_basis(j) {
            let at: Vec<usize> = (0..m).filter(|&i| !g[i].is_zero()).collect();
            if at.len() != 1 || g[at[0]] != Rat::ONE { return Err(format!("basic column {j} is generated as {g:?}")); }
            if basis[at[0]] != usize::MAX { return Err(format!("columns {} and {j} are both basic in row {}", basis[at[0]], at[0])); }
            basis[at[0]] = j;
        }
        columns.push(g);
    }
    if basis.contains(&usize::MAX) { return Err(format!("the basis {basis:?} is not complete")); }
    let col = |j: usize| -> Vec<Rat> { lp.rows.iter().map(|r| r.a[j]).collect() };
    let b: Mat = basis.iter().map(|&j| col(j)).collect();
    let inv = inverse(&transpose(&b)).ok_or_else(|| format!("the basis {basis:?} is singular"))?;
    let x_b = mul_left(&inv, &lp.rows.iter().map(|r| r.b).collect::<Vec<_>>());
    let mut x = vec![Rat::ZERO; n];
    for (i, &j) in basis.iter().enumerate() { x[j] = x_b[i]; }
    for j in 0..n {
        let want = mul_left(&inv, &col(j));
        if columns[j] != want { return Err(format!("with basis {basis:?}, column {j} is generated as {:?} instead of {want:?}", columns[j])); }
        let d = basis.iter().zip(&want).fold(lp.vars[j].cost, |s, (&k, w)| s - lp.vars[k].cost * *w);
        let got = Rat::of(&tab.relative_cost(j));
        if got != d { return Err(format!("with basis {basis:?}, relative cost of column {j} is {got} instead of {d}")); }
        let got = Rat::of(&tab.variable_value(j));
        if got != x[j] { return Err(format!("with basis {basis:?}, variable {j} has value {got} instead of {}", x[j])); }
    }
    let bfs = ordered(&tab.current_bfs(), n)?;
    if bfs != x { return Err(format!("with basis {basis:?}, the basic solution is {bfs:?} instead of {x:?}")); }
    let o = Rat::of(&tab.objective_function_value());
    let want = (0..n).fold(Rat::ZERO, |s, j| s + lp.vars[j].cost * x[j]);
    if o != want { return Err(format!("with basis {basis:?}, the objective is {o} instead of {want}")); }
    Ok(basis)
}
/// All feasible bases, as sorted column lists.
fn bases(lp: &Lp) -> Vec<Vec<usize>> {
    let (m, n) = (lp.rows.len(), lp.vars.len());
    let mut out = vec![];
    let mut sel: Vec<usize> = (0..m).collect();
    if m > n { return out; }
    loop {
        let b: Mat = sel.iter().map(|&j| lp.rows.iter().map(|r| r.a[j]).collect()).collect();
        if let Some(inv) = inverse(&transpose(&b)) {
            if mul_left(&inv, &lp.rows.iter().map(|r| r.b).collect::<Vec<_>>()).iter().all(|v| !v.is_neg()) { out.push(sel.clone()); }
        }
        let Some(k) = (0..m).rev().find(|&k| sel[k] < n - m + k) else { return out };
        sel[k] += 1;
        for l in k + 1..m { sel[l] = sel[l - 1] + 1; }
    }
}
fn at_basis<'a, IM: InverseMaintainer<F = RB>, MP: MatrixProvider<Column = C, Rhs = RB>, C: Column<F = RB>>(p: &'a MP, basis: &[usize]) -> Tableau<IM, NonArtificial<'a, MP>>
where RB: ops::Cost<MP::Cost<'a>> {
    Tableau::new_with_inverse_maintainer(p, IM::from_basis(basis, p), basis.iter().copied().collect())
}
/// From every feasible basis, bring in every column with negative relative cost: the state graph of
/// the simplex method whatever the pivot rule.
fn graph<IM: InverseMaintainer<F = RB>, MP, C>(p: &MP, lp: &Lp, truth: Verdict, t: &mut Tally) -> Result<(), String>
where MP: MatrixProvider<Column = C, Rhs = RB>, C: Column<F = RB>, for<'a> RB: ops::Cost<MP::Cost<'a>> {
    let all = bases(lp);
    let text = lp.to_string();
    let (n, m) = (lp.vars.len(), lp.rows.len());
    for start in &all {
        let tab = at_basis::<IM, _, _>(p, start);
        let basis = inspect(&tab, lp)?;
        t.state(&(&text, start));
        let x = dense(&tab.current_bfs());
        let value = Rat::of(&tab.objective_function_value());
        let mut profitable = 0;
        for j in (0..n).filter(|&j| !tab.is_in_basis(j)) {
            let cost = tab.relative_cost(j);
            if !Rat::of(&cost).is_neg() { continue; }
            profitable += 1;
            let mut tab = at_basis::<IM, _, _>(p, start);
            let info = tab.generate_column(j);
            let w = dense(info.column());
            let ratio = |i: usize| x[basis[i]] / w[i];
            let best = (0..m).filter(|&i| w[i].is_pos()).map(ratio).min();
            let row = tab.select_primal_pivot_row(info.column());
            match (row, best) {
                (None, None) => {
                    if truth != Verdict::Unbounded { return Err(format!("from basis {start:?}, column {j} is an improving ray, but the program is {truth:?}")); }
                    continue;
                }
                (Some(i), Some(b)) if w[i].is_pos() && ratio(i) == b => {}
                _ => return Err(format!("from basis {start:?} with column {j} = {w:?} entering, pivot row {row:?} does not have the least ratio {best:?}")),
            }
            let row = row.unwrap();
            let leaving = basis[row];
            // Among ties, Bland's rule.
            if (0..m).any(|i| w[i].is_pos() && ratio(i) == best.unwrap() && basis[i] < leaving) {
                return Err(format!("from basis {start:?} with column {j} entering, row {row} with variable {leaving} leaves although an earlier variable ties"));
            }
            let change = tab.bring_into_basis(j, row, info, cost);
            if change.leaving_column_index != leaving { return Err(format!("from basis {start:?}, column {} is said to leave instead of {leaving}", change.leaving_column_index)); }
            let mut next = inspect(&tab, lp).map_err(|e| format!("from basis {start:?}, column {j} entering in row {row}: {e}"))?;
            let mut want = basis.clone();
            want[row] = j;
            if next != want { return Err(format!("from basis {basis:?}, column {j} entering in row {row}: the basis is {next:?}")); }
            if Rat::of(&tab.objective_function_value()) > value { return Err(format!("from basis {start:?}, column {j} entering makes the objective worse")); }
            next.sort();
            if !all.contains(&next) { return Err(format!("from basis {start:?}, column {j} entering in row {row}: the basis {next:?} is not feasible")); }
            t.steps(1);
        }
        if profitable == 0 && truth != Verdict::Opt(value) { return Err(format!("basis {start:?} has no improving column and value {value}, but the program is {truth:?}")); }
        if profitable > 1 { t.outcome("states with several improving columns"); }
    }
    if all.len() > 1 { t.nontrivial += 1; }
    t.outcome(format!("{} feasible bases", if all.len() > 9 { 10 } else { all.len() }));
    t.compared();
    Ok(())
}

/// Watches a pivot rule during a real run of the second phase.
struct Watch<R> { inner: R }
thread_local! { static RULE: RefCell<(usize, usize)> = const { RefCell::new((0, 0)) }; }
impl<R: PivotRule<RB>> PivotRule<RB> for Watch<R> {
    fn new<IM, K>(tab: &Tableau<IM, K>) -> Self where IM: InverseMaintainer<F = RB>, K: Kind, RB: ops::Column<<K::Column as Column>::F> + ops::Cost<K::Cost> {
        Watch { inner: R::new(tab) }
    }
    fn select_primal_pivot_column<IM, K>(&mut self, tab: &Tableau<IM, K>) -> Option<(usize, RB)>
    where IM: InverseMaintainer<F = RB>, K: Kind, RB: ops::Column<<K::Column as Column>::F> + ops::Cost<K::Cost> {
        let lp = LP.with(|l| l.borrow().clone().unwrap());
        let basis = inspect(tab, &lp).unwrap_or_else(|e| panic!("watch: {e}"));
        let costs: Vec<(usize, Rat)> = (0..lp.vars.len()).filter(|j| !basis.contains(j)).map(|j| (j, Rat::of(&tab.relative_cost(j)))).filter(|c| c.1.is_neg()).collect();
        let chosen = self.inner.select_primal_pivot_column(tab);
        let Some((j, cost)) = &chosen else {
            assert!(costs.is_empty(), "watch: with basis {basis:?} no column is chosen, but {costs:?} improve");
            return chosen;
        };
        let (j, cost) = (*j, Rat::of(cost));
        assert!(costs.contains(&(j, cost)), "watch: with basis {basis:?} column {j} is chosen with relative cost {cost}, improving are {costs:?}");
        let (kind, last) = RULE.with(|r| { let mut r = r.borrow_mut(); let was = r.1; r.1 = j + 1; (r.0, was) });
        // After a degenerate step the rules that could cycle fall back on the first one.
        let stuck = last > 0 && Rat::of(&tab.variable_value(last - 1)).is_zero();
        match if stuck && (kind == 1 || kind == 2) && costs[0].0 == j { 0 } else { kind } {
            0 => assert!(costs[0].0 == j, "watch: column {j} is not the first improving one of {costs:?}"),
            1 => {
                // The first one after the last one, cyclically.
                let want = costs.iter().find(|c| c.0 + 1 > last).unwrap_or(&costs[0]);
                assert!(want.0 == j, "watch: column {j} is not the first improving one of {costs:?} from {last}");
            }
            2 => assert!(costs.iter().all(|c| c.1 >= cost), "watch: column {j} with relative cost {cost} is not the most negative of {costs:?}"),
            _ => {
                let steep = |j: usize, d: Rat| d * d / dense(tab.generate_column(j).column()).iter().fold(Rat::ONE, |s, v| s + *v * *v);
                assert!(costs.iter().all(|c| steep(c.0, c.1) <= steep(j, cost)), "watch: column {j} is not the steepest of {costs:?}");
            }
        }
        chosen
    }
    fn after_basis_update<IM, K>(&mut self, info: BasisChangeComputationInfo<RB>, tab: &Tableau<IM, K>)
    where IM: InverseMaintainer<F = RB>, K: Kind, RB: ops::Column<<K::Column as Column>::F> + ops::Cost<K::Cost> {
        self.inner.after_basis_update(info, tab)
    }
}
/// Run the second phase with a rule from a given basis.
fn phase_two_from<'a, IM, MP, C>(p: &'a MP, start: &[usize], rule: usize, watch: bool) -> O<RB>
where IM: InverseMaintainer<F = RB>, MP: MatrixProvider<Column = C, Rhs = RB>, C: Column<F = RB>, RB: ops::Cost<MP::Cost<'a>> {
    let mut tab = at_basis::<IM, _, _>(p, start);
    RULE.with(|r| *r.borrow_mut() = (rule, 0));
    match (rule, watch) {
        (0, true) => phase_two::primal::<_, _, Watch<FirstProfitable>>(&mut tab),
        (1, true) => phase_two::primal::<_, _, Watch<FirstProfitableWithMemory>>(&mut tab),
        (2, true) => phase_two::primal::<_, _, Watch<SteepestDescentAlongVariable>>(&mut tab),
        (_, true) => phase_two::primal::<_, _, Watch<SteepestDescentAlongObjective<RB>>>(&mut tab),
        (0, _) => phase_two::primal::<_, _, FirstProfitable>(&mut tab),
        (1, _) => phase_two::primal::<_, _, FirstProfitableWithMemory>(&mut tab),
        (2, _) => phase_two::primal::<_, _, SteepestDescentAlongVariable>(&mut tab),
        _ => phase_two::primal::<_, _, SteepestDescentAlongObjective<RB>>(&mut tab),
    }
}
const RULES: [&str; 4] = ["first profitable", "first profitable with memory", "steepest along variable", "steepest along objective"];
fn rules<IM, MP, C>(p: &MP, lp: &Lp, truth: Verdict, watch: bool, t: &mut Tally) -> Result<(), String>
where IM: InverseMaintainer<F = RB>, MP: MatrixProvider<Column = C, Rhs = RB>, C: Column<F = RB>, for<'a> RB: ops::Cost<MP::Cost<'a>> {
    LP.with(|l| *l.borrow_mut() = Some(Rc::new(lp.clone())));
    let text = lp.to_string();
    for start in bases(lp) {
        for rule in 0..4 {
            let (out, log) = spy::logged(watch, || mc::guarded(|| phase_two_from::<IM, _, _>(p, &start, rule, watch)));
            let out = out.map_err(|e| format!("{} from basis {start:?}: {e}", RULES[rule]))?;
            lp.judge(&reduced(&out), truth).map_err(|e| format!("{} from basis {start:?}: {e}", RULES[rule]))?;
            t.trace(&text, &log.pivots);
            if log.pivots.len() > 1 { t.nontrivial += 1; }
            t.outcome(format!("{} pivots", if log.pivots.len() > 5 { 6 } else { log.pivots.len() }));
        }
    }
    t.compared();
    Ok(())
}
/// Equality form, with the slacks written out and rows of negative right-hand side negated.
fn equality_form(lp: &Lp) -> Lp {
    let slacks: Vec<usize> = (0..lp.rows.len()).filter(|&i| !matches!(lp.rows[i].rel, Rel::Eq)).collect();
    let mut vars = lp.vars.clone();
    vars.extend(slacks.iter().map(|_| var(0, POS)));
    let rows = lp.rows.iter().enumerate().map(|(i, row)| {
        let mut a = row.a.clone();
        a.extend(slacks.iter().map(|&k| if k != i { r(0) } else if matches!(row.rel, Rel::Le) { r(1) } else { r(-1) }));
        if row.b.is_neg() { Row { a: a.iter().map(|v| -*v).collect(), rel: Rel::Eq, b: -row.b } } else { Row { a, rel: Rel::Eq, b: row.b } }
    }).collect();
    Lp { max: false, fixed: r(0), rows, vars }
}
fn full_rank(lp: &Lp) -> bool { rank(lp.rows.iter().map(|r| r.a.clone()).collect()) == lp.rows.len() }
fn plain_case(lp: &Lp, f: impl Fn(&Plain, &Lp, Verdict, &mut Tally) -> Result<(), String>, t: &mut Tally) -> Result<(), String> {
    f(&Plain::new(lp), lp, lp.solve(), t)
}
fn le<'a>(n: usize, m: usize) -> Grid<'a> {
    Grid { n, m, coef: &[0, 1, -1], b: &[0, 1], cost: &[-1, 1], bounds: &[POS], kinds: &[LE], unordered: true, max: &[false], fixed: 0 }
}
fn p07(run: &mut Run) {
    run.rule = "the real two-phase method on every program of the listed grids, with every basis change of both phases and both representations intercepted: right-hand side, objective, relative costs, generated columns, work vector and inverse row are compared with their definition; and the same for tableaus created from every feasible basis in every row order; and larger programs made by putting up to three (quick) parts of a library side by side, or two parts in turns many times over, in four arrangements and with five kinds of rows tying them together, whose truth follows from the parts".into();
    let t = run.thorough;
    let solve = |lp: &Lp, t: &mut Tally| -> Result<(), String> { solved(lp, lp.solve(), t) };
    fn solved(lp: &Lp, truth: Verdict, t: &mut Tally) -> Result<(), String> {
        let s = Standard::new(lp);
        let d = s.data();
        for i in 0..2 {
            let (res, log) = spy::logged(true, || mc::guarded(|| if i == 0 { d.solve_relaxation::<SpyRows>() } else { d.solve_relaxation::<SpyLu>() }));
            let out = match res? { O::FiniteOptimum(v) => O::FiniteOptimum(d.reconstruct_solution(v)), o => o };
            lp.judge(&reduced(&out), truth)?;
            t.trace(&lp.to_string(), &log.pivots);
            for _ in 0..log.compared { t.compared(); }
            if log.pivots.len() > 1 { t.nontrivial += 1; }
            for m in log.made { t.outcome(m.split(", rows").next().unwrap()); }
        }
        Ok(())
    }
    let g = Grid { cost: &[1, -1], coef: if t { &[0, 1, -1, 2] } else { &[0, 1, -1] }, ..Grid::standard(2, 2) };
    run.explore("2x2", |d| g.draw(d, true), solve);
    let g = Grid { coef: &[0, 1, 2], b: &[0, 2], cost: &[1, -1], bounds: &[POS], kinds: &[EQ, LE], unordered: true, ..Grid::standard(3, 2) };
    run.explore("3x2", |d| g.draw(d, true), solve);
    if t {
        let g = Grid { cost: &[1], bounds: &[UNIT], kinds: &[EQ, RG, GE], ..Grid::standard(2, 3) };
        run.explore("2x3", |d| g.draw(d, true), solve);
    }
    let g = Grid { coef: &[0, 1], b: &[0, 1], cost: &[-1], bounds: &[POS, UNIT], kinds: &[EQ, LE], unordered: true, ..Grid::standard(3, 3) };
    run.explore("3x3", |d| g.draw(d, true), solve);
    run.explore("transport-2x3", |d| {
        let shapes: [(&[i64], &[i64]); 3] = [(&[1, 1], &[1, 1, 0]), (&[2, 1], &[1, 1, 1]), (&[3, 3], &[2, 2, 2])];
        let (s, u) = d.of(&shapes);
        let c: Vec<i64> = (0..6).map(|_| d.of(&[0i64, 2])).collect();
        Some(transport(s, u, &c, d.of(&[None, Some(1)])))
    }, solve);
    // Larger programs, made of small ones.
    let all = plain_parts();
    let truths: Vec<Verdict> = all.iter().map(Lp::solve).collect();
    run.explore("blocks", |d| draw_blocks(d, &all, &truths, if t { 4 } else { 3 }, false).and_then(sorted), |b, t| solved(&b.lp, b.truth, t));
    run.explore("blocks-in-turns", |d| draw_blocks(d, &all, &truths, if t { 16 } else { 8 }, true).and_then(sorted), |b, t| solved(&b.lp, b.truth, t));
    // Past the refactorisation threshold.
    run.explore("long", |d| {
        let n = 33;
        let k = d.of(&[1i64, 2]);
        let rel = d.of(&[EQ, LE, GE]);
        let dense = d.bool();
        let rows = (0..n).map(|i| {
            let mut a = vec![0; n];
            a[i] = k;
            if dense && i > 0 { a[i - 1] = 1; }
            row(&a, rel, i as i64 + 1)
        }).collect();
        Some(Lp { max: false, fixed: r(0), rows, vars: (0..n).map(|_| var(if matches!(rel, Rel::Le) { -1 } else { 1 }, POS)).collect() })
    }, |lp, t| {
        // The truth is not needed: every step is compared, and the verdict follows from the last.
        let s = Standard::new(lp);
        let d = s.data();
        for i in 0..2 {
            let (res, log) = spy::logged(true, || mc::guarded(|| if i == 0 { d.solve_relaxation::<SpyRows>() } else { d.solve_relaxation::<SpyLu>() }));
            let O::FiniteOptimum(v) = res? else { return Err("no optimum found".into()) };
            let v = d.reconstruct_solution(v);
            if let Some(e) = lp.infeasibility(&dense(&v)) { return Err(e); }
            t.trace(&lp.to_string(), &log.pivots);
            for _ in 0..log.compared { t.compared(); }
            if log.pivots.len() > 30 { t.nontrivial += 1; t.outcome("more than 30 basis changes"); }
        }
        Ok(())
    });
    run.explore("bases", |d| {
        let g = Grid { coef: &[0, 1, -1, 2], b: &[0, 1], cost: &[-1, 2], bounds: &[POS], kinds: &[EQ], unordered: true, ..Grid::standard(if t { 4 } else { 3 }, 2) };
        g.draw(d, false).filter(full_rank)
    }, |lp, t| plain_case(lp, |p, lp, _, t| {
        for start in bases(lp) {
            for flip in [false, true] {
                let mut order = start.clone();
                if flip { order.reverse(); }
                let a = inspect(&at_basis::<Lu, _, _>(p, &order), lp)?;
                let b = inspect(&at_basis::<Rows, _, _>(p, &order), lp)?;
                if a != order || b != order { return Err(format!("a tableau created with basis {order:?} has basis {a:?} (lu), {b:?} (rows)")); }
                let pivots: Vec<(usize, usize)> = order.iter().enumerate().map(|(i, j)| (i, *j)).rev().collect();
                let tab = Tableau::<Lu, _>::new_with_inverse_maintainer(p, Lu::from_basis_pivots(&pivots, p), order.iter().copied().collect());
                let c = inspect(&tab, lp)?;
                if c != order { return Err(format!("a tableau created with pivots {pivots:?} has basis {c:?}")); }
                t.state(&(lp.to_string(), &order));
                t.steps(3);
            }
        }
        t.compared();
        Ok(())
    }, t));
}
fn degenerate(d: &mut Dec, n: usize, m: usize, t: bool) -> Option<Lp> {
    let g = Grid { b: if t { &[0, 1, 2] } else { &[0, 1] }, coef: if t { &[0, 1, -1, 2] } else { &[1, -1, 2] }, cost: if t { &[-1, -2, 1] } else { &[-1, 1] }, ..le(n, m) };
    g.draw(d, false).map(|l| equality_form(&l))
}
fn p08(run: &mut Run) {
    run.rule = "for every program of the listed grids, the whole state graph of the second phase: from every feasible basis every improving column is brought in with the real ratio test and basis change (whatever rule would pick it), and every tableau quantity is compared before and after; separately, each of the four pivot rules is watched during real runs from every feasible basis".into();
    let t = run.thorough;
    let step = |lp: &Lp, t: &mut Tally| plain_case(lp, |p, lp, truth, t| { graph::<Lu, _, _>(p, lp, truth, t)?; graph::<Rows, _, _>(p, lp, truth, &mut Tally::default()) }, t);
    let watch = |lp: &Lp, t: &mut Tally| plain_case(lp, |p, lp, truth, t| { rules::<SpyLu, _, _>(p, lp, truth, true, t) }, t);
    run.explore("steps-le-2x2", |d| degenerate(d, 2, 2, true), step);
    run.explore("steps-le-3x2", |d| degenerate(d, 3, 2, t), step);
    run.explore("steps-le-2x3", |d| Grid { b: &[0, 1], coef: if t { &[1, -1, 2] } else { &[1, -1] }, ..le(2, 3) }.draw(d, false).map(|l| equality_form(&l)), step);
    run.explore("steps-eq-4x2", |d| {
        let g = Grid { coef: if t { &[0, 1, -1, 2] } else { &[0, 1, -1] }, b: &[0, 1], cost: &[-1, 2], bounds: &[POS], kinds: &[EQ], unordered: true, ..Grid::standard(4, 2) };
        g.draw(d, false).filter(full_rank)
    }, step);
    run.explore("rules-le-2x2", |d| degenerate(d, 2, 2, true), watch);
    run.explore("rules-le-3x2", |d| if t { degenerate(d, 3, 2, false) } else { Grid { coef: &[1, -1], b: &[0, 1], cost: &[-1, -2, 1], ..le(3, 2) }.draw(d, false).map(|l| equality_form(&l)) }, watch);
    run.explore("rules-le-2x3", |d| Grid { coef: &[1, -1, 2], b: if t { &[0, 1] } else { &[1] }, cost: &[-1, -2], ..le(2, 3) }.draw(d, false).map(|l| equality_form(&l)), watch);
    run.explore("rules-eq-4x2", |d| {
        let g = Grid { coef: if t { &[0, 1, -1] } else { &[1, -1] }, b: &[0, 1], cost: &[-1, 2], bounds: &[POS], kinds: &[EQ], unordered: true, ..Grid::standard(4, 2) };
        g.draw(d, false).filter(full_rank)
    }, watch);
}
// ---------------------------------------------------------------- P09

/// Textbook programs on which some pivot rules cycle: cost, rows `<= b`.
fn cycling() -> Vec<(&'static str, Vec<Rat>, Vec<(Vec<Rat>, Rat)>)> {
    let q = |v: &[(i64, i64)]| v.iter().map(|(n, d)| Rat::new(*n as i128, *d as i128)).collect::<Vec<_>>();
    let w = |v: &[i64]| rats(v);
    vec![
        ("Beale", q(&[(-3, 4), (20, 1), (-1, 2), (6, 1)]), vec![(q(&[(1, 4), (-8, 1), (-1, 1), (9, 1)]), r(0)), (q(&[(1, 2), (-12, 1), (-1, 2), (3, 1)]), r(0)), (w(&[0, 0, 1, 0]), r(1))]),
        ("Chvatal", w(&[-10, 57, 9, 24]), vec![(q(&[(1, 2), (-11, 2), (-5, 2), (9, 1)]), r(0)), (q(&[(1, 2), (-3, 2), (-1, 2), (1, 1)]), r(0)), (w(&[1, 0, 0, 0]), r(1))]),
        ("Kuhn", w(&[-2, -3, 1, 12]), vec![(w(&[-2, -9, 1, 9]), r(0)), (q(&[(1, 3), (1, 1), (-1, 3), (-2, 1)]), r(0)), (w(&[2, 3, -1, -12]), r(2))]),
        ("Marshall-Suurballe", q(&[(-2, 5), (-2, 5), (9, 5)]), vec![(q(&[(3, 5), (-32, 5), (24, 5)]), r(0)), (q(&[(1, 5), (-9, 5), (3, 5)]), r(0)), (q(&[(2, 5), (-8, 5), (1, 5)]), r(0)), (w(&[0, 1, 0]), r(1))]),
        ("Marshall-Suurballe 2", q(&[(-1, 1), (7, 1), (1, 1), (2, 1)]), vec![(q(&[(1, 2), (-11, 2), (-5, 2), (9, 1)]), r(0)), (q(&[(1, 2), (-3, 2), (-1, 2), (1, 1)]), r(0)), (w(&[1, 0, 0, 0]), r(1))]),
        ("Yudin-Golshtein", w(&[-1, 1, -1, 1]), vec![(w(&[1, -2, -3, 4]), r(0)), (w(&[4, -3, -2, 1]), r(0)), (w(&[1, 1, 1, 1]), r(1))]),
        ("Solow", w(&[-2, -2, 8, 2]), vec![(w(&[-7, -3, 7, 2]), r(0)), (w(&[2, 1, -3, -1]), r(0))]),
        ("Sierksma", w(&[-3, 80, -2, 24]), vec![(w(&[1, -32, -4, 36]), r(0)), (w(&[1, -24, -1, 6]), r(0))]),
        ("Hall-McKinnon", q(&[(-3, 5), (41, 5), (1, 5), (-9, 5)]), vec![(q(&[(2, 5), (1, 5), (-7, 5), (-1, 5)]), r(0)), (q(&[(-39, 5), (-7, 5), (39, 5), (2, 5)]), r(0))]),
        ("Nering-Tucker", w(&[-2, -3, 1, 12]), vec![(w(&[-2, -9, 1, 9]), r(0)), (q(&[(1, 3), (1, 1), (-1, 3), (-2, 1)]), r(0))]),
    ]
}
/// Degenerate programs, and the basis to start from, that cycle when the first profitable column
/// enters and the tie between rows is broken wrongly: by order of rows (either way), by the highest
/// basis column, or by the smallest or largest element.
fn bland() -> Vec<(Vec<Rat>, Vec<Vec<Rat>>, Vec<usize>)> {
    let all: [(&[i64], &[&[i64]], &[usize]); 18] = [
        (&[0, -2, 0, -3, -4, -4], &[&[0, 1, 1, 3, 3, -1], &[1, 2, 0, 1, -4, 3]], &[2, 0]),
        (&[0, 3, 0, -1, -2, -2], &[&[0, 3, 1, 2, 1, 0], &[1, -1, 0, -2, 2, 1]], &[2, 0]),
        (&[0, 3, -4, 1, 0, -2], &[&[1, -2, 4, -1, 0, -3], &[0, -1, 1, -3, 1, 3]], &[0, 4]),
        (&[3, 0, -3, 2, 0, 2], &[&[1, 1, 4, -2, 0, -3], &[4, 0, 1, -1, 1, -2]], &[1, 4]),
        (&[0, 0, 3, 2, -1, -4], &[&[1, 0, -1, -4, 4, 1], &[0, 1, -3, -4, -1, 4]], &[0, 1]),
        (&[4, 0, 1, 0, -1, -3], &[&[-4, 1, -3, 0, 4, 2], &[-3, 0, -1, 1, -3, 4]], &[1, 3]),
        (&[0, 0, -2, 3, -2, 1], &[&[0, 1, 1, -2, 2, -2], &[1, 0, 3, -2, -1, -1]], &[1, 0]),
        (&[0, -1, -2, 1, 0, -2], &[&[1, 3, 3, -1, 0, -2], &[0, 1, -1, 2, 1, 3]], &[0, 4]),
        (&[2, 0, 3, 0, -2, -1], &[&[3, 1, -2, 0, 1, -3], &[2, 0, -3, 1, 3, -3]], &[1, 3]),
        (&[2, 0, 0, -2, -1, -3], &[&[2, 0, 1, 1, 2, -1], &[-1, 1, 0, 3, -2, 2]], &[2, 1]),
        (&[2, 0, 0, -1, -2, -1], &[&[-1, 1, 0, 3, -2, 1], &[2, 0, 1, 1, 3, 0]], &[1, 2]),
        (&[0, 0, 3, -2, 1, -2], &[&[1, 0, -2, 1, -3, 2], &[0, 1, -2, 2, -1, -1]], &[0, 1]),
        (&[0, 0, -2, 2, 0, -1, 1], &[&[0, 0, 1, 2, 1, 2, -2], &[0, 1, 2, -2, 0, -2, -2], &[1, 0, 0, 1, 0, 1, 2]], &[4, 1, 0]),
        (&[1, 1, 0, 0, 0, 0, -2], &[&[-1, 2, 1, 0, 0, -1, 2], &[-1, 0, 0, 0, 1, -2, 1], &[-2, 0, 0, 1, 0, -1, -2]], &[2, 4, 3]),
        (&[0, 1, -1, 0, 0, -2, 0], &[&[0, 1, 1, 1, 0, 1, -2], &[0, 0, -2, 0, 1, 1, -1], &[1, 1, 2, 0, 0, 2, -2]], &[3, 4, 0]),
        (&[0, 2, -1, 0, 0, -1, -1], &[&[0, 2, 1, 1, 0, 2, -1], &[0, 0, -2, 0, 1, -2, 1], &[1, -1, 2, 0, 0, -2, 0]], &[3, 4, 0]),
        (&[0, 0, 2, 0, 0, -2, -2], &[&[1, 0, 1, 2, 0, 1, 2], &[0, 0, 2, 1, 1, 1, -1], &[0, 1, -1, -2, 0, 2, 1]], &[0, 4, 1]),
        (&[0, 0, 0, 1, -3, -1, -1], &[&[1, 0, 0, -1, 1, 3, 0], &[0, 1, 0, 3, 3, 0, -2], &[0, 0, 1, -1, 2, -2, 1]], &[0, 1, 2]),
    ];
    all.iter().map(|(c, a, b)| (rats(c), a.iter().map(|v| rats(v)).collect(), b.to_vec())).collect()
}
fn le_program(cost: &[Rat], rows: &[(Vec<Rat>, Rat)]) -> Lp {
    Lp { max: false, fixed: r(0), vars: cost.iter().map(|c| Var { cost: *c, lo: Some(r(0)), hi: None }).collect(),
        rows: rows.iter().map(|(a, b)| Row { a: a.clone(), rel: Rel::Le, b: *b }).collect() }
}
fn permuted(lp: &Lp, cols: &[usize], rows: &[usize]) -> Lp {
    Lp { max: lp.max, fixed: lp.fixed, vars: cols.iter().map(|&j| lp.vars[j].clone()).collect(),
        rows: rows.iter().map(|&i| { let w = &lp.rows[i]; Row { a: cols.iter().map(|&j| w.a[j]).collect(), rel: w.rel, b: w.b } }).collect() }
}
struct Started { lp: Lp, start: Vec<usize> }
impl fmt::Display for Started { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{} from basis {:?}", self.lp, self.start) } }
/// All rules from one basis; a run that keeps returning to the same bases is stopped by the spy.
fn terminate(c: &Started, truth: Verdict, t: &mut Tally) -> Result<(), String> {
    let p = Plain::new(&c.lp);
    let text = c.to_string();
    for rule in 0..4 {
        let (out, log) = spy::logged(false, || mc::guarded(|| phase_two_from::<SpyLu, _, _>(&p, &c.start, rule, false)));
        let out = out.map_err(|e| format!("rule {}: {e}", RULES[rule]))?;
        c.lp.judge(&reduced(&out), truth).map_err(|e| format!("rule {}: {e}", RULES[rule]))?;
        t.trace(&text, &log.pivots);
        if log.pivots.len() > 2 { t.nontrivial += 1; }
        t.outcome(format!("{} pivots", if log.pivots.len() > 8 { 9 } else { log.pivots.len() }));
    }
    t.compared();
    Ok(())
}
fn p09(run: &mut Run) {
    run.rule = "every pivot rule from the slack basis of every degenerate program of the listed grids, and from every feasible basis of textbook cycling programs under every permutation of columns and rows; the sequence of bases visited is followed, and a run that keeps returning to the same basis is a violation".into();
    let t = run.thorough;
    let slack_start = |lp: &Lp, n: usize| (n..n + lp.rows.len()).collect::<Vec<usize>>();
    run.explore("textbook", |d| {
        let all = cycling();
        let (_, cost, rows) = &all[d.pick(all.len())];
        let lp = equality_form(&le_program(cost, rows));
        let n = lp.vars.len();
        let cols = d.permutation(n);
        let order = if t { d.permutation(lp.rows.len()) } else { (0..lp.rows.len()).collect() };
        let start: Vec<usize> = (0..rows.len()).map(|i| cols.iter().position(|&j| j == cost.len() + order[i]).unwrap()).collect();
        Some(Started { lp: permuted(&lp, &cols, &order), start })
    }, |c, t| terminate(c, c.lp.solve(), t));
    run.explore("textbook-bases", |d| {
        let all = cycling();
        let (_, cost, rows) = &all[d.pick(all.len())];
        let lp = equality_form(&le_program(cost, rows));
        let cols = d.permutation(cost.len());
        let cols: Vec<usize> = cols.into_iter().chain(cost.len()..lp.vars.len()).collect();
        let lp = permuted(&lp, &cols, &(0..rows.len()).collect::<Vec<_>>());
        let b = bases(&lp);
        let start = b[d.pick(b.len())].clone();
        Some(Started { lp, start })
    }, |c, t| terminate(c, c.lp.solve(), t));
    run.explore("textbook-whole", |d| {
        let all = cycling();
        let (_, cost, rows) = &all[d.pick(all.len())];
        let lp = le_program(cost, rows);
        Some(permuted(&lp, &d.permutation(cost.len()), &d.permutation(rows.len())))
    }, |lp, t| {
        let s = Standard::new(lp);
        let d = s.data();
        let truth = lp.solve();
        let (res, log) = spy::logged(false, || mc::guarded(|| d.solve_relaxation::<SpyLu>()));
        let out = match res? { O::FiniteOptimum(v) => O::FiniteOptimum(d.reconstruct_solution(v)), o => o };
        lp.judge(&reduced(&out), truth)?;
        t.trace(&lp.to_string(), &log.pivots);
        t.compared();
        Ok(())
    });
    // With a guard row that is never tight on the way: the objective is at least -1.
    run.explore("bland", |d| {
        let all = bland();
        let (cost, rows, start) = &all[d.pick(all.len())];
        let (m, n) = (rows.len(), cost.len());
        let order = d.permutation(m);
        let mut rows: Vec<Row> = order.iter().map(|&i| Row { a: rows[i].clone(), rel: Rel::Eq, b: r(0) }).collect();
        let mut start: Vec<usize> = order.iter().map(|&i| start[i]).collect();
        let mut vars: Vec<Var> = cost.iter().map(|c| Var { cost: *c, lo: Some(r(0)), hi: None }).collect();
        if d.bool() {
            let (at, col) = (d.pick(m + 1), d.pick(n + 1));
            rows.insert(at, Row { a: cost.iter().map(|c| -*c).collect(), rel: Rel::Eq, b: r(1) });
            for (i, row) in rows.iter_mut().enumerate() { row.a.insert(col, r((i == at) as i64)); }
            for j in &mut start { if *j >= col { *j += 1; } }
            start.insert(at, col);
            vars.insert(col, var(0, POS));
        }
        Some(Started { lp: Lp { max: false, fixed: r(0), rows, vars }, start })
    }, |c, t| terminate(c, c.lp.solve(), t));
    // Fully degenerate: every basis is the origin. Truth: a cone is bounded iff the dual is feasible.
    let cone = |n: usize, coef: &'static [i64], costs: &'static [i64], m: usize| move |d: &mut Dec| {
        let cost: Vec<Rat> = (0..n).map(|_| r(d.of(costs))).collect();
        let rows: Vec<(Vec<Rat>, Rat)> = (0..m).map(|_| ((0..n).map(|_| r(d.of(coef))).collect(), r(0))).collect();
        let lp = equality_form(&le_program(&cost, &rows));
        let start = slack_start(&lp, n);
        Some(Started { lp, start })
    };
    run.explore("cone-3x2", cone(3, if t { &[1, -1, 2, -2, 3, -3] } else { &[1, -1, 2, -2] }, if t { &[-1, -2, 1, 2] } else { &[-1, -2, 1] }, 2), |c, t| terminate(c, c.lp.solve(), t));
    run.explore("cone-4x2", cone(4, if t { &[1, -1, 2, -2] } else { &[1, -2] }, &[-1, -2, 1], 2), |c, t| terminate(c, c.lp.solve(), t));
    // Bases that are images of each other: the tableau is (I, M, M^2, ...) with M of finite order, and
    // the costs are such that moving from one block to the next gives the same situation again.
    for (order, trace, blocks) in [(3, -1, 3), (4, 0, 4), (6, 1, 6)] {
        run.explore(&format!("circulant-{order}"), |d| {
            let (width, wide) = if t { (21, 25) } else { (9, 13) };
            let a = Rat::new(d.pick(width) as i128 - width as i128 / 2, if t { d.of(&[1, 2]) } else { 2 });
            let b = Rat::new(d.pick(wide) as i128 - wide as i128 / 2, if t { d.of(&[1, 3]) } else { 1 });
            if b.is_zero() { return None; }
            let w = [r(d.pick(7) as i64 - 3), r(d.pick(wide) as i64 - wide as i64 / 2)];
            let e = r(trace) - a;
            let m = [[a, b], [(a * e - r(1)) / b, e]];
            let mut cols: Vec<[Rat; 3]> = vec![[r(0), r(1), r(0)], [r(0), r(0), r(1)]];
            for _ in 1..blocks {
                // The next block is the last times m, its costs w plus the last's times m.
                let k = cols.len() - 2;
                for j in 0..2 {
                    let f = |i: usize| cols[k][i] * m[0][j] + cols[k + 1][i] * m[1][j];
                    let next = [w[j] + f(0), f(1), f(2)];
                    cols.push(next);
                }
            }
            let lp = Lp { max: false, fixed: r(0), vars: cols.iter().map(|c| Var { cost: c[0], lo: Some(r(0)), hi: None }).collect(),
                rows: (1..3).map(|i| Row { a: cols.iter().map(|c| c[i]).collect(), rel: Rel::Eq, b: r(0) }).collect() };
            Some(Started { lp, start: vec![0, 1] })
        }, |c, t| {
            // A cone: the only value is 0, and it is optimal iff some multiplier prices all columns.
            let cols: Vec<[Rat; 3]> = (0..c.lp.vars.len()).map(|j| [c.lp.vars[j].cost, c.lp.rows[0].a[j], c.lp.rows[1].a[j]]).collect();
            let dual = Lp { max: false, fixed: r(0), vars: vec![Var { cost: r(0), lo: None, hi: None }; 2],
                rows: cols.iter().map(|c| Row { a: vec![c[1], c[2]], rel: Rel::Le, b: c[0] }).collect() };
            let truth = if dual.solve() == Verdict::Infeasible { Verdict::Unbounded } else { Verdict::Opt(r(0)) };
            terminate(c, truth, t)
        });
    }
    run.explore("cone-3x3", cone(3, if t { &[1, -1, 2] } else { &[1, -1] }, &[-1, -2, 1], 3), |c, t| terminate(c, c.lp.solve(), t));
}
// ---------------------------------------------------------------- P10

/// An equality-form program with unit columns that are offered as initial basis: (row, column).
struct Offered { lp: Lp, pivots: Vec<(usize, usize)>, way: usize }
impl fmt::Display for Offered {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{} with initial basis {:?} ({})", self.lp, self.pivots, ["none", "partial", "full"][self.way]) }
}
/// What the first phase hands over, against the program itself.
fn phase_one<IM, MP, C>(p: &MP, lp: &Lp, offered: usize, feasible: bool, t: &mut Tally) -> Result<(), String>
where IM: InverseMaintainer<F = RB>, MP: MatrixProvider<Column = C, Rhs = RB>, C: Column<F = RB> + Identity + IntoFilteredColumn<Filtered = C>, for<'a> RB: ops::Cost<MP::Cost<'a>> {
    let (m, n) = (lp.rows.len(), lp.vars.len());
    let (out, log) = spy::logged(true, || mc::guarded(|| p.compute_bfs_giving_im::<IM>()));
    let out = out?;
    t.trace(&lp.to_string(), &log.pivots);
    if log.pivots.len() > 1 { t.nontrivial += 1; }
    for _ in 0..log.compared { t.compared(); }
    let RankedFeasibilityResult::Feasible { rank: claimed, nr_artificial_variables: k, inverse_maintainer: im, basis } = out else {
        if feasible { return Err("reported infeasible, but it is feasible".into()); }
        t.outcome("infeasible");
        return Ok(());
    };
    if !feasible { return Err("reported feasible, but it is infeasible".into()); }
    if k != m - offered { return Err(format!("{k} artificial variables for {m} rows, {offered} of which have an initial basis column")); }
    if let Some(e) = log.pivots.iter().find(|e| e.1 < k) { return Err(format!("artificial variable {} entered the basis", e.1)); }
    let by_row: Vec<usize> = (0..m).map(|i| im.basis_column_index_for_row(i)).collect();
    let mut a = by_row.clone();
    let mut b: Vec<usize> = basis.iter().copied().collect();
    a.sort(); b.sort();
    if a != b { return Err(format!("the basis is said to be {b:?}, by row it is {by_row:?}")); }
    let gone = match claimed { Rank::Full => vec![], Rank::Deficient(rows) => rows };
    let true_rank = rank(lp.rows.iter().map(|r| r.a.clone()).collect());
    if gone.len() != m - true_rank { return Err(format!("rows {gone:?} are called redundant, but the rank is {true_rank} of {m}")); }
    if !gone.windows(2).all(|w| w[0] < w[1]) || gone.iter().any(|&i| i >= m) { return Err(format!("the redundant rows {gone:?} are not a sorted list of rows")); }
    let kept = Lp { rows: (0..m).filter(|i| !gone.contains(i)).map(|i| lp.rows[i].clone()).collect(), ..lp.clone() };
    if rank(kept.rows.iter().map(|r| r.a.clone()).collect()) != true_rank { return Err(format!("without rows {gone:?} the rank is lower")); }
    if gone.is_empty() { t.outcome("full rank"); } else { t.outcome(format!("{} redundant rows", gone.len())); }
    let x = if gone.is_empty() {
        let tab = Tableau::<_, NonArtificial<_>>::from_artificial(im, k, basis, p);
        inspect(&tab, &kept)?;
        dense(&tab.current_bfs())
    } else {
        let view = RemoveRows::new(p, gone.clone());
        let tab = Tableau::<_, NonArtificial<_>>::from_artificial_removing_rows(im, k, basis, &view);
        inspect(&tab, &kept)?;
        dense(&tab.current_bfs())
    };
    if x.len() != n { return Err("wrong number of values".into()); }
    match lp.infeasibility(&x) { None => Ok(()), Some(e) => Err(format!("the initial basic solution {x:?} is not feasible: {e}")) }
}
fn hand_over(c: &Offered, t: &mut Tally) -> Result<(), String> {
    let lp = &c.lp;
    let feasible = !basic_feasible(&lp.rows, lp.vars.len()).is_empty();
    let truth = lp.solve();
    if feasible != (truth != Verdict::Infeasible) { return Err("engine: the two oracles disagree".into()); }
    hand_over_against(c, truth, t)
}
fn hand_over_against(c: &Offered, truth: Verdict, t: &mut Tally) -> Result<(), String> {
    let lp = &c.lp;
    let feasible = truth != Verdict::Infeasible;
    let p = Plain::new(lp);
    macro_rules! both { ($p:expr, $phase:expr) => {{
        let p = $p;
        for i in 0..2 {
            let name = ["lu", "rows"][i];
            if $phase {
                if i == 0 { phase_one::<SpyLu, _, _>(&p, lp, c.pivots.len(), feasible, t) } else { phase_one::<SpyRows, _, _>(&p, lp, c.pivots.len(), feasible, t) }.map_err(|e| format!("{name}: {e}"))?;
            }
            let (out, log) = spy::logged(true, || mc::guarded(|| if i == 0 { p.solve_relaxation::<SpyLu>() } else { p.solve_relaxation::<SpyRows>() }));
            lp.judge(&reduced(&out.map_err(|e| format!("{name}: {e}"))?), truth).map_err(|e| format!("{name}: {e}"))?;
            t.steps(log.pivots.len());
            t.compared();
        }
    }} }
    match c.way { 0 => both!(p, true), 1 => both!(Partial(p, c.pivots.clone()), true), _ => both!(Full(p, c.pivots.clone()), false) }
    Ok(())
}
/// Add a unit column for each listed row and shuffle the columns.
fn offer(d: &mut Dec, lp: Lp, rows: &[usize], cost: &[i64], shuffle: bool) -> (Lp, Vec<(usize, usize)>) {
    let n = lp.vars.len();
    let mut wide = lp;
    for &i in rows {
        for (k, r) in wide.rows.iter_mut().enumerate() { r.a.push(if k == i { Rat::ONE } else { Rat::ZERO }); }
        wide.vars.push(var(d.of(cost), POS));
    }
    let total = n + rows.len();
    let cols = if shuffle { d.permutation(total) } else { (0..total).collect() };
    let m = wide.rows.len();
    let pivots = rows.iter().enumerate().map(|(k, &i)| (i, cols.iter().position(|&j| j == n + k).unwrap())).collect();
    (permuted(&wide, &cols, &(0..m).collect::<Vec<_>>()), pivots)
}
fn p10(run: &mut Run) {
    run.rule = "the real first phase on every equality-form program of the listed grids (rank-deficient ones included), without an initial basis, with every subset of rows offering a unit column in every column order, and with a complete initial basis in every row order; verdict, rank, redundant rows, artificial variables, the basis handed over and the tableau built from it are compared with the program itself; and larger programs made by putting up to three (quick) parts of a library side by side, or two parts in turns many times over, in four arrangements whose truth follows from the parts".into();
    let t = run.thorough;
    let eq = |n: usize, m: usize, coef: &'static [i64], b: &'static [i64], unordered: bool| Grid { coef, b, cost: &[1], bounds: &[POS], kinds: &[EQ], unordered, ..Grid::standard(n, m) };
    for (name, g) in [
        ("none-2x2", eq(2, 2, &[0, 1, -1, 2], &[0, 1, 2], false)),
        ("none-2x3", eq(2, 3, if t { &[0, 1, -1, 2] } else { &[0, 1, -1] }, &[0, 1], false)),
        ("none-3x2", eq(3, 2, &[0, 1, -1, 2], &[0, 1], false)),
        ("none-3x3", eq(3, 3, &[0, 1, -1], &[0, 1], !t)),
        ("none-4x3", eq(4, 3, &[0, 1], &[0, 1], !t)),
        ("none-2x4", eq(2, 4, &[0, 1, -1], &[0, 1], !t)),
    ] { run.explore(name, |d| g.draw(d, false).map(|lp| Offered { lp, pivots: vec![], way: 0 }), hand_over); }
    // Sums of other rows, in every order.
    run.explore("dependent", |d| {
        let base: Vec<[i64; 4]> = (0..2).map(|_| [d.of(&[0i64, 1]), d.of(&[1i64, -1]), d.of(&[0i64, 2]), d.of(&[0i64, 1])]).collect();
        let mut rows = base.clone();
        for _ in 0..2 {
            let (p, q) = (d.of(&[0i64, 1, 2]), d.of(&[0i64, 1, -1]));
            let v = [0, 1, 2, 3].map(|k| p * base[0][k] + q * base[1][k]);
            rows.push(if v[3] < 0 { v.map(|x| -x) } else { v });
        }
        let order = if t { d.permutation(4) } else { let k = d.pick(4); (0..4).map(|i| (i + k) % 4).collect() };
        let cost = if t { d.of(&[-1i64, 1]) } else { -1 };
        Some(Offered { lp: Lp { max: false, fixed: r(0), rows: order.iter().map(|&i| row(&rows[i][..3], EQ, rows[i][3])).collect(), vars: vec![var(1, POS), var(cost, POS), var(1, POS)] }, pivots: vec![], way: 0 })
    }, hand_over);
    run.explore("partial-2x2", |d| {
        let lp = eq(2, 2, if t { &[0, 1, -1, 2] } else { &[0, 1, -1] }, &[0, 1], false).draw(d, false)?;
        let rows = d.subset(2);
        let (lp, pivots) = offer(d, lp, &rows, &[0, -1], true);
        Some(Offered { lp, pivots, way: 1 })
    }, hand_over);
    run.explore("partial-2x3", |d| {
        let lp = eq(2, 3, &[0, 1, -1], if t { &[0, 1] } else { &[1] }, false).draw(d, false)?;
        let rows = d.subset(3);
        let (lp, pivots) = offer(d, lp, &rows, &[1], false);
        Some(Offered { lp, pivots, way: 1 })
    }, hand_over);
    run.explore("partial-order", |d| {
        let lp = Grid { cost: &[-1], ..eq(1, 3, &[0, 1, 2], &[1, 0], false) }.draw(d, false)?;
        let rows = d.subset(3);
        let (lp, pivots) = offer(d, lp, &rows, &[0, -1], true);
        Some(Offered { lp, pivots, way: 1 })
    }, hand_over);
    run.explore("full", |d| {
        let m = 2 + d.pick(2);
        let lp = Grid { cost: &[-1, 1], ..eq(3 - m / 2, m, &[0, 1, -1, 2], if m == 2 || t { &[0, 1] } else { &[1] }, false) }.draw(d, false)?;
        let rows: Vec<usize> = (0..m).collect();
        let (lp, pivots) = offer(d, lp, &rows, &[0], m == 2);
        let order = d.permutation(m);
        Some(Offered { lp, pivots: order.iter().map(|&i| pivots[i]).collect(), way: 2 })
    }, hand_over);
    // Larger programs, made of small ones, offering all, none or some of the unit columns.
    let (all, offers): (Vec<Lp>, Vec<_>) = equality_parts().into_iter().unzip();
    let truths: Vec<Verdict> = all.iter().map(Lp::solve).collect();
    for (name, count, turns) in [("blocks", if t { 4 } else { 3 }, false), ("blocks-in-turns", if t { 16 } else { 8 }, true)] {
        run.explore(name, |d| {
            let b = draw_blocks(d, &all, &truths, count, turns)?;
            if b.link > 0 { return None; }
            let mut pivots: Vec<(usize, usize)> = vec![];
            let which = d.pick(4);
            if which > 0 {
                for (k, &p) in b.parts.iter().enumerate() {
                    for (row, col) in &offers[p] {
                        let at = |v: &[(usize, usize)], i: usize| v.iter().position(|e| *e == (k, i)).unwrap();
                        pivots.push((at(&b.rows_at, *row), at(&b.cols_at, *col)));
                    }
                }
                let mut n = 0;
                match which { 1 => {}, 2 => pivots.retain(|_| { n += 1; n % 2 == 0 }), _ => pivots.truncate(1) }
                if pivots.is_empty() { return None; }
                // The rows are promised in order.
                pivots.sort();
            }
            let way = if which == 0 { 0 } else { 1 };
            Some((Offered { lp: b.lp, pivots, way }, b.truth)).map(|(o, v)| Known(o, v))
        }, |k, t| hand_over_against(&k.0, k.1, t));
    }
}
struct Known(Offered, Verdict);
impl fmt::Display for Known { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
// ---------------------------------------------------------------- P11, P12

/// Everything a provider says, against the equality-form program it should represent. `bounds` lists
/// the upper bound row per column.
fn represents<MP, C>(p: &MP, costs: &[Rat], want: &Lp, constraints: usize, bounds: &[Option<usize>]) -> Result<(), String>
where MP: MatrixProvider<Column = C, Rhs = RB>, C: Column<F = RB> {
    use relp::data::linear_algebra::vector::Vector;
    let (m, n) = (want.rows.len(), want.vars.len());
    let sizes = (p.nr_rows(), p.nr_columns(), p.nr_constraints(), p.nr_variable_bounds());
    if sizes != (m, n, constraints, m - constraints) { return Err(format!("rows, columns, constraints, bounds are {sizes:?} instead of {:?}", (m, n, constraints, m - constraints))); }
    let rhs = p.right_hand_side();
    if rhs.len() != m { return Err(format!("right-hand side has length {}", rhs.len())); }
    for (i, v) in rhs.iter().enumerate() { if Rat::of(v) != want.rows[i].b { return Err(format!("right-hand side {i} is {v} instead of {}", want.rows[i].b)); } }
    for j in 0..n {
        if costs[j] != want.vars[j].cost { return Err(format!("cost of column {j} is {} instead of {}", costs[j], want.vars[j].cost)); }
        let c = p.column(j);
        let it = c.iter();
        let again = it.clone();
        let seen: Vec<(usize, Rat)> = it.map(|(i, v)| (i, Rat::of(v))).collect();
        let exact: Vec<(usize, Rat)> = (0..m).filter(|&i| !want.rows[i].a[j].is_zero()).map(|i| (i, want.rows[i].a[j])).collect();
        if seen != exact { return Err(format!("column {j} is {seen:?} instead of {exact:?}")); }
        // The other ways to go through it.
        let hint = again.size_hint();
        if hint.0 > seen.len() || hint.1.is_some_and(|h| h < seen.len()) { return Err(format!("column {j} with {} elements has size hint {hint:?}", seen.len())); }
        let mut stepped = again.clone();
        let first = stepped.next().map(|(i, v)| (i, Rat::of(v)));
        let rest = stepped.fold(vec![], |mut s, (i, v)| { s.push((i, Rat::of(v))); s });
        if first.into_iter().chain(rest).collect::<Vec<_>>() != exact { return Err(format!("column {j} differs when folded after a step")); }
        if again.count() != exact.len() { return Err(format!("column {j} counts differently")); }
        for i in 0..m {
            let text = c.index_to_string(i);
            if Rat::parse(&text) != Some(want.rows[i].a[j]) { return Err(format!("element ({i}, {j}) is displayed as {text}")); }
        }
        let owned: Vec<(usize, Rat)> = p.column(j).into_iter().map(|(i, v)| (i, Rat::of(&v))).collect();
        if owned != exact { return Err(format!("column {j} consumed is {owned:?} instead of {exact:?}")); }
        if p.bound_row_index(j, BoundDirection::Lower).is_some() { return Err(format!("column {j} has a lower bound row")); }
        let at = p.bound_row_index(j, BoundDirection::Upper);
        if at != bounds[j] { return Err(format!("upper bound row of column {j} is {at:?} instead of {:?}", bounds[j])); }
    }
    Ok(())
}
/// The equality form of a program with sorted rows, as `MatrixData` documents it, with its bound rows
/// and its initial basis.
fn documented(lp: &Lp) -> (Lp, Vec<Option<usize>>, Vec<(usize, usize)>) {
    let n = lp.vars.len();
    let of = |k: usize| -> Vec<usize> { (0..lp.rows.len()).filter(|&i| k == match lp.rows[i].rel { Rel::Eq => 0, Rel::Range(_) => 1, Rel::Le => 2, Rel::Ge => 3 }).collect() };
    let bounded: Vec<usize> = (0..n).filter(|&j| lp.vars[j].hi.is_some()).collect();
    let m = lp.rows.len() + bounded.len() + of(1).len();
    // Columns as lists of (row, value); rows of bounds follow the constraints, those of ranges come last.
    let mut cols: Vec<Vec<(usize, Rat)>> = (0..n).map(|j| (0..lp.rows.len()).map(|i| (i, lp.rows[i].a[j])).collect()).collect();
    let mut bounds = vec![None; n];
    for (k, &j) in bounded.iter().enumerate() { cols[j].push((lp.rows.len() + k, r(1))); bounds[j] = Some(lp.rows.len() + k); }
    let mut basis = vec![];
    for (k, &i) in of(1).iter().enumerate() { let low = lp.rows.len() + bounded.len() + k; cols.push(vec![(i, r(1)), (low, r(1))]); bounds.push(Some(low)); }
    for &i in &of(2) { basis.push((i, cols.len())); cols.push(vec![(i, r(1))]); bounds.push(None); }
    for &i in &of(3) { cols.push(vec![(i, r(-1))]); bounds.push(None); }
    for k in 0..bounded.len() + of(1).len() { basis.push((lp.rows.len() + k, cols.len())); cols.push(vec![(lp.rows.len() + k, r(1))]); bounds.push(None); }
    let mut b: Vec<Rat> = lp.rows.iter().map(|r| r.b).collect();
    b.extend(bounded.iter().map(|&j| lp.vars[j].hi.unwrap()));
    b.extend(lp.rows.iter().filter_map(|r| if let Rel::Range(g) = r.rel { Some(g) } else { None }));
    let rows = (0..m).map(|i| Row { a: cols.iter().map(|c| c.iter().find(|v| v.0 == i).map_or(Rat::ZERO, |v| v.1)).collect(), rel: Rel::Eq, b: b[i] }).collect();
    let vars = (0..cols.len()).map(|j| Var { cost: lp.vars.get(j).map_or(Rat::ZERO, |v| v.cost), lo: Some(r(0)), hi: None }).collect();
    (Lp { max: false, fixed: r(0), rows, vars }, bounds, basis)
}
fn without(lp: &Lp, gone: &[usize]) -> Lp { Lp { rows: (0..lp.rows.len()).filter(|i| !gone.contains(i)).map(|i| lp.rows[i].clone()).collect(), ..lp.clone() } }
fn shifted(i: usize, gone: &[usize]) -> usize { i - gone.iter().filter(|g| **g < i).count() }

/// A provider, and a set of rows to hide or an order in which to delete them.
struct Viewed { lp: Lp, pivots: Vec<(usize, usize)>, matrix: bool, gone: Vec<usize>, deletes: bool }
impl fmt::Display for Viewed {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} as {}, initial basis {:?}, {} {:?}", self.lp, if self.matrix { "MatrixData" } else { "plain provider" }, self.pivots, if self.deletes { "deleting one by one" } else { "hiding rows" }, self.gone)
    }
}
fn view_of<MP, C>(p: &MP, costs: &dyn Fn(&RemoveRows<'_, MP>) -> Vec<Rat>, c: &Viewed, full: &Lp, constraints: usize, bounds: &[Option<usize>], pivots: &[(usize, usize)], t: &mut Tally) -> Result<(), String>
where MP: MatrixProvider<Column = C, Rhs = RB> + PartialInitialBasis, C: Column<F = RB> + IntoFilteredColumn<Filtered = C> {
    let m = full.rows.len();
    let mut view = RemoveRows::new(p, if c.deletes { vec![] } else { c.gone.clone() });
    let mut gone: Vec<usize> = if c.deletes { vec![] } else { c.gone.clone() };
    let mut left: Vec<usize> = (0..m).filter(|i| !gone.contains(i)).collect();
    let mut step = 0;
    loop {
        let e = |e: String| format!("without rows {gone:?}: {e}");
        if view.filtered_rows() != gone { return Err(e(format!("hides rows {:?}", view.filtered_rows()))); }
        if view.nr_constraints_deleted() != gone.len() { return Err(e("wrong number of rows deleted".into())); }
        let at: Vec<Option<usize>> = bounds.iter().map(|b| b.map(|i| shifted(i, &gone))).collect();
        represents(&view, &costs(&view), &without(full, &gone), constraints - gone.len(), &at).map_err(e)?;
        for (i, &want) in left.iter().enumerate() {
            let got = view.get_underlying_row_index(i);
            if got != want { return Err(e(format!("row {i} is said to be row {got} of the original, it is {want}"))); }
        }
        let want: Vec<(usize, usize)> = pivots.iter().filter(|v| !gone.contains(&v.0)).map(|v| (shifted(v.0, &gone), v.1)).collect();
        if view.pivot_element_indices() != want { return Err(e(format!("initial basis {:?} instead of {want:?}", view.pivot_element_indices()))); }
        if view.nr_initial_elements() != want.len() { return Err(e("wrong number of initial basis columns".into())); }
        if left.is_empty() == view.to_string().contains("0 |") && view.nr_columns() > 0 { return Err(e("display lacks rows".into())); }
        // Values of the columns mean the same variables, whichever rows are hidden.
        let n = full.vars.len();
        for pattern in [1, n, n + 1] {
            use relp::data::linear_algebra::vector::{SparseVector, Vector as _};
            let v = || SparseVector::new((0..n).filter(|j| j % pattern.max(1) == 0).map(|j| (j, rb(r(j as i64 + 1)))).collect(), n);
            if view.reconstruct_solution(v()) != p.reconstruct_solution(v()) { return Err(e(format!("{:?} is reconstructed as {:?}", v(), view.reconstruct_solution(v())))); }
        }
        t.state(&(full.to_string(), &gone));
        t.compared();
        if !c.deletes || step == c.gone.len() { return Ok(()); }
        let k = c.gone[step];
        view.delete_row(k);
        gone.push(left.remove(k));
        gone.sort();
        step += 1;
        t.steps(1);
        if step > 1 { t.nontrivial += 1; }
    }
}
fn viewed(c: &Viewed, t: &mut Tally) -> Result<(), String> {
    if c.matrix {
        let s = Standard::new(&c.lp);
        let (full, bounds, pivots) = documented(&c.lp);
        view_of(&s.data(), &|v| spy::costs(v), c, &full, c.lp.rows.len(), &bounds, &pivots, t)
    } else {
        let p = Partial(Plain::new(&c.lp), c.pivots.clone());
        view_of(&p, &|v| spy::costs(v), c, &c.lp, c.lp.rows.len(), &vec![None; c.lp.vars.len()], &c.pivots, t)?;
        // What values the variables may have.
        if c.deletes { return Ok(()); }
        let view = p.to_filtered(c.gone.clone());
        if view.filtered_rows() != c.gone { return Err(format!("asked to hide rows {:?}, {:?} are", c.gone, view.filtered_rows())); }
        for j in 0..view.nr_columns() {
            for v in [r(-1), r(0), Rat::new(1, 2), r(3), r(8)] {
                if view.is_feasible(j, rb(v)) != p.is_feasible(j, rb(v)) || view.closest_feasible(j, rb(v)) != p.closest_feasible(j, rb(v)) {
                    return Err(format!("hiding rows {:?} changes whether column {j} may be {v}", c.gone));
                }
            }
        }
        Ok(())
    }
}
/// A program whose numbers are all different, so that no two can be confused.
fn distinct(d: &mut Dec, n: usize, kinds: &[Rel], zeros: bool) -> Lp {
    let mut k = 1i64;
    let mut next = || { k += 1; k };
    let rows = kinds.iter().map(|rel| Row {
        a: (0..n).map(|_| { let v = next(); if zeros && d.bool() { r(0) } else { r(if v % 3 == 0 { -v } else { v }) } }).collect(),
        rel: if let Rel::Range(_) = rel { Rel::Range(r(next())) } else { *rel },
        b: r(next()),
    }).collect();
    let vars = (0..n).map(|_| Var { cost: r(next()), lo: Some(r(0)), hi: if d.bool() { Some(r(next())) } else { None } }).collect();
    Lp { max: false, fixed: r(0), rows, vars }
}
fn sorted_kinds(d: &mut Dec, most: usize) -> Vec<Rel> {
    ALL.iter().flat_map(|rel| { let k = d.pick(most + 1); vec![*rel; k] }).collect()
}
fn p11(run: &mut Run) {
    run.rule = "every set of constraint rows hidden at once, and every order of deleting rows one by one, from every provider of the listed shapes; after each step the whole view (every column in every way of reading it, costs, right-hand side, sizes, bound rows, initial basis, row numbering) is compared with the program without those rows".into();
    run.assumptions.push("From MatrixData only equality rows are hidden: every other row has a slack of its own, and the documentation of the view says so.".into());
    let t = run.thorough;
    let plain = |d: &mut Dec, n: usize, m: usize| {
        let lp = Lp { vars: vec![var(1, POS); n], ..distinct(d, n, &vec![EQ; m], true) };
        let rows = d.subset(m);
        offer(d, lp, &rows, &[0], false)
    };
    run.explore("hide-plain", |d| {
        let m = 1 + d.pick(if t { 8 } else { 6 });
        let lp = Lp { vars: vec![var(1, POS)], ..distinct(d, 1, &vec![EQ; m], false) };
        let rows = if m < 7 { d.subset(m) } else { (0..m).collect() };
        let (lp, pivots) = offer(d, lp, &rows, &[0], false);
        Some(Viewed { lp, pivots, matrix: false, gone: d.subset(m), deletes: false })
    }, viewed);
    run.explore("hide-plain-sparse", |d| {
        let m = 2 + d.pick(2);
        let (lp, pivots) = plain(d, 2, m);
        Some(Viewed { lp, pivots, matrix: false, gone: d.subset(m), deletes: false })
    }, viewed);
    run.explore("delete-plain", |d| {
        let m = 1 + d.pick(if t { 7 } else { 6 });
        let lp = Lp { vars: vec![var(1, POS)], ..distinct(d, 1, &vec![EQ; m], false) };
        let (lp, pivots) = offer(d, lp, &(0..m).collect::<Vec<_>>(), &[0], false);
        let gone = (0..m).map(|i| d.pick(m - i)).collect();
        Some(Viewed { lp, pivots, matrix: false, gone, deletes: true })
    }, viewed);
    run.explore("hide-matrix", |d| {
        let eq = 1 + d.pick(4);
        let mut kinds = vec![EQ; eq];
        kinds.extend([RG, LE, GE].iter().flat_map(|rel| { let k = d.pick(if t { 3 } else { 2 }); vec![*rel; k] }));
        let n = 1 + d.pick(2);
        let lp = distinct(d, n, &kinds, n == 1);
        Some(Viewed { lp, pivots: vec![], matrix: true, gone: d.subset(eq), deletes: false })
    }, viewed);
    run.explore("delete-matrix", |d| {
        let eq = 1 + d.pick(4);
        let mut kinds = vec![EQ; eq];
        kinds.extend([RG, LE, GE].iter().flat_map(|rel| { let k = d.pick(2); vec![*rel; k] }));
        let lp = distinct(d, 2, &kinds, false);
        let gone = (0..eq).map(|i| d.pick(eq - i)).collect();
        Some(Viewed { lp, pivots: vec![], matrix: true, gone, deletes: true })
    }, viewed);
}
fn p12(run: &mut Run) {
    run.rule = "every MatrixData with up to the listed number of rows of each kind and variables, each variable with and without upper bound, every pattern of zeros in the coefficients, all other numbers different; every column in every way of reading it, costs, right-hand side, sizes, bound rows, initial basis and the reconstruction of every subset of values are compared with the documented block layout".into();
    let t = run.thorough;
    let check = |lp: &Lp, t: &mut Tally| -> Result<(), String> {
        use relp::data::linear_algebra::vector::{SparseVector, Vector};
        let s = Standard::new(lp);
        let p = s.data();
        let (full, bounds, basis) = documented(lp);
        represents(&p, &spy::costs(&p), &full, lp.rows.len(), &bounds)?;
        let pivots = p.pivot_element_indices();
        if pivots != basis { return Err(format!("initial basis {pivots:?} instead of {basis:?}")); }
        if p.nr_initial_elements() != basis.len() { return Err("wrong number of initial basis columns".into()); }
        let (n, all) = (lp.vars.len(), full.vars.len());
        // Which of the values are there: every subset of the first ones, with all or none of the rest.
        for pattern in 0..1usize << (n + 1) {
            let x: Vec<Rat> = (0..all).map(|j| if pattern >> j.min(n) & 1 == 1 { r(j as i64 + 1) } else { r(0) }).collect();
            let v = p.reconstruct_solution(SparseVector::new(x.iter().enumerate().filter(|(_, v)| !v.is_zero()).map(|(j, v)| (j, rb(*v))).collect(), all));
            let v = ordered(&v, n)?;
            if v != x[..n] { return Err(format!("values {x:?} are reconstructed as {v:?}")); }
        }
        if p.to_string().lines().count() < full.rows.len() { return Err("display lacks rows".into()); }
        for i in 0..full.rows.len() {
            let c = mc::pipe::identity_column(i, full.rows.len(), &p);
            if c.iter().map(|(k, v)| (k, Rat::of(v))).collect::<Vec<_>>() != vec![(i, r(1))] { return Err(format!("identity column {i} is {c:?}")); }
        }
        t.state(&lp.to_string());
        t.steps(all);
        t.compared();
        if full.rows.len() > lp.rows.len() { t.nontrivial += 1; }
        t.outcome(format!("{} rows of bounds", full.rows.len() - lp.rows.len()));
        Ok(())
    };
    run.explore("shapes", |d| { let n = d.pick(if t { 5 } else { 4 }); let kinds = sorted_kinds(d, 2); Some(distinct(d, n, &kinds, false)) }, check);
    run.explore("zeros", |d| { let n = 1 + d.pick(3); let kinds = sorted_kinds(d, 1); if n * kinds.len() > if t { 12 } else { 9 } { return None; } Some(distinct(d, n, &kinds, true)) }, check);
    run.explore("many", |d| { let kinds = sorted_kinds(d, if t { 5 } else { 4 }); Some(distinct(d, 2, &kinds, false)) }, check);
}
fn main() { mc::main(&[("P06", p06), ("P07", p07), ("P08", p08), ("P09", p09), ("P10", p10), ("P11", p11), ("P12", p12)]) }
