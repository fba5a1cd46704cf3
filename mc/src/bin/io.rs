//! P13-P16: reading programs from files.
use mc::lp::{Lp, Rel, Row, Var};
use mc::mps::*;
use mc::pipe::{RB, Rows, Lu};
use mc::rat::Rat;
use mc::{guarded, Dec, Run, Tally};
use relp::data::linear_program::general_form::GeneralForm;
use relp::io::error::Import;
use relp::io::mps::number::parse::Parse;
use relp::io::mps::{parse_fixed, parse_free, MPS};
use relp_num::Rational64;
use std::error::Error;
use std::fmt;

type R64 = Rational64;
/// What relp makes of a text; the `Err` is what it tells the user.
fn import(r: Result<MPS<R64>, Import>) -> Result<GeneralForm<RB>, String> {
    let m = r.map_err(|e| told(&e))?;
    TryInto::<GeneralForm<RB>>::try_into(m).map_err(|e| told(&e))
}
/// Everything an error says.
fn told(e: &dyn Error) -> String {
    let mut s = format!("{e} / {e:?}");
    let mut at = e.source();
    let mut depth = 0;
    while let Some(i) = at {
        s += &format!(" <- {i} / {i:?}");
        at = i.source();
        depth += 1;
        assert!(depth < 100, "endless chain of errors");
    }
    s
}
fn free(t: &str) -> Result<GeneralForm<RB>, String> { import(parse_free(&t)) }
fn fixed(t: &str) -> Result<GeneralForm<RB>, String> { import(parse_fixed(t)) }

/// The parsed program is the expected one, up to the order of rows.
fn same(got: &GeneralForm<RB>, want: &Reading) -> bool {
    let m = want.rows.len();
    let id: Vec<usize> = (0..m).collect();
    if *got == want.form(&id) { return true; }
    // Too many rows to try every order of them.
    if m > 4 {
        return [&id, &want.written].into_iter().any(|o| *got == want.form(o) || *got == want.form(&o.iter().rev().copied().collect::<Vec<_>>()));
    }
    let mut d: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..m { d = d.iter().flat_map(|p| (0..=p.len()).map(move |k| { let mut q = p.clone(); q.insert(k, i); q })).collect(); }
    d.iter().any(|o| *got == want.form(o))
}
fn agrees(got: &Result<GeneralForm<RB>, String>, want: &Result<Reading, String>, how: &str) -> Result<(), String> {
    match (got, want) {
        (Err(_), Err(_)) => Ok(()),
        (Err(e), Ok(_)) => Err(format!("{how}: rejected with {e}")),
        (Ok(g), Err(e)) => Err(format!("{how}: read as {g:?} though {e}")),
        (Ok(g), Ok(w)) => if same(g, w) { Ok(()) } else { Err(format!("{how}: read as {g:?} instead of {:?}", w.form(&(0..w.rows.len()).collect::<Vec<_>>()))) },
    }
}
fn reading(f: &File, t: &mut Tally) -> Result<(), String> {
    let want = read(f);
    let text = f.free();
    agrees(&free(&text), &want, "free")?;
    agrees(&fixed(&f.fixed(true, false, false)), &want, "fixed")?;
    t.state(&text);
    t.steps(2);
    t.compared();
    match &want { Ok(_) => t.nontrivial += 1, Err(_) => {} }
    t.outcome(if want.is_ok() { "accepted" } else { "rejected" });
    Ok(())
}
fn file(rows: &[(char, &str)], columns: Vec<Col>, sections: Vec<Section>) -> File {
    File { name: s("T"), sense: None, rows: rows.iter().map(|r| (r.0, s(r.1))).collect(), columns, sections }
}
const VALUED: [&str; 5] = ["LO", "UP", "FX", "LI", "UI"];
const BARE: [&str; 4] = ["FR", "MI", "PL", "BV"];
fn bound(d: &mut Dec, col: &str, group: &str, values: &[&str]) -> Bnd {
    let k = d.pick(VALUED.len() * values.len() + BARE.len());
    let (kind, value) = if k < BARE.len() { (BARE[k], None) } else { let k = k - BARE.len(); (VALUED[k / values.len()], Some(s(values[k % values.len()]))) };
    Bnd { kind, group: s(group), col: s(col), value }
}
/// Bounds: sequences on one column, and on several columns in several groups.
fn one_bounds(d: &mut Dec, most: usize, values: &[&str]) -> File {
    let n = d.pick(most + 1);
    let integer = if n <= 2 { d.bool() } else { false };
    let bounds = (0..n).map(|_| bound(d, "x", "B", values)).collect();
    let mut cols = vec![entry("x", "c", "2"), entry("x", "r", "3")];
    if integer { cols.insert(0, Col::Integers(true)); cols.push(Col::Integers(false)); }
    cols.push(entry("y", "r", "1"));
    file(&[('N', "c"), ('L', "r")], cols, vec![Section::Rhs(vec![val("R", "r", "5")]), Section::Bounds(bounds)])
}
fn value_section(d: &mut Dec, rows: &[&str], most: usize, values: &[&str]) -> Vec<Val> {
    let n = d.pick(most + 1);
    let mut group = 0;
    (0..n).map(|k| {
        if k > 0 && d.bool() { group += 1; }
        let row = d.of(rows);
        val(&format!("g{group}"), row, d.of(values))
    }).collect()
}
fn p13(run: &mut Run) {
    run.rule = "every file of the listed shapes (sequences of bounds, right-hand sides, ranges, rows, column entries, markers and sections over small alphabets), written in free and in fixed format, is read by the real parser and converted; the result is compared with an independent reading of the file's fields, including that inconsistent files are rejected; and files of up to 101 rows and columns in every combination of regular patterns of what is present".into();
    run.assumptions.push("Where the format leaves room, relp's documented choices are the specification: MI implies an upper bound of at most zero, PL a lower bound of at least zero, a lone UP keeps the default lower bound zero, free columns may have no other bound, several right-hand side groups combine to the tightest one, a range of zero makes an equality.".into());
    run.assumptions.push("Files in which an integer marker does not change the active type, in which a right-hand side is given for the cost row, or in which a group comes back after another one are outside the specification (P14 only asks that they are handled without a panic).".into());
    let t = run.thorough;
    run.explore("bounds", |d| Some(one_bounds(d, 3, &["-1", "0", "1", "2"])), reading);
    run.explore("bounds-4", |d| { let f = one_bounds(d, if t { 5 } else { 4 }, &["-1", "0", "2"]); Some(f) }, reading);
    run.explore("bounds-columns", |d| {
        let n = 1 + d.pick(if t { 4 } else { 3 });
        let mut group = 0;
        let bounds = (0..n).map(|k| {
            if k > 0 && d.bool() { group += 1; }
            let c = d.of(&["x", "y", "z"]);
            if c == "z" && k > 0 { return Bnd { kind: "UP", group: format!("g{group}"), col: s(c), value: Some(s("1")) }; }
            bound(d, c, &format!("g{group}"), if k < 2 { &["-1", "2"] } else { &["1"] })
        }).collect();
        Some(file(&[('N', "c"), ('G', "r")], vec![entry("x", "r", "3"), entry("y", "c", "-1"), entry("y", "r", "2")], vec![Section::Bounds(bounds)]))
    }, reading);
    run.explore("one-row", |d| {
        let kind = d.of(&['E', 'L', 'G']);
        let mut sections = vec![];
        if d.bool() { sections.push(Section::Rhs(value_section(d, &["r"], 3, &["-2", "0", "3"]))); }
        if d.bool() { sections.push(Section::Ranges(value_section(d, &["r"], 2, &["-5", "-1.5", "0", "2", "4"]))); }
        Some(file(&[('N', "c"), (kind, "r")], vec![entry("x", "c", "1"), entry("x", "r", "1")], sections))
    }, reading);
    run.explore("two-rows", |d| {
        let rows = [('N', "c"), (d.of(&['E', 'L', 'G']), "b"), (d.of(&['E', 'L', 'G']), "a")];
        let rhs = value_section(d, &["a", "b"], 3, &["-2", "3"]);
        let ranges = value_section(d, &["a", "b"], 2, if t { &["-5", "0", "4"] } else { &["-5", "4"] });
        Some(file(&rows, vec![entry("x", "c", "1"), entry("x", "a", "1"), entry("x", "b", "2"), entry("y", "b", "-1")], vec![Section::Rhs(rhs), Section::Ranges(ranges)]))
    }, reading);
    // Three rows, ranges on any of them, one right-hand side each or none.
    run.explore("three-rows", |d| {
        let kinds: Vec<char> = (0..3).map(|_| d.of(&['E', 'L', 'G'])).collect();
        let order = d.permutation(3);
        let names = ["a", "b", "c"];
        let mut rows = vec![('N', "obj")];
        rows.extend(order.iter().zip(&kinds).map(|(&i, k)| (*k, names[i])));
        let rhs = (0..3).filter_map(|i| { let v = d.of(&["", "-2", "3"]); if v.is_empty() { None } else { Some(val("R", names[i], v)) } }).collect();
        let ranges = (0..3).filter_map(|i| { let v = d.of(&["", "-5", "4"]); if v.is_empty() { None } else { Some(val("R", names[i], v)) } }).collect();
        Some(file(&rows, vec![entry("x", "obj", "1"), entry("x", "a", "1"), entry("x", "b", "2"), entry("y", "c", "-1")], vec![Section::Rhs(rhs), Section::Ranges(ranges)]))
    }, reading);
    run.explore("columns", |d| {
        let n = d.pick(if t { 6 } else { 5 });
        let mut integer = false;
        let values = ["1", "-2", "0.5", "-3.25", "7"];
        let cols = (0..n).map(|k| {
            let e = d.pick(9);
            if e == 8 { integer = !integer; return Col::Integers(integer); }
            let zero = k < 2 && d.bool();
            entry(["x", "y"][e / 4], ["c", "a", "b", "nope"][e % 4], if zero { "0" } else { values[k] })
        }).collect();
        Some(file(&[('N', "c"), ('E', "b"), ('G', "a")], cols, vec![]))
    }, reading);
    run.explore("rows", |d| {
        let n = 1 + d.pick(4);
        let rows: Vec<(char, &str)> = (0..n).map(|_| { let k = d.of(&['N', 'E', 'L', 'G']); (k, d.of(&["c", "a", "B"])) }).collect();
        let mut cols = vec![];
        for r in ["c", "a", "B"] { if rows.iter().any(|x| x.1 == r) { cols.push(entry("x", r, "1")); cols.push(entry("y", r, "-2")); } }
        cols.sort_by_key(|c| matches!(c, Col::Entry(c, ..) if c == "y"));
        let rhs = rows.iter().filter(|r| r.0 != 'N').map(|r| val("R", r.1, if r.1 == "a" { "4" } else { "6" })).collect::<Vec<_>>();
        let mut once: Vec<Val> = vec![];
        for v in rhs { if !once.contains(&v) { once.push(v); } }
        Some(file(&rows, cols, vec![Section::Rhs(once)]))
    }, reading);
    run.explore("sections", |d| {
        let sense = d.of(&[None, Some("MIN"), Some("MAX"), Some("MINIMIZE"), Some("MAXIMIZE"), Some("MAXI")]);
        let n = d.pick(5);
        let sections = (0..n).map(|_| match d.pick(6) {
            0 => Section::Rhs(vec![]),
            1 => Section::Rhs(vec![val("R", "a", "3")]),
            2 => Section::Ranges(vec![]),
            3 => Section::Ranges(vec![val("R", "b", "3")]),
            4 => Section::Bounds(vec![]),
            _ => Section::Bounds(vec![Bnd { kind: "UP", group: s("B"), col: s("y"), value: Some(s("9")) }]),
        }).collect();
        let name = d.of(&["T", "ROWS", "LongProgramName", "*"]);
        let none = d.bool();
        let cols = if none { vec![] } else { vec![entry("x", "c", "1"), entry("x", "a", "1"), entry("y", "b", "-1")] };
        Some(File { sense, name: s(name), ..file(&[('N', "c"), ('L', "b"), ('G', "a")], cols, sections) })
    }, reading);
    // Which elements are there, and where integer variables begin and end.
    run.explore("matrix", |d| {
        let (m, n) = if t { (4, 4) } else { (3, 3) };
        let names = ["d", "b", "c", "a"];
        let mut cols = vec![];
        let mut integer = false;
        for j in 0..n {
            if d.bool() { integer = !integer; cols.push(Col::Integers(integer)); }
            let before = cols.len();
            for i in 0..=m {
                if d.bool() { cols.push(entry(["z", "x", "y", "w"][j], if i == m { "obj" } else { names[i] }, &(10 * j + i + 1).to_string())); }
            }
            // In a file, a column without any entry does not exist.
            if cols.len() == before && j == 0 { return None; }
        }
        let mut rows = vec![('N', "obj")];
        for i in 0..m { rows.push((['L', 'G', 'E', 'L'][i], names[i])); }
        Some(file(&rows, cols, vec![Section::Rhs(vec![val("R", "b", "1"), val("R", "a", "2")][..m - 2].to_vec()), Section::Bounds(vec![Bnd { kind: "UP", group: s("B"), col: s("z"), value: Some(s("1")) }])]))
    }, reading);
    // Larger files: every size, with regular patterns of what is there.
    run.explore("large", |d| {
        let sizes: &[usize] = if t { &[1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 16, 17, 31, 33, 64, 101] } else { &[1, 2, 9, 17, 101] };
        let (m, n) = (d.of(sizes), d.of(sizes));
        let fill = d.of(&[1usize, 2, 3]); // an entry in each fill-th place
        let rhs = d.pick(4);
        let ranged = d.pick(3);
        let bounded = d.pick(4);
        let integers = d.pick(3);
        let cost = d.pick(3); // where the cost row comes: first, last, in the middle
        // Names of which the alphabetical order is neither that of the file nor its reverse.
        let r = |i: usize| format!("R{}", (i * 7 + 3) % 103);
        let c = |j: usize| format!("c{}", (j * 5 + 1) % 103);
        let mut rows: Vec<(char, String)> = (0..m).map(|i| (['L', 'G', 'E'][i % 3], r(i))).collect();
        rows.insert([0, m, m / 2][cost], ('N', s("obj")));
        let mut columns = vec![];
        for j in 0..n {
            match integers { 1 if j == n / 2 => columns.push(Col::Integers(true)), 2 if j % 5 == 0 => columns.push(Col::Integers(true)), 2 if j % 5 == 2 => columns.push(Col::Integers(false)), _ => {} }
            if (j + fill) % 3 != 0 || fill == 1 { columns.push(Col::Entry(c(j), s("obj"), format!("{}", j as i64 - 5))); }
            // Within a column in the reverse order of the file.
            let at: Vec<usize> = (0..m).rev().filter(|i| (i + j) % fill == 0).collect();
            for i in if at.is_empty() { vec![0] } else { at } { columns.push(Col::Entry(c(j), r(i), format!("{}.{}", i + 1, j % 10))); }
        }
        let integer_now = columns.iter().rev().find_map(|c| if let Col::Integers(b) = c { Some(*b) } else { None });
        if integer_now == Some(true) { columns.push(Col::Integers(false)); }
        let rhss = (0..m).filter(|i| match rhs { 0 => false, 1 => true, 2 => i % 2 == 1, _ => *i == m - 1 }).map(|i| val("B", &r(i), &format!("{}", 3 * i as i64 - 10))).collect();
        let ranges = (0..m).rev().filter(|i| match ranged { 0 => false, 1 => true, _ => i % 4 == 2 }).map(|i| val("Q", &r(i), &format!("{}", if i % 2 == 0 { i as i64 + 1 } else { -(i as i64) - 1 }))).collect();
        let mut bounds = vec![];
        for j in (0..n).filter(|j| match bounded { 0 => false, 1 => true, 2 => j % 3 == 1, _ => *j == n - 1 }) {
            let mut add = |kind: &'static str, v: Option<i64>| bounds.push(Bnd { kind, group: s("B"), col: c(j), value: v.map(|v| v.to_string()) });
            match j % 6 { 0 => add("UP", Some(j as i64 + 1)), 1 => { add("LO", Some(-(j as i64))); add("UP", Some(j as i64)); } 2 => add("FR", None), 3 => add("FX", Some(j as i64)), 4 => add("MI", None), _ => add("BV", None) }
        }
        Some(File { name: s("L"), sense: None, rows, columns, sections: vec![Section::Rhs(rhss), Section::Ranges(ranges), Section::Bounds(bounds)] })
    }, reading);
    // Names that look like other things.
    run.explore("names", |d| {
        let all = ["N", "E", "RHS", "ROWS", "'INTORG'", "1", "-2.5", "x*", "NAME", "FR", "ENDATA", "\u{e9}\u{e9}"];
        let (r, c, g, o) = (d.of(&all), d.of(&all), d.of(&all), d.of(&all));
        Some(file(&[('N', o), ('L', r)], vec![entry(c, o, "1"), entry(c, r, "1"), entry("zz", r, "3")],
            vec![Section::Rhs(vec![val(g, r, "3")]), Section::Ranges(vec![val(g, r, "2")]), Section::Bounds(vec![Bnd { kind: "UP", group: s(g), col: s(c), value: Some(s("1")) }])]))
    }, |f, t| {
        // A multi-byte name does not fit the byte columns of the fixed format.
        if f.free().is_ascii() { return reading(f, t); }
        t.compared();
        agrees(&free(&f.free()), &read(f), "free")
    });
    // From the file to the solution.
    run.explore("solved", |d| {
        let sense = d.of(&[None, Some("MAX")]);
        let rows = [('N', "c"), (d.of(&['E', 'L', 'G']), "b"), (d.of(&['L', 'G']), "a")];
        let cost = [d.of(&["1", "-1"]), d.of(&["2", "-1.5"])];
        let a = [d.of(&["1", "-1", "0"]), d.of(&["1", "2"]), d.of(&["1", "-1"]), d.of(&["1", "0"])];
        let mut cols = vec![];
        for (j, x) in ["x", "y"].iter().enumerate() { cols.push(entry(x, "c", cost[j])); cols.push(entry(x, "a", a[j])); cols.push(entry(x, "b", a[2 + j])); }
        let rhs = vec![val("R", "a", d.of(&["-1", "2"])), val("R", "b", "1.5")];
        let range = d.of(&["", "-1", "3"]);
        let ranges = if range.is_empty() { vec![] } else { vec![val("R", "b", range)] };
        let bounds = (0..d.pick(2)).map(|_| bound(d, "x", "B", &["-1", "2"])).collect();
        Some(File { sense, ..file(&rows, cols, vec![Section::Rhs(rhs), Section::Ranges(ranges), Section::Bounds(bounds)]) })
    }, |f, t| {
        let Ok(want) = read(f) else { return reading(f, t) };
        let lp = program(&want);
        let g = free(&f.free())?;
        let out = outcome(g, &lp)?;
        lp.judge(&out, lp.solve())?;
        t.state(&f.free());
        t.steps(1);
        t.compared();
        t.outcome(match out { mc::lp::Outcome::Infeasible => "infeasible", mc::lp::Outcome::Unbounded => "unbounded", _ => "solved" });
        Ok(())
    });
}
fn program(r: &Reading) -> Lp {
    Lp {
        max: r.max, fixed: Rat::ZERO,
        rows: r.rows.iter().map(|row| Row {
            a: r.cols.iter().map(|c| c.entries.iter().find(|e| e.0 == row.name).map_or(Rat::ZERO, |e| e.1)).collect(),
            rel: match row.kind { Kind::Eq => Rel::Eq, Kind::Le => Rel::Le, Kind::Ge => Rel::Ge, Kind::Range(g) => Rel::Range(g) }, b: row.b,
        }).collect(),
        vars: r.cols.iter().map(|c| Var { cost: c.cost, lo: c.lo, hi: c.hi }).collect(),
    }
}
fn outcome(g: GeneralForm<RB>, lp: &Lp) -> Result<mc::lp::Outcome, String> {
    use mc::lp::Outcome;
    let names: Vec<&str> = vec!["x", "y"];
    let values = |s: relp::data::linear_program::solution::Solution<RB>| -> Result<Vec<Rat>, String> {
        names.iter().map(|n| s.solution_values.iter().find(|v| v.0 == *n).map(|v| Rat::of(&v.1)).ok_or(format!("no value for {n}"))).collect()
    };
    Ok(match solved(g, false) {
        Solved::Infeasible => Outcome::Infeasible,
        Solved::Unbounded => Outcome::Unbounded,
        Solved::Finite(s) => { let x = values(s)?; Outcome::Opt { value: Some(lp.objective(&x)), x } }
    })
}
enum Solved { Infeasible, Unbounded, Finite(relp::data::linear_program::solution::Solution<RB>) }
fn solved(mut g: GeneralForm<RB>, rows: bool) -> Solved {
    use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
    use relp::algorithm::{OptimizationResult as O, SolveRelaxation};
    use relp::data::linear_program::elements::LinearProgramType as T;
    if let Err(done) = g.presolve() {
        return match done { T::Infeasible => Solved::Infeasible, T::Unbounded => Solved::Unbounded, T::FiniteOptimum(s) => Solved::Finite(s) };
    }
    let counts = g.standardize();
    let v = {
        let d = g.derive_matrix_data(counts);
        match if rows { d.solve_relaxation::<Rows>() } else { d.solve_relaxation::<Lu>() } {
            O::Infeasible => return Solved::Infeasible,
            O::Unbounded => return Solved::Unbounded,
            O::FiniteOptimum(v) => d.reconstruct_solution(v),
        }
    };
    Solved::Finite(g.compute_full_solution_with_reduced_solution(v))
}

// ---------------------------------------------------------------- P14

/// A text of which nothing is known.
struct Text(String);
impl fmt::Display for Text { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.0) } }
fn total(c: &Text, t: &mut Tally, solve: bool) -> Result<(), String> {
    let text = &c.0;
    let by = [("free", guarded(|| free(text))), ("fixed", guarded(|| fixed(text)))];
    let reals = guarded(|| (parse_free::<f64>(text).map_err(|e| told(&e)).err(), parse_fixed::<f64>(text).map_err(|e| told(&e)).err()));
    if let Err(p) = reals { return Err(format!("panic reading reals: {p}")); }
    let mut accepted = false;
    for (how, r) in by {
        let r = r.map_err(|p| format!("panic in the {how} format: {p}"))?;
        match r {
            Err(e) => if e.is_empty() { return Err(format!("{how}: an error that says nothing")); },
            Ok(g) => {
                accepted = true;
                if solve {
                    for rows in [false, true] {
                        let g = g.clone();
                        guarded(move || { solved(g, rows); }).map_err(|p| format!("{how}: accepted, but solving it panics: {p}"))?;
                    }
                    t.steps(1);
                }
            }
        }
    }
    t.state(text);
    t.steps(4);
    t.compared();
    if accepted { t.nontrivial += 1; }
    t.outcome(if accepted { "accepted" } else { "rejected" });
    Ok(())
}
/// Lines that occur in files, and some that should not.
const LINES: [&str; 40] = [
    "ENDATA", "ROWS", " N c", " L a", " E b", "COLUMNS", " x c 1 a 2", " x b -1", " y a 1 b 0.5", " M 'MARKER' 'INTORG'", " M 'MARKER' 'INTEND'",
    "RHS", " r a 1 b 2", " r c 1", "RANGES", " g a 3", " g b -1", "BOUNDS", " UP d x 1", " FR d y", " MI d x", " SC d y 3", " BV d y",
    "NAME t", "NAME", "OBJSENSE", "  MAX", "* comment", "", " ", "\t", "junk", " G a", " x", " LO d x", " x a 1 b", " x a 1 b 2 c", " UP d x 99999999999999999999", " x a 1e5", " Q \u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}",
];
const FREE: &str = "NAME t\nROWS\n N c\n L a\n E b\nCOLUMNS\n M1 'MARKER' 'INTORG'\n x c 1 a 2\n x b -1\n M2 'MARKER' 'INTEND'\n y a 1 b 0.5\nRHS\n r a 4 b 2\nRANGES\n g a 3\nBOUNDS\n UP d x 7\n FR d y\nENDATA";
const SENSE: &str = "* a comment\nNAME          t\nOBJSENSE\n  MAX\nROWS\n N  c\n G  a\nCOLUMNS\n    x         a                    1\n    y         a                   -1\nRHS\n    r         a                    2\nBOUNDS\n MI d         x\n BV d         y\nENDATA";
const FIXED: &str = "NAME          t\nROWS\n N  c\n L  a\n E  b\nCOLUMNS\n    M1        'MARKER'                 'INTORG'\n    x         c                    1   a                    2\n    x         b                   -1\n    M2        'MARKER'                 'INTEND'\n    y         a                    1   b                  0.5\nRHS\n    r         a                    4   b                    2\nRANGES\n    g         a                    3\nBOUNDS\n UP d         x                    7\n FR d         y\nENDATA\n";
const CHARS: [&str; 22] = [" ", "", "\n", "\t", "*", "0", "9", ".", "-", "+", "x", "a", "'", "E", "N", "\u{e9}", "\u{1F600}", "\0", "\r", "\u{a0}", "e", "/"];
/// One edit of a list of lines.
fn edit_lines(d: &mut Dec, l: &mut Vec<String>, words: &[&str]) {
    let at = d.pick(l.len() + 1);
    if at == l.len() { let w = d.of(words); l.push(s(w)); return; }
    match d.pick(5) {
        0 => { l.remove(at); }
        1 => { let c = l[at].clone(); l.insert(at, c); }
        2 => { let to = d.pick(l.len()); l.swap(at, to); }
        3 => l[at] = s(d.of(words)),
        _ => l.insert(at, s(d.of(words))),
    }
}
fn edit_char(d: &mut Dec, text: &str) -> String {
    let c: Vec<char> = text.chars().collect();
    let at = d.pick(c.len() + 1);
    let insert = d.bool();
    let w = d.of(&CHARS);
    let mut o: String = c[..at].iter().collect();
    o += w;
    o.extend(c[(at + if insert { 0 } else { 1 }).min(c.len())..].iter());
    o
}
fn p14(run: &mut Run) {
    run.rule = "every file made of the listed lines up to a length, every one and two line edits and every one and two character edits of complete files in both formats, every truncation; each is read in free and in fixed format with rational and with real numbers, converted, and, when accepted, presolved and solved: nothing may panic, and every error must be printable".into();
    let t = run.thorough;
    let bases = [FREE, SENSE, FIXED];
    run.explore("sequences", |d| {
        let start = d.of(&["", "NAME t\nROWS\n N c\n L a\n E b\nCOLUMNS\n", "NAME t\nROWS\n N c\n L a\n E b\nCOLUMNS\n x c 1 a 2\n y b 3\nRHS\n", "NAME t\nROWS\n N c\n E a\n G b\nCOLUMNS\n x c 1 a 2\n y b 3\nRHS\n r b 3\nBOUNDS\n"]);
        let n = d.pick(if t { 5 } else { 4 });
        let mut text = s(start);
        for _ in 0..n { text += d.of(&LINES); text.push('\n'); }
        if d.bool() { text += "ENDATA"; }
        Some(Text(text))
    }, |c, t| total(c, t, false));
    run.explore("lines", |d| {
        let mut l: Vec<String> = d.of(&bases).lines().map(s).collect();
        edit_lines(d, &mut l, &LINES);
        Some(Text(l.join("\n")))
    }, |c, t| total(c, t, true));
    run.explore("two-lines", |d| {
        let mut l: Vec<String> = d.of(&bases[..if t { 3 } else { 1 }]).lines().map(s).collect();
        edit_lines(d, &mut l, if t { &LINES } else { &LINES[..20] });
        edit_lines(d, &mut l, if t { &LINES } else { &LINES[..20] });
        Some(Text(l.join("\n")))
    }, |c, t| total(c, t, false));
    run.explore("truncated", |d| {
        let text = d.of(&bases);
        let c: Vec<char> = text.chars().collect();
        let (from, to) = if d.bool() { (0, d.pick(c.len())) } else { (d.pick(c.len()), c.len()) };
        Some(Text(c[from..to].iter().collect()))
    }, |c, t| total(c, t, true));
    run.explore("characters", |d| { let b = d.of(&bases); Some(Text(edit_char(d, b))) }, |c, t| total(c, t, true));
    // Two characters, in a line each kind of section reads.
    run.explore("two-characters", |d| {
        let lines: [(&str, usize); 6] = [(FIXED, 7), (FIXED, 2), (FIXED, 6), (FIXED, 12), (FIXED, 16), (FREE, 7)];
        let (base, at) = d.of(&lines[..if t { 6 } else { 5 }]);
        let mut l: Vec<String> = base.lines().map(s).collect();
        // Only the ends of the fields matter: shorten the gaps in between.
        l[at] = edit_char(d, &l[at].clone());
        let c: Vec<char> = l[at].chars().collect();
        let near: Vec<usize> = if t { (0..=c.len()).collect() } else { [0, 1, 2, 3, 4, 11, 12, 13, 14, 21, 22, 23, 24, 35, 36, 38, 39, 46, 47, 48, 49, 60, 61].iter().map(|k| *k.min(&c.len())).collect() };
        let p = d.of(&near);
        let w = d.of(&["", " ", "\u{e9}", "\u{1F600}", "0", "-"]);
        let mut o: String = c[..p].iter().collect();
        o += w;
        o.extend(c[(p + 1).min(c.len())..].iter());
        l[at] = o;
        Some(Text(l.join("\n")))
    }, |c, t| total(c, t, false));
}

// ---------------------------------------------------------------- P15

fn number_text(c: &Text, t: &mut Tally) -> Result<(), String> {
    let got = <R64 as Parse>::parse(&c.0);
    let want = number(&c.0);
    match (&got, &want) {
        (Ok(g), Some(w)) => if Rat::of(g) != *w { return Err(format!("read as {g} instead of {w}")); },
        (Ok(g), None) => return Err(format!("read as {g}, but it is not a decimal number")),
        (Err(e), Some(w)) => {
            // Only numbers that do not fit may be refused.
            let digits = c.0.chars().filter(|c| c.is_ascii_digit()).count();
            if digits <= 18 { return Err(format!("refused, though it is {w}: {e}")); }
            told(e);
            t.outcome("does not fit");
        }
        (Err(e), None) => { told(e); t.outcome("not a number"); }
    }
    if got.is_ok() { t.nontrivial += 1; t.outcome("read"); }
    // Reals: the nearest double, or refused.
    if let Ok(v) = <f64 as Parse>::parse(&c.0) {
        match c.0.parse::<f64>() {
            Ok(w) if w == v => {}
            w => return Err(format!("read as the real {v} instead of {w:?}")),
        }
        if let Some(w) = want { if (v - w.n as f64 / w.d as f64).abs() > 1e-12 * v.abs() { return Err(format!("read as the real {v} instead of {w}")); } }
    }
    t.steps(2);
    t.compared();
    Ok(())
}
fn p15(run: &mut Run) {
    run.rule = "every text over the listed characters up to the listed length, and every placement of sign, point and digits around the limits of 64 bits; the parsed number is compared with the exact decimal value, everything else must be refused".into();
    let t = run.thorough;
    let text = |d: &mut Dec, chars: &[&str], most: usize| { let n = d.pick(most + 1); Text((0..n).map(|_| d.of(chars)).collect()) };
    run.explore("short", |d| Some(text(d, &["0", "1", "9", ".", "-", "+"], if t { 9 } else { 7 })), number_text);
    run.explore("digits", |d| Some(text(d, &["0", "1", "5", "."], if t { 11 } else { 9 })), number_text);
    run.explore("characters", |d| Some(text(d, &["0", "7", ".", "-", "+", " ", "e", "E", "x", "/", ",", "_", "\u{e9}", "\u{663}", "i", "n", "f", "a", "\n"], if t { 5 } else { 4 })), number_text);
    run.explore("long", |d| {
        let lead = d.of(&["0", "1", "9", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "4294967296", "99999", "5"]);
        let fill = d.of(&["0", "9", "3"]);
        let n = d.pick(24);
        let mut digits = s(lead) + &fill.repeat(n);
        let last = d.of(&["", "1", "5"]);
        digits += last;
        if digits.len() > 32 { return None; }
        let dot = d.pick(digits.len() + 2);
        if dot <= digits.len() { digits.insert(dot, '.'); }
        let sign = d.of(&["", "-", "+"]);
        Some(Text(s(sign) + &digits))
    }, number_text);
    // Every number as it appears in a file.
    run.explore("in-files", |d| {
        let v = text(d, &["0", "3", ".", "-", "+"], if t { 6 } else { 5 });
        if v.0.is_empty() { return None; }
        Some(file(&[('N', "c"), ('L', "r")], vec![entry("x", "c", &v.0), entry("x", "r", &v.0)], vec![Section::Rhs(vec![val("R", "r", &v.0)]), Section::Ranges(vec![val("R", "r", &v.0)]), Section::Bounds(vec![Bnd { kind: "LO", group: s("B"), col: s("x"), value: Some(v.0.clone()) }])]))
    }, |f, t| { let w = read(f); t.compared(); t.steps(2); agrees(&free(&f.free()), &w, "free")?; agrees(&fixed(&f.fixed(true, false, false)), &w, "fixed") });
}

// ---------------------------------------------------------------- P16

struct Laid { file: File, text: String, how: Vec<&'static str> }
impl fmt::Display for Laid { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?} ({})", self.text, self.how.join(", ")) } }
fn some_file(d: &mut Dec) -> File {
    let k = d.pick(5);
    let neg = Bnd { kind: "MI", group: s("B"), col: s("y"), value: None };
    let up = Bnd { kind: "UP", group: s("B"), col: s("x"), value: Some(s("4")) };
    match k {
        0 => file(&[('N', "COST"), ('L', "LIM1"), ('G', "LIM2"), ('E', "MYEQN")],
            vec![entry("XONE", "COST", "1"), entry("XONE", "LIM1", "1"), entry("XONE", "LIM2", "1"), Col::Integers(true), entry("YTWO", "COST", "4"), entry("YTWO", "LIM1", "1"), entry("YTWO", "MYEQN", "-1"), Col::Integers(false), entry("ZTHREE", "COST", "9"), entry("ZTHREE", "LIM2", "1"), entry("ZTHREE", "MYEQN", "1")],
            vec![Section::Rhs(vec![val("RHS1", "LIM1", "5"), val("RHS1", "LIM2", "10"), val("RHS1", "MYEQN", "7")]), Section::Bounds(vec![Bnd { kind: "UP", group: s("BND1"), col: s("XONE"), value: Some(s("4")) }, Bnd { kind: "LO", group: s("BND1"), col: s("YTWO"), value: Some(s("-1")) }])]),
        1 => File { sense: Some("MAX"), ..file(&[('G', "b"), ('N', "c"), ('L', "a")], vec![entry("x", "b", "1.25"), entry("x", "a", "-.5"), entry("y", "c", "+3")], vec![Section::Rhs(vec![val("r", "a", "1"), val("r", "b", "2"), val("q", "b", "3"), val("q", "a", "4")]), Section::Ranges(vec![val("g", "b", "-2"), ]), Section::Bounds(vec![up, neg])]) },
        2 => file(&[('N', "c"), ('E', "r1"), ('E', "r2")], vec![entry("x", "r1", "1"), entry("x", "r2", "2"), entry("y", "r2", "3"), entry("y", "c", "0")], vec![Section::Ranges(vec![val("g", "r1", "2"), val("g", "r2", "-3")])]),
        3 => file(&[('N', "c")], vec![entry("x", "c", "1"), entry("y", "c", "-1")], vec![Section::Bounds(vec![up, Bnd { kind: "BV", group: s("B"), col: s("y"), value: None }])]),
        _ => file(&[('N', "longname"), ('L', "12345678")], vec![entry("87654321", "longname", "123456789.12"), entry("87654321", "12345678", "-12345678.12"), entry("x", "12345678", "1")], vec![Section::Rhs(vec![val("RRRRRRRR", "12345678", "999999999999")])]),
    }
}
fn laid(c: &Laid, t: &mut Tally, fixed_format: bool) -> Result<(), String> {
    let want = read(&c.file);
    let got = if fixed_format { fixed(&c.text) } else { free(&c.text) };
    agrees(&got, &want, "laid out")?;
    t.state(&c.text);
    t.steps(1);
    t.compared();
    if !c.how.is_empty() { t.nontrivial += 1; }
    Ok(())
}
const NOISE: [&str; 6] = ["", "*", "* a comment", " * indented", "\t*", "*ENDATA"];
fn p16(run: &mut Run) {
    run.rule = "files of five kinds written in every combination of the listed layouts (gaps, tabs, trailing blanks, line ends, one or two values per line, comments and empty lines before any one or two lines, final newline), in free format and in fixed columns, and imported through a file under every kind of name; every text must be read as the same program".into();
    
    let gaps = [" ", "  ", "\t", "      ", " \t "];
    let layout = move |d: &mut Dec| Layout { gap: d.of(&gaps), first: d.of(&[" ", "    ", " \t"]), tail: d.of(&["", " ", "\t"]), end: d.of(&["\n", "\r\n"]), pairs: d.bool(), last_newline: d.bool() };
    run.explore("free", |d| { let f = some_file(d); let y = layout(d); Some(Laid { text: f.written(y, &[]), file: f, how: if y == PLAIN { vec![] } else { vec!["layout"] } }) }, |c, t| laid(c, t, false));
    run.explore("noise", |d| {
        let f = some_file(d);
        let y = Layout { pairs: d.bool(), end: d.of(&["\n", "\r\n"]), ..PLAIN };
        let n = f.written(y, &[]).lines().count();
        let (a, b) = (d.pick(n + 1), d.pick(n + 1));
        let (p, q) = (d.of(&NOISE), d.of(&NOISE));
        if b < a { return None; }
        Some(Laid { text: f.written(y, &[(a, p), (b, q)]), file: f, how: vec!["noise"] })
    }, |c, t| laid(c, t, false));
    run.explore("fixed", |d| {
        let f = some_file(d);
        let (right, pairs, full) = (d.bool(), d.bool(), d.bool());
        let mut text = f.fixed(right, pairs, full);
        if d.bool() { text = text.replace('\n', "\r\n"); }
        let n = text.lines().count();
        let at = d.pick(n + 1);
        let noise = d.of(&NOISE);
        let mut l: Vec<&str> = text.lines().collect();
        if full { for k in &mut l { if !k.starts_with(' ') { *k = k.trim_end(); } } }
        l.insert(at, noise);
        let text = l.join(if text.contains('\r') { "\r\n" } else { "\n" });
        Some(Laid { text, file: f, how: vec!["fixed"] })
    }, |c, t| laid(c, t, true));
    // Order of entries within a column, of rows in a section, of columns' values over lines.
    run.explore("order", |d| {
        let f = file(&[('N', "c"), ('L', "a"), ('G', "b"), ('E', "d")], vec![], vec![]);
        let rows = d.permutation(4);
        let cols = d.permutation(4);
        let rhs = d.permutation(3);
        let names = ["c", "a", "b", "d"];
        let mut g = f.clone();
        g.rows = rows.iter().map(|&i| f.rows[i].clone()).collect();
        g.columns = cols.iter().map(|&i| entry("x", names[i], ["1", "2", "3", "4"][i])).chain([entry("y", "b", "5")]).collect();
        g.sections = vec![Section::Rhs(rhs.iter().map(|&i| val("R", names[1 + i], ["6", "7", "8"][i])).collect())];
        let y = Layout { pairs: d.bool(), ..PLAIN };
        Some(Laid { text: g.written(y, &[]), file: g, how: vec!["order"] })
    }, |c, t| {
        laid(c, t, false)?;
        // The order itself does not matter.
        let mut f = c.file.clone();
        f.rows.sort_by(|a, b| a.1.cmp(&b.1));
        f.columns.sort_by_key(|c| match c { Col::Entry(a, b, _) => (a.clone(), b.clone()), Col::Integers(_) => unreachable!() });
        for s in &mut f.sections { if let Section::Rhs(v) = s { v.sort(); } }
        let plain = |f: &File| { let mut r = read(f); if let Ok(r) = &mut r { r.written.clear(); } r };
        if plain(&f) != plain(&c.file) { return Err("reference model: order matters".into()); }
        agrees(&free(&f.free()), &read(&c.file), "sorted")
    });
    // Names with blanks exist in the fixed format only.
    run.explore("fixed-names", |d| {
        let names = ["a b", "r", "x  y", "12 34 56", "MARKER'"];
        let (r, c, g) = (d.of(&names), d.of(&names), d.of(&names));
        let f = file(&[('N', "the cost"), ('L', r)], vec![entry(c, "the cost", "1"), entry(c, r, "1"), entry("other", r, "3")],
            vec![Section::Rhs(vec![val(g, r, "3")]), Section::Ranges(vec![val(g, r, "2")]), Section::Bounds(vec![Bnd { kind: "UP", group: s(g), col: s(c), value: Some(s("1")) }, Bnd { kind: "FR", group: s(g), col: s("other"), value: None }])]);
        let (right, pairs, full) = (d.bool(), d.bool(), d.bool());
        let mut text = f.fixed(right, pairs, full);
        if full { text = text.lines().map(|l| if l.starts_with(' ') { l } else { l.trim_end() }).collect::<Vec<_>>().join("\n"); }
        Some(Laid { text, file: f, how: vec!["fixed"] })
    }, |c, t| laid(c, t, true));
    let dir = std::env::temp_dir().join(format!("mc-io-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let place = dir.clone();
    run.explore("import", move |d| {
        let f = some_file(d);
        let name = d.of(&["a.mps", "b.SIF", "c.txt", "noextension", "d.mps.gz", "e.x.mps", "missing.mps", "latin.mps", "directory.mps", ".mps"]);
        let y = Layout { pairs: d.bool(), end: d.of(&["\n", "\r\n"]), ..PLAIN };
        Some(Laid { text: f.written(y, &[]), file: f, how: vec![name] })
    }, |c, t| {
        let name = c.how[0];
        let own = place.join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], ""));
        std::fs::create_dir_all(&own).unwrap();
        let path = own.join(name);
        let bytes = match name { "latin.mps" => { let mut b = c.text.clone().into_bytes(); b.insert(0, b'*'); b.insert(1, 0xe9); b.insert(2, b'\n'); b } _ => c.text.clone().into_bytes() };
        match name {
            "missing.mps" => {}
            "directory.mps" => std::fs::create_dir_all(&path).unwrap(),
            _ => std::fs::write(&path, bytes).unwrap(),
        }
        let r = relp::io::import::<RB>(&path);
        let got = match r { Err(e) => Err(told(&e)), Ok(p) => p.try_into().map_err(|e| told(&e)) };
        let _ = match name { "missing.mps" => Ok(()), "directory.mps" => std::fs::remove_dir(&path), _ => std::fs::remove_file(&path) };
        let readable = matches!(name, "a.mps" | "b.SIF" | "e.x.mps");
        let want = if readable { read(&c.file) } else { Err(format!("{name} can't be read")) };
        agrees(&got, &want, "imported")?;
        t.steps(1);
        t.compared();
        t.outcome(if readable { "readable" } else { "not readable" });
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
}
fn main() { mc::main(&[("P13", p13), ("P14", p14), ("P15", p15), ("P16", p16)]) }
