//! A reference reading of MPS files: what a file, given as its fields, means.
use crate::pipe::{rb, RB};
use crate::rat::Rat;
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder};
use relp::data::linear_algebra::vector::{DenseVector, Vector};
use relp::data::linear_program::elements::{Objective, RangedConstraintRelation, VariableType};
use relp::data::linear_program::general_form::{GeneralForm, Variable};
use std::fmt;

pub type V = &'static str;

#[derive(Clone, Debug, PartialEq)]
pub enum Col { Integers(bool), Entry(String, String, String) }
#[derive(Clone, Debug, PartialEq)]
pub struct Bnd { pub kind: &'static str, pub group: String, pub col: String, pub value: Option<String> }
/// Group, row, value.
pub type Val = (String, String, String);

#[derive(Clone, Debug, PartialEq)]
pub enum Section { Rhs(Vec<Val>), Ranges(Vec<Val>), Bounds(Vec<Bnd>) }

#[derive(Clone, Debug, PartialEq)]
pub struct File {
    pub name: String,
    /// The text under OBJSENSE, if there is such a section.
    pub sense: Option<&'static str>,
    pub rows: Vec<(char, String)>,
    pub columns: Vec<Col>,
    pub sections: Vec<Section>,
}
impl fmt::Display for File {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.free()) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Eq, Le, Ge, Range(Rat) }
#[derive(Clone, Debug, PartialEq)]
pub struct ReadRow { pub name: String, pub kind: Kind, pub b: Rat }
#[derive(Clone, Debug, PartialEq)]
pub struct ReadCol { pub name: String, pub integer: bool, pub cost: Rat, pub entries: Vec<(String, Rat)>, pub lo: Option<Rat>, pub hi: Option<Rat> }
#[derive(Clone, Debug, PartialEq)]
pub struct Reading { pub max: bool, pub rows: Vec<ReadRow>, pub cols: Vec<ReadCol>,
    /// The rows (sorted by name in `rows`) in the order of the file.
    pub written: Vec<usize> }

/// The exact value of a decimal number.
pub fn number(s: &str) -> Option<Rat> {
    let (neg, s) = match s.as_bytes().first()? { b'-' => (true, &s[1..]), b'+' => (false, &s[1..]), _ => (false, s) };
    let (a, b) = s.split_once('.').unwrap_or((s, ""));
    if a.len() + b.len() == 0 || !a.bytes().chain(b.bytes()).all(|c| c.is_ascii_digit()) { return None; }
    let mut n = 0i128;
    for c in a.bytes().chain(b.bytes()) { n = n.checked_mul(10)?.checked_add((c - b'0') as i128)?; }
    let d = 10i128.checked_pow(b.len() as u32)?;
    Some(Rat::new(if neg { -n } else { n }, d))
}

/// What the file means, or why it means nothing.
pub fn read(f: &File) -> Result<Reading, String> {
    let max = match f.sense { None | Some("MIN") | Some("MINIMIZE") => false, Some("MAX") | Some("MAXIMIZE") => true, Some(s) => return Err(format!("sense {s}")) };
    let costs: Vec<&String> = f.rows.iter().filter(|r| r.0 == 'N').map(|r| &r.1).collect();
    if costs.len() != 1 { return Err(format!("{} cost rows", costs.len())); }
    let cost = costs[0];
    for (i, r) in f.rows.iter().enumerate() { if f.rows[..i].iter().any(|o| o.1 == r.1) { return Err(format!("row {} twice", r.1)); } }
    let known = |n: &String| f.rows.iter().any(|r| r.0 != 'N' && r.1 == *n);

    let mut cols: Vec<ReadCol> = vec![];
    let mut integer = false;
    let mut open = false;
    for c in &f.columns {
        match c {
            Col::Integers(i) => { integer = *i; open = false; }
            Col::Entry(col, row, value) => {
                let v = number(value).ok_or_else(|| format!("number {value}"))?;
                if !open || cols.last().is_none_or(|c| c.name != *col) {
                    if cols.iter().any(|c| c.name == *col) { return Err(format!("column {col} twice")); }
                    cols.push(ReadCol { name: col.clone(), integer, cost: Rat::ZERO, entries: vec![], lo: None, hi: None });
                    open = true;
                }
                if row != cost && !known(row) { return Err(format!("unknown row {row}")); }
                let c = cols.last_mut().unwrap();
                if c.entries.iter().any(|e| e.0 == *row) { return Err(format!("{col} has two values in {row}")); }
                c.entries.push((row.clone(), v));
            }
        }
    }
    for c in &mut cols {
        if let Some(k) = c.entries.iter().position(|e| e.0 == *cost) { c.cost = c.entries.remove(k).1; }
        c.entries.retain(|e| !e.1.is_zero());
        c.entries.sort_by(|a, b| a.0.cmp(&b.0));
    }

    // The sections come in this order, each at most once.
    let rank = |s: &Section| match s { Section::Rhs(_) => 0, Section::Ranges(_) => 1, Section::Bounds(_) => 2 };
    if !f.sections.windows(2).all(|w| rank(&w[0]) < rank(&w[1])) { return Err("sections out of order".into()); }
    let mut rhs: Vec<(String, Rat)> = vec![];
    let mut ranges: Vec<(String, Rat)> = vec![];
    let mut bounds: Vec<&Bnd> = vec![];
    for s in &f.sections {
        match s {
            Section::Rhs(l) | Section::Ranges(l) => {
                let to = if rank(s) == 0 { &mut rhs } else { &mut ranges };
                for (i, (g, row, v)) in l.iter().enumerate() {
                    let v = number(v).ok_or_else(|| format!("number {v}"))?;
                    if !known(row) { return Err(format!("unknown row {row}")); }
                    // Within one group a row is mentioned once.
                    let since = (0..i).rev().take_while(|&k| l[k].0 == *g).last().unwrap_or(i);
                    if l[since..i].iter().any(|o| o.1 == *row) { return Err(format!("row {row} twice in {g}")); }
                    to.push((row.clone(), v));
                }
            }
            Section::Bounds(l) => bounds.extend(l),
        }
    }
    let mut rows = vec![];
    for (k, name) in f.rows.iter().filter(|r| r.0 != 'N') {
        let values: Vec<Rat> = rhs.iter().filter(|r| r.0 == *name).map(|r| r.1).collect();
        let ranged: Vec<Rat> = ranges.iter().filter(|r| r.0 == *name).map(|r| r.1).collect();
        if ranged.len() > 1 { return Err(format!("row {name} has two ranges")); }
        let same = values.iter().all(|v| *v == values[0]);
        let b = if values.is_empty() { Rat::ZERO } else {
            match k {
                _ if !ranged.is_empty() && !same => return Err(format!("range on row {name} with different right-hand sides")),
                'E' if !same => return Err(format!("row {name} equals two values")),
                'L' => *values.iter().min().unwrap(),
                'G' => *values.iter().max().unwrap(),
                _ => values[0],
            }
        };
        let (kind, b) = match ranged.first() {
            None => (match k { 'E' => Kind::Eq, 'L' => Kind::Le, _ => Kind::Ge }, b),
            Some(r) if r.is_zero() => (Kind::Eq, b),
            Some(r) => (Kind::Range(r.abs()), match k { 'L' => b, 'G' => b + r.abs(), _ if r.is_neg() => b, _ => b + *r }),
        };
        rows.push(ReadRow { name: name.clone(), kind, b });
    }
    let names: Vec<String> = rows.iter().map(|r: &ReadRow| r.name.clone()).collect();
    rows.sort_by(|a, b| a.name.cmp(&b.name));
    let written = names.iter().map(|n| rows.iter().position(|r| r.name == *n).unwrap()).collect();

    for c in &mut cols {
        let (mut lo, mut hi): (Vec<Rat>, Vec<Rat>) = (vec![], vec![]);
        let (mut free, mut default) = (false, true);
        for b in bounds.iter().filter(|b| b.col == c.name) {
            let v = match (&b.value, b.kind) {
                (None, "LO" | "UP" | "FX" | "LI" | "UI") => return Err("bound without value".into()),
                (Some(v), "LO" | "UP" | "FX" | "LI" | "UI") => number(v).ok_or_else(|| format!("number {v}"))?,
                _ => Rat::ZERO,
            };
            match b.kind {
                "LO" => lo.push(v),
                "UP" => hi.push(v),
                "FX" => { lo.push(v); hi.push(v); }
                "FR" => free = true,
                "MI" => hi.push(Rat::ZERO),
                "PL" => lo.push(Rat::ZERO),
                "BV" => { lo.push(Rat::ZERO); hi.push(Rat::ONE); }
                "LI" => lo.push(v),
                "UI" => hi.push(v),
                k => return Err(format!("bound {k}")),
            }
            if matches!(b.kind, "BV" | "LI" | "UI") { c.integer = true; }
            // An upper bound alone leaves the default lower bound in place.
            if !matches!(b.kind, "UP" | "UI") { default = false; }
        }
        if free && (lo.len() + hi.len()) > 0 { return Err(format!("column {} is free and bounded", c.name)); }
        if default { lo.push(Rat::ZERO); }
        c.lo = lo.into_iter().max();
        c.hi = hi.into_iter().min();
        if let (Some(l), Some(h)) = (c.lo, c.hi) { if l > h { return Err(format!("column {} has no value", c.name)); } }
    }
    if let Some(b) = bounds.iter().find(|b| !cols.iter().any(|c| c.name == b.col)) { return Err(format!("unknown column {}", b.col)); }
    Ok(Reading { max, rows, cols, written })
}
impl Reading {
    /// As relp's general form, with the rows in the given order.
    pub fn form(&self, order: &[usize]) -> GeneralForm<RB> {
        let (m, n) = (self.rows.len(), self.cols.len());
        let at = |name: &String| order.iter().position(|&i| self.rows[i].name == *name).unwrap();
        GeneralForm::new(
            if self.max { Objective::Maximize } else { Objective::Minimize },
            ColumnMajor::new(self.cols.iter().map(|c| {
                let mut v: Vec<(usize, RB)> = c.entries.iter().map(|(r, v)| (at(r), rb(*v))).collect();
                v.sort_by_key(|e| e.0);
                v
            }).collect(), m, n),
            order.iter().map(|&i| match self.rows[i].kind {
                Kind::Eq => RangedConstraintRelation::Equal,
                Kind::Le => RangedConstraintRelation::Less,
                Kind::Ge => RangedConstraintRelation::Greater,
                Kind::Range(r) => RangedConstraintRelation::Range(rb(r)),
            }).collect(),
            DenseVector::new(order.iter().map(|&i| rb(self.rows[i].b)).collect(), m),
            self.cols.iter().map(|c| Variable {
                variable_type: if c.integer { VariableType::Integer } else { VariableType::Continuous },
                cost: rb(c.cost), lower_bound: c.lo.map(rb), upper_bound: c.hi.map(rb), shift: rb(Rat::ZERO), flipped: false,
            }).collect(),
            self.cols.iter().map(|c| c.name.clone()).collect(),
            rb(Rat::ZERO),
        )
    }
}

/// How to write a file down.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Layout {
    /// Between and before fields in the free format.
    pub gap: &'static str,
    pub first: &'static str,
    pub tail: &'static str,
    pub end: &'static str,
    /// Two (row, value) pairs on a line where possible.
    pub pairs: bool,
    pub last_newline: bool,
}
pub const PLAIN: Layout = Layout { gap: " ", first: " ", tail: "", end: "\n", pairs: false, last_newline: true };

impl File {
    /// The lines of the file: the fields 1 to 6 per data line, or a header.
    fn lines(&self, pairs: bool) -> Vec<Result<[String; 6], String>> {
        let mut l: Vec<Result<[String; 6], String>> = vec![Err(format!("NAME          {}", self.name))];
        if let Some(s) = self.sense { l.push(Err("OBJSENSE".into())); l.push(Err(format!("  {s}"))); }
        let none = String::new;
        l.push(Err("ROWS".into()));
        for (k, n) in &self.rows { l.push(Ok([k.to_string(), n.clone(), none(), none(), none(), none()])); }
        let value_line = |l: &mut Vec<Result<[String; 6], String>>, fresh: &mut bool, name: &str, row: &str, v: &str| {
            if pairs && !*fresh {
                if let Some(Ok(last)) = l.last_mut() {
                    if last[1] == name && last[4].is_empty() { last[4] = row.into(); last[5] = v.into(); return; }
                }
            }
            *fresh = false;
            l.push(Ok([none(), name.into(), row.into(), v.into(), none(), none()]));
        };
        l.push(Err("COLUMNS".into()));
        let mut fresh = true;
        for c in &self.columns {
            match c {
                Col::Integers(i) => {
                    l.push(Ok([none(), "MARK".into(), "'MARKER'".into(), none(), if *i { "'INTORG'" } else { "'INTEND'" }.into(), none()]));
                    fresh = true;
                }
                Col::Entry(c, r, v) => value_line(&mut l, &mut fresh, c, r, v),
            }
        }
        for s in &self.sections {
            let mut fresh = true;
            match s {
                Section::Rhs(v) => { l.push(Err("RHS".into())); for (g, r, v) in v { value_line(&mut l, &mut fresh, g, r, v); } }
                Section::Ranges(v) => { l.push(Err("RANGES".into())); for (g, r, v) in v { value_line(&mut l, &mut fresh, g, r, v); } }
                Section::Bounds(v) => {
                    l.push(Err("BOUNDS".into()));
                    for b in v { l.push(Ok([b.kind.into(), b.group.clone(), b.col.clone(), b.value.clone().unwrap_or_default(), none(), none()])); }
                }
            }
        }
        l.push(Err("ENDATA".into()));
        l
    }
    pub fn free(&self) -> String { self.written(PLAIN, &[]) }
    /// Free format; `noise` gives lines to insert before given lines.
    pub fn written(&self, y: Layout, noise: &[(usize, &str)]) -> String {
        let mut out = String::new();
        let lines = self.lines(y.pairs);
        let n = lines.len();
        for (i, l) in lines.into_iter().enumerate() {
            for (_, t) in noise.iter().filter(|v| v.0 == i) { out += t; out += y.end; }
            match l {
                Err(h) => out += &h,
                Ok(f) => {
                    out += y.first;
                    out += &f.iter().filter(|v| !v.is_empty()).map(String::as_str).collect::<Vec<_>>().join(y.gap);
                    out += y.tail;
                }
            }
            if i + 1 < n || y.last_newline { out += y.end; }
        }
        for (_, t) in noise.iter().filter(|v| v.0 == n) { out += t; out += y.end; }
        out
    }
    /// Fixed format: fields in their columns, numbers to the right or to the left.
    pub fn fixed(&self, right: bool, pairs: bool, full: bool) -> String {
        let mut out = String::new();
        for l in self.lines(pairs) {
            match l {
                Err(h) => out += &h,
                Ok(f) => {
                    let mut line = vec![' '; 61];
                    let mut last = 0;
                    for (k, at, w) in [(0, 1, 2), (1, 4, 8), (2, 14, 8), (3, 24, 12), (4, 39, 8), (5, 49, 12)] {
                        let c: Vec<char> = f[k].chars().collect();
                        if c.is_empty() { continue; }
                        assert!(c.len() <= w, "{:?} does not fit its field", f[k]);
                        let is_number = k == 3 || k == 5;
                        let start = if is_number && right { at + w - c.len() } else { at };
                        line[start..start + c.len()].copy_from_slice(&c);
                        last = last.max(if is_number || f[k].starts_with('\'') { at + w } else { start + c.len() });
                    }
                    if !full { line.truncate(last); }
                    out.extend(line);
                }
            }
            out.push('\n');
        }
        out
    }
}

pub fn s(v: &str) -> String { v.to_string() }
pub fn entry(c: &str, r: &str, v: &str) -> Col { Col::Entry(s(c), s(r), s(v)) }
pub fn val(g: &str, r: &str, v: &str) -> Val { (s(g), s(r), s(v)) }
