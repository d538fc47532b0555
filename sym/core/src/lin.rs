//! Turns the expression DAG of one path into (multi)linear forms over the
//! case's coordinates: sum of c_m * m, with m a monomial over the coordinate
//! variables and c_m a 2^-90 fixed-point number, plus
//!   terr  - bound on the accumulated fixed-point truncation error per unit of input
//!   rerr  - bound on the accumulated floating-point rounding error of the modelled
//!           precision (standard model, |delta| <= u per operation), if requested
//!   taint - garbage symbols that flowed into the value, however they cancelled
//!   havoc - the value is not a finite number for some input (x/0, inf, NaN constants)
use crate::fx;
use crate::sym::{Node, Op, Sym};
use std::collections::HashMap;

/// monomial ids: 0 is the constant 1; 1..=nv are coordinates; the rest are products
pub struct Space {
    /// coordinates (SMT variables)
    pub ncoord: usize,
    /// input var -> linear combination of coordinates (coefficient as integer / 2^14);
    /// None: input var i is coordinate i
    pub basis: Option<Vec<Vec<i64>>>,
    pub monos: Vec<Vec<u32>>, // monomials of degree >= 2, sorted coordinate ids (0-based)
    pub mono_ids: HashMap<Vec<u32>, u32>,
}
pub const BASIS_SHIFT: u32 = 14;

impl Space {
    pub fn full(nvars: usize) -> Self {
        Space { ncoord: nvars, basis: None, monos: vec![], mono_ids: HashMap::new() }
    }
    pub fn sub(nvars: usize, d: usize, seed: u64) -> Self {
        let mut st = seed ^ 0x5DEECE66D ^ ((nvars as u64) << 20) ^ (d as u64);
        let mut next = || {
            st = st.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = st;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        };
        let lim = (1i64 << BASIS_SHIFT) / d as i64;
        let mut rows = Vec::with_capacity(nvars);
        for _ in 0..nvars {
            rows.push(
                (0..d)
                    .map(|_| {
                        // odd multiples: never zero, never equal by accident of rounding
                        let v = (next() % (2 * lim as u64)) as i64 - lim;
                        v | 1
                    })
                    .collect(),
            );
        }
        Space { ncoord: d, basis: Some(rows), monos: vec![], mono_ids: HashMap::new() }
    }
    pub fn var_form(&self, i: usize) -> Vec<(u32, i128)> {
        match &self.basis {
            None => vec![(1 + i as u32, fx::ONE)],
            Some(b) => b[i]
                .iter()
                .enumerate()
                .map(|(r, c)| (1 + r as u32, (*c as i128) << (fx::S - BASIS_SHIFT)))
                .collect(),
        }
    }
    pub fn factors(&self, m: u32) -> Vec<u32> {
        if m == 0 {
            vec![]
        } else if (m as usize) <= self.ncoord {
            vec![m - 1]
        } else {
            self.monos[m as usize - 1 - self.ncoord].clone()
        }
    }
    pub fn mono_mul(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        let mut f = self.factors(a);
        f.extend(self.factors(b));
        f.sort();
        if let Some(id) = self.mono_ids.get(&f) {
            return *id;
        }
        let id = (self.monos.len() + 1 + self.ncoord) as u32;
        self.monos.push(f.clone());
        self.mono_ids.insert(f, id);
        id
    }
}

#[derive(Clone, Debug, Default)]
pub struct Form {
    pub t: Vec<(u32, i128)>,
    pub terr: f64,
    pub rerr: f64,
    pub taint: Vec<u32>,
    pub havoc: bool,
}

impl Form {
    pub fn konst(v: f64) -> Form {
        match fx::from_f64(v) {
            Some((c, lost)) => Form {
                t: if c == 0 { vec![] } else { vec![(0, c)] },
                terr: if lost { EPS } else { 0.0 },
                ..Default::default()
            },
            None => Form { havoc: true, ..Default::default() },
        }
    }
    /// bound of |value| over the box (all coordinates, hence monomials, in [-1,1])
    pub fn mag(&self) -> f64 {
        let s: f64 = self.t.iter().map(|(_, c)| fx::to_f64(*c).abs()).sum();
        s * (1.0 + 1e-10) + self.rerr + self.terr * (self.t.len() as f64 + 1.0)
    }
    fn meta(&mut self, o: &Form) {
        if !o.taint.is_empty() {
            for x in &o.taint {
                if !self.taint.contains(x) {
                    self.taint.push(*x);
                }
            }
        }
        self.havoc |= o.havoc;
    }
}
/// one unit of the fixed-point representation
pub const EPS: f64 = 8.077935669463161e-28; // 2^-90

/// a +/- b, reusing a's storage
fn addsub(mut a: Form, b: &Form, sub: bool) -> Form {
    a.meta(b);
    a.terr += b.terr;
    a.rerr += b.rerr;
    if b.t.len() <= 4 {
        for &(m, c) in &b.t {
            let c = if sub { -c } else { c };
            match a.t.last() {
                None => a.t.push((m, c)),
                Some(&(l, _)) if l < m => a.t.push((m, c)),
                _ => match a.t.binary_search_by_key(&m, |e| e.0) {
                    Ok(i) => match a.t[i].1.checked_add(c) {
                        Some(v) if v.unsigned_abs() >> 126 == 0 => a.t[i].1 = v,
                        _ => a.havoc = true,
                    },
                    Err(i) => a.t.insert(i, (m, c)),
                },
            }
        }
        return a;
    }
    let mut out = Vec::with_capacity(a.t.len().max(b.t.len()));
    let (mut i, mut j) = (0, 0);
    while i < a.t.len() || j < b.t.len() {
        if j >= b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
            out.push(a.t[i]);
            i += 1;
        } else if i >= a.t.len() || b.t[j].0 < a.t[i].0 {
            out.push((b.t[j].0, if sub { -b.t[j].1 } else { b.t[j].1 }));
            j += 1;
        } else {
            let c = if sub { -b.t[j].1 } else { b.t[j].1 };
            match a.t[i].1.checked_add(c) {
                Some(v) if v.unsigned_abs() >> 126 == 0 => out.push((a.t[i].0, v)),
                _ => a.havoc = true,
            }
            i += 1;
            j += 1;
        }
    }
    a.t = out;
    a
}

fn neg(mut a: Form) -> Form {
    for e in &mut a.t {
        e.1 = -e.1;
    }
    a
}

fn scale(mut a: Form, c: f64) -> Form {
    match fx::from_f64(c) {
        None => a.havoc = true,
        Some((fc, lost)) => {
            let mag: f64 = a.t.iter().map(|e| fx::to_f64(e.1).abs()).fold(0.0, f64::max);
            for e in &mut a.t {
                match fx::mul(e.1, fc) {
                    Some(v) => e.1 = v,
                    None => a.havoc = true,
                }
            }
            a.terr = a.terr * c.abs() + EPS + if lost { mag * EPS } else { 0.0 };
            a.rerr *= c.abs();
        }
    }
    a
}

fn mulf(sp: &mut Space, a: &Form, b: &Form) -> Form {
    let mut acc: HashMap<u32, i128> = HashMap::new();
    let mut out = Form::default();
    for &(ma, ca) in &a.t {
        for &(mb, cb) in &b.t {
            let m = sp.mono_mul(ma, mb);
            match fx::mul(ca, cb) {
                Some(v) => *acc.entry(m).or_insert(0) += v,
                None => out.havoc = true,
            }
        }
    }
    out.t = acc.into_iter().collect();
    out.t.sort();
    let (ma, mb) = (a.mag(), b.mag());
    out.terr = a.terr * mb + b.terr * ma + EPS * (a.t.len().min(b.t.len()) as f64);
    out.rerr = a.rerr * mb + b.rerr * ma;
    out.meta(a);
    out.meta(b);
    out
}

pub struct Evaluated {
    pub forms: HashMap<u32, Form>,
    pub ops: u64,
    pub max_terr: f64,
}

/// Forms of the nodes in `want`.  `u`: unit roundoff of the modelled precision
/// if rounding errors are to be bounded.
pub fn evaluate(nodes: &[Node], want: &[u32], sp: &mut Space, u: Option<f64>) -> Result<Evaluated, String> {
    let n = nodes.len();
    let mut uses = vec![0u32; n];
    let mut live = vec![false; n];
    for &w in want {
        live[w as usize] = true;
        uses[w as usize] += 1_000_000; // never freed
    }
    for i in (0..n).rev() {
        if !live[i] {
            continue;
        }
        for o in [nodes[i].a, nodes[i].b] {
            if let Sym::N(j) = o {
                live[j as usize] = true;
                uses[j as usize] += 1;
            }
        }
    }
    let mut store: Vec<Option<Box<Form>>> = Vec::with_capacity(n);
    store.resize_with(n, || None);
    let mut ops = 0u64;
    let mut max_terr = 0f64;
    for i in 0..n {
        if !live[i] {
            continue;
        }
        let nd = nodes[i];
        ops += 1;
        // takes the operand out of the store when this is its last use
        macro_rules! take {
            ($s:expr) => {
                match $s {
                    Sym::C(v) => Box::new(Form::konst(v)),
                    Sym::N(j) => {
                        let j = j as usize;
                        uses[j] -= 1;
                        if uses[j] == 0 {
                            store[j].take().expect("operand")
                        } else {
                            store[j].clone().expect("operand")
                        }
                    }
                }
            };
        }
        let mut f: Box<Form> = match nd.op {
            Op::Var(v) => Box::new(Form { t: sp.var_form(v as usize), ..Default::default() }),
            Op::Garbage(g) => Box::new(Form { taint: vec![g], ..Default::default() }),
            Op::Add | Op::Sub => {
                let sub = nd.op == Op::Sub;
                // prefer to extend the longer operand in place
                let la = if let Sym::N(j) = nd.a { store[j as usize].as_ref().map_or(0, |f| f.t.len()) } else { 0 };
                let lb = if let Sym::N(j) = nd.b { store[j as usize].as_ref().map_or(0, |f| f.t.len()) } else { 0 };
                if lb > la {
                    let b = take!(nd.b);
                    let a = take!(nd.a);
                    let b = if sub { neg(*b) } else { *b };
                    Box::new(addsub(b, &a, false))
                } else {
                    let a = take!(nd.a);
                    // borrow b when it stays alive
                    match nd.b {
                        Sym::N(j) if uses[j as usize] > 1 && store[j as usize].is_some() => {
                            uses[j as usize] -= 1;
                            Box::new(addsub(*a, store[j as usize].as_ref().unwrap(), sub))
                        }
                        _ => {
                            let b = take!(nd.b);
                            Box::new(addsub(*a, &b, sub))
                        }
                    }
                }
            }
            Op::Neg => Box::new(neg(*take!(nd.a))),
            Op::Mul => match (nd.a, nd.b) {
                (Sym::C(c), x) | (x, Sym::C(c)) => Box::new(scale(*take!(x), c)),
                (a, b) => {
                    let (a, b) = (take!(a), take!(b));
                    Box::new(mulf(sp, &a, &b))
                }
            },
            Op::Div => match (nd.a, nd.b) {
                (x, Sym::C(c)) => {
                    let mut f = *take!(x);
                    for e in &mut f.t {
                        match fx::div_f64(e.1, c) {
                            Some(v) => e.1 = v,
                            None => f.havoc = true,
                        }
                    }
                    if c == 0.0 || !c.is_finite() {
                        f.havoc = true;
                    } else {
                        f.terr = f.terr / c.abs() + 2.0 * EPS;
                        f.rerr /= c.abs();
                    }
                    Box::new(f)
                }
                _ => return Err("division by symbolic data".into()),
            },
        };
        if let Some(u) = u {
            // negation and loads are exact
            if matches!(nd.op, Op::Add | Op::Sub | Op::Mul | Op::Div) {
                // a product with a power of two is exact
                let exact = matches!((nd.op, nd.a, nd.b), (Op::Mul, Sym::C(c), _) | (Op::Mul, _, Sym::C(c)) | (Op::Div, _, Sym::C(c))
                    if c != 0.0 && (c.to_bits() & ((1u64 << 52) - 1)) == 0);
                if !exact {
                    let m = f.mag();
                    f.rerr += u * m * 1.0001;
                }
            }
        }
        if f.terr > max_terr {
            max_terr = f.terr;
        }
        store[i] = Some(f);
    }
    let mut forms = HashMap::new();
    for &w in want {
        if let Some(f) = store[w as usize].take() {
            forms.insert(w, *f);
        }
    }
    Ok(Evaluated { forms, ops, max_terr })
}

/// value of a form at a point (coordinates given), for validation against native runs
pub fn value_at(f: &Form, sp: &Space, pt: &[f64]) -> f64 {
    let mut v = 0.0;
    for (m, c) in &f.t {
        let mut p = fx::to_f64(*c);
        for k in sp.factors(*m) {
            p *= pt[k as usize];
        }
        v += p;
    }
    v
}
