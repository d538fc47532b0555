mod scen;

use symcore::{fx, lin, sym};
use symcore::lin::{Form, Space};
use scen::{Case, Env, Row, Want, NONE};
use symcore::smt::{Res, Solver};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;
use symcore::sym::{arena, CondKind, Op, Scalar, Sym, W64};

// --------------------------------------------------------------------------- symbolic environment

struct Obl {
    label: String,
    got: Vec<Sym>,
    want: Want<Sym>,
}
#[derive(Default)]
struct SymEnv {
    nvars: u32,
    obls: Vec<Obl>,
    facts: Vec<(String, i64, i64)>,
    in_panics: bool,
}
impl Env<Sym> for SymEnv {
    fn inputs(&mut self, n: usize) -> (u32, Vec<Sym>) {
        let b = self.nvars;
        self.nvars += n as u32;
        (b, (0..n).map(|i| arena().var(b + i as u32)).collect())
    }
    fn garbage(&mut self, n: usize) -> Vec<Sym> {
        if n == 0 {
            return vec![];
        }
        let g = arena().garbage(0);
        vec![g; n]
    }
    fn choose(&mut self, _label: &str, k: u32) -> u32 {
        arena().decide(CondKind::Choose, Sym::C(0.0), Sym::C(0.0), k)
    }
    fn check(&mut self, label: &str, got: &[Sym], want: Want<Sym>) {
        self.obls.push(Obl { label: label.into(), got: got.to_vec(), want });
    }
    fn fact(&mut self, label: &str, got: i64, want: i64) {
        self.facts.push((label.into(), got, want));
    }
    fn panics(&mut self, f: &mut dyn FnMut()) -> bool {
        self.in_panics = true;
        let r = catch_unwind(AssertUnwindSafe(|| f())).is_err();
        self.in_panics = false;
        r
    }
}

// --------------------------------------------------------------------------- native environment

trait Native: Scalar {
    fn f(self) -> f64;
}
impl Native for f64 {
    fn f(self) -> f64 {
        self
    }
}
impl Native for f32 {
    fn f(self) -> f64 {
        self as f64
    }
}
impl Native for W64 {
    fn f(self) -> f64 {
        self.0
    }
}

struct NatEnv {
    values: Vec<f64>,
    choices: Vec<u32>,
    ci: usize,
    used: usize,
    ng: u32,
    failures: Vec<String>,
    rel: f64,
    rounding: bool,
    single: bool,
    pub outputs: Vec<f64>,
}
impl NatEnv {
    fn new(values: Vec<f64>, choices: Vec<u32>, c: &Case, single: bool) -> Self {
        let (rel, rounding) = tolerance(c);
        NatEnv { values, choices, ci: 0, used: 0, ng: 0, failures: vec![], rel, rounding, single, outputs: vec![] }
    }
}
impl<T: Native> Env<T> for NatEnv {
    fn inputs(&mut self, n: usize) -> (u32, Vec<T>) {
        let b = self.used;
        self.used += n;
        while self.values.len() < self.used {
            self.values.push(0.0);
        }
        // what the code sees is the value as rounded to T; so is the oracle's input
        let v: Vec<T> = self.values[b..b + n].iter().map(|v| T::konst(*v)).collect();
        for (i, x) in v.iter().enumerate() {
            self.values[b + i] = x.f();
        }
        (b as u32, v)
    }
    fn garbage(&mut self, n: usize) -> Vec<T> {
        self.ng += 1;
        let g = self.ng;
        (0..n).map(|i| T::garbage(g * 131 + i as u32)).collect()
    }
    fn choose(&mut self, _label: &str, k: u32) -> u32 {
        let c = self.choices.get(self.ci).copied().unwrap_or(0);
        self.ci += 1;
        c.min(k - 1)
    }
    fn check(&mut self, label: &str, got: &[T], want: Want<T>) {
        let mut row: Row = vec![];
        for (k, g) in got.iter().enumerate() {
            let g = g.f();
            self.outputs.push(g);
            let (w, l1) = match &want {
                Want::Same(v) => (v[k].f(), v[k].f().abs() + got.len() as f64),
                Want::Rows(f) => {
                    row.clear();
                    f(k, &mut row);
                    // exact accumulation in fixed point, then one conversion
                    let mut acc = 0i128;
                    let mut l1 = 0.0;
                    for (a, b, c) in &row {
                        let mut t = *c;
                        l1 += fx::to_f64(*c).abs();
                        for v in [*a, *b] {
                            if v != NONE {
                                let x = self.values[v as usize];
                                t = fx::mul(t, fx::from_f64(x).unwrap_or((0, false)).0).unwrap_or(0);
                            }
                        }
                        acc += t;
                    }
                    (fx::to_f64(acc), l1)
                }
            };
            let tol = tol_value(self.rel, self.rounding, self.single, l1, row.len()) * 0.5;
            if !((g - w).abs() <= tol) {
                if self.failures.len() < 5 {
                    self.failures.push(format!("{} output {}: got {:e}, expected {:e}", label, k, g, w));
                } else {
                    self.failures.push(String::new());
                }
            }
        }
    }
    fn fact(&mut self, label: &str, got: i64, want: i64) {
        if got != want {
            self.failures.push(format!("{}: got {}, expected {}", label, got, want));
        }
    }
    fn panics(&mut self, f: &mut dyn FnMut()) -> bool {
        catch_unwind(AssertUnwindSafe(|| f())).is_err()
    }
}

// --------------------------------------------------------------------------- tolerances

/// (relative tolerance, whether floating-point rounding is part of the claim)
fn tolerance(c: &Case) -> (f64, bool) {
    match c.or("prec", "f64") {
        "f64" => (2f64.powi(-(c.uor("rel", 40) as i32)), false),
        "f32r" => (2f64.powi(-24), true),
        "f64r" => (2f64.powi(-53), true),
        p => panic!("prec {}", p),
    }
}
/// how far an output may be from its exact value, when inputs are bounded by 1
/// and the definition's coefficients have absolute sum l1
fn tol_value(rel: f64, rounding: bool, single: bool, l1: f64, terms: usize) -> f64 {
    if rounding {
        // accuracy claim: 32 (n + 16) units in the last place of the working precision
        rel * (32.0 * (terms as f64 + 16.0)) * (l1 + 1.0)
    } else if single {
        2f64.powi(-10) * (1.0 + l1)
    } else {
        rel * (1.0 + l1)
    }
}

// --------------------------------------------------------------------------- running one path

enum PathEnd {
    Done,
    Panic(String),
}
struct Path {
    env: SymEnv,
    end: PathEnd,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = Default::default();
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let m = format!("{} at {}", msg.replace('\n', " "), loc);
        // a panic that cannot unwind is about to abort the process: leave a trace
        if std::env::var_os("SYMDCT_VERBOSE").is_some() {
            eprintln!("PANIC {}", m);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

fn run_path(c: &Case, prefix: Vec<u32>) -> Path {
    let single = c.or("prec", "f64") == "f32r";
    arena().reset(single, prefix);
    let mut env = SymEnv::default();
    let r = catch_unwind(AssertUnwindSafe(|| scen::run::<Sym, SymEnv>(c, &mut env)));
    let end = match r {
        Ok(()) => PathEnd::Done,
        Err(_) => PathEnd::Panic(LAST_PANIC.with(|p| p.borrow().clone())),
    };
    Path { env, end }
}

// --------------------------------------------------------------------------- one case

#[derive(Default)]
struct Stats {
    paths: u64,
    nodes: u64,
    ops: u64,
    queries: u64,
    outputs: u64,
    coords: u64,
    validated: u64,
    sym_ms: f64,
    max_dev: f64,
    dag_queries: u64,
    cross: u64,
    shared: u64,
    witnesses: u64,
}
enum Verdict {
    Holds,
    Cex { label: String, values: Vec<f64>, choices: Vec<u32> },
    Error(String),
}

struct Ctx {
    z3: Solver,
    cvc5: Option<Solver>,
    seed: u64,
    trace: Option<String>,
    answered: std::collections::HashSet<(String, String)>,
}

fn int_sum(terms: &[(String, i128)]) -> String {
    let mut s = String::new();
    let mut n = 0;
    for (v, c) in terms {
        if *c == 0 {
            continue;
        }
        n += 1;
        let a = c.unsigned_abs();
        let lit = if *c < 0 { format!("(- {})", a) } else { a.to_string() };
        if v.is_empty() {
            let _ = write!(s, " {}", lit);
        } else {
            let _ = write!(s, " (* {} {})", lit, v);
        }
    }
    match n {
        0 => "0".into(),
        1 => s.trim().to_string(),
        _ => format!("(+{})", s),
    }
}
fn lit(c: i128) -> String {
    if c < 0 {
        format!("(- {})", c.unsigned_abs())
    } else {
        c.to_string()
    }
}
/// an f64 as an exact SMT rational
fn rat(v: f64) -> String {
    if v == 0.0 {
        return "0.0".into();
    }
    let bits = v.abs().to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = bits & ((1u64 << 52) - 1);
    let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | (1u64 << 52), e - 1075) };
    while m % 2 == 0 {
        m /= 2;
        e += 1;
    }
    let s = if e >= 0 {
        if e < 70 {
            format!("{}.0", (m as u128) << e)
        } else {
            format!("(* {}.0 {})", m, pow2(e as u32))
        }
    } else {
        format!("(/ {}.0 {})", m, pow2((-e) as u32))
    };
    if v < 0.0 {
        format!("(- {})", s)
    } else {
        s
    }
}
fn pow2(e: u32) -> String {
    if e < 127 {
        format!("{}.0", 1u128 << e)
    } else {
        format!("(* {}.0 {})", 1u128 << 126, pow2(e - 126))
    }
}

fn mono_name(sp: &Space, m: u32) -> String {
    if m == 0 {
        String::new()
    } else {
        format!("v{}", m - 1)
    }
    .replace("v", if (m as usize) > sp.ncoord { "m" } else { "v" })
}

fn sym_case(c: &Case, ctx: &mut Ctx, st: &mut Stats) -> Verdict {
    let max_paths = c.uor("paths", 4096) as u64;
    let mut prefix: Vec<u32> = vec![];
    loop {
        let t0 = Instant::now();
        if let Some(f) = &ctx.trace {
            // which path is about to run, should the process not survive it
            let ch: Vec<String> = prefix.iter().map(|c| c.to_string()).collect();
            let _ = std::fs::write(f, format!("{}\n{}\n", c.text, ch.join(" ")));
        }
        let p = run_path(c, prefix.clone());
        st.paths += 1;
        st.nodes += arena().nodes.len() as u64;
        st.sym_ms += t0.elapsed().as_secs_f64() * 1000.0;
        if let Some(u) = &arena().unsupported {
            return Verdict::Error(format!("unsupported: {}", u));
        }
        match check_path(c, &p, ctx, st) {
            Verdict::Holds => {}
            v => return v,
        }
        // next decision prefix, depth first
        let ds = &arena().decisions;
        let mut next: Vec<u32> = ds.iter().map(|d| d.chosen).collect();
        let mut i = next.len();
        loop {
            if i == 0 {
                return Verdict::Holds;
            }
            i -= 1;
            if next[i] + 1 < ds[i].arity {
                next[i] += 1;
                next.truncate(i + 1);
                break;
            }
        }
        if st.paths >= max_paths {
            return Verdict::Error(format!("more than {} paths", max_paths));
        }
        prefix = next;
    }
}

fn check_path(c: &Case, p: &Path, ctx: &mut Ctx, st: &mut Stats) -> Verdict {
    let t0 = Instant::now();
    let (rel, rounding) = tolerance(c);
    let single = c.or("prec", "f64") == "f32r";
    let u = if rounding { Some(rel) } else { None };
    let ar = arena();
    let nv = p.env.nvars as usize;
    let mut sp = match c.or("m", "full") {
        "full" => Space::full(nv),
        "sub" => Space::sub(nv, c.uor("d", 3), ctx.seed),
        m => return Verdict::Error(format!("mode {}", m)),
    };

    // nodes whose forms are needed: outputs, references, path conditions
    let mut want: Vec<u32> = vec![];
    let mut push = |s: &Sym| {
        if let Sym::N(i) = s {
            want.push(*i)
        }
    };
    for o in &p.env.obls {
        o.got.iter().for_each(&mut push);
        if let Want::Same(v) = &o.want {
            v.iter().for_each(&mut push);
        }
    }
    for d in &ar.decisions {
        push(&d.a);
        push(&d.b);
    }
    want.sort();
    want.dedup();
    let ev = match lin::evaluate(&ar.nodes, &want, &mut sp, u) {
        Ok(e) => e,
        Err(e) => return Verdict::Error(format!("unsupported: {}", e)),
    };
    st.ops += ev.ops;
    st.coords = st.coords.max(sp.ncoord as u64);
    let form = |s: &Sym| -> Form {
        match s {
            Sym::C(v) => Form::konst(*v),
            Sym::N(i) => ev.forms[i].clone(),
        }
    };

    // path conditions that say "this input equals that one (or that constant)" are
    // used up front: they turn products of different inputs into the same product
    #[derive(Clone, Copy)]
    enum Sub {
        Var(u32),
        Const(i128),
    }
    let mut subst: HashMap<u32, Sub> = HashMap::new();
    if sp.basis.is_none() {
        let resolve = |subst: &HashMap<u32, Sub>, mut v: u32| -> Sub {
            loop {
                match subst.get(&v) {
                    Some(Sub::Var(w)) => v = *w,
                    Some(c) => return *c,
                    None => return Sub::Var(v),
                }
            }
        };
        for d in &ar.decisions {
            if d.kind != CondKind::EqZero || d.chosen != 1 {
                continue;
            }
            let side = |x: &Sym| -> Option<Sub> {
                match x {
                    Sym::C(v) => fx::from_f64(*v).map(|r| Sub::Const(r.0)),
                    Sym::N(i) => match ar.nodes[*i as usize].op {
                        Op::Var(v) => Some(Sub::Var(v)),
                        _ => None,
                    },
                }
            };
            if let (Some(a), Some(b)) = (side(&d.a), side(&d.b)) {
                let f = |s: Sub, m: &HashMap<u32, Sub>| if let Sub::Var(v) = s { resolve(m, v) } else { s };
                match (f(a, &subst), f(b, &subst)) {
                    (Sub::Var(x), Sub::Var(y)) if x != y => {
                        subst.insert(x.max(y), Sub::Var(x.min(y)));
                    }
                    (Sub::Var(x), Sub::Const(c)) | (Sub::Const(c), Sub::Var(x)) => {
                        subst.insert(x, Sub::Const(c));
                    }
                    _ => {}
                }
            }
        }
        let all: Vec<u32> = subst.keys().cloned().collect();
        for v in all {
            let r = resolve(&subst, v);
            subst.insert(v, r);
        }
    }
    // differences got - want, one entry per output
    struct Diff {
        label: String,
        terms: Vec<(u32, i128)>,
        tol: i128,
        strong: i128,
        taint: bool,
        havoc: bool,
    }
    let mut diffs: Vec<Diff> = vec![];
    let scale_tol = |t: f64| -> i128 { (t * (fx::ONE as f64)) as i128 };
    for o in &p.env.obls {
        if let Want::Same(v) = &o.want {
            if v.len() != o.got.len() {
                return Verdict::Error("scenario: length mismatch".into());
            }
        }
        let mut row: Row = vec![];
        for (k, g) in o.got.iter().enumerate() {
            let f = form(g);
            let mut acc: HashMap<u32, i128> = f.t.iter().cloned().collect();
            let mut terr = f.terr;
            let mut rerr = f.rerr;
            let mut taint = !f.taint.is_empty();
            let mut havoc = f.havoc;
            let l1;
            match &o.want {
                Want::Same(v) => {
                    let w = form(&v[k]);
                    for (m, x) in &w.t {
                        *acc.entry(*m).or_insert(0) -= x;
                    }
                    terr += w.terr;
                    rerr += w.rerr;
                    // both sides depending on garbage is not equality
                    taint |= !w.taint.is_empty();
                    havoc |= w.havoc;
                    l1 = w.mag();
                }
                Want::Rows(fr) => {
                    row.clear();
                    fr(k, &mut row);
                    let mut s = 0.0;
                    if sp.basis.is_some() {
                        let d = sp.ncoord;
                        let mut a = vec![0i128; d];
                        let basis = sp.basis.as_ref().unwrap();
                        let mut konst = 0i128;
                        for (v, w, x) in &row {
                            s += fx::to_f64(*x).abs();
                            if *v == NONE {
                                konst += *x;
                                continue;
                            }
                            if *w != NONE {
                                return Verdict::Error("products need m=full".into());
                            }
                            let b = &basis[*v as usize];
                            // |x| stays far below 2^127 / 2^14 / terms for every oracle used here
                            for r in 0..d {
                                a[r] += (*x >> 4) * (b[r] as i128);
                            }
                        }
                        for r in 0..d {
                            *acc.entry(1 + r as u32).or_insert(0) -= a[r] >> (lin::BASIS_SHIFT - 4);
                        }
                        *acc.entry(0).or_insert(0) -= konst;
                    } else {
                        for (v, w, x) in &row {
                            s += fx::to_f64(*x).abs();
                            let m1 = if *v == NONE { 0 } else { 1 + *v };
                            let m2 = if *w == NONE { 0 } else { 1 + *w };
                            let m = sp.mono_mul(m1, m2);
                            *acc.entry(m).or_insert(0) -= *x;
                        }
                    }
                    // oracle values are good to 2^-84
                    terr += lin::EPS * 64.0;
                    l1 = s;
                }
            }
            if !subst.is_empty() {
                let mut acc2: HashMap<u32, i128> = HashMap::new();
                for (m, x) in acc {
                    let mut coef = x;
                    let mut mono = 0u32;
                    for v in sp.factors(m) {
                        match subst.get(&v) {
                            Some(Sub::Var(w)) => mono = sp.mono_mul(mono, 1 + w),
                            Some(Sub::Const(k)) => {
                                coef = match fx::mul(coef, *k) {
                                    Some(c) => c,
                                    None => return Verdict::Error("overflow in substitution".into()),
                                };
                                terr += lin::EPS * (2.0 + fx::to_f64(x).abs());
                            }
                            None => mono = sp.mono_mul(mono, 1 + v),
                        }
                    }
                    *acc2.entry(mono).or_insert(0) += coef;
                }
                acc = acc2;
            }
            let mut terms: Vec<(u32, i128)> = acc.into_iter().filter(|e| e.1 != 0).collect();
            terms.sort();
            let t = tol_value(rel, rounding, single, l1, nv.max(1)) ;
            let slack = terr * (terms.len() as f64 + 1.0) + rerr;
            let dev: f64 = terms.iter().map(|e| fx::to_f64(e.1).abs()).sum::<f64>() + slack;
            if !taint && !havoc {
                st.max_dev = st.max_dev.max(dev / t);
            }
            if terr * (terms.len() as f64 + 1.0) >= t * 0.5 {
                return Verdict::Error(format!("the encoding's own error bound {:e} is too close to the tolerance {:e}", slack, t));
            }
            diffs.push(Diff {
                label: format!("{} output {}", o.label, k),
                terms,
                tol: scale_tol(t) - scale_tol(slack),
                strong: scale_tol(2f64.powi(-8) * (1.0 + l1)),
                taint,
                havoc,
            });
        }
    }
    st.outputs += diffs.len() as u64;
    st.sym_ms += t0.elapsed().as_secs_f64() * 1000.0;

    // ---- the query: box and path condition, then the negated property
    let mut used = std::collections::BTreeSet::new();
    for d in &diffs {
        for (m, _) in &d.terms {
            used.insert(*m);
        }
    }
    let mut head = String::from("(push)\n");
    let mut names: Vec<String> = vec![];
    for i in 0..sp.ncoord {
        let v = format!("v{}", i);
        let _ = writeln!(head, "(declare-const {} Real)(assert (<= (- 1.0) {} 1.0))", v, v);
        names.push(v);
    }
    let nmono = sp.monos.len();
    for i in 0..nmono {
        let v = format!("m{}", i + 1 + sp.ncoord - 1);
        // relaxation: a product of values in [-1,1] is in [-1,1]
        let _ = writeln!(head, "(declare-const {} Real)(assert (<= (- 1.0) {} 1.0))", v, v);
    }
    let _ = writeln!(head, "(declare-const garbage_nan Bool)");
    let mut nchoice = 0;
    let mut conds = format!("{} {} ", sp.ncoord, nmono);
    let mut choices = vec![];
    for d in &ar.decisions {
        match d.kind {
            CondKind::Choose => {
                let _ = writeln!(
                    head,
                    "(declare-const c{} Int)(assert (and (<= 0 c{}) (< c{} {})))(assert (= c{} {}))",
                    nchoice, nchoice, nchoice, d.arity, nchoice, d.chosen
                );
                nchoice += 1;
                choices.push(d.chosen);
            }
            CondKind::EqZero | CondKind::Sign => {
                let (fa, fb) = (form(&d.a), form(&d.b));
                let mut acc: HashMap<u32, i128> = fa.t.iter().cloned().collect();
                for (m, x) in &fb.t {
                    *acc.entry(*m).or_insert(0) -= x;
                }
                let mut t: Vec<_> = acc.into_iter().filter(|e| e.1 != 0).collect();
                t.sort();
                let e = int_sum(&t.iter().map(|(m, x)| (mono_name(&sp, *m), *x)).collect::<Vec<_>>());
                let s = match (d.kind, d.chosen) {
                    (CondKind::EqZero, 0) => format!("(not (= {} 0))", e),
                    (CondKind::EqZero, _) => format!("(= {} 0)", e),
                    (_, 0) => format!("(> {} 0)", e),
                    (_, 1) => format!("(< {} 0)", e),
                    _ => format!("(= {} 0)", e),
                };
                let _ = writeln!(head, "(assert {})", s);
                conds.push_str(&s);
            }
        }
    }
    ctx.z3.send(&head);
    macro_rules! solve {
        () => {
            match ctx.z3.check() {
                Ok(r) => {
                    st.queries += 1;
                    r
                }
                Err(e) => return Verdict::Error(e),
            }
        };
    }
    macro_rules! cex {
        ($label:expr) => {{
            let vals = match ctx.z3.values(&names) {
                Ok(v) => v,
                Err(e) => return Verdict::Error(e),
            };
            let values: Vec<f64> = match &sp.basis {
                None => vals,
                Some(b) => b
                    .iter()
                    .map(|r| r.iter().zip(&vals).map(|(c, v)| *c as f64 / (1u64 << lin::BASIS_SHIFT) as f64 * v).sum())
                    .collect(),
            };
            return Verdict::Cex { label: $label, values, choices };
        }};
    }

    if let PathEnd::Panic(msg) = &p.end {
        // the scenario only makes calls that must succeed: any input that takes
        // this path is a counterexample.  Ask for one.
        let r = solve!();
        match r {
            Res::Unsat => {
                ctx.z3.send("(pop)\n");
                return Verdict::Holds;
            }
            Res::Sat => {
                // prefer a generic input
                cex!(format!("panicked: {}", msg))
            }
            Res::Unknown(e) => return Verdict::Error(format!("solver: {}", e)),
        }
    }
    // facts about plain integers (lengths, whether a call was rejected)
    for (l, g, w) in &p.env.facts {
        if g == w {
            continue;
        }
        ctx.z3.send(&format!("(push)(assert (not (= {} {})))\n", lit(*g as i128), lit(*w as i128)));
        match solve!() {
            Res::Sat => cex!(format!("{}: got {}, expected {}", l, g, w)),
            Res::Unsat => ctx.z3.send("(pop)\n"),
            Res::Unknown(e) => return Verdict::Error(format!("solver: {}", e)),
        }
    }
    if !p.env.facts.is_empty() && p.env.facts.iter().all(|(_, g, w)| g == w) {
        let mut s = String::from("(push)(assert (or");
        for (_, g, w) in &p.env.facts {
            let _ = write!(s, " (not (= {} {}))", lit(*g as i128), lit(*w as i128));
        }
        s.push_str("))\n");
        ctx.z3.send(&s);
        match solve!() {
            Res::Unsat => ctx.z3.send("(pop)\n"),
            r => return Verdict::Error(format!("facts: {:?}", r)),
        }
    }

    // ---- reachability witness: under this path's conditions the code's own outputs can
    // be something other than zero (so the query below is about something)
    if st.paths == 1 && p.env.facts.is_empty() && p.env.obls.is_empty() {
        return Verdict::Error("vacuous: the scenario claims nothing".into());
    }
    if st.paths == 1 && !p.env.obls.is_empty() && ar.decisions.iter().all(|d| d.kind == CondKind::Choose) {
        let mut s = String::from("(push)(assert (or false");
        for g in p.env.obls[0].got.iter().take(3) {
            let f = form(g);
            let e = int_sum(&f.t.iter().map(|(m, x)| (mono_name(&sp, *m), *x >> 50)).collect::<Vec<_>>());
            let _ = write!(s, " (> {} 1000) (< {} (- 1000)){}", e, e, if f.havoc { " true" } else { "" });
        }
        s.push_str("))\n");
        ctx.z3.send(&s);
        match solve!() {
            Res::Sat => ctx.z3.send("(pop)\n"),
            _ if diffs.iter().any(|d| d.taint || d.havoc || d.terms.len() > 0) => ctx.z3.send("(pop)\n"),
            r => return Verdict::Error(format!("vacuous: no input makes an output non-zero ({:?})", r)),
        }
        st.witnesses += 1;
    }

    let atom = |d: &Diff, tol: i128| -> String {
        if d.havoc {
            return "true".into();
        }
        // coarser units, so that the solver's numerals stay small; rounding a coefficient
        // moves the sum by less than one unit (every monomial is in [-1,1]), which the
        // tolerance pays for
        let bits = 128 - tol.max(1).leading_zeros() as i32;
        let sh = (bits - 30).max(0);
        let e = int_sum(&d.terms.iter().map(|(m, x)| (mono_name(&sp, *m), *x >> sh)).collect::<Vec<_>>());
        let tol = ((tol >> sh) - d.terms.len() as i128 - 1).max(0);
        let mut s = format!("(> {} {}) (< {} (- {}))", e, tol, e, tol);
        if d.taint {
            s.push_str(" garbage_nan");
        }
        format!("(or {})", s)
    };
    let per = (600 / (sp.ncoord + nmono + 1)).clamp(1, 48);
    for chunk in diffs.chunks(per) {
        let mut s = String::from("(push)(assert (or");
        for d in chunk {
            s.push(' ');
            s.push_str(&atom(d, d.tol));
        }
        s.push_str("))\n");
        // scenario choices do not occur in the question: the same question asked on
        // another path is answered once
        let key = (conds.clone(), s.clone());
        if ctx.answered.contains(&key) {
            st.shared += 1;
            continue;
        }
        ctx.z3.send(&s);
        let r = solve!();
        if let Some(cv) = ctx.cvc5.as_mut() {
            if c.or("cross", "0") == "1" {
                cv.send(&head);
                cv.send(&s);
                let r2 = match cv.check() {
                    Ok(r) => r,
                    Err(e) => return Verdict::Error(format!("cvc5: {}", e)),
                };
                cv.send("(pop)(pop)\n");
                st.cross += 1;
                if r != r2 {
                    return Verdict::Error(format!("solvers disagree: z3 {:?}, cvc5 {:?}", r, r2));
                }
            }
        }
        match r {
            Res::Unsat => {
                ctx.z3.send("(pop)\n");
                if st.paths + 1 < 100000 && s.len() < 200000 && ar.decisions.iter().any(|d| d.kind == CondKind::Choose) {
                    ctx.answered.insert(key);
                }
            }
            Res::Unknown(e) => return Verdict::Error(format!("solver: {}", e)),
            Res::Sat => {
                // products are exact from here on: find a real counterexample
                if nmono > 0 {
                    let mut t = String::new();
                    for (i, f) in sp.monos.iter().enumerate() {
                        let fs: Vec<String> = f.iter().map(|k| format!("v{}", k)).collect();
                        let _ = writeln!(t, "(assert (= m{} (* {})))", i + sp.ncoord, fs.join(" "));
                    }
                    ctx.z3.send(&t);
                    match solve!() {
                        Res::Unsat => {
                            ctx.z3.send("(pop)\n");
                            continue;
                        }
                        Res::Unknown(_) => {
                            // fall back on a generic point; the native replay decides
                            let label = chunk.iter().map(|d| d.label.clone()).next().unwrap_or_default();
                            let values = generic_point(nv, ctx.seed);
                            return Verdict::Cex { label, values, choices };
                        }
                        Res::Sat => {}
                    }
                }
                // which outputs, and is there a clear-cut counterexample (well above rounding)?
                let mut s = String::from("(push)(assert (or");
                for d in chunk {
                    s.push(' ');
                    s.push_str(&atom(d, d.strong.max(d.tol)));
                }
                s.push_str("))\n");
                ctx.z3.send(&s);
                let strong = solve!();
                if strong != Res::Sat {
                    ctx.z3.send("(pop)\n");
                    match solve!() {
                        Res::Sat => {}
                        r => return Verdict::Error(format!("solver changed its mind: {:?}", r)),
                    }
                }
                let label = chunk
                    .iter()
                    .find(|d| {
                        d.taint || d.havoc || {
                            let s: f64 = d.terms.iter().map(|e| fx::to_f64(e.1).abs()).sum();
                            s > fx::to_f64(d.tol)
                        }
                    })
                    .map(|d| {
                        format!(
                            "{}{}",
                            d.label,
                            if d.taint {
                                " depends on memory the caller left arbitrary"
                            } else if d.havoc {
                                " is not a finite number"
                            } else {
                                ""
                            }
                        )
                    })
                    .unwrap_or_default();
                cex!(label)
            }
        }
    }
    ctx.z3.send("(pop)\n");

    // ---- the same path again without the symbolic simplifier: the raw expression
    // DAG, every constant an exact rational, goes to the solver
    if c.or("dag", "0") == "1" && !rounding && sp.basis.is_none() {
        if let Err(e) = dag_query(c, p, ctx, st) {
            return Verdict::Error(e);
        }
    }
    // ---- encoding against the implementation: the same path on concrete numbers
    if !rounding && ar.decisions.iter().all(|d| d.kind == CondKind::Choose) && c.or("val", "1") == "1" {
        let values = generic_point(nv, ctx.seed);
        let pt: Vec<f64> = match &sp.basis {
            None => values.clone(),
            Some(b) => {
                let _ = b;
                generic_point(sp.ncoord, ctx.seed)
            }
        };
        let inputs: Vec<f64> = match &sp.basis {
            None => values,
            Some(b) => b
                .iter()
                .map(|r| r.iter().zip(&pt).map(|(c, v)| *c as f64 / (1u64 << lin::BASIS_SHIFT) as f64 * v).sum())
                .collect(),
        };
        let mut expect = vec![];
        for o in &p.env.obls {
            for g in &o.got {
                expect.push(lin::value_at(&form(g), &sp, &pt));
            }
        }
        if !expect.is_empty() {
            unsafe { sym::GARBAGE_MODE = 0 };
            let mut ne = NatEnv::new(inputs.clone(), choices.clone(), c, false);
            let r = catch_unwind(AssertUnwindSafe(|| scen::run::<f64, NatEnv>(c, &mut ne)));
            let scale: f64 = expect.iter().map(|v| v.abs()).fold(1.0, f64::max);
            let bad = r.is_err()
                || ne.outputs.len() != expect.len()
                || ne.outputs.iter().zip(&expect).any(|(a, b)| !((a - b).abs() <= 1e-9 * scale * (1.0 + nv as f64)));
            if bad {
                // the f64 instantiation does something else than the generic code:
                // report it only if the native run itself breaks the property
                if r.is_err() || !ne.failures.is_empty() {
                    return Verdict::Cex { label: "f64 instantiation differs from the generic code".into(), values: inputs, choices };
                }
                return Verdict::Error("encoding does not match the f64 run".into());
            }
            // and the f32 instantiation, against the property itself
            let mut ne = NatEnv::new(inputs.clone(), choices.clone(), c, true);
            let r = catch_unwind(AssertUnwindSafe(|| scen::run::<f32, NatEnv>(c, &mut ne)));
            if r.is_err() || !ne.failures.is_empty() {
                return Verdict::Cex { label: "f32 instantiation differs from the generic code".into(), values: inputs, choices };
            }
            st.validated += 1;
        }
    }
    Verdict::Holds
}

fn generic_point(n: usize, seed: u64) -> Vec<f64> {
    let mut s = seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0xABCDEF;
    (0..n)
        .map(|_| {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            ((s >> 33) as f64 / (1u64 << 31) as f64) * 1.8 - 0.9
        })
        .collect()
}

fn dag_query(_c: &Case, p: &Path, ctx: &mut Ctx, st: &mut Stats) -> Result<(), String> {
    let ar = arena();
    let (rel, _) = tolerance(_c);
    let nv = p.env.nvars as usize;
    let mut live = vec![false; ar.nodes.len()];
    for o in &p.env.obls {
        for g in &o.got {
            if let Sym::N(i) = g {
                live[*i as usize] = true;
            }
        }
        if let Want::Same(v) = &o.want {
            for g in v {
                if let Sym::N(i) = g {
                    live[*i as usize] = true;
                }
            }
        }
    }
    for i in (0..ar.nodes.len()).rev() {
        if live[i] {
            for s in [ar.nodes[i].a, ar.nodes[i].b] {
                if let Sym::N(j) = s {
                    live[j as usize] = true;
                }
            }
        }
    }
    let mut s = String::from("(push)\n");
    for i in 0..nv {
        let _ = writeln!(s, "(declare-const x{} Real)(assert (<= (- 1.0) x{} 1.0))", i, i);
    }
    let _ = writeln!(s, "(declare-const g0 Real)");
    let nm = |a: &Sym| match a {
        Sym::C(v) => rat(*v),
        Sym::N(i) => format!("t{}", i),
    };
    for i in 0..ar.nodes.len() {
        if !live[i] {
            continue;
        }
        let n = ar.nodes[i];
        let e = match n.op {
            Op::Var(v) => format!("x{}", v),
            Op::Garbage(_) => "g0".into(),
            Op::Add => format!("(+ {} {})", nm(&n.a), nm(&n.b)),
            Op::Sub => format!("(- {} {})", nm(&n.a), nm(&n.b)),
            Op::Mul => format!("(* {} {})", nm(&n.a), nm(&n.b)),
            Op::Div => format!("(/ {} {})", nm(&n.a), nm(&n.b)),
            Op::Neg => format!("(- {})", nm(&n.a)),
        };
        let _ = writeln!(s, "(define-fun t{} () Real {})", i, e);
    }
    let mut ors = String::new();
    let mut count = 0;
    for o in &p.env.obls {
        let mut row: Row = vec![];
        for (k, g) in o.got.iter().enumerate() {
            let (want, l1) = match &o.want {
                Want::Same(v) => (nm(&v[k]), 1.0),
                Want::Rows(f) => {
                    row.clear();
                    f(k, &mut row);
                    let mut t = String::from("(/ (+ 0.0");
                    let mut l1 = 0.0;
                    for (a, b, c) in &row {
                        l1 += fx::to_f64(*c).abs();
                        let cl = if *c < 0 { format!("(- {}.0)", c.unsigned_abs()) } else { format!("{}.0", c) };
                        let mut f = vec![cl];
                        for v in [a, b] {
                            if *v != NONE {
                                f.push(format!("x{}", v));
                            }
                        }
                        if f.len() == 1 {
                            let _ = write!(t, " {}", f[0]);
                        } else {
                            let _ = write!(t, " (* {})", f.join(" "));
                        }
                    }
                    let _ = write!(t, ") {})", pow2(fx::S));
                    (t, l1)
                }
            };
            let tol = rat(rel * (1.0 + l1));
            let _ = write!(ors, " (> (- {} {}) {}) (< (- {} {}) (- {}))", nm(g), want, tol, nm(g), want, tol);
            count += 1;
        }
    }
    if count > 0 {
        let _ = writeln!(s, "(assert (or{}))", ors);
        ctx.z3.send(&s);
        let r = ctx.z3.check()?;
        st.dag_queries += 1;
        st.queries += 1;
        ctx.z3.send("(pop)\n");
        if r != Res::Unsat {
            return Err(format!("the raw DAG query answered {:?} where the simplified one was unsat", r));
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------- commands

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "'").replace('\n', " ")
}

/// reads cases from stdin, one per line; writes one JSON line per case
fn worker(args: &[String]) {
    let seed: u64 = args.first().and_then(|s| s.parse().ok()).unwrap_or(1);
    let timeout: u64 = args.get(1).and_then(|s| s.parse().ok()).unwrap_or(20000);
    let mut ctx = Ctx { z3: Solver::new("z3", timeout).expect("z3"), cvc5: Solver::new("cvc5", timeout).ok(), seed, trace: std::env::var("SYMDCT_TRACE").ok(), answered: Default::default() };
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let c = Case::parse(&line);
        let mut st = Stats::default();
        ctx.answered.clear();
        let t = Instant::now();
        let ms0 = ctx.z3.ms;
        let v = sym_case(&c, &mut ctx, &mut st);
        let fresh = !matches!(v, Verdict::Holds);
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"case\":\"{}\",\"paths\":{},\"nodes\":{},\"ops\":{},\"queries\":{},\"outputs\":{},\"coords\":{},\"validated\":{},\"dag\":{},\"cross\":{},\"shared\":{},\"wit\":{},\"dev\":{:e},\"sym_ms\":{:.1},\"solver_ms\":{:.1},\"ms\":{:.1}",
            esc(&c.text),
            st.paths,
            st.nodes,
            st.ops,
            st.queries,
            st.outputs,
            st.coords,
            st.validated,
            st.dag_queries,
            st.cross,
            st.shared,
            st.witnesses,
            st.max_dev,
            st.sym_ms,
            ctx.z3.ms - ms0,
            t.elapsed().as_secs_f64() * 1000.0
        );
        match v {
            Verdict::Holds => o.push_str(",\"status\":\"holds\"}"),
            Verdict::Error(e) => {
                let _ = write!(o, ",\"status\":\"error\",\"what\":\"{}\"}}", esc(&e));
            }
            Verdict::Cex { label, values, choices } => {
                let vs: Vec<String> = values.iter().map(|v| format!("\"{:016x}\"", v.to_bits())).collect();
                let cs: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
                let _ = write!(
                    o,
                    ",\"status\":\"cex\",\"what\":\"{}\",\"choices\":[{}],\"values\":[{}]}}",
                    esc(&label),
                    cs.join(","),
                    vs.join(",")
                );
            }
        }
        println!("{}", o);
        std::io::stdout().flush().unwrap();
        if fresh {
            ctx.z3 = Solver::new("z3", timeout).expect("z3");
            ctx.cvc5 = Solver::new("cvc5", timeout).ok();
        }
    }
}

/// replay: case line, choices line, values line (hex f64 bits) on stdin
fn replay(args: &[String]) {
    let ty = args.first().map(|s| s.as_str()).unwrap_or("f64");
    let gmode: u32 = args.get(1).and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut lines = std::io::stdin().lock().lines().map(|l| l.unwrap());
    let c = Case::parse(&lines.next().unwrap());
    let choices: Vec<u32> = lines.next().unwrap_or_default().split_whitespace().map(|s| s.parse().unwrap()).collect();
    let values: Vec<f64> = lines
        .next()
        .unwrap_or_default()
        .split_whitespace()
        .map(|s| f64::from_bits(u64::from_str_radix(s, 16).unwrap()))
        .collect();
    unsafe { sym::GARBAGE_MODE = gmode };
    let mut ne = NatEnv::new(values, choices, &c, ty == "f32");
    let r = catch_unwind(AssertUnwindSafe(|| match ty {
        "f64" => scen::run::<f64, NatEnv>(&c, &mut ne),
        "f32" => scen::run::<f32, NatEnv>(&c, &mut ne),
        _ => scen::run::<W64, NatEnv>(&c, &mut ne),
    }));
    if r.is_err() {
        println!("REPRODUCED panic: {}", LAST_PANIC.with(|p| p.borrow().clone()));
        std::process::exit(3);
    }
    if !ne.failures.is_empty() {
        for f in ne.failures.iter().filter(|f| !f.is_empty()) {
            println!("REPRODUCED {}", f);
        }
        std::process::exit(3);
    }
    println!("not reproduced");
}

fn main() {
    quiet_panics();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("worker") => worker(&args[1..]),
        Some("replay") => replay(&args[1..]),
        Some("selftest") => match fx::selftest() {
            Ok(n) => println!("ok {} oracle values", n),
            Err(e) => {
                println!("FAILED {}", e);
                std::process::exit(1);
            }
        },
        _ => {
            eprintln!("usage: symdct worker SEED TIMEOUT_MS | replay TYPE GARBAGE | selftest");
            std::process::exit(2);
        }
    }
}
