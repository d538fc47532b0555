//! `Sym`: a scalar type whose arithmetic builds an expression DAG.  The crate
//! under test is generic over its scalar, so instantiating it with `Sym` runs
//! the real, compiled code symbolically: every arithmetic operation it performs
//! on data becomes a node, every comparison of symbolic data becomes a recorded
//! branch decision.
//!
//! Constants (twiddles, halves, window values, ...) are concrete f64 values and
//! fold with the arithmetic of the precision being modelled (f64, or f32 with
//! correct rounding after every operation).

use rustfft::num_traits::{FloatConst, FromPrimitive, Num, One, Signed, Zero};
use std::cell::UnsafeCell;
use std::ops::*;

#[derive(Copy, Clone, Debug)]
pub enum Sym {
    C(f64),
    N(u32),
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Op {
    /// input variable (index into the case's input space)
    Var(u32),
    /// content of memory the caller left arbitrary; index of the garbage symbol
    Garbage(u32),
    Add,
    Sub,
    Mul,
    Div,
    Neg,
}

#[derive(Copy, Clone, Debug)]
pub struct Node {
    pub op: Op,
    pub a: Sym,
    pub b: Sym,
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum CondKind {
    EqZero,  // a - b == 0
    Sign,    // choice 0: >0, 1: <0, 2: ==0
    Choose,  // scenario choice variable
}
#[derive(Copy, Clone, Debug)]
pub struct Decision {
    pub kind: CondKind,
    pub a: Sym,
    pub b: Sym,
    pub arity: u32,
    pub chosen: u32,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub single: bool, // fold constants in f32
    pub prefix: Vec<u32>,
    pub decisions: Vec<Decision>,
    pub unsupported: Option<String>,
    pub max_nodes: usize,
    pub ngarbage: u32,
    pub nvars: u32,
}

struct Cell(UnsafeCell<Arena>);
unsafe impl Sync for Cell {}
static ARENA: Cell = Cell(UnsafeCell::new(Arena {
    nodes: Vec::new(),
    single: false,
    prefix: Vec::new(),
    decisions: Vec::new(),
    unsupported: None,
    max_nodes: 60_000_000,
    ngarbage: 0,
    nvars: 0,
}));

/// The engine is single-threaded by construction (a worker process runs one
/// case at a time on its main thread).
#[allow(clippy::mut_from_ref)]
pub fn arena() -> &'static mut Arena {
    unsafe { &mut *ARENA.0.get() }
}

impl Arena {
    pub fn reset(&mut self, single: bool, prefix: Vec<u32>) {
        self.nodes.clear();
        self.single = single;
        self.prefix = prefix;
        self.decisions.clear();
        self.unsupported = None;
        self.ngarbage = 0;
        self.nvars = 0;
    }
    fn push(&mut self, op: Op, a: Sym, b: Sym) -> Sym {
        let id = self.nodes.len();
        if id >= self.max_nodes {
            panic!("symdct: node limit");
        }
        self.nodes.push(Node { op, a, b });
        Sym::N(id as u32)
    }
    pub fn var(&mut self, i: u32) -> Sym {
        self.nvars = self.nvars.max(i + 1);
        self.push(Op::Var(i), Sym::C(0.0), Sym::C(0.0))
    }
    pub fn garbage(&mut self, i: u32) -> Sym {
        self.ngarbage = self.ngarbage.max(i + 1);
        self.push(Op::Garbage(i), Sym::C(0.0), Sym::C(0.0))
    }
    pub fn rnd(&self, v: f64) -> f64 {
        if self.single {
            v as f32 as f64
        } else {
            v
        }
    }
    pub fn decide(&mut self, kind: CondKind, a: Sym, b: Sym, arity: u32) -> u32 {
        // the same condition met again on one path has the same outcome
        if kind != CondKind::Choose {
            for d in &self.decisions {
                if d.kind == kind && same(d.a, a) && same(d.b, b) {
                    return d.chosen;
                }
            }
        }
        let i = self.decisions.len();
        let chosen = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        self.decisions.push(Decision { kind, a, b, arity, chosen });
        chosen
    }
    pub fn unsupported(&mut self, what: &str) {
        if self.unsupported.is_none() {
            self.unsupported = Some(what.to_string());
        }
    }
}

pub fn same(a: Sym, b: Sym) -> bool {
    match (a, b) {
        (Sym::C(x), Sym::C(y)) => x == y,
        (Sym::N(x), Sym::N(y)) => x == y,
        _ => false,
    }
}

fn bin(op: Op, a: Sym, b: Sym) -> Sym {
    let ar = arena();
    if let (Sym::C(x), Sym::C(y)) = (a, b) {
        let v = match op {
            Op::Add => x + y,
            Op::Sub => x - y,
            Op::Mul => x * y,
            Op::Div => x / y,
            _ => unreachable!(),
        };
        return Sym::C(ar.rnd(v));
    }
    // identities that are exact in floating point for every operand, NaN
    // included (up to the sign of a zero result)
    match (op, a, b) {
        (Op::Add, Sym::C(x), n) if x == 0.0 => return n,
        (Op::Add, n, Sym::C(x)) if x == 0.0 => return n,
        (Op::Sub, n, Sym::C(x)) if x == 0.0 => return n,
        (Op::Mul, Sym::C(x), n) if x == 1.0 => return n,
        (Op::Mul, n, Sym::C(x)) if x == 1.0 => return n,
        (Op::Div, n, Sym::C(x)) if x == 1.0 => return n,
        _ => {}
    }
    ar.push(op, a, b)
}

macro_rules! binop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $op:expr) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                bin($op, self, o)
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $f(self, o: &'a Sym) -> Sym {
                bin($op, self, *o)
            }
        }
        impl<'a> $tr<Sym> for &'a Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                bin($op, *self, o)
            }
        }
        impl<'a, 'b> $tr<&'b Sym> for &'a Sym {
            type Output = Sym;
            fn $f(self, o: &'b Sym) -> Sym {
                bin($op, *self, *o)
            }
        }
        impl $tra for Sym {
            fn $fa(&mut self, o: Sym) {
                *self = bin($op, *self, o);
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, Op::Add);
binop!(Sub, sub, SubAssign, sub_assign, Op::Sub);
binop!(Mul, mul, MulAssign, mul_assign, Op::Mul);
binop!(Div, div, DivAssign, div_assign, Op::Div);

impl Rem for Sym {
    type Output = Sym;
    fn rem(self, o: Sym) -> Sym {
        match (self, o) {
            (Sym::C(x), Sym::C(y)) => Sym::C(x % y),
            _ => {
                arena().unsupported("Rem on symbolic data");
                self
            }
        }
    }
}
impl RemAssign for Sym {
    fn rem_assign(&mut self, o: Sym) {
        *self = *self % o;
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        match self {
            Sym::C(x) => Sym::C(-x),
            n => arena().push(Op::Neg, n, Sym::C(0.0)),
        }
    }
}
impl<'a> Neg for &'a Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        -*self
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        match (*self, *o) {
            (Sym::C(x), Sym::C(y)) => x == y,
            (Sym::N(x), Sym::N(y)) if x == y => true,
            (a, b) => arena().decide(CondKind::EqZero, a, b, 2) == 1,
        }
    }
}
fn sign(a: Sym) -> i32 {
    match a {
        Sym::C(x) => {
            if x > 0.0 {
                1
            } else if x < 0.0 {
                -1
            } else {
                0
            }
        }
        n => match arena().decide(CondKind::Sign, n, Sym::C(0.0), 3) {
            0 => 1,
            1 => -1,
            _ => 0,
        },
    }
}
impl Zero for Sym {
    fn zero() -> Self {
        Sym::C(0.0)
    }
    fn is_zero(&self) -> bool {
        *self == Sym::C(0.0)
    }
}
impl One for Sym {
    fn one() -> Self {
        Sym::C(1.0)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, _r: u32) -> Result<Self, ()> {
        s.parse::<f64>().map(|v| Sym::C(arena().rnd(v))).map_err(|_| ())
    }
}
impl Signed for Sym {
    fn abs(&self) -> Self {
        if sign(*self) < 0 {
            -*self
        } else {
            *self
        }
    }
    fn abs_sub(&self, o: &Self) -> Self {
        let d = *self - *o;
        if sign(d) > 0 {
            d
        } else {
            Sym::C(0.0)
        }
    }
    fn signum(&self) -> Self {
        match sign(*self) {
            1 => Sym::C(1.0),
            -1 => Sym::C(-1.0),
            _ => Sym::C(1.0),
        }
    }
    // as for the primitive floats: (positive) zero counts as positive
    fn is_positive(&self) -> bool {
        sign(*self) >= 0
    }
    fn is_negative(&self) -> bool {
        sign(*self) < 0
    }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Sym::C(arena().rnd(n as f64)))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Sym::C(arena().rnd(n as f64)))
    }
    fn from_f32(n: f32) -> Option<Self> {
        Some(Sym::C(n as f64))
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(Sym::C(arena().rnd(n)))
    }
}
macro_rules! consts {
    ($t:ty, $mk:expr, $($n:ident),*) => {
        impl FloatConst for $t {
            $(fn $n() -> Self { ($mk)(std::f64::consts::$n) })*
        }
    };
}
consts!(
    Sym, |v| Sym::C(arena().rnd(v)),
    E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4,
    FRAC_PI_6, FRAC_PI_8, LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2
);

// ---------------------------------------------------------------------------

/// A plain f64 behind a newtype: the same concrete arithmetic, but not one of
/// the types rustfft has SIMD kernels for, so planners take the same decisions
/// as they do for `Sym`.
#[derive(Copy, Clone, Debug, PartialEq)]
pub struct W64(pub f64);

macro_rules! wbin {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $op:tt) => {
        impl $tr for W64 { type Output = W64; fn $f(self, o: W64) -> W64 { W64(self.0 $op o.0) } }
        impl $tra for W64 { fn $fa(&mut self, o: W64) { self.0 = self.0 $op o.0; } }
    };
}
wbin!(Add, add, AddAssign, add_assign, +);
wbin!(Sub, sub, SubAssign, sub_assign, -);
wbin!(Mul, mul, MulAssign, mul_assign, *);
wbin!(Div, div, DivAssign, div_assign, /);
wbin!(Rem, rem, RemAssign, rem_assign, %);
impl Neg for W64 {
    type Output = W64;
    fn neg(self) -> W64 {
        W64(-self.0)
    }
}
impl Zero for W64 {
    fn zero() -> Self {
        W64(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for W64 {
    fn one() -> Self {
        W64(1.0)
    }
}
impl Num for W64 {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, _r: u32) -> Result<Self, ()> {
        s.parse().map(W64).map_err(|_| ())
    }
}
impl Signed for W64 {
    fn abs(&self) -> Self {
        W64(self.0.abs())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        W64((self.0 - o.0).max(0.0))
    }
    fn signum(&self) -> Self {
        W64(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        self.0.is_sign_positive()
    }
    fn is_negative(&self) -> bool {
        self.0.is_sign_negative()
    }
}
impl FromPrimitive for W64 {
    fn from_i64(n: i64) -> Option<Self> {
        Some(W64(n as f64))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(W64(n as f64))
    }
    fn from_f32(n: f32) -> Option<Self> {
        Some(W64(n as f64))
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(W64(n))
    }
}
consts!(
    W64, W64,
    E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4,
    FRAC_PI_6, FRAC_PI_8, LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2
);

// ---------------------------------------------------------------------------

/// What the scenarios need from a scalar besides the crate's own bounds.
pub trait Scalar: rustfft::FftNum + FloatConst {
    /// a value the code under test must never depend on
    fn garbage(i: u32) -> Self;
    fn konst(v: f64) -> Self;
}
impl Scalar for Sym {
    fn garbage(i: u32) -> Self {
        arena().garbage(i)
    }
    fn konst(v: f64) -> Self {
        Sym::C(arena().rnd(v))
    }
}
pub static mut GARBAGE_MODE: u32 = 0;
/// concrete garbage: mode 0 = NaN, others = assorted large values
pub fn concrete_garbage(i: u32) -> f64 {
    let mode = unsafe { GARBAGE_MODE };
    if mode == 0 {
        f64::NAN
    } else {
        let h = (i as u64 + 1 + mode as u64 * 977).wrapping_mul(0x9E3779B97F4A7C15);
        1.0 + ((h >> 40) as f64) / 1024.0
    }
}
impl Scalar for f64 {
    fn garbage(i: u32) -> Self {
        concrete_garbage(i)
    }
    fn konst(v: f64) -> Self {
        v
    }
}
impl Scalar for f32 {
    fn garbage(i: u32) -> Self {
        concrete_garbage(i) as f32
    }
    fn konst(v: f64) -> Self {
        v as f32
    }
}
impl Scalar for W64 {
    fn garbage(i: u32) -> Self {
        W64(concrete_garbage(i))
    }
    fn konst(v: f64) -> Self {
        W64(v)
    }
}
