//! The oracle: the textbook definition of every transform, as exact
//! coefficients.  Written from the definitions (Wang & Hunt's eight DCTs and
//! DSTs, unnormalised; the usual MDCT), not from the code under test.
use crate::fx::{self, TrigTable};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Dct1,
    Dct2,
    Dct3,
    Dct4,
    Dct5,
    Dct6,
    Dct7,
    Dct8,
    Dst1,
    Dst2,
    Dst3,
    Dst4,
    Dst5,
    Dst6,
    Dst7,
    Dst8,
}
pub const KINDS: [(&str, Kind); 16] = [
    ("dct1", Kind::Dct1),
    ("dct2", Kind::Dct2),
    ("dct3", Kind::Dct3),
    ("dct4", Kind::Dct4),
    ("dct5", Kind::Dct5),
    ("dct6", Kind::Dct6),
    ("dct7", Kind::Dct7),
    ("dct8", Kind::Dct8),
    ("dst1", Kind::Dst1),
    ("dst2", Kind::Dst2),
    ("dst3", Kind::Dst3),
    ("dst4", Kind::Dst4),
    ("dst5", Kind::Dst5),
    ("dst6", Kind::Dst6),
    ("dst7", Kind::Dst7),
    ("dst8", Kind::Dst8),
];
pub fn kind(s: &str) -> Kind {
    KINDS.iter().find(|k| k.0 == s).unwrap_or_else(|| panic!("kind {}", s)).1
}
pub fn kind_name(k: Kind) -> &'static str {
    KINDS.iter().find(|x| x.1 == k).unwrap().0
}

thread_local! {
    static TABLES: std::cell::RefCell<HashMap<u64, Rc<TrigTable>>> = Default::default();
}
pub fn table(q: u64) -> Rc<TrigTable> {
    TABLES.with(|t| {
        let mut t = t.borrow_mut();
        if t.len() > 64 && !t.contains_key(&q) {
            t.clear();
        }
        t.entry(q).or_insert_with(|| Rc::new(TrigTable::new(q as u128))).clone()
    })
}

/// one transform: output k = sum over j of coef(k, j) * x_j
pub struct Spec {
    pub kind: Kind,
    pub n: u64,
    tab: Rc<TrigTable>,
}
impl Spec {
    pub fn new(kind: Kind, n: usize) -> Self {
        let n = n as u64;
        use Kind::*;
        let q = match kind {
            Dct1 => n - 1,
            Dct2 | Dct3 | Dst2 | Dst3 => 2 * n,
            Dct4 | Dst4 => 4 * n,
            Dct5 | Dct6 | Dct7 => 2 * n - 1,
            Dct8 => 4 * n + 2,
            Dst1 => n + 1,
            Dst5 | Dst6 | Dst7 => 2 * n + 1,
            Dst8 => 4 * n - 2,
        };
        Spec { kind, n, tab: table(q) }
    }
    #[inline]
    pub fn coef(&self, k: usize, j: usize) -> i128 {
        use Kind::*;
        let (k, j, n) = (k as u64, j as u64, self.n);
        let first = j == 0;
        let last = j == n - 1;
        let h = |c: bool, v: i128| if c { v / 2 } else { v };
        match self.kind {
            Dct1 => h(first || last, self.tab.cos(k * j)),
            Dct2 => self.tab.cos(k * (2 * j + 1)),
            Dct3 => h(first, self.tab.cos((2 * k + 1) * j)),
            Dct4 => self.tab.cos((2 * k + 1) * (2 * j + 1)),
            Dct5 => h(first, self.tab.cos(2 * k * j)),
            Dct6 => h(last, self.tab.cos(k * (2 * j + 1))),
            Dct7 => h(first, self.tab.cos((2 * k + 1) * j)),
            Dct8 => self.tab.cos((2 * k + 1) * (2 * j + 1)),
            Dst1 => self.tab.sin((k + 1) * (j + 1)),
            Dst2 => self.tab.sin((k + 1) * (2 * j + 1)),
            Dst3 => h(last, self.tab.sin((2 * k + 1) * (j + 1))),
            Dst4 => self.tab.sin((2 * k + 1) * (2 * j + 1)),
            Dst5 => self.tab.sin(2 * (k + 1) * (j + 1)),
            Dst6 => self.tab.sin((k + 1) * (2 * j + 1)),
            Dst7 => self.tab.sin((2 * k + 1) * (j + 1)),
            Dst8 => h(last, self.tab.sin((2 * k + 1) * (2 * j + 1))),
        }
    }
}

/// the inverse of each transform and the factor s such that
/// inverse(forward(x)) * s = x
pub fn inverse(kind: Kind, n: usize) -> (Kind, i128) {
    use Kind::*;
    let n = n as i128;
    match kind {
        Dct1 => (Dct1, fx::ratio(2, n - 1)),
        Dst1 => (Dst1, fx::ratio(2, n + 1)),
        Dct2 => (Dct3, fx::ratio(2, n)),
        Dct3 => (Dct2, fx::ratio(2, n)),
        Dst2 => (Dst3, fx::ratio(2, n)),
        Dst3 => (Dst2, fx::ratio(2, n)),
        Dct4 => (Dct4, fx::ratio(2, n)),
        Dst4 => (Dst4, fx::ratio(2, n)),
        Dct5 => (Dct5, fx::ratio(4, 2 * n - 1)),
        Dct6 => (Dct7, fx::ratio(4, 2 * n - 1)),
        Dct7 => (Dct6, fx::ratio(4, 2 * n - 1)),
        Dct8 => (Dct8, fx::ratio(4, 2 * n + 1)),
        Dst5 => (Dst5, fx::ratio(4, 2 * n + 1)),
        Dst6 => (Dst7, fx::ratio(4, 2 * n + 1)),
        Dst7 => (Dst6, fx::ratio(4, 2 * n + 1)),
        Dst8 => (Dst8, fx::ratio(4, 2 * n - 1)),
    }
}

/// cos(pi/n (i + 1/2 + n/2)(k + 1/2)), 0 <= i < 2n, 0 <= k < n
pub struct MdctSpec {
    n: u64,
    tab: Rc<TrigTable>,
}
impl MdctSpec {
    pub fn new(n: usize) -> Self {
        MdctSpec { n: n as u64, tab: table(4 * n as u64) }
    }
    #[inline]
    pub fn coef(&self, k: usize, i: usize) -> i128 {
        self.tab.cos((2 * i as u64 + 1 + self.n) * (2 * k as u64 + 1))
    }
}

pub const WINDOWS: [&str; 6] = ["mp3", "mp3_invertible", "vorbis", "vorbis_invertible", "one", "invertible"];

/// window values from the published formulas, `size` of them
pub fn window(name: &str, size: usize) -> Vec<i128> {
    let sin = |i: usize| fx::cossin_pi(2 * i as u128 + 1, 2 * size as u128).1;
    let scale = |num: i128| fx::sqrt_fx(fx::ratio(num, size as i128));
    let vorbis = |i: usize| {
        let s = sin(i);
        let s2 = fx::mul(s, s).unwrap();
        fx::sin_fx(fx::mul(fx::pi() / 2, s2).unwrap())
    };
    let mul = |a: i128, b: i128| fx::mul(a, b).unwrap();
    (0..size)
        .map(|i| match name {
            "mp3" => sin(i),
            "mp3_invertible" => mul(sin(i), scale(4)),
            "vorbis" => vorbis(i),
            "vorbis_invertible" => mul(vorbis(i), scale(4)),
            "one" => fx::ONE,
            "invertible" => scale(2),
            _ => panic!("window {}", name),
        })
        .collect()
}
/// s such that the overlap-added IMDCT(MDCT(x)) * s = x in the overlapped part
pub fn tdac_scale(name: &str, n: usize) -> i128 {
    match name {
        "mp3" | "vorbis" => fx::ratio(2, n as i128),
        "one" => fx::ratio(1, n as i128),
        _ => fx::ONE,
    }
}
