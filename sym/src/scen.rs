//! The scenarios: small generic programs over the crate's public API.  The same
//! code runs symbolically (scalar `Sym`, environment `SymEnv`) and natively
//! (scalar f64/f32/W64, environment `NatEnv`) when a counterexample is replayed.
use symcore::fx;
use symcore::spec::{self, Kind, MdctSpec, Spec};
use symcore::sym::Scalar;
use rustdct::algorithm::type2and3_butterflies::*;
use rustdct::algorithm::*;
use rustdct::mdct::*;
use rustdct::num_complex::Complex;
use rustdct::rustfft::{Direction, Fft, FftDirection, FftPlanner, Length};
use rustdct::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const NONE: u32 = u32::MAX;
/// (variable, variable, coefficient); NONE for an absent factor
pub type Row = Vec<(u32, u32, i128)>;
pub enum Want<T> {
    /// output k equals the sum of the row's terms
    Rows(Box<dyn Fn(usize, &mut Row)>),
    /// output k equals the k-th of these
    Same(Vec<T>),
}

pub trait Env<T: Scalar> {
    /// fresh arbitrary input values; returns the index of the first
    fn inputs(&mut self, n: usize) -> (u32, Vec<T>);
    /// memory with contents the result must not depend on
    fn garbage(&mut self, n: usize) -> Vec<T>;
    /// an arbitrary choice among k alternatives
    fn choose(&mut self, label: &str, k: u32) -> u32;
    fn check(&mut self, label: &str, got: &[T], want: Want<T>);
    fn fact(&mut self, label: &str, got: i64, want: i64);
    /// runs f; true if it panicked
    fn panics(&mut self, f: &mut dyn FnMut()) -> bool;
}

#[derive(Clone, Debug)]
pub struct Case {
    pub text: String,
    pub fam: String,
    pub kv: BTreeMap<String, String>,
}
impl Case {
    pub fn parse(s: &str) -> Case {
        let mut it = s.split_whitespace();
        let fam = it.next().expect("empty case").to_string();
        let kv = it
            .map(|p| {
                let (a, b) = p.split_once('=').expect("key=value");
                (a.to_string(), b.to_string())
            })
            .collect();
        Case { text: s.trim().to_string(), fam, kv }
    }
    pub fn s(&self, k: &str) -> &str {
        self.kv.get(k).unwrap_or_else(|| panic!("case {:?} lacks {}", self.text, k))
    }
    pub fn or<'a>(&'a self, k: &str, d: &'a str) -> &'a str {
        self.kv.get(k).map(|s| s.as_str()).unwrap_or(d)
    }
    pub fn u(&self, k: &str) -> usize {
        self.s(k).parse().expect("number")
    }
    pub fn uor(&self, k: &str, d: usize) -> usize {
        self.kv.get(k).map_or(d, |s| s.parse().expect("number"))
    }
}

// --------------------------------------------------------------------------- instances

pub enum Tr<T> {
    D1(Arc<dyn Dct1<T>>),
    S1(Arc<dyn Dst1<T>>),
    T23(Arc<dyn TransformType2And3<T>>),
    T4(Arc<dyn TransformType4<T>>),
    D5(Arc<dyn Dct5<T>>),
    S5(Arc<dyn Dst5<T>>),
    D67(Arc<dyn Dct6And7<T>>),
    S67(Arc<dyn Dst6And7<T>>),
    D8(Arc<dyn Dct8<T>>),
    S8(Arc<dyn Dst8<T>>),
}
impl<T> Clone for Tr<T> {
    fn clone(&self) -> Self {
        match self {
            Tr::D1(a) => Tr::D1(a.clone()),
            Tr::S1(a) => Tr::S1(a.clone()),
            Tr::T23(a) => Tr::T23(a.clone()),
            Tr::T4(a) => Tr::T4(a.clone()),
            Tr::D5(a) => Tr::D5(a.clone()),
            Tr::S5(a) => Tr::S5(a.clone()),
            Tr::D67(a) => Tr::D67(a.clone()),
            Tr::S67(a) => Tr::S67(a.clone()),
            Tr::D8(a) => Tr::D8(a.clone()),
            Tr::S8(a) => Tr::S8(a.clone()),
        }
    }
}
macro_rules! each {
    ($s:expr, $a:ident => $e:expr) => {
        match $s {
            Tr::D1($a) => $e,
            Tr::S1($a) => $e,
            Tr::T23($a) => $e,
            Tr::T4($a) => $e,
            Tr::D5($a) => $e,
            Tr::S5($a) => $e,
            Tr::D67($a) => $e,
            Tr::S67($a) => $e,
            Tr::D8($a) => $e,
            Tr::S8($a) => $e,
        }
    };
}
impl<T: Scalar> Tr<T> {
    pub fn len(&self) -> usize {
        each!(self, a => a.len())
    }
    pub fn need(&self) -> usize {
        each!(self, a => a.get_scratch_len())
    }
    pub fn run(&self, k: Kind, buf: &mut [T]) {
        match (self, k) {
            (Tr::D1(a), Kind::Dct1) => a.process_dct1(buf),
            (Tr::S1(a), Kind::Dst1) => a.process_dst1(buf),
            (Tr::T23(a), Kind::Dct2) => a.process_dct2(buf),
            (Tr::T23(a), Kind::Dct3) => a.process_dct3(buf),
            (Tr::T23(a), Kind::Dst2) => a.process_dst2(buf),
            (Tr::T23(a), Kind::Dst3) => a.process_dst3(buf),
            (Tr::T4(a), Kind::Dct4) => a.process_dct4(buf),
            (Tr::T4(a), Kind::Dst4) => a.process_dst4(buf),
            (Tr::D5(a), Kind::Dct5) => a.process_dct5(buf),
            (Tr::S5(a), Kind::Dst5) => a.process_dst5(buf),
            (Tr::D67(a), Kind::Dct6) => a.process_dct6(buf),
            (Tr::D67(a), Kind::Dct7) => a.process_dct7(buf),
            (Tr::S67(a), Kind::Dst6) => a.process_dst6(buf),
            (Tr::S67(a), Kind::Dst7) => a.process_dst7(buf),
            (Tr::D8(a), Kind::Dct8) => a.process_dct8(buf),
            (Tr::S8(a), Kind::Dst8) => a.process_dst8(buf),
            _ => unreachable!(),
        }
    }
    pub fn run_scratch(&self, k: Kind, buf: &mut [T], s: &mut [T]) {
        match (self, k) {
            (Tr::D1(a), Kind::Dct1) => a.process_dct1_with_scratch(buf, s),
            (Tr::S1(a), Kind::Dst1) => a.process_dst1_with_scratch(buf, s),
            (Tr::T23(a), Kind::Dct2) => a.process_dct2_with_scratch(buf, s),
            (Tr::T23(a), Kind::Dct3) => a.process_dct3_with_scratch(buf, s),
            (Tr::T23(a), Kind::Dst2) => a.process_dst2_with_scratch(buf, s),
            (Tr::T23(a), Kind::Dst3) => a.process_dst3_with_scratch(buf, s),
            (Tr::T4(a), Kind::Dct4) => a.process_dct4_with_scratch(buf, s),
            (Tr::T4(a), Kind::Dst4) => a.process_dst4_with_scratch(buf, s),
            (Tr::D5(a), Kind::Dct5) => a.process_dct5_with_scratch(buf, s),
            (Tr::S5(a), Kind::Dst5) => a.process_dst5_with_scratch(buf, s),
            (Tr::D67(a), Kind::Dct6) => a.process_dct6_with_scratch(buf, s),
            (Tr::D67(a), Kind::Dct7) => a.process_dct7_with_scratch(buf, s),
            (Tr::S67(a), Kind::Dst6) => a.process_dst6_with_scratch(buf, s),
            (Tr::S67(a), Kind::Dst7) => a.process_dst7_with_scratch(buf, s),
            (Tr::D8(a), Kind::Dct8) => a.process_dct8_with_scratch(buf, s),
            (Tr::S8(a), Kind::Dst8) => a.process_dst8_with_scratch(buf, s),
            _ => unreachable!(),
        }
    }
    /// every transform this instance offers
    pub fn kinds(&self) -> Vec<Kind> {
        use Kind::*;
        match self {
            Tr::D1(_) => vec![Dct1],
            Tr::S1(_) => vec![Dst1],
            Tr::T23(_) => vec![Dct2, Dct3, Dst2, Dst3],
            Tr::T4(_) => vec![Dct4, Dst4],
            Tr::D5(_) => vec![Dct5],
            Tr::S5(_) => vec![Dst5],
            Tr::D67(_) => vec![Dct6, Dct7],
            Tr::S67(_) => vec![Dst6, Dst7],
            Tr::D8(_) => vec![Dct8],
            Tr::S8(_) => vec![Dst8],
        }
    }
}

pub fn plan<T: Scalar>(p: &mut DctPlanner<T>, k: Kind, n: usize) -> Tr<T> {
    match k {
        Kind::Dct1 => Tr::D1(p.plan_dct1(n)),
        Kind::Dst1 => Tr::S1(p.plan_dst1(n)),
        Kind::Dct2 => Tr::T23(p.plan_dct2(n)),
        Kind::Dct3 => Tr::T23(p.plan_dct3(n)),
        Kind::Dst2 => Tr::T23(p.plan_dst2(n)),
        Kind::Dst3 => Tr::T23(p.plan_dst3(n)),
        Kind::Dct4 => Tr::T4(p.plan_dct4(n)),
        Kind::Dst4 => Tr::T4(p.plan_dst4(n)),
        Kind::Dct5 => Tr::D5(p.plan_dct5(n)),
        Kind::Dst5 => Tr::S5(p.plan_dst5(n)),
        Kind::Dct6 => Tr::D67(p.plan_dct6(n)),
        Kind::Dct7 => Tr::D67(p.plan_dct7(n)),
        Kind::Dst6 => Tr::S67(p.plan_dst6(n)),
        Kind::Dst7 => Tr::S67(p.plan_dst7(n)),
        Kind::Dct8 => Tr::D8(p.plan_dct8(n)),
        Kind::Dst8 => Tr::S8(p.plan_dst8(n)),
    }
}

// --------------------------------------------------------------------------- stubs

fn trash<T: Scalar>(s: &mut [T]) {
    for (i, c) in s.iter_mut().enumerate() {
        *c = T::garbage(1 + (i as u32 % 3));
    }
}

/// A conforming FFT: correct by definition, wants `need` complex numbers of
/// in-place scratch (and checks that it gets them), leaves garbage in all of it.
pub struct StubFft<T> {
    len: usize,
    need: usize,
    dir: FftDirection,
    tw: Vec<Complex<T>>,
}
impl<T: Scalar> StubFft<T> {
    pub fn new(len: usize, need: usize, dir: FftDirection) -> Self {
        let tw = (0..len)
            .map(|i| {
                let (c, s) = fx::cossin_pi(2 * i as u128, len as u128);
                let s = if dir == FftDirection::Forward { -s } else { s };
                Complex { re: T::konst(fx::to_f64(c)), im: T::konst(fx::to_f64(s)) }
            })
            .collect();
        StubFft { len, need, dir, tw }
    }
    fn dft(&self, inp: &[Complex<T>]) -> Vec<Complex<T>> {
        (0..self.len)
            .map(|k| {
                let mut re = T::zero();
                let mut im = T::zero();
                for (j, x) in inp.iter().enumerate() {
                    let w = self.tw[(k * j) % self.len];
                    re = re + (x.re * w.re - x.im * w.im);
                    im = im + (x.re * w.im + x.im * w.re);
                }
                Complex { re, im }
            })
            .collect()
    }
}
fn trash_c<T: Scalar>(s: &mut [Complex<T>]) {
    for (i, c) in s.iter_mut().enumerate() {
        *c = Complex { re: T::garbage(1 + (i as u32 % 3)), im: T::garbage(2 + (i as u32 % 2)) };
    }
}
impl<T: Scalar> Fft<T> for StubFft<T> {
    fn process_with_scratch(&self, buffer: &mut [Complex<T>], scratch: &mut [Complex<T>]) {
        assert!(self.len == 0 || buffer.len() % self.len == 0 && buffer.len() >= self.len, "stub FFT: buffer length");
        assert!(scratch.len() >= self.need, "stub FFT: not enough scratch");
        for chunk in buffer.chunks_exact_mut(self.len.max(1)) {
            let out = self.dft(chunk);
            trash_c(&mut scratch[..self.need]);
            chunk.copy_from_slice(&out);
        }
    }
    fn process_outofplace_with_scratch(&self, input: &mut [Complex<T>], output: &mut [Complex<T>], _s: &mut [Complex<T>]) {
        assert!(input.len() == output.len() && input.len() % self.len == 0);
        for (i, o) in input.chunks_exact_mut(self.len).zip(output.chunks_exact_mut(self.len)) {
            let out = self.dft(i);
            trash_c(i);
            o.copy_from_slice(&out);
        }
    }
    fn process_immutable_with_scratch(&self, input: &[Complex<T>], output: &mut [Complex<T>], _s: &mut [Complex<T>]) {
        assert!(input.len() == output.len() && input.len() % self.len == 0);
        for (i, o) in input.chunks_exact(self.len).zip(output.chunks_exact_mut(self.len)) {
            let out = self.dft(i);
            o.copy_from_slice(&out);
        }
    }
    fn get_inplace_scratch_len(&self) -> usize {
        self.need
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        0
    }
    fn get_immutable_scratch_len(&self) -> usize {
        0
    }
}
impl<T> Length for StubFft<T> {
    fn len(&self) -> usize {
        self.len
    }
}
impl<T> Direction for StubFft<T> {
    fn fft_direction(&self) -> FftDirection {
        self.dir
    }
}

/// A conforming DCT/DST of types 2, 3 and 4: correct by definition, wants `need`
/// numbers of scratch, leaves garbage in all of it.
pub struct StubDct<T> {
    len: usize,
    need: usize,
    ph: std::marker::PhantomData<T>,
}
impl<T: Scalar> StubDct<T> {
    pub fn new(len: usize, need: usize) -> Self {
        StubDct { len, need, ph: std::marker::PhantomData }
    }
    fn go(&self, k: Kind, buffer: &mut [T], scratch: &mut [T]) {
        assert!(buffer.len() == self.len, "stub DCT: buffer length");
        assert!(scratch.len() >= self.need, "stub DCT: not enough scratch");
        let sp = Spec::new(k, self.len);
        let out: Vec<T> = (0..self.len)
            .map(|k| {
                let mut acc = T::zero();
                for (j, x) in buffer.iter().enumerate() {
                    acc = acc + *x * T::konst(fx::to_f64(sp.coef(k, j)));
                }
                acc
            })
            .collect();
        trash(&mut scratch[..self.need]);
        buffer.copy_from_slice(&out);
    }
}
impl<T> Length for StubDct<T> {
    fn len(&self) -> usize {
        self.len
    }
}
impl<T> RequiredScratch for StubDct<T> {
    fn get_scratch_len(&self) -> usize {
        self.need
    }
}
macro_rules! stub {
    ($tr:ident, $m:ident, $k:expr) => {
        impl<T: Scalar> $tr<T> for StubDct<T>
        where
            StubDct<T>: Send + Sync,
        {
            fn $m(&self, b: &mut [T], s: &mut [T]) {
                self.go($k, b, s)
            }
        }
    };
}
stub!(Dct2, process_dct2_with_scratch, Kind::Dct2);
stub!(Dct3, process_dct3_with_scratch, Kind::Dct3);
stub!(Dst2, process_dst2_with_scratch, Kind::Dst2);
stub!(Dst3, process_dst3_with_scratch, Kind::Dst3);
stub!(Dct4, process_dct4_with_scratch, Kind::Dct4);
stub!(Dst4, process_dst4_with_scratch, Kind::Dst4);
impl<T: Scalar> TransformType2And3<T> for StubDct<T> {}
impl<T: Scalar> TransformType4<T> for StubDct<T> {}

/// FFT for the convert-to-FFT algorithms: `sK` a stub needing K scratch, otherwise rustfft's
fn mk_fft<T: Scalar>(inner: &str, len: usize) -> Arc<dyn Fft<T>> {
    if let Some(k) = inner.strip_prefix('s') {
        Arc::new(StubFft::new(len, k.parse().unwrap(), FftDirection::Forward))
    } else {
        FftPlanner::new().plan_fft_forward(len)
    }
}
fn mk_23<T: Scalar>(inner: &str, len: usize) -> Arc<dyn TransformType2And3<T>> {
    if let Some(k) = inner.strip_prefix("fs") {
        Arc::new(Type2And3ConvertToFft::new(mk_fft(&format!("s{}", k), len)))
    } else if let Some(k) = inner.strip_prefix('s') {
        Arc::new(StubDct::new(len, k.parse().unwrap()))
    } else if inner == "fft" {
        Arc::new(Type2And3ConvertToFft::new(mk_fft("r", len)))
    } else if inner == "plan" {
        DctPlanner::new().plan_dct2(len)
    } else {
        Arc::new(Type2And3Naive::new(len))
    }
}

/// via: plan | naive | fft:r | fft:sK | bfly | split:<inner> | t3:<inner>
pub fn build<T: Scalar>(k: Kind, n: usize, via: &str) -> Tr<T> {
    use Kind::*;
    let (v, inner) = via.split_once(':').unwrap_or((via, ""));
    match v {
        "plan" => plan(&mut DctPlanner::new(), k, n),
        "naive" => match k {
            Dct1 => Tr::D1(Arc::new(Dct1Naive::new(n))),
            Dst1 => Tr::S1(Arc::new(Dst1Naive::new(n))),
            Dct2 | Dct3 | Dst2 | Dst3 => Tr::T23(Arc::new(Type2And3Naive::new(n))),
            Dct4 | Dst4 => Tr::T4(Arc::new(Type4Naive::new(n))),
            Dct5 => Tr::D5(Arc::new(Dct5Naive::new(n))),
            Dst5 => Tr::S5(Arc::new(Dst5Naive::new(n))),
            Dct6 | Dct7 => Tr::D67(Arc::new(Dct6And7Naive::new(n))),
            Dst6 | Dst7 => Tr::S67(Arc::new(Dst6And7Naive::new(n))),
            Dct8 => Tr::D8(Arc::new(Dct8Naive::new(n))),
            Dst8 => Tr::S8(Arc::new(Dst8Naive::new(n))),
        },
        "fft" => match k {
            Dct1 => Tr::D1(Arc::new(Dct1ConvertToFft::new(mk_fft(inner, 2 * (n - 1))))),
            Dst1 => Tr::S1(Arc::new(Dst1ConvertToFft::new(mk_fft(inner, 2 * (n + 1))))),
            Dct2 | Dct3 | Dst2 | Dst3 => Tr::T23(Arc::new(Type2And3ConvertToFft::new(mk_fft(inner, n)))),
            Dct4 | Dst4 => Tr::T4(Arc::new(Type4ConvertToFftOdd::new(mk_fft(inner, n)))),
            Dst6 | Dst7 => Tr::S67(Arc::new(Dst6And7ConvertToFft::new(mk_fft(inner, 2 * n + 1)))),
            _ => panic!("no FFT algorithm for {:?}", k),
        },
        "bfly" => Tr::T23(match n {
            2 => Arc::new(Type2And3Butterfly2::new()),
            3 => Arc::new(Type2And3Butterfly3::new()),
            4 => Arc::new(Type2And3Butterfly4::new()),
            8 => Arc::new(Type2And3Butterfly8::new()),
            16 => Arc::new(Type2And3Butterfly16::new()),
            _ => panic!("no butterfly"),
        }),
        "split" => Tr::T23(Arc::new(Type2And3SplitRadix::new(mk_23(inner, n / 2), mk_23(inner, n / 4)))),
        // a split radix whose half-size transform is itself a split radix
        "split2" => {
            let q = mk_23(inner, n / 4);
            let h = Arc::new(Type2And3SplitRadix::new(q.clone(), mk_23(inner, n / 8)));
            Tr::T23(Arc::new(Type2And3SplitRadix::new(h, q)))
        }
        "t3" => Tr::T4(Arc::new(Type4ConvertToType3Even::new(mk_23(inner, n / 2)))),
        _ => panic!("via {}", via),
    }
}

// --------------------------------------------------------------------------- MDCT

pub fn window_fn<T: Scalar>(name: &str) -> fn(usize) -> Vec<T> {
    match name {
        "mp3" => window_fn::mp3,
        "mp3_invertible" => window_fn::mp3_invertible,
        "vorbis" => window_fn::vorbis,
        "vorbis_invertible" => window_fn::vorbis_invertible,
        "one" => window_fn::one,
        "invertible" => window_fn::invertible,
        _ => panic!("window {}", name),
    }
}
use rustdct::mdct::window_fn;

pub fn build_mdct<T: Scalar>(n: usize, via: &str, w: Box<dyn FnOnce(usize) -> Vec<T>>) -> Arc<dyn Mdct<T>> {
    let (v, inner) = via.split_once(':').unwrap_or((via, ""));
    match v {
        "plan" => DctPlanner::new().plan_mdct(n, w),
        "naive" => Arc::new(MdctNaive::new(n, w)),
        "via4" => {
            let d: Arc<dyn TransformType4<T>> = if let Some(k) = inner.strip_prefix('s') {
                Arc::new(StubDct::new(n, k.parse().unwrap()))
            } else if let Some(i) = inner.strip_prefix("t3.") {
                Arc::new(Type4ConvertToType3Even::new(mk_23(i, n / 2)))
            } else {
                Arc::new(Type4Naive::new(n))
            };
            Arc::new(MdctViaDct4::new(d, w))
        }
        _ => panic!("mdct via {}", via),
    }
}

/// the window as the oracle sees it
#[derive(Clone)]
pub enum OW {
    Const(Vec<i128>),
    Vars(u32),
}
impl OW {
    fn term(&self, i: usize, var: u32, c: i128, row: &mut Row) {
        match self {
            OW::Const(w) => row.push((var, NONE, fx::mul(w[i], c).unwrap())),
            OW::Vars(b) => row.push((var, b + i as u32, c)),
        }
    }
}

/// win: a built-in name, `sym` (every value arbitrary) or `cN` (an arbitrary-looking fixed window)
fn mk_window<T: Scalar, E: Env<T>>(e: &mut E, win: &str, n: usize) -> (Box<dyn FnOnce(usize) -> Vec<T>>, OW) {
    if win == "sym" {
        let (b, w) = e.inputs(2 * n);
        (Box::new(move |_| w), OW::Vars(b))
    } else if let Some(seed) = win.strip_prefix('c') {
        let seed: u64 = seed.parse().unwrap();
        let w: Vec<f64> = (0..2 * n)
            .map(|i| (((i as u64 + 3) * (2 * seed + 7) * 40503) % 65536) as f64 / 32768.0 - 1.0)
            .collect();
        let o = w.iter().map(|v| fx::from_f64(*v).unwrap().0).collect();
        (Box::new(move |_| w.iter().map(|v| T::konst(*v)).collect()), OW::Const(o))
    } else {
        (Box::new(window_fn::<T>(win)), OW::Const(spec::window(win, 2 * n)))
    }
}

fn fwd_want<T>(n: usize, a: u32, b: u32, w: OW) -> Want<T> {
    let sp = MdctSpec::new(n);
    Want::Rows(Box::new(move |k, row| {
        for i in 0..n {
            w.term(i, a + i as u32, sp.coef(k, i), row);
        }
        for i in 0..n {
            w.term(n + i, b + i as u32, sp.coef(k, n + i), row);
        }
    }))
}
/// output half h (0 or 1): prior + w * sum
fn inv_want<T>(n: usize, h: usize, x: u32, prior: u32, w: OW) -> Want<T> {
    let sp = MdctSpec::new(n);
    Want::Rows(Box::new(move |i, row| {
        row.push((prior + i as u32, NONE, fx::ONE));
        for k in 0..n {
            w.term(h * n + i, x + k as u32, sp.coef(k, h * n + i), row);
        }
    }))
}

fn check_mdct<T: Scalar, E: Env<T>>(e: &mut E, label: &str, m: &dyn Mdct<T>, n: usize, w: OW, dir: &str, extra: usize) {
    e.fact(&format!("{}: len", label), m.len() as i64, n as i64);
    if dir != "inv" {
        let (a, xa) = e.inputs(n);
        let (b, xb) = e.inputs(n);
        let mut out = e.garbage(n);
        let mut s = e.garbage(m.get_scratch_len() + extra);
        m.process_mdct_with_scratch(&xa, &xb, &mut out, &mut s);
        e.check(&format!("{}: mdct", label), &out, fwd_want(n, a, b, w.clone()));
    }
    if dir != "fwd" {
        let (x, xv) = e.inputs(n);
        let (pa, mut oa) = e.inputs(n);
        let (pb, mut ob) = e.inputs(n);
        let mut s = e.garbage(m.get_scratch_len() + extra);
        m.process_imdct_with_scratch(&xv, &mut oa, &mut ob, &mut s);
        e.check(&format!("{}: imdct first half", label), &oa, inv_want(n, 0, x, pa, w.clone()));
        e.check(&format!("{}: imdct second half", label), &ob, inv_want(n, 1, x, pb, w));
    }
}

fn spec_want<T>(k: Kind, n: usize, base: u32) -> Want<T> {
    let sp = Spec::new(k, n);
    Want::Rows(Box::new(move |i, row| {
        for j in 0..n {
            row.push((base + j as u32, NONE, sp.coef(i, j)));
        }
    }))
}

// --------------------------------------------------------------------------- families

pub fn run<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    match c.fam.as_str() {
        "t" => fam_t(c, e),
        "scr" => fam_scr(c, e),
        "scrm" => fam_scrm(c, e),
        "mdct" => fam_mdct(c, e),
        "win" => fam_win(c, e),
        "inv" => fam_inv(c, e),
        "tdac" => fam_tdac(c, e),
        "hist" => fam_hist(c, e),
        "histc" => fam_histc(c, e),
        "rep" => fam_rep(c, e),
        "repm" => fam_repm(c, e),
        "rej" => fam_rej(c, e),
        "rejm" => fam_rejm(c, e),
        "inplace" => fam_inplace(c, e),
        "ctor" => fam_ctor(c, e),
        f => panic!("family {}", f),
    }
}

/// one transform against its definition
fn fam_t<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    let k = spec::kind(c.s("kind"));
    let n = c.u("n");
    let via = pick_via(c, e, n);
    let tr: Tr<T> = build(k, n, &via);
    e.fact("len", tr.len() as i64, n as i64);
    let (b, mut buf) = e.inputs(n);
    if c.or("api", "d") == "s" {
        let mut s = e.garbage(tr.need() + c.uor("extra", 0));
        tr.run_scratch(k, &mut buf, &mut s);
    } else {
        tr.run(k, &mut buf);
    }
    e.check(c.s("kind"), &buf, spec_want(k, n, b));
}

/// replaces a `?` in via by an arbitrary scratch requirement
fn pick_via<T: Scalar, E: Env<T>>(c: &Case, e: &mut E, n: usize) -> String {
    let via = c.or("via", "plan");
    if via.contains('?') {
        let alts = [0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1, 2 * n, 2 * n + 1, 4 * n + 3];
        let i = e.choose("scratch requirement of the inner transform", alts.len() as u32);
        via.replace('?', &alts[i as usize].to_string())
    } else {
        via.to_string()
    }
}

/// explicit scratch with arbitrary contents and arbitrary excess gives what the
/// allocating call gives
fn fam_scr<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    let k = spec::kind(c.s("kind"));
    let n = c.u("n");
    let via = pick_via(c, e, n);
    let tr: Tr<T> = build(k, n, &via);
    let (_, x) = e.inputs(n);
    let mut a = x.clone();
    tr.run(k, &mut a);
    for extra in [0, 1, c.uor("extra", n + 2)] {
        let mut b = x.clone();
        let mut s = e.garbage(tr.need() + extra);
        tr.run_scratch(k, &mut b, &mut s);
        e.check(&format!("{} excess={}", c.s("kind"), extra), &b, Want::Same(a.clone()));
    }
    if c.or("kinds", "") == "all" {
        // every transform the instance offers, one after another in one scratch
        let mut s = e.garbage(tr.need());
        for k2 in tr.kinds() {
            let mut a = x.clone();
            tr.run(k2, &mut a);
            let mut b = x.clone();
            tr.run_scratch(k2, &mut b, &mut s);
            e.check(&format!("{:?} scratch reused", k2), &b, Want::Same(a));
        }
    }
}

fn fam_scrm<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    let n = c.u("n");
    let via = pick_via(c, e, n);
    let (w, _) = mk_window(e, c.or("win", "c1"), n);
    let m = build_mdct(n, &via, w);
    let (_, xa) = e.inputs(n);
    let (_, xb) = e.inputs(n);
    let zeros = |k: usize| vec![T::zero(); k];
    let mut a = zeros(n);
    m.process_mdct_with_scratch(&xa, &xb, &mut a, &mut zeros(m.get_scratch_len()));
    let mut ia = zeros(n);
    let mut ib = zeros(n);
    m.process_imdct_with_scratch(&xa, &mut ia, &mut ib, &mut zeros(m.get_scratch_len()));
    for extra in [0, 1, n + 2] {
        let mut b = e.garbage(n);
        let mut s = e.garbage(m.get_scratch_len() + extra);
        m.process_mdct_with_scratch(&xa, &xb, &mut b, &mut s);
        e.check(&format!("mdct excess={}", extra), &b, Want::Same(a.clone()));
        let mut ja = zeros(n);
        let mut jb = zeros(n);
        let mut s = e.garbage(m.get_scratch_len() + extra);
        m.process_imdct_with_scratch(&xa, &mut ja, &mut jb, &mut s);
        e.check(&format!("imdct a excess={}", extra), &ja, Want::Same(ia.clone()));
        e.check(&format!("imdct b excess={}", extra), &jb, Want::Same(ib.clone()));
    }
}

fn fam_mdct<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    let n = c.u("n");
    let via = pick_via(c, e, n);
    let (w, ow) = mk_window(e, c.s("win"), n);
    let m = build_mdct(n, &via, w);
    check_mdct(e, c.s("win"), &*m, n, ow, c.or("dir", "both"), c.uor("extra", 0));
}

fn fam_win<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    let len = c.u("len");
    for name in spec::WINDOWS {
        let w: Vec<T> = window_fn::<T>(name)(len);
        e.fact("window length", w.len() as i64, len as i64);
        let o = spec::window(name, len);
        e.check(name, &w, Want::Rows(Box::new(move |k, row| row.push((NONE, NONE, o[k])))));
    }
}

fn identity<T>(base: u32, f: i128) -> Want<T> {
    Want::Rows(Box::new(move |k, row| row.push((base + k as u32, NONE, f))))
}

fn fam_inv<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    let k = spec::kind(c.s("kind"));
    let n = c.u("n");
    let (ik, _) = spec::inverse(k, n);
    let (tr, itr): (Tr<T>, Tr<T>) = if c.or("via", "plan") == "plan" {
        let mut p = DctPlanner::new();
        let a = plan(&mut p, k, n);
        let b = plan(&mut p, ik, n);
        (a, b)
    } else {
        (build(k, n, c.s("via")), build(ik, n, c.or("via2", c.s("via"))))
    };
    let (b, mut buf) = e.inputs(n);
    tr.run(k, &mut buf);
    itr.run(ik, &mut buf);
    // inverse(forward(x)) = x / scale, and 1/scale is exact
    let n2 = n as i128;
    use Kind::*;
    let f = match k {
        Dct1 => fx::ratio(n2 - 1, 2),
        Dst1 => fx::ratio(n2 + 1, 2),
        Dct2 | Dct3 | Dct4 | Dst2 | Dst3 | Dst4 => fx::ratio(n2, 2),
        Dct5 | Dct6 | Dct7 | Dst8 => fx::ratio(2 * n2 - 1, 4),
        Dct8 | Dst5 | Dst6 | Dst7 => fx::ratio(2 * n2 + 1, 4),
    };
    e.check(&format!("{:?} after {:?}", ik, k), &buf, identity(b, f));
}

fn fam_tdac<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    let n = c.u("n");
    let name = c.s("win");
    let m = build_mdct::<T>(n, c.or("via", "plan"), Box::new(window_fn::<T>(name)));
    let blocks = c.uor("blocks", 3);
    let mut base = vec![];
    let mut x = vec![];
    for _ in 0..blocks {
        let (b, v) = e.inputs(n);
        base.push(b);
        x.push(v);
    }
    let mut out: Vec<Vec<T>> = (0..blocks).map(|_| vec![T::zero(); n]).collect();
    let mut s = e.garbage(m.get_scratch_len());
    for i in 0..blocks - 1 {
        let mut spec = e.garbage(n);
        m.process_mdct_with_scratch(&x[i], &x[i + 1], &mut spec, &mut s);
        let (l, r) = out.split_at_mut(i + 1);
        m.process_imdct_with_scratch(&spec, &mut l[i], &mut r[0], &mut s);
    }
    // 1/scale is exact: n, n/2 or 1
    let f = match name {
        "mp3" | "vorbis" => fx::ratio(n as i128, 2),
        "one" => fx::ratio(n as i128, 1),
        _ => fx::ONE,
    };
    for i in 1..blocks - 1 {
        e.check(&format!("{} block {}", name, i), &out[i], identity(base[i], f));
    }
}

enum Planned<T> {
    Rejected,
    Tr(Kind, usize, Tr<T>),
    M(usize, OW, Arc<dyn Mdct<T>>),
}

fn plan_step<T: Scalar, E: Env<T>>(e: &mut E, p: &mut DctPlanner<T>, step: &str) -> Planned<T> {
    let f: Vec<&str> = step.split('.').collect();
    let n: usize = f[1].parse().unwrap();
    if f[0] == "bad" {
        // a request that must be refused, and must not disturb what follows
        let wl = match f[2] {
            "short" => 2 * n - 1,
            "long" => 2 * n + 1,
            _ => 2 * n,
        };
        let ok = n % 2 == 0 && wl == 2 * n;
        let r = e.panics(&mut || {
            p.plan_mdct(n, |_| vec![T::one(); wl]);
        });
        e.fact(&format!("MDCT of length {} with {} window values refused", n, wl), r as i64, !ok as i64);
        Planned::Rejected
    } else if f[0] == "mdct" {
        let (w, ow) = mk_window(e, f[2], n);
        Planned::M(n, ow, p.plan_mdct(n, w))
    } else {
        let k = spec::kind(f[0]);
        Planned::Tr(k, n, plan(p, k, n))
    }
}
fn check_planned<T: Scalar, E: Env<T>>(e: &mut E, label: &str, pl: &Planned<T>) {
    match pl {
        Planned::Rejected => {}
        Planned::Tr(k, n, tr) => {
            e.fact(&format!("{}: len", label), tr.len() as i64, *n as i64);
            let (b, mut buf) = e.inputs(*n);
            tr.run(*k, &mut buf);
            e.check(label, &buf, spec_want(*k, *n, b));
        }
        Planned::M(n, ow, m) => check_mdct(e, label, &**m, *n, ow.clone(), "both", 0),
    }
}

/// steps=a,b,c: plans all in order on one planner, then checks every instance
/// that was handed out (chk=last: only the last one)
fn fam_hist<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    let mut p = DctPlanner::new();
    let steps: Vec<&str> = c.s("steps").split(',').collect();
    let mut all = vec![];
    for s in &steps {
        all.push(plan_step(e, &mut p, s));
    }
    drop(p);
    let from = if c.or("chk", "all") == "last" { all.len() - 1 } else { 0 };
    for (i, pl) in all.iter().enumerate().skip(from) {
        check_planned(e, &format!("step {} {}", i, steps[i]), pl);
    }
}

/// an arbitrary history: `depth` arbitrary requests out of `pool`, then `target`
fn fam_histc<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    let mut p = DctPlanner::new();
    let pool: Vec<&str> = c.s("pool").split(',').collect();
    for i in 0..c.u("depth") {
        let s = e.choose(&format!("request {}", i), pool.len() as u32);
        plan_step(e, &mut p, pool[s as usize]);
    }
    let pl = plan_step(e, &mut p, c.s("target"));
    drop(p);
    check_planned(e, c.s("target"), &pl);
}

/// repeated use of one instance: call i gives what the only call on a fresh
/// instance gives
fn fam_rep<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    let k = spec::kind(c.s("kind"));
    let n = c.u("n");
    let via = c.or("via", "plan");
    let tr: Tr<T> = build(k, n, via);
    let shared = tr.clone();
    let kinds = tr.kinds();
    let (_, x) = e.inputs(n);
    let (_, y) = e.inputs(n);
    let fresh: Vec<(Vec<T>, Vec<T>)> = kinds
        .iter()
        .map(|k| {
            let mut a = x.clone();
            build::<T>(*k, n, via).run(*k, &mut a);
            let mut b = y.clone();
            build::<T>(*k, n, via).run(*k, &mut b);
            (a, b)
        })
        .collect();
    let need = tr.need();
    let mut scratch = e.garbage(need);
    for i in 0..c.uor("calls", 6) {
        let (ki, which) = ((i * 7 + i / 3) % kinds.len(), (i + i / 4) % 2);
        let mut buf = if which == 0 { x.clone() } else { y.clone() };
        let t = if i % 5 == 3 { &shared } else { &tr };
        if i % 3 == 1 {
            t.run_scratch(kinds[ki], &mut buf, &mut scratch);
        } else {
            t.run(kinds[ki], &mut buf);
        }
        let want = if which == 0 { &fresh[ki].0 } else { &fresh[ki].1 };
        e.check(&format!("call {} {:?}", i, kinds[ki]), &buf, Want::Same(want.clone()));
        e.fact("scratch length stays", tr.need() as i64, need as i64);
        e.fact("length stays", tr.len() as i64, n as i64);
    }
}
fn fam_repm<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    let n = c.u("n");
    let via = c.or("via", "plan");
    let mk = || -> Arc<dyn Mdct<T>> {
        build_mdct(
            n,
            via,
            Box::new(|s| (0..s).map(|i| T::konst(((i * 37 + 11) % 64) as f64 / 64.0 - 0.4)).collect()),
        )
    };
    let (_, xa) = e.inputs(n);
    let (_, xb) = e.inputs(n);
    let zeros = |k: usize| vec![T::zero(); k];
    let fwd = |m: &dyn Mdct<T>, a: &[T], b: &[T], s: &mut [T]| {
        let mut o = zeros(n);
        m.process_mdct_with_scratch(a, b, &mut o, s);
        o
    };
    let inv = |m: &dyn Mdct<T>, a: &[T], s: &mut [T]| {
        let (mut o, mut q) = (zeros(n), zeros(n));
        m.process_imdct_with_scratch(a, &mut o, &mut q, s);
        o.extend(q);
        o
    };
    let m = mk();
    let mut s = e.garbage(m.get_scratch_len());
    let f_ab = fwd(&*mk(), &xa, &xb, &mut zeros(m.get_scratch_len()));
    let f_ba = fwd(&*mk(), &xb, &xa, &mut zeros(m.get_scratch_len()));
    let i_a = inv(&*mk(), &xa, &mut zeros(m.get_scratch_len()));
    let i_b = inv(&*mk(), &xb, &mut zeros(m.get_scratch_len()));
    for i in 0..c.uor("calls", 6) {
        let (got, want) = match (i * 5 + i / 4) % 4 {
            0 => (fwd(&*m, &xa, &xb, &mut s), &f_ab),
            1 => (inv(&*m, &xa, &mut s), &i_a),
            2 => (fwd(&*m, &xb, &xa, &mut s), &f_ba),
            _ => (inv(&*m, &xb, &mut s), &i_b),
        };
        e.check(&format!("call {}", i), &got, Want::Same(want.clone()));
    }
}

/// buffer and scratch lengths: exact buffer and sufficient scratch accepted,
/// everything else rejected by panicking
fn fam_rej<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    let k = spec::kind(c.s("kind"));
    let n = c.u("n");
    let via = pick_via(c, e, n);
    let tr: Tr<T> = build(k, n, &via);
    let need = tr.need();
    let bls = lens(n);
    let bl = bls[e.choose("buffer length", bls.len() as u32) as usize];
    let sls = {
        let mut v = lens(need);
        if !v.contains(&n) {
            v.push(n);
        }
        v
    };
    let si = e.choose("scratch length (last: the allocating call)", sls.len() as u32 + 1) as usize;
    if c.or("only", "") == "mem" {
        return mem(k, &tr, bl, sls.get(si).copied(), e);
    }
    let mut buf = vec![T::konst(0.5); bl];
    if si == sls.len() {
        let p = e.panics(&mut || tr.run(k, &mut buf));
        e.fact(&format!("rejected: buffer {} (len {})", bl, n), p as i64, (bl != n) as i64);
    } else {
        let sl = sls[si];
        let mut s = vec![T::konst(0.25); sl];
        let p = e.panics(&mut || tr.run_scratch(k, &mut buf, &mut s));
        e.fact(
            &format!("rejected: buffer {} (len {}) scratch {} (required {})", bl, n, sl, need),
            p as i64,
            (bl != n || sl < need) as i64,
        );
    }
}
/// a call with any lengths stays inside its slices and overflows no index
fn mem<T: Scalar, E: Env<T>>(k: Kind, tr: &Tr<T>, bl: usize, sl: Option<usize>, e: &mut E) {
    const G: usize = 6;
    let mut b = guarded(bl, G);
    let mut s = guarded(sl.unwrap_or(0), G);
    let (x, y) = (&mut b[G..G + bl], &mut s[G..G + sl.unwrap_or(0)]);
    let p = match sl {
        None => e.panics(&mut || tr.run(k, x)),
        Some(_) => e.panics(&mut || tr.run_scratch(k, x, y)),
    };
    let how = format!("buffer {} scratch {:?}", bl, sl);
    sane(p, &how, e);
    intact(&b, bl, &how, e);
    intact(&s, sl.unwrap_or(0), &how, e);
}
fn guarded<T: Scalar>(len: usize, g: usize) -> Vec<T> {
    (0..len + 2 * g).map(|i| T::konst(if i < g || i >= len + g { 3.5 } else { 0.5 })).collect()
}
fn intact<T: Scalar, E: Env<T>>(v: &[T], len: usize, how: &str, e: &mut E) {
    let g = (v.len() - len) / 2;
    for part in [&v[..g], &v[g + len..]] {
        e.check(&format!("outside the slice: {}", how), part, Want::Same(vec![T::konst(3.5); g]));
    }
}
/// if it panicked, then not because of index arithmetic
fn sane<T: Scalar, E: Env<T>>(p: bool, how: &str, e: &mut E) {
    let m = if p { crate::last_panic() } else { String::new() };
    let wild = m.starts_with("attempt to") || m.starts_with("unsafe precondition") || m.starts_with("capacity overflow");
    e.fact(&format!("index arithmetic goes wrong ({}): {}", m, how), wild as i64, 0);
}

fn lens(n: usize) -> Vec<usize> {
    let mut v = vec![n];
    for x in [0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1), n + 1, n + 2, n + 4, 2 * n, 4 * n + 1] {
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

fn fam_rejm<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    let n = c.u("n");
    let via = pick_via(c, e, n);
    let m: Arc<dyn Mdct<T>> = build_mdct(n, &via, Box::new(window_fn::<T>("mp3")));
    let need = m.get_scratch_len();
    // the three lengths vary independently of each other
    let bls = lens(n);
    let mut l = [n; 3];
    for x in l.iter_mut() {
        *x = bls[e.choose("length of a buffer", bls.len() as u32) as usize];
    }
    let sls = [need, need.saturating_sub(1), 0, need + 1, n];
    // every scratch length when the buffers are right, else required and one short of it
    let k = if l == [n; 3] { sls.len() } else { 2 };
    let sl = sls[e.choose("scratch length", k as u32) as usize];
    let dir = e.choose("direction", 2);
    const G: usize = 6;
    let mem = c.or("only", "") == "mem";
    let (a, mut b, mut o, mut s) = (guarded::<T>(l[0], G), guarded::<T>(l[1], G), guarded::<T>(l[2], G), guarded::<T>(sl, G));
    let p = {
        let (x, y, z, w) = (&a[G..G + l[0]], &mut b[G..G + l[1]], &mut o[G..G + l[2]], &mut s[G..G + sl]);
        if dir == 0 {
            e.panics(&mut || m.process_mdct_with_scratch(x, y, z, w))
        } else {
            e.panics(&mut || m.process_imdct_with_scratch(x, y, z, w))
        }
    };
    if mem {
        let how = format!("buffers {:?} scratch {}", l, sl);
        sane(p, &how, e);
        intact(&b, l[1], &how, e);
        intact(&o, l[2], &how, e);
        intact(&s, sl, &how, e);
        return;
    }
    let bad = l.iter().any(|x| *x != n) || sl < need;
    e.fact(&format!("rejected: buffers {:?} (len {}) scratch {} (required {})", l, n, sl, need), p as i64, bad as i64);
}

/// the butterflies' unsafe in-place entry points, on exactly-sized and on longer buffers
fn fam_inplace<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    let k = spec::kind(c.s("kind"));
    let n = c.u("n");
    let (b, mut buf) = e.inputs(n);
    macro_rules! go {
        ($t:ident) => {{
            let x = $t::new();
            unsafe {
                match k {
                    Kind::Dct2 => x.process_inplace_dct2(&mut buf),
                    Kind::Dct3 => x.process_inplace_dct3(&mut buf),
                    Kind::Dst2 => x.process_inplace_dst2(&mut buf),
                    Kind::Dst3 => x.process_inplace_dst3(&mut buf),
                    _ => unreachable!(),
                }
            }
        }};
    }
    match n {
        2 => go!(Type2And3Butterfly2),
        3 => go!(Type2And3Butterfly3),
        4 => go!(Type2And3Butterfly4),
        8 => go!(Type2And3Butterfly8),
        16 => go!(Type2And3Butterfly16),
        _ => unreachable!(),
    }
    e.check(c.s("kind"), &buf, spec_want(k, n, b));
}

/// constructors: what they accept, and the length they report
fn fam_ctor<T: Scalar, E: Env<T>>(c: &Case, e: &mut E) {
    match c.s("what") {
        "split" => return ctor_split::<T, E>(e),
        "mdct" => return ctor_mdct::<T, E>(e),
        "dct1one" => {
            let naive = e.choose("algorithm", 2) == 0;
            let p = e.panics(&mut || {
                if naive {
                    Dct1Naive::<T>::new(1);
                } else {
                    DctPlanner::<T>::new().plan_dct1(1);
                }
            });
            return e.fact("DCT-1 of length 1 is rejected", p as i64, 1);
        }
        "naive" => {
            // the direct algorithms and the planner take any length
            let k = spec::kind(c.s("kind"));
            let n = 2 + e.choose("length - 2", 64) as usize;
            for via in ["naive", "plan"] {
                let mut len = 0;
                let p = e.panics(&mut || len = build::<T>(k, n, via).len());
                e.fact(&format!("{} {:?} of length {} accepted", via, k, n), p as i64, 0);
                e.fact(&format!("{} {:?} length", via, k), len as i64, n as i64);
            }
            return;
        }
        _ => {}
    }
    let l = c.u("inner");
    let dir = if e.choose("direction", 2) == 0 { FftDirection::Forward } else { FftDirection::Inverse };
    let fwd = dir == FftDirection::Forward;
    let mk = || -> Arc<dyn Fft<T>> { Arc::new(StubFft::new(l, 3, dir)) };
    let mut len: Option<usize> = None;
    let what = c.s("what");
    let (ok, want_len) = match what {
        "dct1fft" => (fwd && l % 2 == 0 && l > 0, l / 2 + 1),
        "dst1fft" => (fwd && l % 2 == 0 && l > 0, (l / 2).wrapping_sub(1)),
        "t23fft" => (fwd && l > 0, l),
        "t4fft" => (fwd && l % 2 == 1, l),
        "dst67fft" => (fwd && l % 2 == 1, l.wrapping_sub(1) / 2),
        "t3" => (true, 2 * l),
        _ => panic!("ctor {}", what),
    };
    let p = e.panics(&mut || {
        len = Some(match what {
            "dct1fft" => Dct1ConvertToFft::new(mk()).len(),
            "dst1fft" => Dst1ConvertToFft::new(mk()).len(),
            "t23fft" => Type2And3ConvertToFft::new(mk()).len(),
            "t4fft" => Type4ConvertToFftOdd::new(mk()).len(),
            "t3" => Type4ConvertToType3Even::<T>::new(Arc::new(StubDct::new(l, 3))).len(),
            _ => Dst6And7ConvertToFft::new(mk()).len(),
        })
    });
    e.fact(&format!("{} accepts inner length {} {:?}", what, l, dir), !p as i64, ok as i64);
    if let (true, Some(len)) = (ok, len) {
        e.fact(&format!("{} length for inner length {}", what, l), len as i64, want_len as i64);
    }
}

fn ctor_split<T: Scalar, E: Env<T>>(e: &mut E) {
    let lens: Vec<usize> = (1..=18).chain([24, 31, 32, 33, 48, 63, 64, 65, 128, 256]).collect();
    let h = lens[e.choose("half length", lens.len() as u32) as usize];
    let q = lens[e.choose("quarter length", lens.len() as u32) as usize];
    let mut len = 0;
    let p = e.panics(&mut || {
        len = Type2And3SplitRadix::<T>::new(Arc::new(StubDct::new(h, 1)), Arc::new(StubDct::new(q, 2))).len()
    });
    let ok = h == 2 * q && (2 * h).is_power_of_two() && 2 * h > 2;
    e.fact(&format!("split radix accepts {} and {}", h, q), !p as i64, ok as i64);
    if ok {
        e.fact("split radix length", len as i64, 2 * h as i64);
    }
}

fn ctor_mdct<T: Scalar, E: Env<T>>(e: &mut E) {
    let n = 1 + e.choose("length - 1", 40) as usize;
    let wl = [2 * n, 2 * n - 1, 2 * n + 1, n, 4 * n, 0, 1][e.choose("window length", 7) as usize];
    let via = e.choose("algorithm", 3);
    let mut asked = 0;
    let mut len = 0;
    let p = e.panics(&mut || {
        let w = |s: usize| {
            asked = s;
            vec![T::one(); wl]
        };
        len = match via {
            0 => MdctNaive::new(n, w).len(),
            1 => MdctViaDct4::new(Arc::new(StubDct::new(n, 1)), w).len(),
            _ => DctPlanner::new().plan_mdct(n, w).len(),
        }
    });
    let ok = n % 2 == 0 && wl == 2 * n;
    e.fact(&format!("MDCT {} accepts length {} with a window of {}", via, n, wl), !p as i64, ok as i64);
    if ok {
        e.fact("MDCT length", len as i64, n as i64);
        e.fact("window values asked for", asked as i64, 2 * n as i64);
    }
}
