//! What is decided.  `ok` bodies: a call with exactly sized buffers and at
//! least the required scratch completes.  `bad` bodies: a call with anything
//! else does not return normally.  Both: nothing outside the slices is touched.
use crate::stub::*;
use rustdct::algorithm::type2and3_butterflies::*;
use rustdct::algorithm::*;
use rustdct::mdct::*;
use rustdct::rustfft::{FftDirection, Length};
use rustdct::*;
use std::sync::Arc;

pub trait Env {
    /// any value from 0 to max
    fn any(&mut self, what: &'static str, max: usize) -> usize;
    fn assume(&mut self, c: bool);
    /// a slice of length `len` that ends where its memory object ends
    fn with(&mut self, len: usize, f: &mut dyn FnMut(&mut Self, &mut [Z]));
    /// about to be rejected
    fn reached(&mut self);
    /// reached with wrong sizes
    fn accepted(&mut self);
    /// reached with right sizes
    fn completed(&mut self);
    /// a fact about a constructed instance
    fn fact(&mut self, what: &'static str, c: bool);
}

/// buffers longer than the capacity are not explored
pub const CAP: usize = 160;

fn sizes<E: Env>(e: &mut E, ok: bool, n: usize, need: usize, call: &mut dyn FnMut(&mut [Z], &mut [Z])) {
    let (bl, sl) = if ok {
        (n, need + e.any("excess scratch", 3))
    } else {
        (e.any("buffer length", n + 3), e.any("scratch length", need + 2))
    };
    if !ok {
        e.assume(bl != n || sl < need);
        e.reached();
    }
    // the buffer length is a constant in each branch: what a rejecting call
    // skips is then not explored over symbolic sizes
    for v in 0..n + 4 {
        if v == bl {
            return e.with(v, &mut |e, b| {
                e.with(sl, &mut |e, s| {
                    call(b, s);
                    if ok {
                        e.completed();
                    } else {
                        e.accepted();
                    }
                })
            });
        }
    }
}

fn sizes3<E: Env>(e: &mut E, ok: bool, n: usize, need: usize, m: &dyn Mdct<Z>) {
    let l = [n, n - 1, n + 1, n + 2];
    let (ka, kb, kc, sl) = if ok {
        (0, 0, 0, need + e.any("excess scratch", 3))
    } else {
        (e.any("first buffer", 3), e.any("second buffer", 3), e.any("third buffer", 3), e.any("scratch length", need + 1))
    };
    if !ok {
        e.assume(ka != 0 || kb != 0 || kc != 0 || sl < need);
        e.reached();
    }
    let inverse = e.any("direction", 1) == 1;
    nth(ka, &mut |x| {
        nth(kb, &mut |y| {
            nth(kc, &mut |z| {
                e.with(l[x], &mut |e, a| {
                    e.with(l[y], &mut |e, b| {
                        e.with(l[z], &mut |e, c| {
                            e.with(sl, &mut |e, s| {
                                if inverse {
                                    m.process_imdct_with_scratch(a, b, c, s);
                                } else {
                                    m.process_mdct_with_scratch(a, b, c, s);
                                }
                                if ok {
                                    e.completed();
                                } else {
                                    e.accepted();
                                }
                            })
                        })
                    })
                })
            })
        })
    })
}
/// `f` on a constant
fn nth(k: usize, f: &mut dyn FnMut(usize)) {
    match k {
        0 => f(0),
        1 => f(1),
        2 => f(2),
        _ => f(3),
    }
}

fn t23<E: Env>(e: &mut E, ok: bool, n: usize, t: &dyn TransformType2And3<Z>) {
    e.fact("length", t.len() == n);
    let need = t.get_scratch_len();
    match e.any("kind", 3) {
        0 => sizes(e, ok, n, need, &mut |b, s| t.process_dct2_with_scratch(b, s)),
        1 => sizes(e, ok, n, need, &mut |b, s| t.process_dct3_with_scratch(b, s)),
        2 => sizes(e, ok, n, need, &mut |b, s| t.process_dst2_with_scratch(b, s)),
        _ => sizes(e, ok, n, need, &mut |b, s| t.process_dst3_with_scratch(b, s)),
    }
}
fn t4<E: Env>(e: &mut E, ok: bool, n: usize, t: &dyn TransformType4<Z>) {
    e.fact("length", t.len() == n);
    let need = t.get_scratch_len();
    match e.any("kind", 1) {
        0 => sizes(e, ok, n, need, &mut |b, s| t.process_dct4_with_scratch(b, s)),
        _ => sizes(e, ok, n, need, &mut |b, s| t.process_dst4_with_scratch(b, s)),
    }
}
macro_rules! one {
    ($name:ident $tr:ident $f:ident) => {
        fn $name<E: Env>(e: &mut E, ok: bool, n: usize, t: &dyn $tr<Z>) {
            e.fact("length", t.len() == n);
            let need = t.get_scratch_len();
            sizes(e, ok, n, need, &mut |b, s| t.$f(b, s));
        }
    };
}
one!(k_dct1 Dct1 process_dct1_with_scratch);
one!(k_dst1 Dst1 process_dst1_with_scratch);
one!(k_dct5 Dct5 process_dct5_with_scratch);
one!(k_dst5 Dst5 process_dst5_with_scratch);
one!(k_dct8 Dct8 process_dct8_with_scratch);
one!(k_dst8 Dst8 process_dst8_with_scratch);
fn k_dct67<E: Env>(e: &mut E, ok: bool, n: usize, t: &dyn Dct6And7<Z>) {
    e.fact("length", t.len() == n);
    let need = t.get_scratch_len();
    match e.any("kind", 1) {
        0 => sizes(e, ok, n, need, &mut |b, s| t.process_dct6_with_scratch(b, s)),
        _ => sizes(e, ok, n, need, &mut |b, s| t.process_dct7_with_scratch(b, s)),
    }
}
fn k_dst67<E: Env>(e: &mut E, ok: bool, n: usize, t: &dyn Dst6And7<Z>) {
    e.fact("length", t.len() == n);
    let need = t.get_scratch_len();
    match e.any("kind", 1) {
        0 => sizes(e, ok, n, need, &mut |b, s| t.process_dst6_with_scratch(b, s)),
        _ => sizes(e, ok, n, need, &mut |b, s| t.process_dst7_with_scratch(b, s)),
    }
}

fn fft<E: Env>(e: &mut E, len: usize, f: &mut dyn FnMut(&mut E, Arc<F>)) {
    let scratch = e.any("inner scratch", len + 2);
    f(e, Arc::new(F { len, scratch, dir: FftDirection::Forward }))
}
fn inner<E: Env>(e: &mut E, len: usize) -> Arc<Inner> {
    let scratch = e.any("inner scratch", 3 * len + 2);
    Arc::new(Inner { len, scratch })
}

/// runs `f` for one of the listed sizes, the choice being symbolic and the size constant in each branch
macro_rules! pick {
    ($e:ident, [$($n:literal)*], $f:expr) => {{
        let k = $e.any("size", 64);
        let f = $f;
        $( if k == $n { return f($e, $n); } )*
        $e.assume(false);
    }};
}

pub fn bfly<E: Env>(e: &mut E, ok: bool, n: usize) {
    match n {
        2 => t23(e, ok, 2, &Type2And3Butterfly2::<Z>::new()),
        3 => t23(e, ok, 3, &Type2And3Butterfly3::<Z>::new()),
        4 => t23(e, ok, 4, &Type2And3Butterfly4::<Z>::new()),
        8 => t23(e, ok, 8, &Type2And3Butterfly8::<Z>::new()),
        _ => t23(e, ok, 16, &Type2And3Butterfly16::<Z>::new()),
    }
}
pub fn split<E: Env>(e: &mut E, ok: bool, n: usize) {
    let (h, q) = (inner(e, n / 2), inner(e, n / 4));
    t23(e, ok, n, &Type2And3SplitRadix::<Z>::new(h, q))
}
pub fn fft23<E: Env>(e: &mut E, ok: bool, n: usize) {
    fft(e, n, &mut |e, f| t23(e, ok, n, &Type2And3ConvertToFft::<Z>::new(f)))
}
pub fn fft4<E: Env>(e: &mut E, ok: bool, n: usize) {
    fft(e, n, &mut |e, f| t4(e, ok, n, &Type4ConvertToFftOdd::<Z>::new(f)))
}
pub fn even4<E: Env>(e: &mut E, ok: bool, n: usize) {
    let i = inner(e, n / 2);
    t4(e, ok, n, &Type4ConvertToType3Even::<Z>::new(i))
}
pub fn fft1c<E: Env>(e: &mut E, ok: bool, n: usize) {
    fft(e, 2 * (n - 1), &mut |e, f| k_dct1(e, ok, n, &Dct1ConvertToFft::<Z>::new(f)))
}
pub fn fft1s<E: Env>(e: &mut E, ok: bool, n: usize) {
    fft(e, 2 * (n + 1), &mut |e, f| k_dst1(e, ok, n, &Dst1ConvertToFft::<Z>::new(f)))
}
pub fn fft67<E: Env>(e: &mut E, ok: bool, n: usize) {
    fft(e, 2 * n + 1, &mut |e, f| k_dst67(e, ok, n, &Dst6And7ConvertToFft::<Z>::new(f)))
}
pub fn naive1c<E: Env>(e: &mut E, ok: bool, n: usize) {
    k_dct1(e, ok, n, &Dct1Naive::<Z>::new(n))
}
pub fn naive1s<E: Env>(e: &mut E, ok: bool, n: usize) {
    k_dst1(e, ok, n, &Dst1Naive::<Z>::new(n))
}
pub fn naive23<E: Env>(e: &mut E, ok: bool, n: usize) {
    t23(e, ok, n, &Type2And3Naive::<Z>::new(n))
}
pub fn naive4<E: Env>(e: &mut E, ok: bool, n: usize) {
    t4(e, ok, n, &Type4Naive::<Z>::new(n))
}
pub fn naive5c<E: Env>(e: &mut E, ok: bool, n: usize) {
    k_dct5(e, ok, n, &Dct5Naive::<Z>::new(n))
}
pub fn naive5s<E: Env>(e: &mut E, ok: bool, n: usize) {
    k_dst5(e, ok, n, &Dst5Naive::<Z>::new(n))
}
pub fn naive67c<E: Env>(e: &mut E, ok: bool, n: usize) {
    k_dct67(e, ok, n, &Dct6And7Naive::<Z>::new(n))
}
pub fn naive67s<E: Env>(e: &mut E, ok: bool, n: usize) {
    k_dst67(e, ok, n, &Dst6And7Naive::<Z>::new(n))
}
pub fn naive8c<E: Env>(e: &mut E, ok: bool, n: usize) {
    k_dct8(e, ok, n, &Dct8Naive::<Z>::new(n))
}
pub fn naive8s<E: Env>(e: &mut E, ok: bool, n: usize) {
    k_dst8(e, ok, n, &Dst8Naive::<Z>::new(n))
}
fn window(len: usize) -> Vec<Z> {
    vec![Z(1); len]
}
pub fn mdct_naive<E: Env>(e: &mut E, ok: bool, n: usize) {
    let m = MdctNaive::<Z>::new(n, window);
    e.fact("length", m.len() == n);
    sizes3(e, ok, n, m.get_scratch_len(), &m)
}
pub fn mdct_via<E: Env>(e: &mut E, ok: bool, n: usize) {
    let i = inner(e, n);
    let m = MdctViaDct4::<Z>::new(i, window);
    e.fact("length", m.len() == n);
    sizes3(e, ok, n, m.get_scratch_len(), &m)
}

fn ctor<E: Env>(e: &mut E, ok: bool, documented: bool, len: usize, make: &mut dyn FnMut() -> usize) {
    e.assume(ok == documented);
    if ok {
        let got = make();
        e.fact("reported length", got == len);
        e.completed();
    } else {
        e.reached();
        make();
        e.accepted();
    }
}
/// no table depends on these lengths, so they are bounded by the address space only
const WIDE: usize = 1 << 40;
fn wide_fft<E: Env>(e: &mut E, least: usize) -> (usize, bool, Arc<F>) {
    let len = e.any("length of the inner FFT", WIDE);
    e.assume(len >= least);
    let scratch = e.any("inner scratch", WIDE);
    let fwd = e.any("direction", 1) == 0;
    let dir = if fwd { FftDirection::Forward } else { FftDirection::Inverse };
    (len, fwd, Arc::new(F { len, scratch, dir }))
}
pub fn ctor1c<E: Env>(e: &mut E, ok: bool, _n: usize) {
    let (l, fwd, f) = wide_fft(e, 2);
    ctor(e, ok, fwd && l % 2 == 0, l / 2 + 1, &mut || Dct1ConvertToFft::<Z>::new(f.clone()).len())
}
pub fn ctor1s<E: Env>(e: &mut E, ok: bool, _n: usize) {
    let (l, fwd, f) = wide_fft(e, 4);
    ctor(e, ok, fwd && l % 2 == 0, (l / 2).wrapping_sub(1), &mut || Dst1ConvertToFft::<Z>::new(f.clone()).len())
}
pub fn ctor4<E: Env>(e: &mut E, ok: bool, _n: usize) {
    let (l, fwd, f) = wide_fft(e, 1);
    ctor(e, ok, fwd && l % 2 == 1, l, &mut || Type4ConvertToFftOdd::<Z>::new(f.clone()).len())
}
pub fn ctor67<E: Env>(e: &mut E, ok: bool, _n: usize) {
    let (l, fwd, f) = wide_fft(e, 3);
    ctor(e, ok, fwd && l % 2 == 1, l / 2, &mut || Dst6And7ConvertToFft::<Z>::new(f.clone()).len())
}
pub fn ctor23<E: Env>(e: &mut E, ok: bool, _n: usize) {
    pick!(e, [1 2 3 4 5 6 7 8], |e: &mut E, n: usize| {
        let fwd = e.any("direction", 1) == 0;
        let dir = if fwd { FftDirection::Forward } else { FftDirection::Inverse };
        let f = Arc::new(F { len: n, scratch: e.any("inner scratch", WIDE), dir });
        ctor(e, ok, fwd, n, &mut || Type2And3ConvertToFft::<Z>::new(f.clone()).len())
    })
}
pub fn ctor_split<E: Env>(e: &mut E, ok: bool, _n: usize) {
    if ok {
        // the accepted ones build tables, so their size is constant in each branch
        pick!(e, [4 8 16 32], |e: &mut E, n: usize| {
            let (hi, qi) = (inner(e, n / 2), inner(e, n / 4));
            ctor(e, ok, true, n, &mut || Type2And3SplitRadix::<Z>::new(hi.clone(), qi.clone()).len())
        })
    } else {
        let (h, q) = (e.any("half length", WIDE), e.any("quarter length", WIDE));
        let doc = h >= 2 && h.is_power_of_two() && h == 2 * q;
        let (hi, qi) = (Arc::new(Inner { len: h, scratch: 0 }), Arc::new(Inner { len: q, scratch: 0 }));
        ctor(e, ok, doc, 2 * h, &mut || Type2And3SplitRadix::<Z>::new(hi.clone(), qi.clone()).len())
    }
}
pub fn ctor_mdct<E: Env>(e: &mut E, ok: bool, _n: usize) {
    pick!(e, [1 2 3 4 5 6], |e: &mut E, n: usize| {
        let naive = e.any("algorithm", 1) == 0;
        let i = Arc::new(Inner { len: n, scratch: 0 });
        let go = |e: &mut E, w: usize| {
            ctor(e, ok, n % 2 == 0 && w == 2 * n, n, &mut || {
                if naive {
                    MdctNaive::<Z>::new(n, |_| vec![Z(1); w]).len()
                } else {
                    MdctViaDct4::<Z>::new(i.clone(), |_| vec![Z(1); w]).len()
                }
            })
        };
        match e.any("length of the window", 4) {
            0 => go(e, 0),
            1 => go(e, n),
            2 => go(e, 2 * n - 1),
            3 => go(e, 2 * n + 1),
            _ => go(e, 2 * n),
        }
    })
}

macro_rules! table {
    ($($name:ident $f:ident $n:literal $okunwind:literal $unwind:literal;)*) => {
        pub fn run<E: Env>(name: &str, e: &mut E) -> bool {
            $( if name == concat!(stringify!($name), "_ok") { $f(e, true, $n); return true; }
               if name == concat!(stringify!($name), "_bad") { $f(e, false, $n); return true; } )*
            false
        }
        #[cfg(kani)]
        mod proofs {
            use crate::proofs::K;
            $( mod $name {
                use super::K;
                #[kani::proof]
                #[kani::unwind($okunwind)]
                fn ok() { crate::body::$f(&mut K, true, $n) }
                #[kani::proof]
                #[kani::unwind($unwind)]
                fn bad() { crate::body::$f(&mut K, false, $n) }
            } )*
        }
    };
}
table! {
    bfly_2 bfly 2 8 8;
    bfly_3 bfly 3 9 9;
    bfly_4 bfly 4 10 10;
    bfly_8 bfly 8 14 14;
    bfly_16 bfly 16 22 22;
    split_4 split 4 10 10;
    split_8 split 8 14 14;
    split_16 split 16 22 22;
    split_32 split 32 38 38;
    fft23_1 fft23 1 7 7;
    fft23_2 fft23 2 8 8;
    fft23_3 fft23 3 9 9;
    fft23_4 fft23 4 10 10;
    fft23_5 fft23 5 11 11;
    fft23_6 fft23 6 12 12;
    fft23_7 fft23 7 13 13;
    fft23_8 fft23 8 14 14;
    fft4_1 fft4 1 7 7;
    fft4_3 fft4 3 9 9;
    fft4_5 fft4 5 11 11;
    fft4_7 fft4 7 13 13;
    fft4_9 fft4 9 15 15;
    even4_2 even4 2 8 8;
    even4_4 even4 4 10 10;
    even4_6 even4 6 12 12;
    even4_8 even4 8 14 14;
    even4_10 even4 10 16 16;
    even4_12 even4 12 18 18;
    fft1c_2 fft1c 2 10 10;
    fft1c_3 fft1c 3 12 12;
    fft1c_4 fft1c 4 14 14;
    fft1c_5 fft1c 5 16 16;
    fft1c_6 fft1c 6 18 18;
    fft1c_7 fft1c 7 20 20;
    fft1c_8 fft1c 8 22 22;
    fft1s_1 fft1s 1 10 10;
    fft1s_2 fft1s 2 12 12;
    fft1s_3 fft1s 3 14 14;
    fft1s_4 fft1s 4 16 16;
    fft1s_5 fft1s 5 18 18;
    fft1s_6 fft1s 6 20 20;
    fft1s_7 fft1s 7 22 22;
    fft67_1 fft67 1 8 8;
    fft67_2 fft67 2 10 10;
    fft67_3 fft67 3 12 12;
    fft67_4 fft67 4 14 14;
    fft67_5 fft67 5 16 16;
    fft67_6 fft67 6 18 18;
    fft67_7 fft67 7 20 20;
    naive1c_2 naive1c 2 14 14;
    naive1c_3 naive1c 3 18 18;
    naive1c_4 naive1c 4 22 22;
    naive1c_5 naive1c 5 26 26;
    naive1c_6 naive1c 6 30 30;
    naive1s_1 naive1s 1 10 10;
    naive1s_2 naive1s 2 14 14;
    naive1s_3 naive1s 3 18 18;
    naive1s_4 naive1s 4 22 22;
    naive1s_5 naive1s 5 26 26;
    naive1s_6 naive1s 6 30 30;
    naive23_1 naive23 1 10 10;
    naive23_2 naive23 2 14 14;
    naive23_3 naive23 3 18 18;
    naive23_4 naive23 4 22 22;
    naive23_5 naive23 5 26 26;
    naive23_6 naive23 6 30 30;
    naive4_1 naive4 1 10 10;
    naive4_2 naive4 2 14 14;
    naive4_3 naive4 3 18 18;
    naive4_4 naive4 4 22 22;
    naive4_5 naive4 5 26 26;
    naive4_6 naive4 6 30 30;
    naive5c_1 naive5c 1 10 10;
    naive5c_2 naive5c 2 14 14;
    naive5c_3 naive5c 3 18 18;
    naive5c_4 naive5c 4 22 22;
    naive5c_5 naive5c 5 26 26;
    naive5c_6 naive5c 6 30 30;
    naive5s_1 naive5s 1 10 10;
    naive5s_2 naive5s 2 14 14;
    naive5s_3 naive5s 3 18 18;
    naive5s_4 naive5s 4 22 22;
    naive5s_5 naive5s 5 26 26;
    naive5s_6 naive5s 6 30 30;
    naive67c_1 naive67c 1 10 10;
    naive67c_2 naive67c 2 14 14;
    naive67c_3 naive67c 3 18 18;
    naive67c_4 naive67c 4 22 22;
    naive67c_5 naive67c 5 26 26;
    naive67c_6 naive67c 6 30 30;
    naive67s_1 naive67s 1 10 10;
    naive67s_2 naive67s 2 14 14;
    naive67s_3 naive67s 3 18 18;
    naive67s_4 naive67s 4 22 22;
    naive67s_5 naive67s 5 26 26;
    naive67s_6 naive67s 6 30 30;
    naive8c_1 naive8c 1 10 10;
    naive8c_2 naive8c 2 14 14;
    naive8c_3 naive8c 3 18 18;
    naive8c_4 naive8c 4 22 22;
    naive8c_5 naive8c 5 26 26;
    naive8c_6 naive8c 6 30 30;
    naive8s_1 naive8s 1 10 10;
    naive8s_2 naive8s 2 14 14;
    naive8s_3 naive8s 3 18 18;
    naive8s_4 naive8s 4 22 22;
    naive8s_5 naive8s 5 26 26;
    naive8s_6 naive8s 6 30 30;
    mdct_naive_2 mdct_naive 2 14 14;
    mdct_naive_4 mdct_naive 4 22 22;
    mdct_via_2 mdct_via 2 12 12;
    mdct_via_4 mdct_via 4 16 16;
    mdct_via_6 mdct_via 6 20 20;
    ctor1c ctor1c 0 72 4;
    ctor1s ctor1s 0 72 4;
    ctor4 ctor4 0 72 4;
    ctor67 ctor67 0 72 4;
    ctor23 ctor23 0 72 12;
    ctor_split ctor_split 0 72 6;
    ctor_mdct ctor_mdct 0 72 28;
}
