//! The scalar and the inner transforms the algorithms are instantiated with.
//! The scalar carries no number: which slots are touched does not depend on
//! the values in them (the crate never orders or compares scalars; if it did,
//! every comparison would answer the same).
use rustdct::num_complex::Complex;
use rustdct::num_traits::*;
use rustdct::rustfft::{Direction, Fft, FftDirection, Length};
use rustdct::*;
use std::ops::*;

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Z(pub u8);
macro_rules! ops { ($($t:ident $f:ident)*) => { $(impl $t for Z { type Output = Z; fn $f(self, _o: Z) -> Z { Z(0) } })* } }
ops!(Add add Sub sub Mul mul Div div Rem rem);
impl Neg for Z {
    type Output = Z;
    fn neg(self) -> Z {
        Z(0)
    }
}
impl Zero for Z {
    fn zero() -> Z {
        Z(0)
    }
    fn is_zero(&self) -> bool {
        false
    }
}
impl One for Z {
    fn one() -> Z {
        Z(0)
    }
}
impl Num for Z {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Z, ()> {
        Ok(Z(0))
    }
}
impl Signed for Z {
    fn abs(&self) -> Z {
        Z(0)
    }
    fn abs_sub(&self, _: &Z) -> Z {
        Z(0)
    }
    fn signum(&self) -> Z {
        Z(0)
    }
    fn is_positive(&self) -> bool {
        true
    }
    fn is_negative(&self) -> bool {
        false
    }
}
impl FromPrimitive for Z {
    fn from_i64(_: i64) -> Option<Z> {
        Some(Z(0))
    }
    fn from_u64(_: u64) -> Option<Z> {
        Some(Z(0))
    }
    fn from_f64(_: f64) -> Option<Z> {
        Some(Z(0))
    }
    fn from_f32(_: f32) -> Option<Z> {
        Some(Z(0))
    }
}
macro_rules! consts { ($($n:ident)*) => { impl FloatConst for Z { $(fn $n() -> Z { Z(0) })* } } }
consts!(E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 LN_10 LN_2
    LOG10_E LOG2_E PI SQRT_2);

/// an FFT of any length, scratch requirement and direction, which insists on being called as its contract says
pub struct F {
    pub len: usize,
    pub scratch: usize,
    pub dir: FftDirection,
}
impl Length for F {
    fn len(&self) -> usize {
        self.len
    }
}
impl Direction for F {
    fn fft_direction(&self) -> FftDirection {
        self.dir
    }
}
impl Fft<Z> for F {
    fn process_with_scratch(&self, b: &mut [Complex<Z>], s: &mut [Complex<Z>]) {
        assert!(b.len() % self.len == 0 && s.len() >= self.scratch, "inner FFT called with the wrong sizes");
    }
    fn process_outofplace_with_scratch(&self, i: &mut [Complex<Z>], o: &mut [Complex<Z>], s: &mut [Complex<Z>]) {
        assert!(i.len() == o.len() && i.len() % self.len == 0 && s.len() >= self.scratch, "inner FFT called with the wrong sizes");
    }
    fn process_immutable_with_scratch(&self, i: &[Complex<Z>], o: &mut [Complex<Z>], s: &mut [Complex<Z>]) {
        assert!(i.len() == o.len() && i.len() % self.len == 0 && s.len() >= self.scratch, "inner FFT called with the wrong sizes");
    }
    fn get_inplace_scratch_len(&self) -> usize {
        self.scratch
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        self.scratch
    }
    fn get_immutable_scratch_len(&self) -> usize {
        self.scratch
    }
}

/// a transform of any length and scratch requirement, likewise
pub struct Inner {
    pub len: usize,
    pub scratch: usize,
}
impl Length for Inner {
    fn len(&self) -> usize {
        self.len
    }
}
impl RequiredScratch for Inner {
    fn get_scratch_len(&self) -> usize {
        self.scratch
    }
}
macro_rules! inner { ($($t:ident $f:ident)*) => { $(impl $t<Z> for Inner {
    fn $f(&self, b: &mut [Z], s: &mut [Z]) {
        assert!(b.len() == self.len && s.len() >= self.scratch, "inner transform called with the wrong sizes");
    }
})* } }
inner!(Dct2 process_dct2_with_scratch Dct3 process_dct3_with_scratch Dst2 process_dst2_with_scratch
    Dst3 process_dst3_with_scratch Dct4 process_dct4_with_scratch Dst4 process_dst4_with_scratch);
impl TransformType2And3<Z> for Inner {}
impl TransformType4<Z> for Inner {}
