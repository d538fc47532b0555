//! Fixed-point numbers with 90 fractional bits in an i128, and the exact
//! (to ~2^-84) values of cos and sin that the oracle is built from.  Nothing
//! here uses the floating point trigonometry of the code under test.

pub const S: u32 = 90;
pub const ONE: i128 = 1i128 << S;

/// (a*b) >> 90, rounded towards minus infinity in magnitude; error < 1 unit.
/// None on overflow.
#[inline]
pub fn mul(a: i128, b: i128) -> Option<i128> {
    let neg = (a < 0) ^ (b < 0);
    let (x, y) = (a.unsigned_abs(), b.unsigned_abs());
    let (x1, x0) = ((x >> 64) as u64 as u128, x as u64 as u128);
    let (y1, y0) = ((y >> 64) as u64 as u128, y as u64 as u128);
    let ll = x0 * y0;
    let m1 = x1 * y0;
    let m2 = x0 * y1;
    let hh = x1 * y1;
    let mid = (ll >> 64) + (m1 as u64 as u128) + (m2 as u64 as u128);
    let lo = (ll as u64 as u128) | (mid << 64);
    let hi = hh + (m1 >> 64) + (m2 >> 64) + (mid >> 64);
    // result = (hi:lo) >> 90
    if hi >> (S - 1) != 0 {
        return None;
    }
    let r = (hi << (128 - S)) | (lo >> S);
    if r >> 127 != 0 {
        return None;
    }
    let r = r as i128;
    Some(if neg { -r } else { r })
}

/// exact value of an f64 in units of 2^-90, truncated; the flag says whether
/// bits were lost.  None when it is not finite or too large.
pub fn from_f64(v: f64) -> Option<(i128, bool)> {
    if v == 0.0 {
        return Some((0, false));
    }
    if !v.is_finite() {
        return None;
    }
    let bits = v.to_bits();
    let neg = bits >> 63 == 1;
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = bits & ((1u64 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | (1u64 << 52), e - 1075) };
    let sh = e + S as i32;
    let (r, lost) = if sh >= 0 {
        if sh > 73 {
            return None;
        }
        ((m as i128) << sh, false)
    } else if sh <= -64 {
        (0, true)
    } else {
        ((m >> (-sh)) as i128, m & ((1u64 << (-sh)) - 1) != 0)
    };
    Some((if neg { -r } else { r }, lost))
}

pub fn to_f64(a: i128) -> f64 {
    (a as f64) / (ONE as f64)
}

/// a / 2^90 divided by an f64 constant
pub fn div_f64(a: i128, c: f64) -> Option<i128> {
    // a / c with c = m * 2^e: compute in two steps with enough precision
    if !c.is_finite() || c == 0.0 {
        return None;
    }
    let bits = c.to_bits();
    let neg = bits >> 63 == 1;
    let e = ((bits >> 52) & 0x7ff) as i32;
    if e == 0 {
        return None;
    }
    let m = (bits & ((1u64 << 52) - 1)) | (1u64 << 52);
    let e = e - 1075;
    // q = a / (m * 2^e) = (a / m) * 2^-e ; long division keeping 60 extra bits
    let ua = a.unsigned_abs();
    let mm = m as u128;
    let mut q = ua / mm;
    let mut r = ua % mm;
    let mut ex = 0i32;
    while ex < 74 && (q >> 126) == 0 {
        r <<= 1;
        q = (q << 1) | (if r >= mm { 1 } else { 0 });
        if r >= mm {
            r -= mm;
        }
        ex += 1;
    }
    let sh = -e - ex;
    let r = if sh >= 0 {
        if sh > 126 || (q >> (127 - sh.min(126))) != 0 {
            return None;
        }
        q << sh
    } else if -sh > 127 {
        0
    } else {
        q >> (-sh)
    };
    if r >> 127 != 0 {
        return None;
    }
    let r = r as i128;
    Some(if neg ^ (a < 0) { -r } else { r })
}

// pi to 124 fractional bits: 3.1415926535897932384626433832795028841971693993751...
// pi = 3 + 0x0.243F6A8885A308D313198A2E03707344A4093822...
const PI_124: u128 = 0x3_243F6A8885A308D313198A2E0370734; // 3.hex with 31 hex digits = 124 bits

pub fn pi() -> i128 {
    (PI_124 >> (124 - S)) as i128
}

fn m(a: i128, b: i128) -> i128 {
    mul(a, b).expect("oracle overflow")
}

/// sin and cos of a fixed-point angle in [0, pi/4 + small]
fn taylor(x: i128) -> (i128, i128) {
    let x2 = m(x, x);
    // sin
    let mut term = x;
    let mut s = x;
    let mut i = 1i128;
    while term != 0 {
        term = -m(term, x2) / ((i + 1) * (i + 2));
        s += term;
        i += 2;
    }
    let mut term = ONE;
    let mut c = ONE;
    let mut i = 0i128;
    while term != 0 {
        term = -m(term, x2) / ((i + 1) * (i + 2));
        c += term;
        i += 2;
    }
    (s, c)
}

/// cos(pi * p / q), sin(pi * p / q), exactly reduced
pub fn cossin_pi(p: u128, q: u128) -> (i128, i128) {
    let mut p = p % (2 * q);
    let mut cneg = false;
    let mut sneg = false;
    if p >= q {
        // angle - pi: both negate
        p -= q;
        cneg = !cneg;
        sneg = !sneg;
    }
    // now angle in [0, pi)
    if 2 * p > q {
        // pi - angle
        p = q - p;
        cneg = !cneg;
    }
    // angle in [0, pi/2]
    let swap = 4 * p > q;
    let (pp, qq) = if swap { (q - 2 * p, 2 * q) } else { (p, q) };
    // x = pi * pp / qq  with pp/qq <= 1/4
    let x = mul_ratio(pp, qq);
    let (s, c) = taylor(x);
    let (s, c) = if swap { (c, s) } else { (s, c) };
    (if cneg { -c } else { c }, if sneg { -s } else { s })
}

fn mul_ratio(p: u128, q: u128) -> i128 {
    // pi * p / q in units of 2^-90, using pi with 100 fractional bits; p, q < 2^24
    assert!(p < 1 << 24 && q < 1 << 26);
    let pi100 = PI_124 >> 24;
    ((pi100 * p / q) >> (100 - S)) as i128
}

/// sin of an arbitrary fixed-point angle in [0, pi/2]
pub fn sin_fx(x: i128) -> i128 {
    let half_pi = pi() / 2;
    if x > half_pi / 2 {
        taylor(half_pi - x).1
    } else {
        taylor(x).0
    }
}

/// integer square root of a fixed-point number
pub fn sqrt_fx(a: i128) -> i128 {
    assert!(a >= 0);
    let mut y = (to_f64(a).sqrt() * (ONE as f64)) as i128;
    for _ in 0..6 {
        if y == 0 {
            return 0;
        }
        // y = (y + a/y) / 2 ; a/y in fixed point through f64 correction
        let y2 = m(y, y);
        let diff = a - y2; // fixed
        let corr = to_f64(diff) / (2.0 * to_f64(y));
        y += (corr * (ONE as f64)) as i128;
    }
    y
}

/// p/q as fixed point
pub fn ratio(p: i128, q: i128) -> i128 {
    // p < 2^30
    assert!(p.abs() < 1 << 36);
    (p << S) / q
}

pub struct TrigTable {
    pub q: u128,
    pub c: Vec<i128>,
    pub s: Vec<i128>,
}
impl TrigTable {
    pub fn new(q: u128) -> Self {
        let mut c = Vec::with_capacity(2 * q as usize);
        let mut s = Vec::with_capacity(2 * q as usize);
        for p in 0..2 * q {
            let (a, b) = cossin_pi(p, q);
            c.push(a);
            s.push(b);
        }
        TrigTable { q, c, s }
    }
    pub fn cos(&self, p: u64) -> i128 {
        self.c[(p % (2 * self.q as u64)) as usize]
    }
    pub fn sin(&self, p: u64) -> i128 {
        self.s[(p % (2 * self.q as u64)) as usize]
    }
}

/// self-test: against the platform's f64 functions and against identities that
/// would expose an error below f64 precision
pub fn selftest() -> Result<usize, String> {
    let mut n = 0;
    for q in [1u128, 2, 3, 4, 5, 7, 8, 12, 97, 128, 1000, 4099, 16384] {
        for p in 0..(2 * q).min(3000) {
            let (c, s) = cossin_pi(p, q);
            let a = std::f64::consts::PI * (p as f64) / (q as f64);
            if (to_f64(c) - a.cos()).abs() > 1e-14 || (to_f64(s) - a.sin()).abs() > 1e-14 {
                return Err(format!("trig {}/{}", p, q));
            }
            let one = m(c, c) + m(s, s);
            if (one - ONE).abs() > 1 << 10 {
                return Err(format!("pythagoras {}/{} off by {}", p, q, one - ONE));
            }
            // double angle
            let (c2, _) = cossin_pi(2 * p, q);
            if (2 * m(c, c) - ONE - c2).abs() > 1 << 10 {
                return Err(format!("double angle {}/{}", p, q));
            }
            n += 1;
        }
    }
    for v in [0.1f64, 0.7, 1.3, 1.5707] {
        let (x, _) = from_f64(v).unwrap();
        if (to_f64(sin_fx(x)) - v.sin()).abs() > 1e-14 {
            return Err("sin_fx".into());
        }
    }
    for v in [0.5f64, 2.0, 0.0009765625, 0.037] {
        let (x, _) = from_f64(v).unwrap();
        let r = sqrt_fx(x);
        if (m(r, r) - x).abs() > 1 << 12 {
            return Err("sqrt_fx".into());
        }
    }
    for (a, c) in [(1.0f64, 3.0f64), (0.7, -0.013), (-5.0, 17.25), (1e-6, 1e3)] {
        let (x, _) = from_f64(a).unwrap();
        let d = div_f64(x, c).unwrap();
        if (to_f64(d) - a / c).abs() > 1e-15 * (1.0 + (a / c).abs()) {
            return Err(format!("div {} {} {}", a, c, to_f64(d)));
        }
    }
    Ok(n)
}
