"""What each check encodes, its bounds and what lies outside; goes into the evidence."""
KANI = {"C08", "C14", "C16"}

_T1 = ["Dct1Naive", "Dst1Naive", "Dct1ConvertToFft", "Dst1ConvertToFft"]
_T23 = ["Type2And3Naive", "Type2And3Butterfly2/3/4/8/16", "Type2And3SplitRadix", "Type2And3ConvertToFft"]
_T4 = ["Type4Naive", "Type4ConvertToType3Even", "Type4ConvertToFftOdd"]
_T58 = ["Dct5Naive", "Dst5Naive", "Dct8Naive", "Dst8Naive"]
_T67 = ["Dct6And7Naive", "Dst6And7Naive", "Dst6And7ConvertToFft"]
_M = ["MdctNaive", "MdctViaDct4", "window_fn::{mp3, mp3_invertible, vorbis, vorbis_invertible, one, invertible}"]
_P = ["DctPlanner::plan_* and plan_new_*", "twiddles::single_twiddle and siblings",
      "array_utils::into_complex_mut", "validate_buffers!", "rustfft's scalar algorithms as planned for the length"]
_ALL = _T1 + _T23 + _T4 + _T58 + _T67

ENCODED = {
    "C01": _T1 + _P, "C02": _T23 + _P, "C03": _T4 + _T23 + _P, "C04": _T58 + _P, "C05": _T67 + _P,
    "C06": _M + _T4 + _T23 + _P, "C07": _ALL + _M + _P, "C08": _ALL + _M + _P, "C09": _ALL + _M + _P, "C10": _ALL + _M + _P,
    "C11": ["Dct1ConvertToFft", "Dst1ConvertToFft"] + _T23[1:] + _T4[1:] + ["Dst6And7ConvertToFft", "MdctViaDct4"],
    "C12": _ALL + _P, "C13": _M + _T4 + _T23 + _P,
    "C14": ["new of every algorithm, plan_dct1, plan_mdct"], "C15": _ALL + _M + _P,
}
_B = ("sizes are concrete, one case per size: every size up to the one given under full_input_space with all inputs "
      "symbolic in [-1,1] (the transforms are linear, so the box settles every magnitude up to rounding and overflow), every "
      "size a bit further and selected ones up to the one under dense_subspace with inputs ranging over a dense 2-dimensional "
      "subspace drawn from the seed; agreement to 2^-40 times (1 + sum of coefficient magnitudes)")
BOUNDS = {
    "C01": _B, "C02": _B, "C03": _B, "C04": _B, "C05": _B,
    "C06": _B + "; windows: every value symbolic at small sizes, fixed ones beyond; prior contents of the outputs symbolic",
    "C07": _B + "; scratch contents: an arbitrary value, NaN included, in every slot; excess 0, 1 and n+2",
    "C08": "every transform length listed by the cases, buffer and scratch lengths from a list of about ten values around the "
           "right one (engine 1), plus all lengths within the Kani harness bounds",
    "C09": _B + "; histories: every sequence of 2 (small pools: 3 to 5) requests out of pools of 5 to 11 followed by every "
                "request of the pool, plus drawn histories of about 20 requests whose every instance is checked",
    "C10": _B + "; call sequences of 7 to 80 calls alternating transforms, inputs, handles and scratch",
    "C11": _B + "; scratch requirements of the inner transform: ten values from 0 to 4n+3; nesting depth up to 3",
    "C12": _B, "C13": _B + "; 3 and 5 blocks",
    "C14": "inner lengths listed by the cases, both directions (engine 1), plus symbolic lengths within the Kani bounds",
    "C15": _B.replace("agreement to 2^-40 times (1 + sum of coefficient magnitudes)",
                      "agreement to 32 (n+16) u (1 + sum of coefficient magnitudes) where u is 2^-24 or 2^-53, rounding of every "
                      "operation bounded by the standard model"),
}
OUTSIDE = {k: "sizes beyond those listed; inputs outside the subspace where only a subspace is symbolic; rustfft's SIMD code paths "
              "(the generic scalar ones are encoded); overflow, underflow and non-finite inputs" for k in BOUNDS}
for _k in ("C08", "C14"):
    OUTSIDE[_k] = "lengths beyond those listed; length 0"
ASSUMPTIONS = [
    "z3 4.8.12 answers unsat only for unsatisfiable queries (cvc5 cross-checks a part of them)",
    "rustc compiles the crate instantiated with the symbolic scalar to the same control flow and operations as with f32 and f64; "
    "checked on every path against an f64 and an f32 run at one concrete point",
    "constants (twiddles, window values) are what f64 and libm give on this machine",
    "the oracle's fixed-point cosines are correct to 2^-84 (self-tested on every run against identities and libm)",
]
