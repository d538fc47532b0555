use crate::body::{Env, CAP};
use crate::stub::Z;

pub struct K;
impl Env for K {
    fn any(&mut self, _what: &'static str, max: usize) -> usize {
        if max < 256 {
            let v: u8 = kani::any();
            kani::assume(v as usize <= max);
            v as usize
        } else {
            let v: usize = kani::any();
            kani::assume(v <= max);
            v
        }
    }
    fn assume(&mut self, c: bool) {
        kani::assume(c);
    }
    fn with(&mut self, len: usize, f: &mut dyn FnMut(&mut Self, &mut [Z])) {
        let mut mem = [Z(7); CAP];
        f(self, &mut mem[CAP - len..]);
        if len < CAP {
            assert!(mem[CAP - len - 1].0 == 7, "DCT: wrote before the slice");
        }
    }
    fn accepted(&mut self) {
        panic!("DCT: accepted wrong sizes");
    }
    fn reached(&mut self) {
        kani::cover!(true, "DCT: reached");
    }
    fn completed(&mut self) {
        kani::cover!(true, "DCT: completed");
    }
    fn fact(&mut self, _what: &'static str, c: bool) {
        assert!(c, "DCT: fact");
    }
}
