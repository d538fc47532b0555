//! kdct HARNESS VALUES...: runs one body on the real code with the values of a
//! counterexample.  Exits 3 with a line REPRODUCED if it breaks the property.
use kdct::body::{self, Env, CAP};
use kdct::stub::Z;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static LAST: Mutex<String> = Mutex::new(String::new());

struct N {
    vals: Vec<usize>,
    at: usize,
    log: Vec<String>,
    bad: Vec<String>,
    skipped: bool,
}
impl Env for N {
    fn any(&mut self, what: &'static str, max: usize) -> usize {
        let v = self.vals.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        self.log.push(format!("{}={}", what, v));
        if v > max {
            self.assume(false);
        }
        v
    }
    fn assume(&mut self, c: bool) {
        if !c {
            self.skipped = true;
            std::panic::resume_unwind(Box::new("assumption"));
        }
    }
    fn with(&mut self, len: usize, f: &mut dyn FnMut(&mut Self, &mut [Z])) {
        // a guard on either side of the slice
        let mut mem = vec![Z(7); CAP + 2 * len + 512];
        let at = 256;
        for z in &mut mem[at..at + len] {
            *z = Z(1);
        }
        let mut mem = mem.into_boxed_slice();
        let r = catch_unwind(AssertUnwindSafe(|| f(self, &mut mem[at..at + len])));
        for (i, z) in mem.iter().enumerate() {
            if (i < at || i >= at + len) && *z != Z(7) {
                self.bad.push(format!("element {} relative to a slice of length {} was written", i as isize - at as isize, len));
                break;
            }
        }
        if let Err(p) = r {
            std::panic::resume_unwind(p);
        }
    }
    fn accepted(&mut self) {
        self.bad.push("the call was accepted".into());
    }
    fn reached(&mut self) {}
    fn completed(&mut self) {}
    fn fact(&mut self, what: &'static str, c: bool) {
        if !c {
            self.bad.push(format!("{} is wrong", what));
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string()));
        eprintln!("{}", i);
        *LAST.lock().unwrap() = m.unwrap_or_default();
    }));
    let mut e = N { vals: a[2..].iter().map(|x| x.parse().unwrap()).collect(), at: 0, log: vec![], bad: vec![], skipped: false };
    let ok = a[1].ends_with("_ok");
    let r = catch_unwind(AssertUnwindSafe(|| assert!(body::run(&a[1], &mut e), "no such harness")));
    let msg = LAST.lock().unwrap().clone();
    if r.is_err() && !e.skipped {
        if msg.starts_with("attempt to") {
            e.bad.push(format!("arithmetic overflow: {}", msg));
        } else if ok {
            e.bad.push(format!("a call with the right sizes panicked: {}", msg));
        }
    }
    println!("{} {}", a[1], e.log.join(" "));
    if !e.bad.is_empty() {
        println!("REPRODUCED {}", e.bad.join("; "));
        std::process::exit(3);
    }
}
