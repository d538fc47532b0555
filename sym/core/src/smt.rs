//! One long-lived solver process, SMT-LIB2 over pipes.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::time::Instant;

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<std::process::ChildStdout>,
    pub queries: u64,
    pub ms: f64,
    pub name: String,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Res {
    Sat,
    Unsat,
    Unknown(String),
}
impl Solver {
    pub fn new(which: &str, timeout_ms: u64) -> Result<Self, String> {
        let (bin, args): (&str, Vec<String>) = match which {
            "z3" => ("z3", vec!["-in".into(), "-smt2".into()]),
            "z3-new" => ("z3-new", vec!["-in".into(), "-smt2".into()]),
            "cvc5" => (
                "cvc5",
                vec!["--incremental".into(), "--produce-models".into(), "--lang=smt2".into(), format!("--tlimit-per={}", timeout_ms)],
            ),
            _ => return Err(format!("solver {}", which)),
        };
        let mut child = Command::new(bin)
            .args(&args)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("{}: {}", bin, e))?;
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver { child, inp, out, queries: 0, ms: 0.0, name: which.into() };
        if which == "cvc5" {
            s.send("(set-logic ALL)\n");
        } else {
            s.send(&format!("(set-option :timeout {})\n", timeout_ms));
        }
        Ok(s)
    }
    pub fn send(&mut self, t: &str) {
        let _ = self.inp.write_all(t.as_bytes());
    }
    fn line(&mut self) -> Result<String, String> {
        let mut l = String::new();
        match self.out.read_line(&mut l) {
            Ok(0) => Err("solver ended".into()),
            Ok(_) => Ok(l.trim().to_string()),
            Err(e) => Err(e.to_string()),
        }
    }
    pub fn check(&mut self) -> Result<Res, String> {
        let t = Instant::now();
        self.send("(check-sat)\n");
        let _ = self.inp.flush();
        let l = self.line()?;
        self.queries += 1;
        self.ms += t.elapsed().as_secs_f64() * 1000.0;
        match l.as_str() {
            "sat" => Ok(Res::Sat),
            "unsat" => Ok(Res::Unsat),
            "unknown" | "timeout" => Ok(Res::Unknown(l)),
            _ => Err(format!("solver said: {}", l)),
        }
    }
    /// values of the named constants (reals as f64, ints, bools as 0/1)
    pub fn values(&mut self, names: &[String]) -> Result<Vec<f64>, String> {
        let mut res = vec![];
        for chunk in names.chunks(200) {
            self.send(&format!("(get-value ({}))\n", chunk.join(" ")));
            let _ = self.inp.flush();
            let mut text = String::new();
            let mut depth = 0i64;
            loop {
                let l = self.line()?;
                if l.contains("(error") {
                    return Err(format!("solver said: {}", l));
                }
                for c in l.chars() {
                    if c == '(' {
                        depth += 1
                    } else if c == ')' {
                        depth -= 1
                    }
                }
                text.push_str(&l);
                text.push(' ');
                if depth == 0 && !text.trim().is_empty() {
                    break;
                }
            }
            let toks = tokenize(&text);
            let (s, _) = parse(&toks, 0)?;
            if let Sx::L(items) = s {
                for it in items {
                    if let Sx::L(p) = it {
                        res.push(num(&p[1])?);
                    }
                }
            }
        }
        if res.len() != names.len() {
            return Err("model size".into());
        }
        Ok(res)
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

enum Sx {
    A(String),
    L(Vec<Sx>),
}
fn tokenize(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c == '(' || c == ')' || c.is_whitespace() {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
            if !c.is_whitespace() {
                v.push(c.to_string());
            }
        } else {
            cur.push(c);
        }
    }
    v
}
fn parse(t: &[String], i: usize) -> Result<(Sx, usize), String> {
    if i >= t.len() {
        return Err("parse".into());
    }
    if t[i] == "(" {
        let mut v = vec![];
        let mut j = i + 1;
        while j < t.len() && t[j] != ")" {
            let (s, k) = parse(t, j)?;
            v.push(s);
            j = k;
        }
        Ok((Sx::L(v), j + 1))
    } else {
        Ok((Sx::A(t[i].clone()), i + 1))
    }
}
fn num(s: &Sx) -> Result<f64, String> {
    match s {
        Sx::A(a) => match a.as_str() {
            "true" => Ok(1.0),
            "false" => Ok(0.0),
            _ => a.trim_end_matches('?').parse::<f64>().map_err(|e| format!("{} {}", a, e)),
        },
        Sx::L(v) => {
            if let Some(Sx::A(op)) = v.first() {
                match (op.as_str(), v.len()) {
                    ("-", 2) => return Ok(-num(&v[1])?),
                    ("/", 3) => return Ok(ratio(&v[1], &v[2])?),
                    // (root-obj p i), (_ real_algebraic_number <..., [a,b]>): not a dyadic value
                    _ => return Ok(0.0),
                }
            }
            Err("model value".into())
        }
    }
}
/// p/q for integers that may exceed f64 range
fn ratio(a: &Sx, b: &Sx) -> Result<f64, String> {
    fn big(s: &Sx) -> Result<(f64, i32), String> {
        match s {
            Sx::A(t) => {
                let neg = t.starts_with('-');
                let d: String = t.trim_start_matches('-').split('.').next().unwrap().to_string();
                let cut = d.len().min(30);
                let m: f64 = d[..cut].parse().map_err(|_| format!("num {}", t))?;
                Ok((if neg { -m } else { m }, (d.len() - cut) as i32))
            }
            Sx::L(v) if v.len() == 2 => {
                let (m, e) = big(&v[1])?;
                Ok((-m, e))
            }
            _ => Err("ratio".into()),
        }
    }
    let (m, e) = big(a)?;
    let (n, f) = big(b)?;
    Ok(m / n * 10f64.powi(e - f))
}
