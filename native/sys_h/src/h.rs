//! helpers of the harness whose unit systems go through the real proc macro
use std::collections::BTreeMap;
pub type E = (i128, i128);
pub fn q(n: i128, d: i128) -> E {
    fn g(a: i128, b: i128) -> i128 {
        if b == 0 { a.abs() } else { g(b, a % b) }
    }
    let k = g(n, d).max(1) * if d < 0 { -1 } else { 1 };
    (n / k, d / k)
}
pub fn qadd(a: E, b: E) -> E { q(a.0 * b.1 + b.0 * a.1, a.1 * b.1) }
pub fn qmul(a: E, b: E) -> E { q(a.0 * b.0, a.1 * b.1) }

pub trait Ex {
    fn mk(e: E) -> Self;
    fn rd(&self) -> E;
}
impl Ex for i64 {
    fn mk(e: E) -> i64 { assert!(e.1 == 1); e.0 as i64 }
    fn rd(&self) -> E { (*self as i128, 1) }
}
#[cfg(feature = "rational")]
impl Ex for diman::internal::ratio::Ratio {
    fn mk(e: E) -> Self { Self::new(e.0 as i64, e.1 as i64) }
    fn rd(&self) -> E { (self.num() as i128, self.denom() as i128) }
}
#[cfg(feature = "rational")]
#[macro_export]
macro_rules! ex { ($n:expr, $d:expr) => { diman::internal::ratio::Ratio::new($n, $d) }; }
#[cfg(not(feature = "rational"))]
#[macro_export]
macro_rules! ex { ($n:expr, $d:expr) => { $n }; }

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn e(&mut self) -> E {
        let big = [0, 1, -1, 2, 3, 6, -6, 12, 100, 7_000_001, -1_000_000_006][self.below(11)];
        let n = if self.below(3) == 0 { big } else { self.below(25) as i128 - 12 };
        if cfg!(feature = "rational") && self.below(2) == 0 { q(n % 1000, 1 + self.below(12) as i128) } else { (n, 1) }
    }
}

pub struct Rec {
    pub suite: String,
    pub rng: Rng,
    pub thorough: bool,
    pub cases: u64,
    pub fails: BTreeMap<String, (u64, String)>,
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}
impl Rec {
    pub fn new() -> Rec {
        let a: Vec<String> = std::env::args().collect();
        std::panic::set_hook(Box::new(|_| ()));
        Rec { suite: a[1].clone(), rng: Rng(a[2].parse().unwrap_or(1)), thorough: a[3] == "thorough", cases: 0, fails: BTreeMap::new() }
    }
    pub fn check(&mut self, key: &str, ok: bool, msg: impl FnOnce() -> String) {
        self.cases += 1;
        if !ok {
            let e = self.fails.entry(key.to_string()).or_insert_with(|| (0, msg()));
            e.0 += 1;
        }
    }
    /// dimension and magnitude of one generated item
    pub fn val(&mut self, what: &str, text: &str, d: Vec<E>, m: f64, wd: &[E], wm: f64) {
        let kind = what.split(' ').next().unwrap().to_string();
        let s = self.suite.clone();
        if s == "C15" && kind != "unit" { return; }
        self.check(&format!("{s} {kind}: dimension (real macro)"), d == wd, || format!("{what}: {d:?} instead of {wd:?} in unit system\n{text}"));
        let ok = m == wm || ((m - wm) / wm).abs() < 1e-12 || (m.is_nan() && wm.is_nan());
        self.check(&format!("{s} {kind}: magnitude (real macro)"), ok, || format!("{what}: {m:?} instead of {wm:?} in unit system\n{text}"));
    }
    /// debug text of value v with dimension d
    pub fn deb(&mut self, name: &str, text: &str, got: String, v: f64, d: &[E], syms: &[(&str, Vec<E>, f64)]) {
        let mut it = got.split(' ');
        let num: Option<f64> = it.next().and_then(|x| x.parse().ok());
        let mut dim = vec![(0i128, 1i128); d.len()];
        let mut val = num;
        let mut bad = String::new();
        for f in it {
            let (s, e) = match f.split_once('^') { Some((s, e)) => (s, e), None => (f, "1") };
            let e: Option<E> = match e.split_once('/') { Some((a, b)) => a.parse().ok().zip(b.parse().ok()).map(|(a, b): (i128, i128)| q(a, b)), None => e.parse().ok().map(|x: i128| (x, 1)) };
            match (syms.iter().find(|x| x.0 == s), e) {
                (Some((_, sd, sm)), Some(e)) => {
                    for i in 0..d.len() { dim[i] = qadd(dim[i], qmul(sd[i], e)); }
                    val = val.map(|v| v * sm.powf(e.0 as f64 / e.1 as f64));
                }
                (None, _) => bad = format!("unknown symbol {s}"),
                _ => bad = format!("unreadable factor {f}"),
            }
        }
        let all_zero = d.iter().all(|e| e.0 == 0);
        if !bad.is_empty() && all_zero { bad.clear(); }
        self.check("C18 debug text (real macro)", bad.is_empty() && dim == d, || format!("{name}: {got:?} {bad} for dimension {d:?} in unit system\n{text}"));
        let ok = val.map_or(false, |x| x == v || ((x - v) / v).abs() < 1e-9);
        self.check("C18 debug value (real macro)", ok, || format!("{name}: {got:?} for stored value {v:?} in unit system\n{text}"));
    }
    pub fn out(self) {
        for (k, (n, m)) in &self.fails {
            println!("{{\"fail\":{},\"count\":{},\"input\":{}}}", js(k), n, js(m));
        }
        println!("{{\"cases\":{}}}", self.cases);
    }
}

/// dimension operations against componentwise arithmetic
#[macro_export]
macro_rules! algebra {
    ($r:expr, $D:ident, $rd:ident, $mk:ident, $n:expr, $text:expr) => {{
        use std::panic::{catch_unwind, AssertUnwindSafe};
        let r: &mut Rec = $r;
        let say = |o: &str, a: &[E], b: &[E], g: &dyn std::fmt::Debug| format!("{o} of {a:?} and {b:?} gives {g:?} in unit system\n{}", $text);
        let z: Vec<E> = vec![(0, 1); $n];
        let none = $rd(&$D::none());
        r.check("C04 none", none == z, || say("none", &z, &z, &none));
        for i in 0..(if r.thorough { 20000 } else { 1500 }) {
            // half of the cases are divisible by two and three in all components
            let k: i128 = [1, 1, 2, 3, 6, 6][r.rng.below(6)];
            let mut v: Vec<E> = (0..$n).map(|_| { let e = r.rng.e(); qmul(e, (k, 1)) }).collect();
            if i % 3 == 0 && k > 1 {
                // a single odd component
                let j = r.rng.below($n);
                v[j] = qadd(v[j], (1, 1));
            }
            let w: Vec<E> = (0..$n).map(|_| r.rng.e()).collect();
            let e = [0i64, 1, -1, 2, 3, -7, 50][r.rng.below(7)] as i32;
            macro_rules! op {
                ($name:expr, $got:expr, $want:expr) => {{
                    let want: Vec<E> = $want;
                    match catch_unwind(AssertUnwindSafe(|| $rd(&$got))) {
                        Ok(g) => r.check(concat!("C04 ", $name), g == want, || say($name, &v, &w, &g)),
                        Err(_) => r.check(concat!("C04 panic in ", $name), false, || say($name, &v, &w, &"panic")),
                    }
                }};
            }
            op!("product", $mk(&v).add($mk(&w)), v.iter().zip(&w).map(|(a, b)| qadd(*a, *b)).collect());
            op!("quotient", $mk(&v).sub($mk(&w)), v.iter().zip(&w).map(|(a, b)| qadd(*a, qmul(*b, (-1, 1)))).collect());
            op!("inverse", $mk(&v).neg(), v.iter().map(|a| qmul(*a, (-1, 1))).collect());
            op!("power", $mk(&v).mul(e), v.iter().map(|a| qmul(*a, (e as i128, 1))).collect());
            let eq = $mk(&v) == $mk(&w);
            r.check("C04 equality", eq == (v == w) && $mk(&v) == $mk(&v), || say("equality", &v, &w, &eq));
            for (p, name) in [(2i128, "square root"), (3, "cube root")] {
                let want: Vec<E> = v.iter().map(|a| qmul(*a, (1, p))).collect();
                let defined = cfg!(feature = "rational") || want.iter().all(|e| e.1 == 1);
                let g = catch_unwind(AssertUnwindSafe(|| $rd(&if p == 2 { $mk(&v).div_2() } else { $mk(&v).div_3() })));
                match (g, defined) {
                    (Ok(g), true) => r.check("C04 root", g == want, || say(name, &v, &v, &g)),
                    (Ok(g), false) => r.check("C04 root of a non-divisible exponent accepted", false, || say(name, &v, &v, &g)),
                    (Err(_), d) => r.check("C04 root rejected", !d, || say(name, &v, &v, &"panic")),
                }
            }
        }
    }};
}
