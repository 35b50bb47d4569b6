//! C17 (deserialize / serialize), C18 (debug text), C16 (tables of the bundled SI system)
use crate::table::SYMS;
use crate::util::*;
use diman::si::dimensions::*;
use diman::si::Dimension;
use diman::si::Quantity;
use glam::{DVec2, DVec3, Vec2, Vec3};
use serde::de::value::{Error as DeErr, F64Deserializer, I64Deserializer, StrDeserializer, StringDeserializer, U64Deserializer};
use serde::de::{Deserialize, IntoDeserializer};
use std::fmt::Display;

pub const R: bool = cfg!(feature = "rational");
/// exponent = num/den
pub type E = (i64, i64);
pub type Dm = [E; 7];
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
pub fn q(n: i64, d: i64) -> E {
    let g = gcd(n, d).max(1);
    if d < 0 { (-n / g, -d / g) } else { (n / g, d / g) }
}
fn qadd(a: E, b: E) -> E {
    q(a.0 * b.1 + b.0 * a.1, a.1 * b.1)
}
fn qmul(a: E, b: E) -> E {
    q(a.0 * b.0, a.1 * b.1)
}
pub fn ints(d: [i64; 7]) -> Dm {
    d.map(|x| (x, 1))
}
fn accum(t: &mut Dm, d: &[i64; 7], e: E) {
    for i in 0..7 {
        t[i] = qadd(t[i], qmul((d[i], 1), e));
    }
}
fn sym(s: &str) -> Option<&'static (&'static str, [i64; 7], f64)> {
    SYMS.iter().find(|x| x.0 == s)
}
fn fpow(m: f64, e: E) -> f64 {
    if e.1 == 1 { m.powi(e.0 as i32) } else { m.powf(e.0 as f64 / e.1 as f64) }
}
/// the dimension a const parameter denotes, read from its derived Debug text
pub fn dim_of<const D: Dimension>() -> Dm {
    let t = format!("{:?}", D);
    let names = ["length", "time", "mass", "temperature", "current", "amount_of_substance", "luminous_intensity"];
    names.map(|n| {
        let i = t.find(&format!(" {n}: ")).expect("field") + n.len() + 3;
        let rest = &t[i..];
        if rest.starts_with("Ratio") {
            let a = rest.find("num: ").unwrap() + 5;
            let b = rest.find("denom: ").unwrap() + 7;
            let f = |s: &str| s.chars().take_while(|c| *c == '-' || c.is_ascii_digit()).collect::<String>().parse::<i64>().unwrap();
            q(f(&rest[a..]), f(&rest[b..]))
        } else {
            (rest.chars().take_while(|c| *c == '-' || c.is_ascii_digit()).collect::<String>().parse().unwrap(), 1)
        }
    })
}

pub trait Sto: Same + Display + Default {
    const N: usize;
    const F32: bool;
    fn comps(self) -> Vec<f64>;
    fn of(c: &[f64]) -> Self;
}
impl Sto for f64 {
    const N: usize = 1;
    const F32: bool = false;
    fn comps(self) -> Vec<f64> { vec![self] }
    fn of(c: &[f64]) -> f64 { c[0] }
}
impl Sto for f32 {
    const N: usize = 1;
    const F32: bool = true;
    fn comps(self) -> Vec<f64> { vec![self as f64] }
    fn of(c: &[f64]) -> f32 { c[0] as f32 }
}
macro_rules! sv {
    ($t:ty, $f:ty, $n:expr, $b:expr) => {
        impl Sto for $t {
            const N: usize = $n;
            const F32: bool = $b;
            fn comps(self) -> Vec<f64> { self.to_array().iter().map(|x| *x as f64).collect() }
            fn of(c: &[f64]) -> $t { let mut a = [0.0 as $f; $n]; for i in 0..$n { a[i] = c[i] as $f; } <$t>::from_array(a) }
        }
    };
}
sv!(Vec2, f32, 2, true);
sv!(Vec3, f32, 3, true);
sv!(DVec2, f64, 2, false);
sv!(DVec3, f64, 3, false);

fn close(a: f64, b: f64, f32_: bool) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    let t = if f32_ { 1e-5 } else { 1e-12 };
    (a - b).abs() <= t * a.abs().max(b.abs())
}
fn in_range(x: f64, f32_: bool) -> bool {
    x == 0.0 || if f32_ { x.abs() > 1e-30 && x.abs() < 1e30 } else { x.abs() > 1e-290 && x.abs() < 1e290 }
}

struct Gen {
    g: Rng,
}
impl Gen {
    fn num(&mut self) -> (String, f64) {
        let t = ["1", "1.0", "-2.5", "0.125", "3e2", "4.5E-3", "+7", "1000000", "-0.5", "0", "0.1", "123.456", "9.75e1"][self.g.below(13) as usize];
        (t.to_string(), t.parse().unwrap())
    }
    fn exp(&mut self) -> (String, E) {
        match self.g.below(if R { 8 } else { 6 }) {
            0 | 1 => (String::new(), (1, 1)),
            2..=5 => {
                let e = self.g.below(9) as i64 - 4;
                (format!("^{e}"), (e, 1))
            }
            _ => {
                let n = self.g.below(11) as i64 - 5;
                let d = [1, 2, 3, 4, -2][self.g.below(5) as usize];
                (format!("^{n}/{d}"), q(n, d))
            }
        }
    }
    /// factors whose product has dimension want (when hit) ; -> text, product of magnitudes, dimension
    fn factors(&mut self, want: &Dm, hit: bool) -> (String, f64, Dm) {
        let mut out: Vec<(String, f64)> = vec![];
        let mut dim: Dm = [(0, 1); 7];
        for _ in 0..self.g.below(4) {
            let s = &SYMS[self.g.below(SYMS.len() as u64) as usize];
            let (t, e) = self.exp();
            out.push((format!("{}{}", s.0, t), fpow(s.2, e)));
            accum(&mut dim, &s.1, e);
        }
        if hit {
            // bring the product to the wanted dimension with base units
            let base = [("m", 0), ("s", 1), ("kg", 2), ("K", 3), ("A", 4), ("mol", 5), ("cd", 6)];
            for (b, i) in base {
                let need = qadd(want[i], (-dim[i].0, dim[i].1));
                if need.0 != 0 {
                    let (b, m) = if self.g.below(3) == 0 && b != "kg" { (format!("k{b}"), 1000.0) } else { (b.to_string(), 1.0) };
                    let s = sym(&b).expect("base symbol");
                    let t = if need == (1, 1) && self.g.below(2) == 0 { b.clone() } else if need.1 == 1 { format!("{b}^{}", need.0) } else { format!("{b}^{}/{}", need.0, need.1) };
                    let _ = m;
                    out.push((t, fpow(s.2, need)));
                    dim[i] = want[i];
                }
            }
            for i in (1..out.len()).rev() {
                out.swap(i, self.g.below(i as u64 + 1) as usize);
            }
        }
        let f = out.iter().fold(1.0, |a, b| a * b.1);
        let sep = if self.g.below(8) == 0 { "  " } else { " " };
        (out.iter().map(|x| format!("{sep}{}", x.0)).collect::<String>(), f, dim)
    }
}

fn de<'a, S, const D: Dimension>(t: &'a str, owned: bool) -> Result<Quantity<S, D>, DeErr>
where
    Quantity<S, D>: Deserialize<'a>,
{
    std::panic::catch_unwind(|| {
        if owned {
            Quantity::<S, D>::deserialize(StringDeserializer::<DeErr>::new(t.to_string()))
        } else {
            Quantity::<S, D>::deserialize(StrDeserializer::<DeErr>::new(t))
        }
    })
    .unwrap_or_else(|_| Err(serde::de::Error::custom("PANIC")))
}
fn raw<S: Copy, const D: Dimension>(x: Quantity<S, D>) -> S {
    *x.value_unchecked_ref()
}
trait Raw<S> {
    fn value_unchecked_ref(&self) -> &S;
}
impl<S, const D: Dimension> Raw<S> for Quantity<S, D> {
    fn value_unchecked_ref(&self) -> &S {
        // repr(transparent)
        unsafe { &*(self as *const Self as *const S) }
    }
}
fn mk<S: Copy, const D: Dimension>(s: S) -> Quantity<S, D> {
    Quantity::<S, D>::new_unchecked(s)
}

fn text_of<S: Sto>(g: &mut Gen) -> (String, Vec<f64>) {
    if S::N == 1 {
        let (t, v) = g.num();
        (t, vec![v])
    } else {
        let c: Vec<_> = (0..S::N).map(|_| g.num()).collect();
        let sep = if g.g.below(5) == 0 { "   " } else { " " };
        (format!("({})", c.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(sep)), c.iter().map(|x| x.1).collect())
    }
}

fn de_dim<S: Sto, const D: Dimension>(r: &mut Rec, name: &str, n: u64)
where
    for<'a> Quantity<S, D>: Deserialize<'a>,
{
    let want = dim_of::<D>();
    let mut g = Gen { g: Rng(r.seed ^ name.len() as u64 * 77 ^ (S::N as u64) << 9) };
    let key = format!("deserialize {}", std::any::type_name::<S>().rsplit(':').next().unwrap());
    for k in 0..n {
        let hit = k % 4 != 0;
        let (nt, nv) = text_of::<S>(&mut g);
        let (ft, f, dim) = g.factors(&want, hit);
        let pad = ["", " ", "\t", "\n"][g.g.below(4) as usize];
        let t = format!("{pad}{nt}{ft}{pad}");
        let got = de::<S, D>(&t, k % 2 == 0);
        if dim != want {
            r.check(&format!("{key} rejects other dimensions"), got.is_err(), || format!("{t:?} as {name} (dimension {want:?}): accepted, text has dimension {dim:?}"));
            continue;
        }
        if !in_range(f, S::F32) || !nv.iter().all(|v| in_range(v * f, S::F32)) {
            continue;
        }
        match got {
            Err(e) => r.check(&format!("{key} accepts"), false, || format!("{t:?} as {name}: rejected with {e}")),
            Ok(x) => {
                let c = raw(x).comps();
                let w: Vec<f64> = nv.iter().map(|v| v * f).collect();
                r.check(&format!("{key} value"), c.iter().zip(&w).all(|(a, b)| close(*a, *b, S::F32)), || format!("{t:?} as {name}: {c:?} instead of {w:?}"));
            }
        }
    }
}

fn bad<S: Sto, const D: Dimension>(r: &mut Rec, name: &str, good: &str)
where
    for<'a> Quantity<S, D>: Deserialize<'a>,
{
    let num = if S::N == 1 { "1.5".to_string() } else { format!("({})", vec!["1.5"; S::N].join(" ")) };
    let mut ts: Vec<String> = vec![];
    for f in ["x", "qq", "M", "meter", "meters", "mm m", "KG", "m^", "m^x", "m^^2", "^2", "^", "m^2^3", "m^1.5", "m^ 2", "m^2x", "m^--2", "m^9999999999", "m/s", "m*m", "1", "m 2", "-m", "(m)", "m²", "um2",
        "m^1/0", "m^/2", "m^1/", "m^1/2/3", "m^1e1", "m^0x1"] {
        ts.push(format!("{num} {f}"));
        ts.push(format!("{num} {f} {good}"));
        ts.push(format!("{num} {good} {f}"));
    }
    // malformed factors whose lenient reading leaves the dimension as it is
    let mut fs: Vec<String> = good.split(' ').map(|x| x.to_string()).filter(|x| !x.is_empty()).collect();
    for n in ["m^0^1", "m^0^", "m^0^x", "m^0^0", "m^0.0", "m^0x", "m^0/1/1", "m^0/", "m^/1", "m^0e1", "m^^0", "^0", "^", "m^0 ^0", "m^0,", "m^0*", "m^0-", "m^0 *", "m^0 /", "1", "0", "m^0 1", "m^0^-0"] {
        ts.push(format!("{num} {} {n}", good).trim_end().to_string());
        ts.push(format!("{num} {n} {good}").trim_end().to_string());
    }
    for i in 0..fs.len() {
        let f = fs[i].clone();
        let (u, e) = f.split_once('^').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((f.clone(), "1".into()));
        for m in [format!("{u}^{e}^2"), format!("{u}^{e}^"), format!("{u}^{e}^x"), format!("{u}^^{e}"), format!("^{u}^{e}"), format!("{u}^{e}.0"), format!("{u}^{e}.5"), format!("{u}^{e}/1/1"), format!("{u}^{e}/"), format!("{u}^{e}x"), format!("{u}^{e},"),
                  format!("{u}^({e})"), format!("{u}**{e}"), format!("{u}^{e}e0"), format!("{u}^ {e}"), format!("{u} ^{e}"), format!("{u} ^ {e}"), format!("{u}^^"), format!("{u}s^0"), format!("{u}_"), format!("{u}."), format!("*{f}"), format!("{f}*")] {
            fs[i] = m;
            ts.push(format!("{num} {}", fs.join(" ")));
        }
        fs[i] = f;
    }
    for n in ["", " ", "abc", "1,5", "1.5.2", "--1", "1e", "e5", "0x10", "1_000", "m", "1.5m", "(", ")", "()", "(1.5", "1.5)", "(a)", "(1.5,2.5)", "1/2", "[1.5 2.5]", "[1.5, 2.5]", "(1.5 a)", "(1.5 2.5 a)", "(a 1.5 2.5)",
        "x(1.5 2.5)", "((1.5 2.5))", "(1.5 (2.5 3.5))", "((1.5 2.5 3.5)"] {
        ts.push(format!("{n} {good}"));
        ts.push(n.to_string());
    }
    for k in [1usize, 2, 3, 4] {
        if k != S::N || S::N == 1 {
            ts.push(format!("({}) {good}", vec!["1.5"; k].join(" ")));
        }
    }
    if S::N > 1 {
        ts.push(format!("1.5 {good}"));
    }
    for t in ts {
        // a text of the wrong dimension must be rejected anyway: only the dimensionless case could be right
        let got = de::<S, D>(&t, true);
        r.check("malformed text is rejected", matches!(&got, Err(e) if e.to_string() != "PANIC"), || format!("{t:?} as {name}: {}", if got.is_ok() { "accepted" } else { "panics" }));
    }
    if !R {
        for t in ["m^1/2 m^1/2", "s^2/2 s^-1 m"] {
            let t = format!("{num} {t}");
            r.check("malformed text is rejected", de::<S, D>(&t, true).is_err(), || format!("{t:?} as {name}: accepted"));
        }
    }
}

fn plain<const D: Dimension>(r: &mut Rec, name: &str) {
    let none = dim_of::<D>() == ints([0; 7]);
    for v in [0.0, 1.5, -2.0, 1e10] {
        let g = Quantity::<f64, D>::deserialize(F64Deserializer::<DeErr>::new(v));
        r.check("bare float", matches!(&g, Ok(x) if raw(*x) == v) == none && g.is_ok() == none, || format!("f64 {v} as {name}"));
        let g = Quantity::<f32, D>::deserialize(F64Deserializer::<DeErr>::new(v));
        r.check("bare float", matches!(&g, Ok(x) if raw(*x) == v as f32) == none && g.is_ok() == none, || format!("f64 {v} as f32 {name}"));
    }
    for v in [0i64, 7, -3, 123456] {
        let g = Quantity::<f64, D>::deserialize(I64Deserializer::<DeErr>::new(v));
        r.check("bare integer", matches!(&g, Ok(x) if raw(*x) == v as f64) == none && g.is_ok() == none, || format!("i64 {v} as {name}"));
        let g = Quantity::<f32, D>::deserialize(I64Deserializer::<DeErr>::new(v));
        r.check("bare integer", matches!(&g, Ok(x) if raw(*x) == v as f32) == none && g.is_ok() == none, || format!("i64 {v} as f32 {name}"));
        let u = v.unsigned_abs();
        let g = Quantity::<f64, D>::deserialize(U64Deserializer::<DeErr>::new(u));
        r.check("bare integer", matches!(&g, Ok(x) if raw(*x) == u as f64) == none && g.is_ok() == none, || format!("u64 {u} as {name}"));
        let g = Quantity::<f32, D>::deserialize(U64Deserializer::<DeErr>::new(u));
        r.check("bare integer", matches!(&g, Ok(x) if raw(*x) == u as f32) == none && g.is_ok() == none, || format!("u64 {u} as f32 {name}"));
    }
}

fn finite<S: Sto + Vals>(r: &Rec) -> Vec<S> {
    S::vals(r)
}

/// serialize -> text -> deserialize gives the same quantity; also through YAML
fn round<S: Sto + Vals, const D: Dimension>(r: &mut Rec, name: &str)
where
    Quantity<S, D>: for<'a> Deserialize<'a> + serde::Serialize,
{
    let k = std::any::type_name::<S>().rsplit(':').next().unwrap();
    for (i, v) in finite::<S>(r).into_iter().enumerate() {
        let x = mk::<S, D>(v);
        let t = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| serde::Serialize::serialize(&x, StrSer))) {
            Ok(Ok(t)) => t,
            _ => {
                r.check(&format!("serialize {k}"), false, || format!("{} as {name}: serialization fails", v.sh()));
                continue;
            }
        };
        let g = de::<S, D>(&t, false);
        r.check(&format!("round trip {k}"), matches!(&g, Ok(y) if raw(*y).same(v)), || format!("{} as {name}: text {t:?} reads back as {:?}", v.sh(), g.as_ref().map(|y| raw(*y).sh()).map_err(|e| e.to_string())));
        if i < 6 {
            let y = serde_yaml::to_string(&x).ok().and_then(|s| serde_yaml::from_str::<Quantity<S, D>>(&s).ok());
            r.check(&format!("round trip {k} (yaml)"), matches!(&y, Some(z) if raw(*z).same(v)), || format!("{} as {name}", v.sh()));
        }
    }
}

/// the debug text denotes the quantity
fn debug<S: Sto + Vals, const D: Dimension>(r: &mut Rec, name: &str) {
    let want = dim_of::<D>();
    let k = std::any::type_name::<S>().rsplit(':').next().unwrap();
    for v in finite::<S>(r) {
        let x = mk::<S, D>(v);
        let t = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| format!("{x:?}"))) {
            Ok(t) => t,
            Err(_) => {
                r.check(&format!("debug {k}"), false, || format!("{} as {name}: panics", v.sh()));
                continue;
            }
        };
        let end = if S::N == 1 { t.find(' ').unwrap_or(t.len()) } else { t.find(']').map(|i| i + 1).unwrap_or(t.len()) };
        let (head, tail) = t.split_at(end);
        let mut dim: Dm = [(0, 1); 7];
        let mut f = 1.0;
        let mut ok = true;
        for w in tail.split_whitespace() {
            let (s, e) = match w.split_once('^') {
                None => (w, Some((1, 1))),
                Some((s, e)) => {
                    let e = match e.split_once('/') {
                        None => e.parse::<i64>().ok().map(|n| (n, 1)),
                        Some((a, b)) => match (a.parse::<i64>(), b.parse::<i64>()) {
                            (Ok(a), Ok(b)) if b != 0 => Some(q(a, b)),
                            _ => None,
                        },
                    };
                    (s, e)
                }
            };
            match (sym(s), e) {
                (Some(u), Some(e)) => {
                    accum(&mut dim, &u.1, e);
                    f *= fpow(u.2, e);
                }
                _ => ok = false,
            }
        }
        r.check(&format!("debug dimension {k}"), ok && dim == want, || format!("{} as {name} (dimension {want:?}): {t:?}", v.sh()));
        let vals: Vec<f64> = head.trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|s| s.trim().parse().ok()).collect();
        let c = v.comps();
        let eq = if f == 1.0 { head == format!("{v}") } else { vals.len() == c.len() && vals.iter().zip(&c).all(|(a, b)| !in_range(*b, S::F32) || close(a * f, *b, S::F32)) };
        r.check(&format!("debug value {k}"), eq, || format!("{} as {name}: {t:?}", v.sh()));
    }
    let v = S::of(&[1.23456, -2.5, 3.0][..]);
    let x = mk::<S, D>(v);
    let full = format!("{x:?}");
    if full.starts_with(&format!("{v}")) {
        let unit = &full[format!("{v}").len()..];
        r.check(&format!("debug precision {k}"), format!("{x:.2?}") == format!("{v:.2}{unit}"), || format!("{{:.2?}} of {} as {name}: {:.2?}", v.sh(), x));
    }
}

/// quantities of roots of dimensions: exponents that are fractions (rational) or negative
fn each_root(r: &mut Rec) {
    macro_rules! go {
        ($e:expr, $n:expr) => {{
            fn f<const D: Dimension>(r: &mut Rec, _x: Quantity<f64, D>, n: &str) {
                round::<f64, D>(r, n);
                debug::<f64, D>(r, n);
                de_dim::<f64, D>(r, n, 60);
                round::<f32, D>(r, n);
                debug::<f32, D>(r, n);
                debug::<Vec3, D>(r, n);
                round::<DVec2, D>(r, n);
            }
            f(r, $e, $n);
        }};
    }
    let x = Length::<f64>::new_unchecked(2.0);
    let t = Time::<f64>::new_unchecked(2.0);
    let m = Mass::<f64>::new_unchecked(2.0);
    let c = Current::<f64>::new_unchecked(3.0);
    let k = Temperature::<f64>::new_unchecked(3.0);
    let n = AmountOfSubstance::<f64>::new_unchecked(3.0);
    let l = LuminousIntensity::<f64>::new_unchecked(3.0);
    go!(x.powi::<2>() / t.powi::<5>() * m.powi::<-3>(), "m^2 s^-5 kg^-3");
    go!(x * t * m * c * k * n * l, "all ones");
    go!(x.powi::<-1>() * t.powi::<-1>() * m.powi::<-1>() / c / k / n / l, "all minus ones");
    go!(x.powi::<7>() * t.powi::<11>() * m.powi::<13>() / c.powi::<12>() / k.powi::<10>() * n.powi::<2>() / l.powi::<3>(), "large exponents");
    go!(k.powi::<4>() / l, "K^4 cd^-1");
    go!(n.powi::<2>() * c.powi::<3>(), "mol^2 A^3");
    #[cfg(feature = "rational")]
    {
        go!(x.sqrt(), "sqrt(m)");
        go!((x / t).cbrt(), "cbrt(m/s)");
        go!((m.powi::<3>() / x).sqrt(), "sqrt(kg^3/m)");
        go!((c * k * n * l).sqrt().cbrt(), "sixth root");
        go!((x * x * x * t).sqrt() / m, "m^3/2 s^1/2 kg^-1");
        go!((l.powi::<5>() / k.powi::<7>()).cbrt(), "cd^5/3 K^-7/3");
    }
}

pub fn c17(r: &mut Rec) {
    let n = if r.thorough { 2000 } else { 120 };
    macro_rules! one {
        ($d:ident, $v:expr) => {{
            fn f<const D: Dimension>(r: &mut Rec, _x: Option<Quantity<f64, D>>, n: u64) {
                de_dim::<f64, D>(r, stringify!($d), n);
                round::<f64, D>(r, stringify!($d));
                plain::<D>(r, stringify!($d));
            }
            f(r, None::<$d<f64>>, n);
        }};
    }
    crate::all_dims!(one);
    macro_rules! many {
        ($($d:ident $good:expr;)*) => {$({
            fn f<const D: Dimension>(r: &mut Rec, _x: Option<Quantity<f64, D>>, n: u64) {
                macro_rules! s { ($t:ty) => {
                    de_dim::<$t, D>(r, stringify!($d), n);
                    round::<$t, D>(r, stringify!($d));
                    bad::<$t, D>(r, stringify!($d), $good);
                } }
                s!(f32); s!(f64); s!(Vec2); s!(Vec3); s!(DVec2); s!(DVec3);
            }
            f(r, None::<$d<f64>>, n);
        })*};
    }
    many!(Length "m"; Velocity "m s^-1"; Energy "J"; Dimensionless ""; ElectricResistance "Ω"; MolarMass "kg mol^-1"; Illuminance "cd m^-2";);
    // every symbol on its own
    for s in SYMS {
        let t = format!("2.0 {}", s.0);
        let mut hit = 0;
        macro_rules! one {
            ($d:ident, $v:expr) => {{
                let got = $d::<f64>::deserialize(StrDeserializer::<DeErr>::new(&t));
                let w = $v == s.1;
                r.check("symbol dimension", got.is_ok() == w, || format!("{t:?} as {}", stringify!($d)));
                if let (Ok(x), true) = (&got, w) {
                    hit += 1;
                    let y = raw(*x);
                    r.check("symbol value", close(y, 2.0 * s.2, false), || format!("{t:?} as {}: {y:e} instead of {:e}", stringify!($d), 2.0 * s.2));
                }
            }};
        }
        crate::all_dims!(one);
    }
    each_root(r);
}
fn dless() -> Dimension {
    fn f<const D: Dimension>(_x: Option<Quantity<f64, D>>) -> Dimension {
        D
    }
    f(None::<Dimensionless<f64>>)
}

pub fn c18(r: &mut Rec) {
    macro_rules! one {
        ($d:ident, $v:expr) => {{
            fn f<const D: Dimension>(r: &mut Rec, _x: Option<Quantity<f64, D>>) {
                debug::<f64, D>(r, stringify!($d));
                debug::<f32, D>(r, stringify!($d));
                debug::<Vec2, D>(r, stringify!($d));
                debug::<DVec3, D>(r, stringify!($d));
            }
            f(r, None::<$d<f64>>);
        }};
    }
    crate::all_dims!(one);
    each_root(r);
}

/// every dimension alias, unit and constant of the bundled system against the independent table
pub fn c16(r: &mut Rec) {
    fn dimof<const D: Dimension>(_x: Option<Quantity<f64, D>>) -> Dm {
        dim_of::<D>()
    }
    macro_rules! one {
        ($d:ident, $v:expr) => {{
            let d = dimof(None::<$d<f64>>);
            r.check("dimension", d == ints($v), || format!("{}: {:?} instead of {:?}", stringify!($d), d, $v));
        }};
    }
    crate::all_dims!(one);
    fn uq<const D: Dimension>(x: Quantity<f64, D>) -> (Dm, f64) {
        (dim_of::<D>(), raw(x))
    }
    macro_rules! unit {
        ($u:ident, $v:expr, $m:expr) => {{
            let (d, m) = uq(1.0f64 * diman::si::units::$u);
            r.check("unit dimension", d == ints($v), || format!("{}: {:?} instead of {:?}", stringify!($u), d, $v));
            r.check("unit magnitude", (m - $m).abs() <= 1e-14 * ($m as f64).abs(), || format!("{}: {:e} instead of {:e}", stringify!($u), m, $m as f64));
        }};
    }
    crate::all_units!(unit);
    let (d, m) = uq(1.0f64 * diman::si::constants::PI);
    r.check("constant", d == ints([0; 7]) && (m - std::f64::consts::PI).abs() < 1e-14, || format!("PI: {m:e}"));
}

pub struct StrSer;
type Ok_ = String;
type Er = std::fmt::Error;
#[derive(Debug)]
pub struct SerE;
impl Display for SerE {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("not a string")
    }
}
impl std::error::Error for SerE {}
impl serde::ser::Error for SerE {
    fn custom<T: Display>(_: T) -> SerE {
        SerE
    }
}
use serde::ser::Impossible as Im;
macro_rules! no {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _v: $t) -> Result<String, SerE> { Err(SerE) })* };
}
impl serde::Serializer for StrSer {
    type Ok = String;
    type Error = SerE;
    type SerializeSeq = Im<String, SerE>;
    type SerializeTuple = Im<String, SerE>;
    type SerializeTupleStruct = Im<String, SerE>;
    type SerializeTupleVariant = Im<String, SerE>;
    type SerializeMap = Im<String, SerE>;
    type SerializeStruct = Im<String, SerE>;
    type SerializeStructVariant = Im<String, SerE>;
    fn serialize_str(self, v: &str) -> Result<String, SerE> {
        Ok(v.to_string())
    }
    // a bare number is how a dimensionless quantity may be written
    fn serialize_f64(self, v: f64) -> Result<String, SerE> {
        Ok(format!("{v}"))
    }
    fn serialize_f32(self, v: f32) -> Result<String, SerE> {
        Ok(format!("{v}"))
    }
    no!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64,
        serialize_char char, serialize_bytes &[u8], serialize_unit_struct &'static str);
    fn serialize_none(self) -> Result<String, SerE> { Err(SerE) }
    fn serialize_unit(self) -> Result<String, SerE> { Err(SerE) }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<String, SerE> { Err(SerE) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<String, SerE> { Err(SerE) }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, v: &T) -> Result<String, SerE> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, SerE> { Err(SerE) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, SerE> { Err(SerE) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, SerE> { Err(SerE) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, SerE> { Err(SerE) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, SerE> { Err(SerE) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, SerE> { Err(SerE) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, SerE> { Err(SerE) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, SerE> { Err(SerE) }
}
