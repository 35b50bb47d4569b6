//! Bounded stand-in / replay for diman_lib (C01, C02, C03, C19): runs the real code on a stated
//! finite set of inputs and compares with an exact oracle.  Output: JSON lines.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
use diman_lib::dimension_exponent::DimensionExponent;
use diman_lib::magnitude::Magnitude;
use diman_lib::ratio::Ratio;
use diman_lib::runtime_unit_storage::{RuntimeUnit, RuntimeUnitStorage};
use std::collections::BTreeMap;

pub struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

#[derive(Default)]
struct Rec {
    cases: u64,
    fails: BTreeMap<String, (u64, String)>,
}
impl Rec {
    fn check(&mut self, key: &str, ok: bool, msg: impl FnOnce() -> String) {
        self.cases += 1;
        if !ok {
            let e = self.fails.entry(key.to_string()).or_insert_with(|| (0, msg()));
            e.0 += 1;
        }
    }
    fn out(self) {
        for (k, (n, m)) in &self.fails {
            println!("{{\"fail\":{:?},\"count\":{},\"input\":{:?}}}", k, n, m);
        }
        println!("{{\"cases\":{}}}", self.cases);
    }
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn same32(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn guard<T>(f: impl FnOnce() -> T + std::panic::UnwindSafe) -> Option<T> {
    std::panic::catch_unwind(f).ok()
}

fn specials(lits: &[f64]) -> Vec<f64> {
    let mut v = vec![
        0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 3.0, 1.0 / 3.0, 10.0, 0.1, 1e-3, 1e3, 60.0, 3600.0, 1e18, 1e-18, 6.02214076e23,
        6.62607015e-34, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0,
        f64::from_bits(1), f64::from_bits(0x000f_ffff_ffff_ffff), f32::MAX as f64, f32::MIN_POSITIVE as f64, 1e-45, 1e-46, 1e39,
        16777217.0, 1e-320, 1e-300, 1e300, 0.30000001, 299792458.0,
    ];
    v.extend_from_slice(lits);
    let n = v.len();
    for i in 0..n {
        v.push(-v[i]);
    }
    v
}

fn c01(r: &mut Rec, rng: &mut Rng, lits: &[f64], deep: bool) {
    let mut mants: Vec<u64> = vec![0, 1, 2, 3, (1 << 51), (1 << 52) - 1, (1 << 52) - 2, (1 << 51) - 1, (1 << 51) + 1];
    for i in 0..52 {
        mants.push(1 << i);
    }
    for _ in 0..(if deep { 400 } else { 24 }) {
        mants.push(rng.next() & ((1 << 52) - 1));
    }
    let mut one = |r: &mut Rec, f: f64| {
        let m = guard(move || Magnitude::from_f64(f));
        let Some(m) = m else {
            r.check("from_f64 panics", false, || format!("{:e} (bits {:#018x})", f, f.to_bits()));
            return;
        };
        let b = guard(move || m.into_f64());
        r.check("into_f64(from_f64(x)) is x", b.map_or(false, |b| b.to_bits() == f.to_bits()), || {
            format!("x = {:e} (bits {:#018x}) -> {:?}", f, f.to_bits(), b)
        });
        let c = guard(move || m.into_f32());
        r.check("into_f32(from_f64(x)) is the nearest f32", c.map_or(false, |c| c.to_bits() == (f as f32).to_bits()), || {
            format!("x = {:e} (bits {:#018x}) -> {:?}", f, f.to_bits(), c)
        });
        // neighbours and sign flip must be distinct magnitudes, equal bits equal
        for g in [f64::from_bits(f.to_bits() ^ 1), -f, f64::from_bits(f.to_bits() ^ (1 << 52)), f] {
            if g.is_finite() {
                let n = Magnitude::from_f64(g);
                r.check("equal magnitudes exactly for bit-identical numbers", (m == n) == (f.to_bits() == g.to_bits()), || {
                    format!("x = {:e}, y = {:e}: equal = {}", f, g, m == n)
                });
            }
        }
    };
    for e in 0..2047u64 {
        for s in 0..2u64 {
            for &m in &mants {
                one(r, f64::from_bits((s << 63) | (e << 52) | m));
            }
        }
    }
    for f in specials(lits) {
        one(r, f);
    }
}

fn c02(r: &mut Rec, rng: &mut Rng, lits: &[f64], deep: bool) {
    let sp = specials(lits);
    let mut pairs: Vec<(f64, f64)> = vec![];
    for &a in &sp {
        for &b in &sp {
            pairs.push((a, b));
        }
    }
    for _ in 0..(if deep { 2_000_000 } else { 60_000 }) {
        let k = rng.below(4);
        let mut g = |rng: &mut Rng| match k {
            0 => f64::from_bits(rng.next()),
            1 => (rng.next() as i64 as f64) * 2f64.powi(rng.below(120) as i32 - 120),
            2 => rng.below(2000) as f64 / 8.0 - 100.0,
            _ => f64::from_bits((rng.next() & 0x800fffffffffffff) | ((900 + rng.below(250)) << 52)),
        };
        let (a, b) = (g(rng), g(rng));
        if a.is_finite() && b.is_finite() {
            pairs.push((a, b));
        }
    }
    let bit = |m: Magnitude, f: f64| m == Magnitude::from_f64(f);
    for &(a, b) in &pairs {
        let (x, y) = (Magnitude::from_f64(a), Magnitude::from_f64(b));
        let s = |n: &str| format!("{}: a = {:e}, b = {:e}", n, a, b);
        let p = a * b;
        r.check("Magnitude * Magnitude", !p.is_finite() || bit(x * y, p), || s("*"));
        let q = a / b;
        r.check("Magnitude / Magnitude", !q.is_finite() || bit(x / y, q), || s("/"));
        r.check("Magnitude * f64", !p.is_finite() || bit(x * b, p), || s("*f64"));
        r.check("Magnitude / f64", !q.is_finite() || bit(x / b, q), || s("/f64"));
        r.check("f64 * Magnitude", same(a * y, p), || s("f64*"));
        r.check("f64 / Magnitude", same(a / y, q), || s("f64/"));
        let b32 = b as f32;
        let a32 = a as f32;
        let p = (a32 * b32) as f64;
        let q = (a32 / b32) as f64;
        if b32.is_finite() {
            r.check("Magnitude * f32", !p.is_finite() || bit(x * b32, p), || s("*f32"));
            r.check("Magnitude / f32", !q.is_finite() || bit(x / b32, q), || s("/f32"));
        }
        if a32.is_finite() {
            r.check("f32 * Magnitude", same32(a32 * y, a32 * b32), || s("f32*"));
            r.check("f32 / Magnitude", same32(a32 / y, a32 / b32), || s("f32/"));
        }
        r.check("is_one", x.is_one() == (a == 1.0), || s("is_one"));
    }
    let mut bases: Vec<f64> = sp.clone();
    for _ in 0..400 {
        let f = f64::from_bits((rng.next() & 0x800fffffffffffff) | ((923 + rng.below(200)) << 52));
        bases.push(f);
    }
    let mut exps: Vec<i64> = (-40..=40).collect();
    exps.extend([64, 100, 127, 128, 255, 256, 308, 1000, 1023, 1074, 32767, 32768, 65536, i32::MAX as i64, i32::MIN as i64]);
    for l in lits {
        if *l == l.trunc() && l.abs() < 2e9 {
            exps.push(*l as i64);
            exps.push(-*l as i64);
        }
    }
    for &a in &bases {
        let x = Magnitude::from_f64(a);
        for &e in &exps {
            let w = a.powi(e as i32);
            if w.is_finite() {
                let g = <i64 as DimensionExponent>::float_pow(x, e);
                r.check("i64::float_pow is powi", bit(g, w), || format!("{:e} ^ {}: {:e}", a, e, g.into_f64()));
            }
        }
        for n in -9i64..=9 {
            for d in 1i64..=9 {
                let w = a.powf(n as f64 / d as f64);
                if w.is_finite() {
                    let g = x.pow_rational(n, d);
                    r.check("pow_rational is powf", bit(g, w), || format!("{:e} ^ ({}/{}): {:e}", a, n, d, g.into_f64()));
                    let ra = Ratio::new(n, d);
                    let w = a.powf(ra.num() as f64 / ra.denom() as f64);
                    let g = <Ratio as DimensionExponent>::float_pow(x, ra);
                    r.check("Ratio::float_pow is powf", bit(g, w), || format!("{:e} ^ {:?}: {:e}", a, ra, g.into_f64()));
                }
            }
        }
    }
    for i in (-1000..1000).chain([i32::MAX, i32::MIN]) {
        r.check("i64 one/zero/from_int", <i64 as DimensionExponent>::from_int(i) == i as i64, || format!("from_int({})", i));
    }
    r.check("i64 one/zero/from_int", <i64 as DimensionExponent>::one() == 1 && <i64 as DimensionExponent>::zero() == 0, || "one/zero".into());
}

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
fn norm(n: i128, d: i128) -> (i128, i128) {
    let g = gcd(n, d);
    let g = if d < 0 { -g } else { g };
    (n / g, d / g)
}
fn pair(r: Ratio) -> (i128, i128) {
    (r.num() as i128, r.denom() as i128)
}

fn c03(r: &mut Rec, rng: &mut Rng, lits: &[f64], deep: bool) {
    let mut ints: Vec<i64> = (-12..=12).collect();
    for l in lits {
        if *l == l.trunc() && l.abs() < 3e9 {
            ints.push(*l as i64);
            ints.push(-(*l as i64));
        }
    }
    ints.sort();
    ints.dedup();
    let mut rs: Vec<((i128, i128), Ratio)> = vec![];
    let mut mk = |r: &mut Rec, n: i64, d: i64| -> Option<((i128, i128), Ratio)> {
        let e = norm(n as i128, d as i128);
        let g = guard(move || Ratio::new(n, d));
        r.check("Ratio::new is the rational in lowest terms", g.map_or(false, |g| pair(g) == e), || {
            format!("Ratio::new({}, {}) = {:?}", n, d, g.map(pair))
        });
        g.map(|g| (e, g))
    };
    for &n in &ints {
        for &d in &ints {
            if d != 0 {
                if let Some(x) = mk(r, n, d) {
                    if n.abs() <= 8 && d.abs() <= 8 || rng.below(40) == 0 {
                        rs.push(x);
                    }
                }
            }
        }
        let i = Ratio::int(n);
        r.check("Ratio::int", pair(i) == (n as i128, 1), || format!("Ratio::int({})", n));
        let f = <Ratio as DimensionExponent>::from_int(n as i32);
        r.check("Ratio::from_int", pair(f) == (n as i32 as i128, 1), || format!("from_int({})", n));
    }
    for _ in 0..(if deep { 200_000 } else { 5_000 }) {
        let sh = 1 + rng.below(62);
        let n = rng.next() as i64 >> sh;
        let sh = 1 + rng.below(62);
        let d = rng.next() as i64 >> sh;
        if d != 0 {
            mk(r, n, d);
        }
    }
    for _ in 0..200 {
        let n = rng.next() as i64 >> 36;
        let d = rng.next() as i64 >> 36;
        if d != 0 {
            if let Some(x) = mk(r, n, d) {
                rs.push(x);
            }
        }
    }
    r.check("Ratio zero/one", pair(<Ratio as DimensionExponent>::zero()) == (0, 1) && pair(<Ratio as DimensionExponent>::one()) == (1, 1), || "zero/one".into());
    rs.sort_by_key(|x| x.0);
    rs.dedup_by_key(|x| x.0);
    type P = (i128, i128);
    for &(a, x) in &rs {
        let g = guard(move || pair(x.neg()));
        r.check("neg", g == Some((-a.0, a.1)), || format!("-({:?}) = {:?}", a, g));
        let g = guard(move || pair(-x));
        r.check("Neg", g == Some((-a.0, a.1)), || format!("-({:?}) = {:?}", a, g));
        r.check("num/denom", (x.num() as i128, x.denom() as i128) == a, || format!("{:?}", a));
        for &(b, y) in &rs {
            let mut bin = |k: &str, e: P, f: Box<dyn FnOnce() -> Ratio + std::panic::UnwindSafe>| {
                let g = guard(move || pair(f()));
                r.check(k, g == Some(e), || format!("{}: {}/{} and {}/{} = {:?}, expected {:?}", k, a.0, a.1, b.0, b.1, g, e));
            };
            let sum = norm(a.0 * b.1 + b.0 * a.1, a.1 * b.1);
            let dif = norm(a.0 * b.1 - b.0 * a.1, a.1 * b.1);
            let pro = norm(a.0 * b.0, a.1 * b.1);
            bin("add", sum, Box::new(move || Ratio::add(x, y)));
            bin("sub", dif, Box::new(move || Ratio::sub(x, y)));
            bin("mul", pro, Box::new(move || Ratio::mul(x, y)));
            bin("Mul", pro, Box::new(move || std::ops::Mul::mul(x, y)));
            bin("AddAssign", sum, Box::new(move || {
                let mut z = x;
                z += y;
                z
            }));
            if b.0 != 0 {
                bin("div", norm(a.0 * b.1, a.1 * b.0), Box::new(move || Ratio::div(x, y)));
            }
            let q = x == y;
            r.check("equality", q == (a == b), || format!("{:?} == {:?}: {}", a, b, q));
        }
    }
}

fn c19(r: &mut Rec, rng: &mut Rng, lits: &[f64], deep: bool) {
    let syms = ["m", "mm", "km", "M", "s", "S", "", "kg", "g", "μm", "um", "Ω", "m2", "m ", " m", "m/s", "mol", "mo", "meters", "ms"];
    let mut ds: Vec<i64> = vec![0, 1, -1, 2, 3];
    ds.extend(lits.iter().filter(|l| **l == l.trunc() && l.abs() < 1e9).map(|l| *l as i64));
    let mut mags = specials(lits);
    mags.retain(|m| !m.is_nan());
    for _ in 0..(if deep { 200_000 } else { 8_000 }) {
        let n = if rng.below(50) == 0 { 20 + rng.below(60) } else { rng.below(9) };
        let units: Vec<RuntimeUnit<(i64, i64)>> = (0..n)
            .map(|_| {
                RuntimeUnit::new(
                    syms[rng.below(syms.len() as u64) as usize],
                    (ds[rng.below(ds.len() as u64) as usize], rng.below(2) as i64),
                    mags[rng.below(mags.len() as u64) as usize],
                )
            })
            .collect();
        let desc = || units.iter().map(|u| format!("{}:{:?}:{:e}", u.symbol, u.dimension, u.magnitude)).collect::<Vec<_>>().join(", ");
        let st = RuntimeUnitStorage::new(&units);
        for s in syms {
            let g = st.get_unit_by_symbol(s);
            let mut e = None;
            for u in &units {
                if u.symbol == s {
                    e = Some(u);
                    break;
                }
            }
            let ok = match (g, e) {
                (None, None) => true,
                (Some(a), Some(b)) => std::ptr::eq(a, b),
                _ => false,
            };
            r.check("get_unit_by_symbol", ok, || format!("lookup {:?} in [{}]", s, desc()));
        }
        for &a in &ds {
            for b in 0..3 {
                let g = st.get_first_unit_for_dimension((a, b));
                let mut e = None;
                for u in &units {
                    if u.dimension == (a, b) {
                        e = Some(u);
                        break;
                    }
                }
                let ok = match (g, e) {
                    (None, None) => true,
                    (Some(x), Some(y)) => std::ptr::eq(x, y),
                    _ => false,
                };
                r.check("get_first_unit_for_dimension", ok, || format!("lookup {:?} in [{}]", (a, b), desc()));
            }
        }
    }
    for &m in &mags {
        let u = RuntimeUnit::new("kg", (1i64, 2i64), m);
        r.check("RuntimeUnit::new keeps its arguments", u.symbol == "kg" && u.dimension == (1, 2) && u.magnitude.to_bits() == m.to_bits(), || format!("{:e}", m));
    }
}

static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let deep = a[3] == "thorough";
    let lits: Vec<f64> = a[4..].iter().filter_map(|x| x.parse().ok()).filter(|x: &f64| x.is_finite()).collect();
    std::panic::set_hook(Box::new(|i| *LAST.lock().unwrap() = i.to_string()));
    let mut r = Rec::default();
    let mut rng = Rng(seed);
    let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match a[1].as_str() {
        "C01" => c01(&mut r, &mut rng, &lits, deep),
        "C02" => c02(&mut r, &mut rng, &lits, deep),
        "C03" => c03(&mut r, &mut rng, &lits, deep),
        "C19" => c19(&mut r, &mut rng, &lits, deep),
        _ => panic!(),
    }));
    if done.is_err() {
        let m = LAST.lock().unwrap().clone();
        r.check("panic", false, || m);
    }
    r.out();
}
