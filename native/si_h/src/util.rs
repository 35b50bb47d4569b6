use glam::{DVec2, DVec3, Vec2, Vec3};
use std::collections::BTreeMap;
use std::ops::*;

#[derive(Default)]
pub struct Rec {
    pub cases: u64,
    pub fails: BTreeMap<String, (u64, String)>,
    pub seed: u64,
    pub thorough: bool,
}
impl Rec {
    pub fn check(&mut self, key: &str, ok: bool, msg: impl FnOnce() -> String) {
        self.cases += 1;
        if !ok {
            let e = self.fails.entry(key.to_string()).or_insert_with(|| (0, msg()));
            e.0 += 1;
        }
    }
    pub fn out(self) {
        for (k, (n, m)) in &self.fails {
            println!("{{\"fail\":{},\"count\":{},\"input\":{}}}", js(k), n, js(m));
        }
        println!("{{\"cases\":{}}}", self.cases);
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

/// bitwise equality up to NaN payload
pub trait Same: Copy {
    fn same(self, o: Self) -> bool;
    fn sh(self) -> String;
}
impl Same for f64 {
    fn same(self, o: f64) -> bool {
        self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan())
    }
    fn sh(self) -> String {
        format!("{self:?}")
    }
}
impl Same for f32 {
    fn same(self, o: f32) -> bool {
        self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan())
    }
    fn sh(self) -> String {
        format!("{self:?}f32")
    }
}
impl Same for bool {
    fn same(self, o: bool) -> bool {
        self == o
    }
    fn sh(self) -> String {
        format!("{self:?}")
    }
}
macro_rules! samevec {
    ($t:ty) => {
        impl Same for $t {
            fn same(self, o: $t) -> bool {
                self.to_array().iter().zip(o.to_array().iter()).all(|(a, b)| a.same(*b))
            }
            fn sh(self) -> String {
                format!("{self:?}")
            }
        }
    };
}
samevec!(Vec2);
samevec!(Vec3);
samevec!(DVec2);
samevec!(DVec3);

pub trait Vals: Same {
    fn vals(r: &Rec) -> Vec<Self>;
}
impl Vals for f64 {
    fn vals(r: &Rec) -> Vec<f64> {
        let mut v = vec![0.0, -0.0, 1.0, -1.0, 2.5, -3.25, 0.1, 1e3, 7e-3, 1e200, 1e-200, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, 16777217.0, 0.5, -0.75, 3.0];
        let mut g = Rng(r.seed);
        for _ in 0..(if r.thorough { 200 } else { 12 }) {
            v.push(f64::from_bits(g.next()));
            v.push((g.below(2_000_000) as f64 - 1e6) / 977.0);
        }
        v
    }
}
impl Vals for f32 {
    fn vals(r: &Rec) -> Vec<f32> {
        let mut v = vec![0.0f32, -0.0, 1.0, -1.0, 2.5, -3.25, 0.1, 1e3, 7e-3, 1e30, 1e-30, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN_POSITIVE, 16777216.0, 0.5, -0.75, 3.0];
        let mut g = Rng(r.seed);
        for _ in 0..(if r.thorough { 200 } else { 12 }) {
            v.push(f32::from_bits(g.next() as u32));
            v.push((g.below(2_000_000) as f32 - 1e6) / 977.0);
        }
        v
    }
}
macro_rules! vvals {
    ($t:ty, $f:ty, $n:expr) => {
        impl Vals for $t {
            fn vals(r: &Rec) -> Vec<$t> {
                let s = <$f>::vals(r);
                let k = s.len();
                (0..k)
                    .map(|i| {
                        let mut a = [0.0; $n];
                        for j in 0..$n {
                            a[j] = s[(i * (j + 1) + j * 5 + 2) % k];
                        }
                        <$t>::from_array(a)
                    })
                    .collect()
            }
        }
    };
}
vvals!(Vec2, f32, 2);
vvals!(Vec3, f32, 3);
vvals!(DVec2, f64, 2);
vvals!(DVec3, f64, 3);

/// a storage type whose operators are pairwise different and not commutative
#[derive(Copy, Clone, Debug)]
pub struct Sp(pub u64);
fn mix(t: u64, a: u64, b: u64) -> Sp {
    let mut g = Rng(t.wrapping_mul(0x1234567).wrapping_add(a.wrapping_mul(31)).rotate_left(17) ^ b.wrapping_mul(0x9E37));
    g.next();
    Sp(g.next())
}
impl Same for Sp {
    fn same(self, o: Sp) -> bool {
        self.0 == o.0
    }
    fn sh(self) -> String {
        format!("{self:?}")
    }
}
impl Vals for Sp {
    fn vals(_: &Rec) -> Vec<Sp> {
        (0..9).map(Sp).collect()
    }
}
macro_rules! spop {
    ($($tr:ident $f:ident $n:expr),*) => {$(impl $tr for Sp { type Output = Sp; fn $f(self, o: Sp) -> Sp { mix($n, self.0, o.0) } })*};
}
spop!(Add add 1, Sub sub 2, Mul mul 3, Div div 4);
macro_rules! spas {
    ($($tr:ident $f:ident $n:expr),*) => {$(impl $tr for Sp { fn $f(&mut self, o: Sp) { *self = mix($n, self.0, o.0) } })*};
}
spas!(AddAssign add_assign 11, SubAssign sub_assign 12, MulAssign mul_assign 13, DivAssign div_assign 14);
impl Neg for Sp {
    type Output = Sp;
    fn neg(self) -> Sp {
        mix(21, self.0, 5)
    }
}
impl Default for Sp {
    fn default() -> Sp {
        Sp(777)
    }
}
impl PartialEq for Sp {
    fn eq(&self, o: &Sp) -> bool {
        mix(31, self.0, o.0).0 % 2 == 0
    }
}
impl PartialOrd for Sp {
    fn partial_cmp(&self, o: &Sp) -> Option<std::cmp::Ordering> {
        match mix(32, self.0, o.0).0 % 4 {
            0 => None,
            1 => Some(std::cmp::Ordering::Less),
            2 => Some(std::cmp::Ordering::Equal),
            _ => Some(std::cmp::Ordering::Greater),
        }
    }
}
