use crate::util::*;
use diman::si::dimensions::*;
use diman::si::Quantity;
use glam::{DVec2, DVec3, Vec2, Vec3};

macro_rules! ck {
    ($r:ident, $n:expr, $w:expr, $e:expr, $($a:expr),*) => {{
        let w = $w;
        let g = $e;
        $r.check($n, w.same(g), || format!("{} with {:?}: expected {}, got {}", $n, ($($a.sh(),)*), w.sh(), g.sh()));
    }};
}
macro_rules! common {
    ($r:ident, $v:ty, $f:ty) => {
        for &a in &<$v>::vals($r) {
            let x = Length::<$v>::new_unchecked(a);
            ck!($r, concat!(stringify!($v), " x"), a.x, x.x().value_unchecked(), a);
            ck!($r, concat!(stringify!($v), " y"), a.y, x.y().value_unchecked(), a);
            ck!($r, concat!(stringify!($v), " length"), a.length(), x.length().value_unchecked(), a);
            ck!($r, concat!(stringify!($v), " abs"), a.abs(), x.abs().value_unchecked(), a);
            ck!($r, concat!(stringify!($v), " normalize"), a.normalize(), x.normalize().value_unchecked(), a);
            for &s in &<$f>::vals($r) {
                let q = Length::<$f>::new_unchecked(s);
                let mut w = a;
                w.x = s;
                let mut g = x;
                g.set_x(q);
                ck!($r, concat!(stringify!($v), " set_x"), w, g.value_unchecked(), a, s);
                let mut w = a;
                w.y = s;
                let mut g = x;
                g.set_y(q);
                ck!($r, concat!(stringify!($v), " set_y"), w, g.value_unchecked(), a, s);
            }
            for &b in &<$v>::vals($r) {
                let y = Length::<$v>::new_unchecked(b);
                ck!($r, concat!(stringify!($v), " min"), a.min(b), x.min(y).value_unchecked(), a, b);
                ck!($r, concat!(stringify!($v), " max"), a.max(b), x.max(y).value_unchecked(), a, b);
                ck!($r, concat!(stringify!($v), " distance"), a.distance(b), x.distance(&y).value_unchecked(), a, b);
                ck!($r, concat!(stringify!($v), " distance_squared"), a.distance_squared(b), x.distance_squared(&y).value_unchecked(), a, b);
                ck!($r, concat!(stringify!($v), " dot"), a.dot(b), x.dot(Time::<$v>::new_unchecked(b)).value_unchecked(), a, b);
            }
        }
        for &s in &<$f>::vals($r) {
            if !s.is_finite() {
                continue;
            }
            let q = Length::<$f>::new_unchecked(s);
            let z = |v: $v| v.to_array().iter().filter(|c| **c != 0.0).count();
            let g = Length::<$v>::new_x(q).value_unchecked();
            $r.check(concat!(stringify!($v), " new_x"), g.x == s && z(g) <= 1, || format!("{} -> {}", s.sh(), g.sh()));
            let g = Length::<$v>::new_y(q).value_unchecked();
            $r.check(concat!(stringify!($v), " new_y"), g.y == s && z(g) <= 1, || format!("{} -> {}", s.sh(), g.sh()));
        }
        ck!($r, concat!(stringify!($v), " zero"), <$v>::ZERO, Length::<$v>::zero().value_unchecked(), <$v>::ZERO);
    };
}
macro_rules! two {
    ($r:ident, $v:ty, $f:ty) => {
        for &a in &<$f>::vals($r) {
            for &b in &<$f>::vals($r) {
                let q = |s: $f| Length::<$f>::new_unchecked(s);
                ck!($r, concat!(stringify!($v), " new"), <$v>::new(a, b), Length::<$v>::new(q(a), q(b)).value_unchecked(), a, b);
            }
        }
    };
}
macro_rules! three {
    ($r:ident, $v:ty, $f:ty) => {
        for &a in &<$v>::vals($r) {
            let x = Length::<$v>::new_unchecked(a);
            ck!($r, concat!(stringify!($v), " z"), a.z, x.z().value_unchecked(), a);
            for &s in &<$f>::vals($r) {
                let q = Length::<$f>::new_unchecked(s);
                let mut w = a;
                w.z = s;
                let mut g = x;
                g.set_z(q);
                ck!($r, concat!(stringify!($v), " set_z"), w, g.value_unchecked(), a, s);
            }
            let q = |s: $f| Length::<$f>::new_unchecked(s);
            ck!($r, concat!(stringify!($v), " new"), a, Length::<$v>::new(q(a.x), q(a.y), q(a.z)).value_unchecked(), a);
        }
        for &s in &<$f>::vals($r) {
            if s.is_finite() {
                let g = Length::<$v>::new_z(Length::<$f>::new_unchecked(s)).value_unchecked();
                $r.check(concat!(stringify!($v), " new_z"), g.z == s && g.x == 0.0 && g.y == 0.0, || format!("{} -> {}", s.sh(), g.sh()));
            }
        }
    };
}
pub fn run(r: &mut Rec) {
    common!(r, Vec2, f32);
    common!(r, Vec3, f32);
    common!(r, DVec2, f64);
    common!(r, DVec3, f64);
    two!(r, Vec2, f32);
    two!(r, DVec2, f64);
    three!(r, Vec3, f32);
    three!(r, DVec3, f64);
}
