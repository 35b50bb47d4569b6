use crate::util::*;
use diman::si::dimensions::*;
use diman::si::units::*;
use diman::si::Magnitude;
use diman::si::Quantity;
use glam::{DVec2, DVec3, Vec2, Vec3};

fn cl<T: Same>(a: T, b: T) -> bool {
    a.same(b)
}
macro_rules! ck {
    ($r:ident, $n:expr, $w:expr, $e:expr, $m:expr, $a:expr) => {{
        let w = $w;
        let g = $e;
        $r.check($n, w.same(g), || format!("{} with magnitude {:?}, value {}: expected {}, got {}", $n, $m, $a.sh(), w.sh(), g.sh()));
    }};
}
macro_rules! unit {
    ($r:ident, $t:ty, $f:ty, $s:ident, $u:expr, $k:expr, $dim:ident) => {{
        // magnitude of the unit as the storage float, from the exact f64 magnitude
        let m64: f64 = Magnitude::from($u).into_f64();
        let m = m64 as $f;
        for &a in &<$t>::vals($r) {
            let k = $k;
            let n = |s: &str| format!("{} {} {}", stringify!($t), k, s);
            ck!($r, &n("value * unit"), a * m, (a * $u).value_unchecked(), m64, a);
            ck!($r, &n("value / unit"), a / m, (a / $u).value_unchecked(), m64, a);
            ck!($r, &n("unit * value"), m * a, ($u * a).value_unchecked(), m64, a);
            ck!($r, &n("unit / value"), m / a, ($u / a).value_unchecked(), m64, a);
            let q = Time::<$t>::new_unchecked(a);
            ck!($r, &n("unit / quantity"), m / a, ($u / q).value_unchecked(), m64, a);
            scalar!($s, $r, $t, $u, $dim, n, a, m, m64, q);
        }
    }};
}
macro_rules! scalar {
    (no, $($x:tt)*) => {};
    (yes, $r:ident, $t:ty, $u:expr, $dim:ident, $n:ident, $a:ident, $m:ident, $m64:ident, $q:ident) => {
            ck!($r, &$n("unit.new(value)"), $a * $m, $u.new($a).value_unchecked(), $m64, $a);
            ck!($r, &$n("quantity * unit"), $a * $m, ($q * $u).value_unchecked(), $m64, $a);
            ck!($r, &$n("quantity / unit"), $a / $m, ($q / $u).value_unchecked(), $m64, $a);
            ck!($r, &$n("unit * quantity"), $m * $a, ($u * $q).value_unchecked(), $m64, $a);
            let d = $dim::<$t>::new_unchecked($a);
            ck!($r, &$n("value_in"), $a / $m, d.value_in($u), $m64, $a);
    };
}
macro_rules! all {
    ($r:ident, $t:ty, $f:ty, $s:ident) => {
        unit!($r, $t, $f, $s, meters, "unit", Length);
        unit!($r, $t, $f, $s, kilometers, "unit", Length);
        unit!($r, $t, $f, $s, nanometers, "unit", Length);
        unit!($r, $t, $f, $s, hours, "unit", Time);
        unit!($r, $t, $f, $s, days, "unit", Time);
        unit!($r, $t, $f, $s, electronvolts, "unit", Energy);
        unit!($r, $t, $f, $s, kilograms, "unit", Mass);
        unit!($r, $t, $f, $s, degrees, "unit", Angle);
        unit!($r, $t, $f, $s, meters / seconds, "runtime unit", Velocity);
        unit!($r, $t, $f, $s, kilometers / hour, "runtime unit", Velocity);
        unit!($r, $t, $f, $s, kilometers * meters, "runtime unit", Area);
        unit!($r, $t, $f, $s, degrees / hour, "runtime unit", Frequency);
    };
}
pub fn run(r: &mut Rec) {
    all!(r, f32, f32, yes);
    all!(r, f64, f64, yes);
    all!(r, Vec2, f32, no);
    all!(r, Vec3, f32, no);
    all!(r, DVec2, f64, no);
    all!(r, DVec3, f64, no);
    // composite units: exactly the magnitude of the product / quotient
    macro_rules! comp {
        ($n:expr, $u:expr, $v:expr) => {{
            let (a, b) = (Magnitude::from($u).into_f64(), Magnitude::from($v).into_f64());
            let p = Magnitude::from($u * $v).into_f64();
            let q = Magnitude::from($u / $v).into_f64();
            r.check("unit * unit", p.same(a * b), || format!("{} magnitudes {a} {b}: product {p}", $n));
            r.check("unit / unit", q.same(a / b), || format!("{} magnitudes {a} {b}: quotient {q}", $n));
        }};
    }
    comp!("kilometers, hours", kilometers, hours);
    comp!("hours, kilometers", hours, kilometers);
    comp!("grams, electronvolts", grams, electronvolts);
    comp!("degrees, days", degrees, days);
    comp!("nanometers, seconds", nanometers, seconds);
}
