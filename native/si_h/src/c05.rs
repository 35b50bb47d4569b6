use crate::util::*;
use diman::si::dimensions::*;
use diman::si::Quantity;
use glam::{DVec2, DVec3, Vec2, Vec3};

macro_rules! ck {
    ($r:ident, $n:expr, $w:expr, $e:expr, $($a:expr),*) => {{
        let w = $w;
        let g = $e.value_unchecked();
        $r.check($n, w.same(g), || format!("{} with operands {:?}: storage gives {}, quantity holds {}", $n, ($($a.sh(),)*), w.sh(), g.sh()));
    }};
}
macro_rules! refs {
    ($r:ident, $n:expr, $op:tt, $x:expr, $y:expr, $w:expr, $a:expr, $b:expr) => {{
        ck!($r, concat!($n, " owned owned"), $w, ($x $op $y), $a, $b);
        ck!($r, concat!($n, " owned ref"), $w, ($x $op &$y), $a, $b);
        ck!($r, concat!($n, " ref owned"), $w, (&$x $op $y), $a, $b);
        ck!($r, concat!($n, " ref ref"), $w, (&$x $op &$y), $a, $b);
    }};
}
macro_rules! asg {
    ($r:ident, $n:expr, $op:tt, $q:ty, $x:expr, $y:expr, $a:expr, $b:expr) => {{
        let mut w = $a;
        w $op $b;
        let mut x = $x;
        x $op $y;
        ck!($r, concat!($n, " owned"), w, x, $a, $b);
        let mut x = $x;
        x $op &$y;
        ck!($r, concat!($n, " ref"), w, x, $a, $b);
    }};
}
macro_rules! asgm {
    ($r:ident, $n:expr, $op:tt, $q:ty, $x:expr, $y:expr, $a:expr, $b:expr) => {{
        let mut w = $a;
        w $op $b;
        let mut x = $x;
        let mut m = &mut x;
        m $op $y;
        ck!($r, concat!($n, " mut-ref owned"), w, x, $a, $b);
        let mut x = $x;
        let mut m = &mut x;
        m $op &$y;
        ck!($r, concat!($n, " mut-ref ref"), w, x, $a, $b);
    }};
}
/// plain storage on the left of an assigning operator
macro_rules! asgs {
    ($r:ident, $n:expr, $op:tt, $y:expr, $a:expr, $b:expr) => {{
        let mut w = $a;
        w $op $b;
        let mut x = $a;
        x $op $y;
        $r.check(concat!($n, " plain lhs owned"), w.same(x), || format!("{} {:?}: {} vs {}", $n, ($a.sh(), $b.sh()), w.sh(), x.sh()));
        let mut x = $a;
        x $op &$y;
        $r.check(concat!($n, " plain lhs ref"), w.same(x), || format!("{} {:?}: {} vs {}", $n, ($a.sh(), $b.sh()), w.sh(), x.sh()));
    }};
}
macro_rules! generic {
    ($r:ident, $t:ty) => {
        for &a in &<$t>::vals($r) {
            for &b in &<$t>::vals($r) {
                let (x, y) = (Length::<$t>::new_unchecked(a), Length::<$t>::new_unchecked(b));
                let t = Time::<$t>::new_unchecked(b);
                let d = Dimensionless::<$t>::new_unchecked(b);
                refs!($r, concat!(stringify!($t), " q + q"), +, x, y, a + b, a, b);
                refs!($r, concat!(stringify!($t), " q - q"), -, x, y, a - b, a, b);
                refs!($r, concat!(stringify!($t), " q * q"), *, x, t, a * b, a, b);
                refs!($r, concat!(stringify!($t), " q / q"), /, x, t, a / b, a, b);
                asg!($r, concat!(stringify!($t), " q += q"), +=, Length<$t>, x, y, a, b);
                asg!($r, concat!(stringify!($t), " q -= q"), -=, Length<$t>, x, y, a, b);
                asg!($r, concat!(stringify!($t), " q *= q"), *=, Length<$t>, x, d, a, b);
                asg!($r, concat!(stringify!($t), " q /= q"), /=, Length<$t>, x, d, a, b);
                asgm!($r, concat!(stringify!($t), " q += q"), +=, Length<$t>, x, y, a, b);
                asgm!($r, concat!(stringify!($t), " q -= q"), -=, Length<$t>, x, y, a, b);
                asgm!($r, concat!(stringify!($t), " q *= q"), *=, Length<$t>, x, d, a, b);
                asgm!($r, concat!(stringify!($t), " q /= q"), /=, Length<$t>, x, d, a, b);
                let dx = Dimensionless::<$t>::new_unchecked(a);
                refs!($r, concat!(stringify!($t), " q + plain"), +, dx, b, a + b, a, b);
                refs!($r, concat!(stringify!($t), " q - plain"), -, dx, b, a - b, a, b);
                asg!($r, concat!(stringify!($t), " q += plain"), +=, Dimensionless<$t>, dx, b, a, b);
                asg!($r, concat!(stringify!($t), " q -= plain"), -=, Dimensionless<$t>, dx, b, a, b);
                asgm!($r, concat!(stringify!($t), " q += plain"), +=, Dimensionless<$t>, dx, b, a, b);
                asgm!($r, concat!(stringify!($t), " q -= plain"), -=, Dimensionless<$t>, dx, b, a, b);
                macro_rules! eqs {
                    ($m:ident) => {
                        $r.check(concat!(stringify!($t), " ", stringify!($m)), a.$m(&b) == x.$m(&y), || format!("{:?}", (a.sh(), b.sh())));
                    };
                }
                eqs!(eq);
                eqs!(ne);
                $r.check(concat!(stringify!($t), " eq ref"), a.eq(&b) == x.eq(&&y), || format!("{:?}", (a.sh(), b.sh())));
                $r.check(concat!(stringify!($t), " ref eq"), a.eq(&b) == (&x).eq(&y), || format!("{:?}", (a.sh(), b.sh())));
                $r.check(concat!(stringify!($t), " ref eq ref"), a.eq(&b) == (&x == &y), || format!("{:?}", (a.sh(), b.sh())));
            }
            ck!($r, concat!(stringify!($t), " neg"), -a, -Length::<$t>::new_unchecked(a), a);
            ck!($r, concat!(stringify!($t), " from"), a, Dimensionless::<$t>::from(a), a);
            ck!($r, concat!(stringify!($t), " clone"), a, Length::<$t>::new_unchecked(a).clone(), a);
        }
        let v = <$t>::vals($r);
        for n in 0..v.len().min(14) {
            for off in 0..v.len().min(20) {
                let mut w = <$t>::default();
                for k in 0..n {
                    w += v[(off + k) % v.len()];
                }
                let g: Length<$t> = (0..n).map(|k| Length::<$t>::new_unchecked(v[(off + k) % v.len()])).sum();
                ck!($r, concat!(stringify!($t), " sum"), w, g, v[off]);
            }
        }
        ck!($r, concat!(stringify!($t), " default"), <$t>::default(), Length::<$t>::default(), <$t>::default());
    };
}
macro_rules! order {
    ($r:ident, $t:ty) => {
        for &a in &<$t>::vals($r) {
            for &b in &<$t>::vals($r) {
                let (x, y) = (Length::<$t>::new_unchecked(a), Length::<$t>::new_unchecked(b));
                macro_rules! o {
                    ($m:ident) => {
                        $r.check(concat!(stringify!($t), " ", stringify!($m)), a.$m(&b) == x.$m(&y), || format!("{:?}", (a.sh(), b.sh())));
                        $r.check(concat!(stringify!($t), " ref ", stringify!($m)), a.$m(&b) == (&x).$m(&y), || format!("{:?}", (a.sh(), b.sh())));
                        $r.check(concat!(stringify!($t), " ", stringify!($m), " ref"), a.$m(&b) == x.$m(&&y), || format!("{:?}", (a.sh(), b.sh())));
                    };
                }
                o!(partial_cmp);
                o!(lt);
                o!(le);
                o!(gt);
                o!(ge);
            }
        }
    };
}
macro_rules! plain {
    ($r:ident, $t:ty) => {
        for &a in &<$t>::vals($r) {
            for &b in &<$t>::vals($r) {
                let (x, y) = (Length::<$t>::new_unchecked(a), Length::<$t>::new_unchecked(b));
                let (dx, dy) = (Dimensionless::<$t>::new_unchecked(a), Dimensionless::<$t>::new_unchecked(b));
                refs!($r, concat!(stringify!($t), " plain + q"), +, a, dy, a + b, a, b);
                refs!($r, concat!(stringify!($t), " plain - q"), -, a, dy, a - b, a, b);
                asgs!($r, concat!(stringify!($t), " plain += q"), +=, dy, a, b);
                asgs!($r, concat!(stringify!($t), " plain -= q"), -=, dy, a, b);
                asgs!($r, concat!(stringify!($t), " plain *= q"), *=, dy, a, b);
                asgs!($r, concat!(stringify!($t), " plain /= q"), /=, dy, a, b);
                refs!($r, concat!(stringify!($t), " q * plain"), *, x, b, a * b, a, b);
                refs!($r, concat!(stringify!($t), " q / plain"), /, x, b, a / b, a, b);
                refs!($r, concat!(stringify!($t), " plain * q"), *, a, y, a * b, a, b);
                refs!($r, concat!(stringify!($t), " plain / q"), /, a, y, a / b, a, b);
                asg!($r, concat!(stringify!($t), " q *= plain"), *=, Length<$t>, x, b, a, b);
                asg!($r, concat!(stringify!($t), " q /= plain"), /=, Length<$t>, x, b, a, b);
                $r.check(concat!(stringify!($t), " q == plain"), (a == b) == (dx == b), || format!("{:?}", (a.sh(), b.sh())));
                $r.check(concat!(stringify!($t), " plain == q"), (a == b) == (a == dy), || format!("{:?}", (a.sh(), b.sh())));
            }
        }
    };
}
macro_rules! plainord {
    ($r:ident, $t:ty) => {
        for &a in &<$t>::vals($r) {
            for &b in &<$t>::vals($r) {
                let (dx, dy) = (Dimensionless::<$t>::new_unchecked(a), Dimensionless::<$t>::new_unchecked(b));
                $r.check(concat!(stringify!($t), " q cmp plain"), a.partial_cmp(&b) == dx.partial_cmp(&b), || format!("{:?}", (a.sh(), b.sh())));
                $r.check(concat!(stringify!($t), " plain cmp q"), a.partial_cmp(&b) == a.partial_cmp(&dy), || format!("{:?}", (a.sh(), b.sh())));
            }
        }
    };
}
macro_rules! mixed {
    ($r:ident, $v:ty, $f:ty) => {
        for &a in &<$v>::vals($r) {
            for &b in &<$f>::vals($r) {
                let (x, t) = (Length::<$v>::new_unchecked(a), Time::<$f>::new_unchecked(b));
                refs!($r, concat!(stringify!($v), " q * float q"), *, x, t, a * b, a, b);
                refs!($r, concat!(stringify!($v), " q / float q"), /, x, t, a / b, a, b);
                refs!($r, concat!("float q * ", stringify!($v), " q"), *, t, x, b * a, b, a);
                refs!($r, concat!("float q / ", stringify!($v), " q"), /, t, x, b / a, b, a);
                refs!($r, concat!(stringify!($v), " q * float"), *, x, b, a * b, a, b);
                refs!($r, concat!(stringify!($v), " q / float"), /, x, b, a / b, a, b);
                refs!($r, concat!("float * ", stringify!($v), " q"), *, b, x, b * a, b, a);
                refs!($r, concat!("float / ", stringify!($v), " q"), /, b, x, b / a, b, a);
                refs!($r, concat!(stringify!($v), " * float q"), *, a, t, a * b, a, b);
                refs!($r, concat!(stringify!($v), " / float q"), /, a, t, a / b, a, b);
                refs!($r, concat!("float q * ", stringify!($v)), *, t, a, b * a, b, a);
                refs!($r, concat!("float q / ", stringify!($v)), /, t, a, b / a, b, a);
                let d = Dimensionless::<$f>::new_unchecked(b);
                asg!($r, concat!(stringify!($v), " q *= float q"), *=, Length<$v>, x, d, a, b);
                asg!($r, concat!(stringify!($v), " q /= float q"), /=, Length<$v>, x, d, a, b);
            }
        }
    };
}
pub fn run(r: &mut Rec) {
    generic!(r, Sp);
    generic!(r, f32);
    generic!(r, f64);
    generic!(r, Vec2);
    generic!(r, Vec3);
    generic!(r, DVec2);
    generic!(r, DVec3);
    order!(r, Sp);
    order!(r, f32);
    order!(r, f64);
    plain!(r, f32);
    plain!(r, f64);
    plain!(r, Vec2);
    plain!(r, Vec3);
    plain!(r, DVec2);
    plain!(r, DVec3);
    plainord!(r, f32);
    plainord!(r, f64);
    mixed!(r, Vec2, f32);
    mixed!(r, Vec3, f32);
    mixed!(r, DVec2, f64);
    mixed!(r, DVec3, f64);
}
