use crate::util::*;
use diman::si::dimensions::*;
use diman::si::Quantity;

macro_rules! ck {
    ($r:ident, $n:expr, $w:expr, $e:expr, $($a:expr),*) => {{
        let w = $w;
        let g = $e;
        $r.check($n, w.same(g), || format!("{} with {:?}: storage function gives {}, method gives {}", $n, ($($a.sh(),)*), w.sh(), g.sh()));
    }};
}
macro_rules! all {
    ($r:ident, $t:ty) => {
        let mut vs = <$t>::vals($r);
        for k in -40..=40 {
            vs.push(k as $t / 16.0);
        }
        for &a in &vs {
            let x = Length::<$t>::new_unchecked(a);
            let ar = Area::<$t>::new_unchecked(a);
            let vo = Volume::<$t>::new_unchecked(a);
            let d = Dimensionless::<$t>::new_unchecked(a);
            ck!($r, concat!(stringify!($t), " squared"), a.powi(2), x.squared().value_unchecked(), a);
            ck!($r, concat!(stringify!($t), " cubed"), a.powi(3), x.cubed().value_unchecked(), a);
            ck!($r, concat!(stringify!($t), " powi::<2>"), a.powi(2), x.powi::<2>().value_unchecked(), a);
            ck!($r, concat!(stringify!($t), " powi::<5>"), a.powi(5), x.powi::<5>().value_unchecked(), a);
            ck!($r, concat!(stringify!($t), " powi::<-3>"), a.powi(-3), x.powi::<-3>().value_unchecked(), a);
            ck!($r, concat!(stringify!($t), " powi::<-1>"), a.powi(-1), x.powi::<-1>().value_unchecked(), a);
            ck!($r, concat!(stringify!($t), " powi::<0>"), a.powi(0), x.powi::<0>().value_unchecked(), a);
            ck!($r, concat!(stringify!($t), " powi::<1>"), a.powi(1), x.powi::<1>().value_unchecked(), a);
            ck!($r, concat!(stringify!($t), " sqrt"), a.sqrt(), ar.sqrt().value_unchecked(), a);
            ck!($r, concat!(stringify!($t), " cbrt"), a.cbrt(), vo.cbrt().value_unchecked(), a);
            ck!($r, concat!(stringify!($t), " abs"), a.abs(), x.abs().value_unchecked(), a);
            ck!($r, concat!(stringify!($t), " is_positive"), a > 0.0, x.is_positive(), a);
            ck!($r, concat!(stringify!($t), " is_positive_or_zero"), a >= 0.0, x.is_positive_or_zero(), a);
            ck!($r, concat!(stringify!($t), " is_negative"), a < 0.0, x.is_negative(), a);
            ck!($r, concat!(stringify!($t), " is_negative_or_zero"), a <= 0.0, x.is_negative_or_zero(), a);
            ck!($r, concat!(stringify!($t), " is_nan"), a.is_nan(), x.is_nan(), a);
            macro_rules! dl {
                ($m:ident $n:ident) => {
                    ck!($r, concat!(stringify!($t), " ", stringify!($m)), a.$n(), d.$m().value_unchecked(), a);
                };
                ($m:ident) => { dl!($m $m) };
            }
            dl!(log2);
            dl!(ln);
            dl!(log10);
            dl!(exp);
            dl!(exp2);
            dl!(ceil);
            dl!(floor);
            dl!(sin);
            dl!(cos);
            dl!(tan);
            dl!(asin);
            dl!(acos);
            dl!(atan);
            dl!(sinh);
            dl!(cosh);
            dl!(tanh);
            dl!(asinh);
            dl!(acosh);
            dl!(atanh);
            dl!(exp_m1);
            dl!(ln_1p);
            for &b in &<$t>::vals($r) {
                let y = Length::<$t>::new_unchecked(b);
                ck!($r, concat!(stringify!($t), " min"), a.min(b), x.min(y).value_unchecked(), a, b);
                ck!($r, concat!(stringify!($t), " max"), a.max(b), x.max(y).value_unchecked(), a, b);
                ck!($r, concat!(stringify!($t), " min plain"), a.min(b), d.min(b).value_unchecked(), a, b);
                ck!($r, concat!(stringify!($t), " max plain"), a.max(b), d.max(b).value_unchecked(), a, b);
                ck!($r, concat!(stringify!($t), " powf"), a.powf(b), d.powf(b), a, b);
                if b <= 0.75 {
                    for c in [b, b + 0.5, <$t>::INFINITY, 1.0, 1e3] {
                        if b <= c {
                            ck!($r, concat!(stringify!($t), " clamp"), a.clamp(b, c), x.clamp(y, Length::<$t>::new_unchecked(c)).value_unchecked(), a, b, c);
                        }
                    }
                }
            }
        }
        ck!($r, concat!(stringify!($t), " zero"), 0.0 as $t, Length::<$t>::zero().value_unchecked(), 0.0f64);
    };
}
pub fn run(r: &mut Rec) {
    all!(r, f32);
    all!(r, f64);
}
