use crate::util::*;
use diman::si::dimensions::*;
use diman::si::Quantity;
use glam::{DVec2, DVec3, Vec2, Vec3};
use rand::distributions::uniform::{SampleUniform, UniformFloat, UniformSampler};
use rand::{Rng as _, SeedableRng};
use std::mem::{align_of, size_of};

macro_rules! wrap {
    ($r:ident, $t:ty) => {
        for &a in &<$t>::vals($r) {
            let x = Length::<$t>::new_unchecked(a);
            let d = Dimensionless::<$t>::from(a);
            let mut bad: Vec<&str> = vec![];
            if !a.same(x.value_unchecked()) { bad.push("value_unchecked") }
            if !a.same(*x.value_unchecked_ref()) { bad.push("value_unchecked_ref") }
            if !a.same(d.value()) { bad.push("value") }
            if !a.same(*d.value_ref()) { bad.push("value_ref") }
            if !a.same(*d) { bad.push("deref") }
            if !a.same(d.value_unchecked()) { bad.push("from") }
            let i: Dimensionless<$t> = a.into();
            if !a.same(i.value_unchecked()) { bad.push("into") }
            let t: $t = unsafe { std::mem::transmute_copy(&x) };
            if !a.same(t) || size_of::<$t>() != size_of::<Length<$t>>() || align_of::<$t>() != align_of::<Length<$t>>() { bad.push("layout") }
            for b in bad.iter() {
                $r.check(&format!("{} {}", stringify!($t), b), false, || a.sh());
            }
            $r.check("", true, || String::new());
        }
    };
}
macro_rules! sample {
    ($r:ident, $t:ty) => {
        for (lo, hi) in [(2.0 as $t, 1.0 as $t), (1.0, 1.0), (<$t>::NAN, 1.0)] {
            let a = std::panic::catch_unwind(|| UniformFloat::<$t>::new(lo, hi)).is_err();
            let b = std::panic::catch_unwind(|| <Length<$t> as SampleUniform>::Sampler::new(Length::<$t>::new_unchecked(lo), Length::<$t>::new_unchecked(hi))).is_err();
            let c = std::panic::catch_unwind(|| UniformFloat::<$t>::new_inclusive(lo, hi)).is_err();
            let d = std::panic::catch_unwind(|| <Length<$t> as SampleUniform>::Sampler::new_inclusive(Length::<$t>::new_unchecked(lo), Length::<$t>::new_unchecked(hi))).is_err();
            $r.check("inclusive sampler bounds", c == d, || format!("{lo}..={hi}: storage sampler panics {c}, quantity sampler {d}"));
            $r.check("sampler bounds", a == b, || format!("{lo}..{hi}: storage sampler panics {a}, quantity sampler {b}"));
        }
        for (lo, hi) in [(5.0 as $t, 5.0 as $t), (0.0, 1.0), (-3.5, 2.25), (1e3, 1e6), (-2.0, -1.0), (0.1, 0.10001)] {
            for seed in 0..(if $r.thorough { 2000u64 } else { 60 }) {
                let (ql, qh) = (Length::<$t>::new_unchecked(lo), Length::<$t>::new_unchecked(hi));
                let sd = seed + $r.seed * 1000;
                let mk = move || rand::rngs::StdRng::seed_from_u64(sd);
                let name = stringify!($t);
                let inp = || format!("{lo}..{hi} seed {seed}");
                if lo < hi {
                    let w: $t = mk().gen_range(lo..hi);
                    let g = mk().gen_range(ql..qh).value_unchecked();
                    let w2 = UniformFloat::<$t>::new(lo, hi).sample(&mut mk());
                    $r.check(&format!("{name} gen_range"), (w.same(g) || w2.same(g)) && g >= lo && g < hi, || format!("{} storage {w} quantity {g}", inp()));
                    let (u, q) = (UniformFloat::<$t>::new(lo, hi), <Length<$t> as SampleUniform>::Sampler::new(ql, qh));
                    let (mut r1, mut r2) = (mk(), mk());
                    for _ in 0..3 {
                        let (a, b) = (u.sample(&mut r1), q.sample(&mut r2).value_unchecked());
                        $r.check(&format!("{name} sample"), a.same(b) && b >= lo && b < hi, || format!("{} storage {a} quantity {b}", inp()));
                    }
                    let (u, q) = (UniformFloat::<$t>::new(&lo, &hi), <Length<$t> as SampleUniform>::Sampler::new(&ql, &qh));
                    let (a, b) = (u.sample(&mut mk()), q.sample(&mut mk()).value_unchecked());
                    $r.check(&format!("{name} sample ref"), a.same(b), || format!("{} storage {a} quantity {b}", inp()));
                }
                let w: $t = mk().gen_range(lo..=hi);
                let g = mk().gen_range(ql..=qh).value_unchecked();
                let w2 = UniformFloat::<$t>::new_inclusive(lo, hi).sample(&mut mk());
                $r.check(&format!("{name} gen_range inclusive"), (w.same(g) || w2.same(g)) && g >= lo && g <= hi, || format!("{} storage {w} quantity {g}", inp()));
                let (u, q) = (UniformFloat::<$t>::new_inclusive(lo, hi), <Length<$t> as SampleUniform>::Sampler::new_inclusive(ql, qh));
                let (a, b) = (u.sample(&mut mk()), q.sample(&mut mk()).value_unchecked());
                $r.check(&format!("{name} sample inclusive"), a.same(b), || format!("{} storage {a} quantity {b}", inp()));
            }
        }
    };
}
#[cfg(feature = "ffi")]
fn ffi(r: &mut Rec) {
    use hdf5::types::{FloatSize, TypeDescriptor};
    use hdf5::H5Type;
    macro_rules! h5 {
        ($t:ty, $w:expr) => {
            let (w, g) = ($w, <Length<$t> as H5Type>::type_descriptor());
            r.check(concat!("hdf5 descriptor of ", stringify!($t)), w == g && g.size() == size_of::<$t>(), || format!("expected {w:?}, got {g:?}"));
        };
    }
    let f = |s| TypeDescriptor::Float(s);
    h5!(f32, f(FloatSize::U4));
    h5!(f64, f(FloatSize::U8));
    h5!(Vec2, TypeDescriptor::FixedArray(Box::new(f(FloatSize::U4)), 2));
    h5!(Vec3, TypeDescriptor::FixedArray(Box::new(f(FloatSize::U4)), 3));
    h5!(DVec2, TypeDescriptor::FixedArray(Box::new(f(FloatSize::U8)), 2));
    h5!(DVec3, TypeDescriptor::FixedArray(Box::new(f(FloatSize::U8)), 3));
    use mpi::datatype::Equivalence;
    use mpi::raw::AsRaw;
    use mpi::topology::Communicator;
    let (universe, _) = mpi::initialize_with_threading(mpi::Threading::Single).unwrap();
    let world = universe.world();
    macro_rules! fl {
        ($t:ty) => {
            r.check(concat!("mpi datatype of ", stringify!($t)), <$t>::equivalent_datatype().as_raw() == <Length<$t>>::equivalent_datatype().as_raw(), || "handle differs".into());
        };
    }
    fl!(f32);
    fl!(f64);
    macro_rules! pk {
        ($t:ty, $plain:expr) => {
            for &a in &<$t>::vals(r) {
                let q = Length::<$t>::new_unchecked(a);
                let packed = unsafe { world.pack(&q) };
                let plain = unsafe { world.pack(&$plain(a)[..]) };
                r.check(concat!("mpi packing of ", stringify!($t)), packed == plain, || format!("{}: {:?} vs storage {:?}", a.sh(), packed, plain));
                let mut z = Length::<$t>::default();
                unsafe { world.unpack_into(&packed, &mut z, 0) };
                r.check(concat!("mpi round trip of ", stringify!($t)), z.value_unchecked().same(a), || format!("{}: {}", a.sh(), z.value_unchecked().sh()));
            }
        };
    }
    pk!(f32, |a: f32| [a]);
    pk!(f64, |a: f64| [a]);
    pk!(Vec2, |a: Vec2| a.to_array());
    pk!(Vec3, |a: Vec3| a.to_array());
    pk!(DVec2, |a: DVec2| a.to_array());
    pk!(DVec3, |a: DVec3| a.to_array());
}
pub fn run(r: &mut Rec) {
    wrap!(r, f32);
    wrap!(r, f64);
    wrap!(r, Sp);
    wrap!(r, Vec2);
    wrap!(r, Vec3);
    wrap!(r, DVec2);
    wrap!(r, DVec3);
    sample!(r, f32);
    sample!(r, f64);
    #[cfg(feature = "ffi")]
    ffi(r);
}
