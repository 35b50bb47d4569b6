//! Writes the inputs of the harnesses that go through the real proc macro: Rust text of modules with a
//! generated unit system and its expected values (sys), or one unit system per line with its fault (corpus).
#[allow(dead_code)]
#[path = "../us_h/src/model.rs"]
mod model;
use model::*;

fn lit(d: &Dim, base: &[String]) -> String {
    let v: Vec<String> = base.iter().map(|b| { let e = d.get(b).copied().unwrap_or((0, 1)); format!("({}, {})", e.0, e.1) }).collect();
    format!("&[{}]", v.join(", "))
}
fn small(s: &Sys, rational: bool) -> bool {
    let o = s.oracle();
    let _ = rational;
    o.units.len() < 90 && o.dims.values().chain(o.units.values().map(|u| &u.0)).chain(o.consts.values().map(|u| &u.0)).all(|d| d.values().all(|e| e.0.abs() < 2000 && e.1 < 50))
}

fn module(i: usize, s: &Sys) -> String {
    let o = s.oracle();
    let b = &o.base;
    let mut t = format!("#[allow(warnings)] pub mod s{i} {{\n");
    t += &format!("pub const TEXT: &str = {:?};\n", s.print());
    t += &format!("::diman::unit_system!(\n{});\n", s.print());
    t += "use crate::h::*;\n";
    t += &format!("fn rd(d: &Dimension) -> Vec<E> {{ vec![{}] }}\n", b.iter().map(|x| format!("Ex::rd(&d.{x})")).collect::<Vec<_>>().join(", "));
    t += &format!("fn mk(v: &[E]) -> Dimension {{ Dimension {{ {} }} }}\n", b.iter().enumerate().map(|(i, x)| format!("{x}: Ex::mk(v[{i}]),")).collect::<String>());
    t += "fn dm<const D: Dimension>(_: &Quantity<f64, D>) -> Dimension { D }\nfn dt<const D: Dimension>(_: Option<Quantity<f64, D>>) -> Dimension { D }\n";
    t += "#[cfg(feature = \"direct\")] pub fn c04(r: &mut Rec) { algebra!(r, Dimension, rd, mk, ";
    t += &format!("{}, TEXT) }}\n#[cfg(not(feature = \"direct\"))] pub fn c04(r: &mut Rec) {{}}\n", b.len());
    t += "pub fn values(r: &mut Rec) {\n";
    let mut ks: Vec<_> = o.units.iter().collect();
    ks.sort_by_key(|x| x.0.clone());
    for (n, u) in ks { t += &format!("  {{ let q = 1.0f64 * units::{n}; r.val(\"unit {n}\", TEXT, rd(&dm(&q)), q.value_unchecked(), {}, {:?}); }}\n", lit(&u.0, b), u.1); }
    for (n, u) in &o.consts { t += &format!("  {{ let q = 1.0f64 * constants::{n}; r.val(\"constant {n}\", TEXT, rd(&dm(&q)), q.value_unchecked(), {}, {:?}); }}\n", lit(&u.0, b), u.1); }
    for (n, d) in &o.dims { t += &format!("  {{ let q: Option<dimensions::{n}<f64>> = None; r.val(\"dimension {n}\", TEXT, rd(&dt(q)), 1.0, {}, 1.0); }}\n", lit(d, b)); }
    t += "}\npub fn debug(r: &mut Rec) {\n";
    t += "  let mut syms: Vec<(&str, Vec<E>, f64)> = vec![];\n";
    for (i, x) in b.iter().enumerate() {
        let mut d = Dim::new();
        d.insert(x.clone(), (1, 1));
        let _ = i;
        t += &format!("  syms.push((\"{x}\", <[E]>::to_vec({}), 1.0));\n", lit(&d, b));
    }
    for u in o.units.values() { if let Some(sy) = &u.2 { t += &format!("  syms.push((\"{sy}\", <[E]>::to_vec({}), {:?}));\n", lit(&u.0, b), u.1); } }
    for (n, d) in &o.dims { t += &format!("  for v in [2.5f64, -1e9, 0.0] {{ r.deb(\"{n}\", TEXT, format!(\"{{:?}}\", Quantity::<f64, {{ {} }}>::new_unchecked(v)), v, {}, &syms); }}\n", format!("Dimension {{ {} }}", b.iter().map(|x| { let e = d.get(x).copied().unwrap_or((0, 1)); format!("{x}: ex!({}, {}),", e.0, e.1) }).collect::<String>()), lit(d, b)); }
    t += "}\n}\n";
    t
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let rational = a[3] == "rational";
    let n: usize = a[4].parse().unwrap();
    let mut r = Rng(seed.wrapping_mul(104729) ^ if rational { 77 } else { 3 });
    if a[1] == "sys" {
        let mut i = 0;
        println!("#![allow(warnings)]\n#![feature(generic_const_exprs, adt_const_params)]\n#[macro_use] mod h;");
        while i < n {
            r.0 = r.0.wrapping_add(1);
            let s = Gen::new(&mut r, rational).valid();
            let o = s.oracle();
            let want = match i % 4 { 0 => o.base.len() >= 8, 1 => o.base.len() == 1, 2 => o.base.len() == 3, _ => o.base.len() >= 2 };
            // every second system: a base dimension without unit
            if !want || !small(&s, rational) || o.dims.len() < 3 { continue; }
            println!("{}", module(i, &s));
            i += 1;
        }
        println!("fn main() {{ let mut r = h::Rec::new(); match r.suite.as_str() {{");
        for (k, f) in [("C04", "c04"), ("C11", "values"), ("C15", "values"), ("C20", "values"), ("C12", "values"), ("C18", "debug")] {
            println!("  \"{k}\" => {{ {} }}", (0..n).map(|i| format!("s{i}::{f}(&mut r);")).collect::<String>());
        }
        println!("  _ => panic!() }} r.out(); }}");
    } else {
        let kinds: Vec<usize> = a[5].split(',').map(|x| x.parse().unwrap()).collect();
        let line = |s: &Sys, what: &str| println!("{}\t{}", what, s.print().replace('\n', " "));
        let mut done = 0;
        while done < n {
            r.0 = r.0.wrapping_add(1);
            let s = Gen::new(&mut r, rational).valid();
            let nu = s.0.iter().filter(|x| matches!(x, Stmt::Unit(u) if u.prefixes.len() > 4)).count();
            if nu > 1 || !small(&s, rational) { continue; }
            line(&s, "");
            done += 1;
            for &k in &kinds {
                let mut f = s.clone();
                let what = { let mut gg = Gen::new(&mut r, rational); gg.bump(500 + k); gg.fault(&mut f, k) };
                if let Some(w) = what { line(&f, w); }
            }
        }
    }
}
