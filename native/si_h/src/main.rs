//! Bounded stand-in / replay for the generated quantity type (C05, C07, C09, C10, C17, C18, C21):
//! runs the real generated code of the bundled SI system on a stated finite set of inputs and
//! compares with the storage operation.  Output: JSON lines.
#![allow(incomplete_features, unused)]
#![feature(generic_const_exprs, adt_const_params)]
#[macro_use]
mod table;
mod util;
mod c05;
mod c07;
mod c09;
mod c10;
mod text;
mod c21;
use util::*;

static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let suite = a[1].as_str();
    let seed: u64 = a[2].parse().unwrap_or(1);
    let thorough = a[3] == "thorough";
    std::panic::set_hook(Box::new(|i| *LAST.lock().unwrap() = i.to_string()));
    let mut r = Rec::default();
    r.seed = seed;
    r.thorough = thorough;
    // a panic of the code under test where the storage operation does not panic is itself a failure
    let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match suite {
        "C05" => c05::run(&mut r),
        "C07" => c07::run(&mut r),
        "C09" => c09::run(&mut r),
        "C10" => c10::run(&mut r),
        "C16" => text::c16(&mut r),
        "C17" => text::c17(&mut r),
        "C18" => text::c18(&mut r),
        "C21" => c21::run(&mut r),
        _ => panic!("suite"),
    }));
    if done.is_err() {
        let m = LAST.lock().unwrap().clone();
        r.check("panic", false, || m);
    }
    r.out();
}
