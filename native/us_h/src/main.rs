//@LIB (the text of crates/diman_unit_system/src/lib.rs is put here mechanically, see mirvc/native.py)
mod model;
mod shim;
mod suites;

fn main() {
    suites::main()
}
