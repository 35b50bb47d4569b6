//! Runs the real macro implementation (sources of diman_unit_system built as an ordinary program) on
//! generated unit systems and compares what it emits with an independent evaluation.
use crate::model::*;
use crate::shim;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use syn::visit::Visit;

#[derive(Default)]
pub struct Rec {
    pub cases: u64,
    pub fails: BTreeMap<String, (u64, String)>,
    pub skipped: u64,
}
impl Rec {
    pub fn check(&mut self, key: &str, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.cases += 1;
        if !ok {
            let e = self.fails.entry(key.to_string()).or_insert_with(|| (0, msg()));
            e.0 += 1;
        }
        ok
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}

/// what the macro generated
#[derive(Default, Clone)]
pub struct Out {
    pub dims: BTreeMap<String, Vec<Option<Dim>>>,
    pub units: BTreeMap<String, Vec<Option<Val>>>,
    pub consts: BTreeMap<String, Vec<Option<Val>>>,
    pub fields: Vec<String>,
    /// (symbol, dimension, magnitude) of every runtime unit list
    pub tables: Vec<Vec<Option<(String, Dim, f64)>>>,
}
pub struct Run {
    pub panicked: Option<String>,
    pub compile_error: bool,
    pub diags: Vec<shim::Diagnostic>,
    pub out: Option<Out>,
    pub unparsed: bool,
}
impl Run {
    pub fn errors(&self) -> Vec<&shim::Diagnostic> { self.diags.iter().filter(|d| d.level == shim::Level::Error).collect() }
    pub fn rejected(&self) -> bool { self.panicked.is_some() || self.compile_error || !self.errors().is_empty() }
    pub fn why(&self) -> String {
        format!("{:?} compile_error={} {:?}", self.panicked, self.compile_error, self.errors().iter().map(|d| &d.message).collect::<Vec<_>>())
    }
}

thread_local! { static LAST: std::cell::RefCell<String> = Default::default(); }

pub fn run(text: &str) -> Run { run_(text, true) }
pub fn run_(text: &str, read_it: bool) -> Run {
    shim::take();
    let toks = match proc_macro2::TokenStream::from_str(text) {
        Ok(t) => t,
        Err(e) => panic!("harness produced text that is not Rust tokens: {e}: {text}"),
    };
    let r = catch_unwind(AssertUnwindSafe(|| crate::unit_system(toks)));
    let diags = shim::take();
    match r {
        Err(_) => Run { panicked: Some(LAST.with(|l| l.borrow().clone())), compile_error: false, diags, out: None, unparsed: false },
        Ok(t) => {
            let mut compile_error = false;
            fn scan(t: proc_macro2::TokenStream, f: &mut bool) {
                for x in t {
                    match x {
                        proc_macro2::TokenTree::Group(g) => scan(g.stream(), f),
                        proc_macro2::TokenTree::Ident(i) if i == "compile_error" => *f = true,
                        _ => (),
                    }
                }
            }
            scan(t.clone(), &mut compile_error);
            if !read_it { return Run { panicked: None, compile_error, diags, out: None, unparsed: false }; }
            let file = syn::parse2::<syn::File>(t);
            let unparsed = file.is_err();
            Run { panicked: None, compile_error, diags, out: file.ok().map(|f| read(&f)), unparsed }
        }
    }
}

// ---- reading generated items
fn int(e: &syn::Expr) -> Option<i128> {
    match e {
        syn::Expr::Lit(l) => match &l.lit { syn::Lit::Int(i) => i.base10_parse().ok(), _ => None },
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => int(&u.expr).map(|x| -x),
        syn::Expr::Paren(p) => int(&p.expr),
        syn::Expr::Group(p) => int(&p.expr),
        syn::Expr::Cast(c) => int(&c.expr),
        _ => None,
    }
}
fn float(e: &syn::Expr) -> Option<f64> {
    match e {
        syn::Expr::Lit(l) => match &l.lit { syn::Lit::Float(i) => i.base10_parse().ok(), syn::Lit::Int(i) => i.base10_parse().ok(), _ => None },
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => float(&u.expr).map(|x| -x),
        syn::Expr::Paren(p) => float(&p.expr),
        syn::Expr::Group(p) => float(&p.expr),
        syn::Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { syn::Stmt::Expr(e, None) => float(e), _ => None },
        _ => None,
    }
}
fn last(p: &syn::Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }
fn exponent(e: &syn::Expr) -> Option<Q> {
    if let Some(i) = int(e) { return Some((i, 1)); }
    match e {
        syn::Expr::Call(c) => {
            let f = match &*c.func { syn::Expr::Path(p) => last(&p.path), _ => return None };
            let a: Option<Vec<i128>> = c.args.iter().map(int).collect();
            match (f.as_str(), a?.as_slice()) {
                ("new", [n, d]) if *d != 0 => Some(q(*n, *d)),
                ("int", [n]) | ("from_int", [n]) => Some((*n, 1)),
                ("zero", []) => Some((0, 1)),
                ("one", []) => Some((1, 1)),
                _ => None,
            }
        }
        syn::Expr::Struct(s) => {
            let mut n = None;
            let mut d = None;
            for f in &s.fields {
                match &f.member { syn::Member::Named(i) if i == "num" => n = int(&f.expr), syn::Member::Named(i) if i == "denom" => d = int(&f.expr), _ => return None }
            }
            match (n, d) { (Some(n), Some(d)) if d != 0 => Some(q(n, d)), _ => None }
        }
        syn::Expr::Paren(p) => exponent(&p.expr),
        syn::Expr::Group(p) => exponent(&p.expr),
        _ => None,
    }
}
fn block(e: &syn::Expr) -> Option<&syn::Expr> {
    match e {
        syn::Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { syn::Stmt::Expr(e, None) => block(e), _ => None },
        syn::Expr::Paren(p) => block(&p.expr),
        syn::Expr::Group(p) => block(&p.expr),
        _ => Some(e),
    }
}
/// Err(()): written in a way this reader does not understand (no verdict)
fn dim(e: &syn::Expr, fields: &[String]) -> Option<Dim> {
    match block(e)? {
        syn::Expr::Struct(s) => {
            let mut d = Dim::new();
            let mut seen = HashSet::new();
            for f in &s.fields {
                let n = match &f.member { syn::Member::Named(i) => i.to_string(), _ => return None };
                if !fields.contains(&n) || !seen.insert(n.clone()) {
                    d.insert(format!("<field {n}: unknown or repeated>"), (1, 1)); // does not compile
                }
                let x = exponent(&f.expr)?;
                if x.0 != 0 { d.insert(n, x); }
            }
            match &s.rest {
                None => {
                    if !s.dot2_token.is_some() && seen.len() < fields.len() { d.insert("<missing field>".into(), (1, 1)); }
                }
                Some(r) => match &**r {
                    syn::Expr::Call(c) if c.args.is_empty() => match &*c.func { syn::Expr::Path(p) if last(&p.path) == "none" => (), _ => return None },
                    _ => return None,
                },
            }
            Some(d)
        }
        syn::Expr::Call(c) if c.args.is_empty() => match &*c.func { syn::Expr::Path(p) if last(&p.path) == "none" => Some(Dim::new()), _ => None },
        _ => None,
    }
}
fn mag(e: &syn::Expr) -> Option<f64> {
    match block(e)? {
        syn::Expr::Struct(s) => {
            let (mut m, mut x, mut g) = (None, None, None);
            for f in &s.fields {
                match &f.member {
                    syn::Member::Named(i) if i == "mantissa" => m = int(&f.expr),
                    syn::Member::Named(i) if i == "exponent" => x = int(&f.expr),
                    syn::Member::Named(i) if i == "sign" => g = int(&f.expr),
                    _ => return None,
                }
            }
            Some(diman_lib::magnitude::Magnitude { mantissa: m? as u64, exponent: x? as i16, sign: g? as i8 }.into_f64())
        }
        syn::Expr::Call(c) if c.args.len() == 1 => match &*c.func {
            syn::Expr::Path(p) if last(&p.path) == "from_f64" => float(&c.args[0]),
            _ => None,
        },
        _ => None,
    }
}
fn generic(t: &syn::Type, name: &str) -> Option<Vec<syn::GenericArgument>> {
    match t {
        syn::Type::Path(p) => {
            let s = p.path.segments.last()?;
            if s.ident != name { return None; }
            match &s.arguments { syn::PathArguments::AngleBracketed(a) => Some(a.args.iter().cloned().collect()), _ => None }
        }
        syn::Type::Group(g) => generic(&g.elem, name),
        _ => None,
    }
}
fn arg(a: Option<&syn::GenericArgument>) -> Option<&syn::Expr> {
    match a? { syn::GenericArgument::Const(e) => Some(e), _ => None }
}
struct Tables<'a>(&'a [String], Vec<Vec<Option<(String, Dim, f64)>>>);
impl<'a, 'b> Visit<'b> for Tables<'a> {
    fn visit_local(&mut self, l: &'b syn::Local) {
        if let syn::Pat::Type(p) = &l.pat {
            if let syn::Pat::Ident(i) = &*p.pat {
                if i.ident == "units_array" {
                    let mut v = vec![];
                    if let Some(init) = &l.init {
                        if let syn::Expr::Reference(r) = &*init.expr {
                            if let syn::Expr::Array(a) = &*r.expr {
                                for e in &a.elems {
                                    v.push(match e {
                                        syn::Expr::Call(c) if c.args.len() == 3 => (|| {
                                            let s = match &c.args[0] { syn::Expr::Lit(l) => match &l.lit { syn::Lit::Str(s) => s.value(), _ => return None }, _ => return None };
                                            Some((s, dim(&c.args[1], self.0)?, float(&c.args[2])?))
                                        })(),
                                        _ => None,
                                    });
                                }
                            }
                        }
                    }
                    self.1.push(v);
                }
            }
        }
        syn::visit::visit_local(self, l);
    }
}
fn read(f: &syn::File) -> Out {
    let mut o = Out::default();
    for i in &f.items {
        if let syn::Item::Struct(s) = i {
            if s.ident == "Dimension" {
                o.fields = s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| i.to_string())).collect();
            }
        }
    }
    for i in &f.items {
        if let syn::Item::Mod(m) = i {
            let c = match &m.content { Some(c) => &c.1, None => continue };
            for it in c {
                match it {
                    syn::Item::Type(t) if m.ident == "dimensions" => {
                        let d = generic(&t.ty, "Quantity").and_then(|a| arg(a.get(1)).and_then(|e| dim(e, &o.fields)));
                        o.dims.entry(t.ident.to_string()).or_default().push(d);
                    }
                    syn::Item::Const(t) if m.ident == "units" || m.ident == "constants" => {
                        let v = generic(&t.ty, "Unit").and_then(|a| Some((arg(a.get(0)).and_then(|e| dim(e, &o.fields))?, arg(a.get(1)).and_then(mag)?)));
                        (if m.ident == "units" { &mut o.units } else { &mut o.consts }).entry(t.ident.to_string()).or_default().push(v);
                    }
                    _ => (),
                }
            }
        }
    }
    let mut t = Tables(&o.fields, vec![]);
    t.visit_file(f);
    o.tables = t.1;
    o
}

// ---- comparison
/// b: expected (NaN: outside the range the oracle judges)
fn close(a: f64, b: f64) -> bool { a == b || b.is_nan() || ((a - b) / b).abs() < 1e-12 || (a.is_nan() && b.is_nan()) }

#[derive(Clone, Copy, PartialEq)]
enum What { Values, Items, Names }

/// all generated items against the oracle
fn compare(r: &mut Rec, pre: &str, text: &str, o: &Oracle, out: &Out, w: What) {
    let at = |n: &str| format!("{n} in unit system\n{text}");
    macro_rules! one {
        ($kind:expr, $n:expr, $got:expr, $ok:expr, $want:expr) => {
            match $got {
                None => { if w != What::Values { r.check(&format!("{pre} {} not generated", $kind), false, || at($n)); } }
                Some(v) => {
                    if w != What::Values { r.check(&format!("{pre} {} generated more than once", $kind), v.len() == 1, || at($n)); }
                    for x in v {
                        match x {
                            None => r.skipped += 1,
                            Some(x) => { r.check(&format!("{pre} {} value or dimension", $kind), $ok(x), || format!("expected {:?}, generated {:?}: {}", $want, x, at($n))); }
                        }
                    }
                }
            }
        };
    }
    if w != What::Names {
        for (n, d) in &o.dims { one!("dimension", n, out.dims.get(n), |x: &Dim| x == d, d); }
        for (n, c) in &o.consts { one!("constant", n, out.consts.get(n), |x: &Val| x.0 == c.0 && close(x.1, c.1), c); }
    }
    for (n, u) in &o.units { one!("unit", n, out.units.get(n), |x: &Val| x.0 == u.0 && close(x.1, u.1), (&u.0, u.1)); }
    if w != What::Values {
        for n in out.units.keys() { r.check(&format!("{pre} unit nobody defined"), o.units.contains_key(n), || at(n)); }
        // symbols: the longest table lists all units that have one
        let want: BTreeSet<String> = o.units.values().filter_map(|u| u.2.clone()).collect();
        if let Some(t) = out.tables.iter().max_by_key(|t| t.len()) {
            let mut got = BTreeSet::new();
            for x in t {
                match x {
                    None => r.skipped += 1,
                    Some((s, d, m)) => {
                        r.check(&format!("{pre} symbol listed twice"), got.insert(s.clone()), || at(s));
                        let k = o.units.values().any(|u| u.2.as_ref() == Some(s) && u.0 == *d && close(*m, u.1));
                        r.check(&format!("{pre} symbol stands for another unit"), k, || format!("{d:?} {m} {}", at(s)));
                    }
                }
            }
            if !t.contains(&None) { r.check(&format!("{pre} set of symbols"), got == want, || format!("{:?} {}", got.symmetric_difference(&want).collect::<Vec<_>>(), at(""))); }
        }
    }
    if w == What::Items {
        for n in out.dims.keys() { r.check(&format!("{pre} dimension nobody defined"), o.dims.contains_key(n), || at(n)); }
        for n in out.consts.keys() { r.check(&format!("{pre} constant nobody defined"), o.consts.contains_key(n), || at(n)); }
        let mut f = out.fields.clone();
        f.sort();
        let mut b = o.base.clone();
        b.sort();
        r.check(&format!("{pre} fields of the dimension type"), f == b, || format!("{f:?} != {b:?} {}", at("")));
    }
}

fn lines(s: &Sys, bad: &HashSet<String>) -> BTreeSet<usize> {
    s.0.iter().enumerate().filter(|(_, x)| match x {
        Stmt::Dim(n, _) | Stmt::Const(n, ..) => bad.contains(n),
        Stmt::Unit(u) => u.expanded().iter().any(|e| bad.contains(&e.0)),
        Stmt::Raw(_) => false,
    }).map(|(i, _)| i + 1).collect()
}
fn accepted(r: &mut Rec, pre: &str, text: &str, x: &Run) -> bool {
    r.check(&format!("{pre} consistent system rejected"), !x.rejected(), || format!("{} for unit system\n{text}", x.why()))
        && r.check(&format!("{pre} output is not valid Rust"), !x.unparsed, || text.to_string())
}

fn values(r: &mut Rec, pre: &str, g: &mut Rng, rational: bool, n: usize, w: What) {
    for _ in 0..n {
        let s = Gen::new(g, rational).valid();
        let t = s.print();
        let x = run(&t);
        if accepted(r, pre, &t, &x) {
            compare(r, pre, &t, &s.oracle(), x.out.as_ref().unwrap(), w);
        }
        proc_macro2::extra::invalidate_current_thread_spans();
    }
}

fn bits(o: &Out) -> (BTreeMap<String, Vec<Option<Dim>>>, BTreeMap<String, Vec<Option<(Dim, u64)>>>) {
    let mut v = BTreeMap::new();
    for (n, u) in o.units.iter().chain(o.consts.iter()) {
        v.insert(n.clone(), u.iter().map(|x| x.as_ref().map(|(d, m)| (d.clone(), m.to_bits()))).collect());
    }
    (o.dims.clone(), v)
}

fn c12(r: &mut Rec, g: &mut Rng, rational: bool, n: usize) {
    // chains: no limit on how deep definitions nest, in any order
    for (i, &len) in [2usize, 3, 9, 10, 17, 33, 65, 66, 101, 130, 257].iter().enumerate() {
        for order in 0..3 {
            if len > 140 && order != 1 { continue; }
            let mut s = Gen::new(g, rational).valid();
            { let mut gg = Gen::new(g, rational); gg.bump(2000 * (i + 1)); gg.chain(&mut s, len, order); }
            let t = s.print();
            let x = run(&t);
            if accepted(r, "C12 chain:", &t, &x) { compare(r, "C12 chain:", &t, &s.oracle(), x.out.as_ref().unwrap(), What::Items); }
            proc_macro2::extra::invalidate_current_thread_spans();
        }
    }
    // one definition that names itself
    for t in ["unit foo = foo;", "unit foo = 2.0 * foo;", "unit foo = foo / foo;", "unit foo = foo^0;", "constant A = A;", "dimension Foo = Foo;", "dimension Foo = Foo * Foo^-1;", "unit foo = 1.0 / (2.0 * foo);",
              "unit foo = bar; unit bar = foo;", "#[alias(foos)] unit foo = foos;", "#[prefix(kilo)] unit foo = 1000 * kilofoo;"] {
        let t = format!("quantity_type Quantity; dimension_type Dimension; dimension Length; #[base(Length)] #[symbol(m)] unit meters; {t}");
        let x = run_(&t, false);
        r.check("C12 cyclic definitions make the macro panic", x.panicked.is_none(), || format!("{} {t}", x.why()));
        r.check("C12 self-referring definition accepted", x.rejected(), || t.clone());
    }
    for _ in 0..n {
        let mut s = Gen::new(g, rational).valid();
        let t = s.print();
        let x = run(&t);
        if !accepted(r, "C12", &t, &x) { continue; }
        let a = x.out.unwrap();
        compare(r, "C12", &t, &s.oracle(), &a, What::Items);
        for _ in 0..2 {
            g.shuffle(&mut s.0);
            let t2 = s.print();
            let y = run(&t2);
            if accepted(r, "C12 permuted:", &t2, &y) {
                r.check("C12 result depends on the order of definitions", bits(&a) == bits(y.out.as_ref().unwrap()), || format!("{t}\nversus\n{t2}"));
            }
        }
        // cycles
        { let mut gg = Gen::new(g, rational); gg.bump(1000); gg.cycle(&mut s); }
        let o = s.oracle();
        let t = s.print();
        let x = run(&t);
        let want = lines(&s, &o.unresolved);
        if r.check("C12 cyclic definitions make the macro panic", x.panicked.is_none(), || format!("{} {t}", x.why())) {
            let got: BTreeSet<usize> = x.errors().iter().flat_map(|d| d.spans.iter().map(|p| p.0)).collect();
            r.check("C12 unresolved definitions not exactly reported", got == want, || format!("reported lines {got:?}, unresolvable lines {want:?} of\n{t}"));
            if let Some(out) = &x.out { compare(r, "C12 with a cycle:", &t, &o, out, What::Items); }
        }
        proc_macro2::extra::invalidate_current_thread_spans();
    }
}

fn faults(r: &mut Rec, pre: &str, g: &mut Rng, rational: bool, n: usize, ks: &[usize]) {
    for _ in 0..n {
        let s = Gen::new(g, rational).valid();
        let t = s.print();
        {
            let x = run_(&t, false);
            accepted(r, pre, &t, &x);
        }
        for &k in ks {
            let mut f = s.clone();
            let what = { let mut gg = Gen::new(g, rational); gg.bump(500 + k); gg.fault(&mut f, k) };
            if let Some(what) = what {
                let t = f.print();
                let x = run_(&t, false);
                r.check(&format!("{pre} accepted: {what}"), x.rejected(), || format!("no error for unit system\n{t}"));
            }
        }
        proc_macro2::extra::invalidate_current_thread_spans();
    }
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap_or(1);
    let big = if a[3] == "thorough" { 20 } else { 1 };
    let rational = cfg!(feature = "rational-dimensions");
    std::panic::set_hook(Box::new(|i| LAST.with(|l| *l.borrow_mut() = i.to_string())));
    let mut r = Rec::default();
    let mut g = Rng(seed.wrapping_mul(7919) ^ a[1].bytes().fold(0u64, |x, b| x * 31 + b as u64));
    match a[1].as_str() {
        "C11" => values(&mut r, "C11", &mut g, rational, 250 * big, What::Values),
        "C12" => c12(&mut r, &mut g, rational, 60 * big),
        "C13" => faults(&mut r, "C13", &mut g, rational, 100 * big, &[0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 19, 20, 21, 22, 23, 24]),
        "C14" => faults(&mut r, "C14", &mut g, rational, 200 * big, &[3, 13, 13, 14, 15]),
        "C15" => values(&mut r, "C15", &mut g, rational, 250 * big, What::Names),
        "C20" => values(&mut r, "C20", &mut g, rational, 250 * big, What::Items),
        "show" => {
            let s = Gen::new(&mut g, rational).valid();
            println!("{}", s.print());
            let x = run(&s.print());
            println!("{}", x.why());
            let o = x.out.unwrap();
            println!("{:?}\n{:?}\n{:?}", o.dims, o.units.len(), o.consts);
        }
        _ => panic!("suite"),
    }
    for (k, (n, m)) in &r.fails {
        println!("{{\"fail\":{},\"count\":{},\"input\":{}}}", js(k), n, js(m));
    }
    println!("{{\"skipped\":{}}}", r.skipped);
    println!("{{\"cases\":{}}}", r.cases);
}
