//! Independent model of unit systems: random generation, printing as macro input, mathematical
//! evaluation and fault oracle.
use std::collections::{BTreeMap, HashMap, HashSet};

pub type Q = (i128, i128); // rational in lowest terms, positive denominator
pub fn q(n: i128, d: i128) -> Q {
    fn g(a: i128, b: i128) -> i128 {
        if b == 0 { a.abs() } else { g(b, a % b) }
    }
    let k = g(n, d).max(1) * if d < 0 { -1 } else { 1 };
    (n / k, d / k)
}
pub fn qadd(a: Q, b: Q) -> Q { q(a.0 * b.1 + b.0 * a.1, a.1 * b.1) }
pub fn qmul(a: Q, b: Q) -> Q { q(a.0 * b.0, a.1 * b.1) }

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, p: usize) -> bool { self.below(100) < p }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

#[derive(Clone, Debug)]
pub enum Atom { Num(String, f64), Name(String), Paren(Box<Expr>) }
#[derive(Clone, Debug)]
pub struct Factor { pub atom: Atom, pub exp: Option<Q> }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Mul, Div, Juxt }
#[derive(Clone, Debug)]
pub struct Expr { pub first: Factor, pub rest: Vec<(Op, Factor)> }

pub type Dim = BTreeMap<String, Q>;
pub fn dmul(a: &Dim, b: &Dim, s: Q) -> Dim {
    let mut r = a.clone();
    for (k, v) in b {
        let e = qadd(*r.get(k).unwrap_or(&(0, 1)), qmul(*v, s));
        r.insert(k.clone(), e);
    }
    r.retain(|_, v| v.0 != 0);
    r
}

pub type Val = (Dim, f64);
/// values far from overflow and underflow only (else NaN, which the generator throws away)
pub fn tame(x: f64) -> f64 { if x == 0.0 || (x.abs() > 1e-100 && x.abs() < 1e100) { x } else { f64::NAN } }
impl Factor {
    pub fn eval(&self, env: &dyn Fn(&str) -> Option<Val>) -> Option<Val> {
        let (d, m) = match &self.atom {
            Atom::Num(_, f) => (Dim::new(), *f),
            Atom::Name(n) => env(n)?,
            Atom::Paren(e) => e.eval(env)?,
        };
        Some(match self.exp {
            None => (d, m),
            Some(e) => (dmul(&Dim::new(), &d, e), if e.1 == 1 { tame(m.powi(e.0 as i32)) } else { tame(m.powf(e.0 as f64 / e.1 as f64)) }),
        })
    }
    pub fn names<'a>(&'a self, out: &mut Vec<&'a str>) {
        match &self.atom {
            Atom::Name(n) => out.push(n),
            Atom::Paren(e) => e.names(out),
            _ => (),
        }
    }
    pub fn print(&self) -> String {
        let a = match &self.atom {
            Atom::Num(s, _) => s.clone(),
            Atom::Name(n) => n.clone(),
            Atom::Paren(e) => format!("({})", e.print()),
        };
        match self.exp {
            None => a,
            Some((n, 1)) => format!("{a}^{n}"),
            Some((n, d)) => format!("{a}^({n}/{d})"),
        }
    }
}
impl Expr {
    pub fn of(f: Factor) -> Expr { Expr { first: f, rest: vec![] } }
    pub fn name(n: &str) -> Expr { Expr::of(Factor { atom: Atom::Name(n.into()), exp: None }) }
    pub fn eval(&self, env: &dyn Fn(&str) -> Option<Val>) -> Option<Val> {
        let mut acc = self.first.eval(env)?;
        for (op, f) in &self.rest {
            let r = f.eval(env)?;
            acc = match op {
                Op::Div => (dmul(&acc.0, &r.0, (-1, 1)), acc.1 / r.1),
                _ => (dmul(&acc.0, &r.0, (1, 1)), acc.1 * r.1),
            };
            acc.1 = tame(acc.1);
        }
        Some(acc)
    }
    pub fn names(&self) -> Vec<&str> {
        let mut v = vec![];
        self.names_into(&mut v);
        v
    }
    fn names_into<'a>(&'a self, v: &mut Vec<&'a str>) {
        self.first.names(v);
        for (_, f) in &self.rest {
            f.names(v);
        }
    }
    pub fn print(&self) -> String {
        let mut s = self.first.print();
        for (op, f) in &self.rest {
            s += match op { Op::Mul => " * ", Op::Div => " / ", Op::Juxt => " " };
            s += &f.print();
        }
        s
    }
    pub fn factor_mut(&mut self, i: usize) -> &mut Factor { if i == 0 { &mut self.first } else { &mut self.rest[i - 1].1 } }
}
trait NamesExt { fn names<'a>(&'a self, v: &mut Vec<&'a str>); }
impl NamesExt for Box<Expr> { fn names<'a>(&'a self, v: &mut Vec<&'a str>) { (**self).names_into(v) } }

#[derive(Clone, Debug, Default)]
pub struct UnitD {
    pub name: String,
    pub symbol: Option<String>,
    pub aliases: Vec<String>,
    pub prefixes: Vec<usize>,
    pub prefix_attr: String,
    pub annotation: Option<String>,
    pub base: Option<String>,
    pub rhs: Option<Expr>,
}
#[derive(Clone, Debug)]
pub enum Stmt {
    Raw(String),
    Dim(String, Option<Expr>),
    Unit(UnitD),
    Const(String, Option<String>, Expr),
}
pub const PREFIXES: [(&str, &str, i32); 16] = [
    ("exa", "E", 18), ("peta", "P", 15), ("tera", "T", 12), ("giga", "G", 9), ("mega", "M", 6), ("kilo", "k", 3), ("hecto", "h", 2), ("deca", "da", 1),
    ("deci", "d", -1), ("centi", "c", -2), ("milli", "m", -3), ("micro", "μ", -6), ("nano", "n", -9), ("pico", "p", -12), ("femto", "f", -15), ("atto", "a", -18),
];
pub fn p10(e: i32) -> f64 { format!("1e{e}").parse().unwrap() }

impl UnitD {
    /// (name, symbol, power of ten, is itself)
    pub fn expanded(&self) -> Vec<(String, Option<String>, i32, bool)> {
        let mut v = vec![];
        let pre: Vec<Option<usize>> = self.prefixes.iter().copied().map(Some).chain([None]).collect();
        for p in pre {
            let (pn, ps, e) = p.map(|i| PREFIXES[i]).unwrap_or(("", "", 0));
            v.push((format!("{pn}{}", self.name), self.symbol.as_ref().map(|s| format!("{ps}{s}")), e, p.is_none()));
            for a in &self.aliases {
                v.push((format!("{pn}{a}"), None, e, false));
            }
        }
        v
    }
}
impl Stmt {
    pub fn print(&self) -> String {
        let ann = |a: &Option<String>| a.as_ref().map(|x| format!(": {x}")).unwrap_or_default();
        match self {
            Stmt::Raw(s) => s.clone(),
            Stmt::Dim(n, None) => format!("dimension {n};"),
            Stmt::Dim(n, Some(e)) => format!("dimension {n} = {};", e.print()),
            Stmt::Const(n, a, e) => format!("constant {n}{} = {};", ann(a), e.print()),
            Stmt::Unit(u) => {
                let mut s = String::new();
                if let Some(b) = &u.base { s += &format!("#[base({b})] "); }
                if let Some(b) = &u.symbol { s += &format!("#[symbol({b})] "); }
                s += &u.prefix_attr;
                if !u.aliases.is_empty() { s += &format!("#[alias({})] ", u.aliases.join(", ")); }
                s += &format!("unit {}{}", u.name, ann(&u.annotation));
                if let Some(e) = &u.rhs { s += &format!(" = {}", e.print()); }
                s + ";"
            }
        }
    }
}
#[derive(Clone, Debug)]
pub struct Sys(pub Vec<Stmt>);

#[derive(Clone, Debug, PartialEq, Copy)]
pub enum K { Dim, Unit, Const }

pub struct Oracle {
    pub dims: BTreeMap<String, Dim>,
    pub units: BTreeMap<String, (Dim, f64, Option<String>)>,
    pub consts: BTreeMap<String, (Dim, f64)>,
    pub base: Vec<String>,
    /// names without a value (cyclic or depending on one)
    pub unresolved: HashSet<String>,
}

pub fn snake(s: &str) -> String {
    let mut r = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() && i > 0 { r.push('_'); }
        r.extend(c.to_lowercase());
    }
    r
}

impl Sys {
    pub fn print(&self) -> String { self.0.iter().map(|s| s.print() + "\n").collect() }

    /// values by iteration to a fixed point (independent of order and of any worklist)
    pub fn oracle(&self) -> Oracle {
        let mut defs: HashMap<String, (K, Expr, i32, Option<String>, bool)> = HashMap::new(); // name -> kind, expr, power of ten, symbol, base
        let mut vals: HashMap<String, Val> = HashMap::new();
        let mut base = vec![];
        for s in &self.0 {
            match s {
                Stmt::Dim(n, None) => {
                    base.push(snake(n));
                    vals.insert(n.clone(), (Dim::from([(snake(n), (1, 1))]), 1.0));
                    defs.insert(n.clone(), (K::Dim, Expr::name(n), 0, None, true));
                }
                Stmt::Dim(n, Some(e)) => { defs.insert(n.clone(), (K::Dim, e.clone(), 0, None, false)); }
                Stmt::Const(n, _, e) => { defs.insert(n.clone(), (K::Const, e.clone(), 0, None, false)); }
                Stmt::Unit(u) => {
                    for (n, sy, p, own) in u.expanded() {
                        let e = if own { u.rhs.clone().unwrap_or_else(|| Expr::name(u.base.as_ref().unwrap())) } else { Expr::name(&u.name) };
                        defs.insert(n, (K::Unit, e, p, sy, false));
                    }
                }
                Stmt::Raw(_) => (),
            }
        }
        loop {
            let mut more = false;
            for (n, (_, e, p, ..)) in &defs {
                if vals.contains_key(n) { continue; }
                if let Some((d, m)) = e.eval(&|x| vals.get(x).cloned()) {
                    vals.insert(n.clone(), (d, if *p == 0 { m } else { p10(*p) * m }));
                    more = true;
                }
            }
            if !more { break; }
        }
        let mut o = Oracle { dims: BTreeMap::new(), units: BTreeMap::new(), consts: BTreeMap::new(), base, unresolved: HashSet::new() };
        for (n, (k, _, _, sy, _)) in defs {
            match vals.get(&n) {
                None => { o.unresolved.insert(n); }
                Some((d, m)) => match k {
                    K::Dim => { o.dims.insert(n, d.clone()); }
                    K::Unit => { o.units.insert(n, (d.clone(), *m, sy)); }
                    K::Const => { o.consts.insert(n, (d.clone(), *m)); }
                },
            }
        }
        o
    }
}

pub struct Gen<'a> { pub r: &'a mut Rng, pub rational: bool, n: usize }

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, rational: bool) -> Self { Gen { r, rational, n: 0 } }
    pub fn bump(&mut self, n: usize) { self.n += n; }
    fn camel(&mut self) -> String {
        self.n += 1;
        let a = ["Alpha", "Beta", "Gamma", "Delta", "Kappa", "Omega", "Sigma"];
        let mut s = String::new();
        for _ in 0..1 + self.r.below(3) { s += a[self.r.below(a.len())]; }
        // distinct: suffix letters
        s + &"xyzuvwabcdefgh".chars().nth(self.n % 14).unwrap().to_string() + &format!("{}", self.n)
    }
    pub fn lower(&mut self) -> String {
        self.n += 1;
        let a = ["foo", "bar", "quux", "zorp", "blip", "tam", "nod"];
        format!("{}{}q{}", a[self.r.below(a.len())], if self.r.chance(30) { "_x" } else { "" }, self.n)
    }
    pub fn exp(&mut self) -> Q {
        if self.rational && self.r.chance(35) {
            let n = self.r.below(9) as i128 - 4;
            let d = if self.r.chance(70) { 2 + self.r.below(3) } else { 5 + self.r.below(8) };
            q(if n == 0 { 1 } else { n }, d as i128)
        } else {
            (self.r.below(9) as i128 - 4, 1)
        }
    }
    fn num(&mut self, pow: bool) -> Atom {
        let v = ["2", "3.5", "10", "0.25", "7", "1.0e-3", "1e2", "60", "1_000", "0.5", "9.81", "1", "1.0",
            "16777217", "123456789", "299792458", "4294967297", "9007199254740991", "0.1", "1.602176634e-19", "6.02214076E+23", "3.141592653589793", "100_000.125", "0.333333333333333333", "1.0001"];
        let s = v[self.r.below(v.len())].to_string();
        let f: f64 = s.replace('_', "").parse().unwrap();
        if !pow && self.r.chance(12) { Atom::Num(format!("-{s}"), -f) } else { Atom::Num(s, f) }
    }
    pub fn factor(&mut self, names: &[String], dim: bool, depth: usize) -> Factor {
        let k = self.r.below(100);
        if depth > 0 && k < 15 {
            return Factor { atom: Atom::Paren(Box::new(self.expr(names, dim, depth - 1))), exp: None };
        }
        let pow = self.r.chance(35);
        let atom = if names.is_empty() || k < 30 {
            if dim { Atom::Num(if self.r.chance(50) { "1" } else { "1.0" }.into(), 1.0) } else { self.num(pow) }
        } else {
            Atom::Name(names[self.r.below(names.len())].clone())
        };
        // an exponent directly in front of a parenthesis or an identifier is fine; numbers take powers too
        Factor { atom, exp: if pow { Some(self.exp()) } else { None } }
    }
    pub fn expr(&mut self, names: &[String], dim: bool, depth: usize) -> Expr {
        let first = self.factor(names, dim, depth);
        let mut rest = vec![];
        for _ in 0..self.r.below(5) {
            let f = self.factor(names, dim, depth);
            let op = match self.r.below(3) {
                0 => Op::Mul,
                1 => Op::Div,
                _ => if matches!(f.atom, Atom::Name(_)) { Op::Juxt } else { Op::Mul },
            };
            rest.push((op, f));
        }
        Expr { first, rest }
    }
    /// an expression over base dimension names with exactly this dimension
    pub fn dim_expr(&mut self, d: &Dim, name_of: &HashMap<String, String>) -> Expr {
        let mut fs: Vec<(bool, Factor)> = vec![];
        for (k, e) in d {
            let neg = self.r.chance(40);
            let e = if neg { (-e.0, e.1) } else { *e };
            fs.push((neg, Factor { atom: Atom::Name(name_of[k].clone()), exp: if e == (1, 1) && self.r.chance(70) { None } else { Some(e) } }));
        }
        self.r.shuffle(&mut fs);
        let one = Factor { atom: Atom::Num("1".into(), 1.0), exp: None };
        let mut e = if fs.is_empty() || fs[0].0 || self.r.chance(15) { Expr::of(one) } else { Expr::of(fs.remove(0).1) };
        for (neg, f) in fs { e.rest.push((if neg { Op::Div } else { Op::Mul }, f)); }
        e
    }
    pub fn unit_attrs(&mut self, u: &mut UnitD) {
        if self.r.chance(35) {
            for _ in 0..1 + self.r.below(2) { let a = self.lower(); u.aliases.push(a); }
        }
        match self.r.below(10) {
            0 | 1 => {
                u.prefix_attr = "#[metric_prefixes] ".into();
                u.prefixes = (0..16).collect();
            }
            2 => {
                let mut sk: Vec<usize> = (0..16).filter(|_| self.r.chance(30)).collect();
                if sk.is_empty() { sk.push(self.r.below(16)); }
                u.prefix_attr = format!("#[metric_prefixes(skip: {})] ", sk.iter().map(|i| PREFIXES[*i].0).collect::<Vec<_>>().join(", "));
                u.prefixes = (0..16).filter(|i| !sk.contains(i)).collect();
            }
            3 | 4 => {
                let mut p: Vec<usize> = (0..16).filter(|_| self.r.chance(20)).collect();
                if p.is_empty() { p.push(self.r.below(16)); }
                self.r.shuffle(&mut p);
                u.prefix_attr = format!("#[prefix({})] ", p.iter().map(|i| PREFIXES[*i].0).collect::<Vec<_>>().join(", "));
                u.prefixes = p;
            }
            _ => (),
        }
    }
    fn symbol(&mut self) -> String { self.n += 1; format!("S{}z", self.n) }

    /// a consistent unit system, statements in random order
    pub fn valid(&mut self) -> Sys {
        loop {
            let s = self.valid_try();
            let o = s.oracle();
            let ok = |d: &Dim, m: f64| m.is_finite() && (m == 0.0 || (m.abs() > 1e-120 && m.abs() < 1e120)) && d.values().all(|e| e.0.abs() < 1_000_000 && e.1 < 1000);
            if o.unresolved.is_empty() && o.units.values().all(|(d, m, _)| ok(d, *m)) && o.consts.values().all(|(d, m)| ok(d, *m)) && o.dims.values().all(|d| ok(d, 1.0)) {
                return s;
            }
        }
    }
    fn valid_try(&mut self) -> Sys {
        let mut st = vec![];
        let mut dn: Vec<String> = vec![];
        let mut name_of = HashMap::new();
        for _ in 0..1 + self.r.below(if self.r.0 % 7 == 0 { 12 } else { 5 }) {
            let n = self.camel();
            name_of.insert(snake(&n), n.clone());
            st.push(Stmt::Dim(n.clone(), None));
            dn.push(n);
        }
        let bases = dn.clone();
        for _ in 0..self.r.below(6) {
            let n = self.camel();
            let e = self.expr(&dn, true, 2);
            st.push(Stmt::Dim(n.clone(), Some(e)));
            dn.push(n);
        }
        let mut un: Vec<String> = vec![];
        let mut cn: Vec<String> = vec![];
        for b in &bases {
            if self.r.chance(85) {
                let mut u = UnitD { name: self.lower(), symbol: Some(self.symbol()), base: Some(b.clone()), ..Default::default() };
                if self.r.chance(50) { u.annotation = Some(b.clone()); }
                self.unit_attrs(&mut u);
                for x in u.expanded() { un.push(x.0); }
                if un.len() > 24 { self.r.shuffle(&mut un); un.truncate(24); }
                st.push(Stmt::Unit(u));
            }
        }
        // units that differ from a base unit by almost nothing
        let base_units: Vec<String> = st.iter().filter_map(|s| if let Stmt::Unit(u) = s { Some(u.name.clone()) } else { None }).collect();
        for b in base_units {
            if self.r.chance(25) {
                let (s, f) = [("1.0004", 1.0004), ("0.9996", 0.9996), ("1.00000001", 1.00000001), ("0.9999999999", 0.9999999999), ("-1.0", -1.0)][self.r.below(5)];
                let e = Expr { first: Factor { atom: Atom::Num(s.into(), f), exp: None }, rest: vec![(Op::Mul, Factor { atom: Atom::Name(b), exp: if self.r.chance(50) { None } else { Some((2, 1)) } })] };
                let u = UnitD { name: self.lower(), symbol: Some(self.symbol()), rhs: Some(e), ..Default::default() };
                un.push(u.name.clone());
                st.push(Stmt::Unit(u));
            }
        }
        for _ in 0..self.r.below(7) {
            let mut names = un.clone();
            names.extend(cn.iter().cloned());
            let e = self.expr(&names, false, 2);
            if self.r.chance(70) {
                let mut u = UnitD { name: self.lower(), symbol: if self.r.chance(60) { Some(self.symbol()) } else { None }, rhs: Some(e), ..Default::default() };
                self.unit_attrs(&mut u);
                for x in u.expanded() { un.push(x.0); }
                if un.len() > 24 { self.r.shuffle(&mut un); un.truncate(24); }
                st.push(Stmt::Unit(u));
            } else {
                let n = self.camel().to_uppercase();
                st.push(Stmt::Const(n.clone(), None, e));
                cn.push(n);
            }
        }
        // annotations
        let o = Sys(st.clone()).oracle();
        let mut extra = vec![];
        for s in st.iter_mut() {
            let (d, ann) = match s {
                Stmt::Unit(u) if u.base.is_none() => match o.units.get(&u.name) { Some(x) => (x.0.clone(), &mut u.annotation), None => continue },
                Stmt::Const(n, a, _) => match o.consts.get(n) { Some(x) => (x.0.clone(), a), None => continue },
                _ => continue,
            };
            if self.r.chance(50) {
                let same: Vec<&String> = o.dims.iter().filter(|(_, e)| **e == d).map(|x| x.0).collect();
                if !same.is_empty() && self.r.chance(60) {
                    *ann = Some(same[self.r.below(same.len())].to_string());
                } else {
                    let n = self.camel();
                    let mut e = self.dim_expr(&d, &name_of);
                    if self.r.chance(40) {
                        // a base dimension that cancels
                        let b = bases[self.r.below(bases.len())].clone();
                        let k = self.exp();
                        e.rest.push((Op::Mul, Factor { atom: Atom::Name(b.clone()), exp: Some(k) }));
                        e.rest.push((Op::Div, Factor { atom: Atom::Name(b), exp: Some(k) }));
                    }
                    extra.push(Stmt::Dim(n.clone(), Some(e)));
                    *ann = Some(n);
                }
            }
        }
        st.extend(extra);
        st.push(Stmt::Raw("quantity_type Quantity;".into()));
        st.push(Stmt::Raw("dimension_type Dimension;".into()));
        self.r.shuffle(&mut st);
        Sys(st)
    }

    /// plants one fault; returns what it is, or None when this system has no place for it
    pub fn fault(&mut self, s: &mut Sys, k: usize) -> Option<&'static str> {
        let o = s.oracle();
        let units: Vec<usize> = (0..s.0.len()).filter(|i| matches!(&s.0[*i], Stmt::Unit(_))).collect();
        let exprs: Vec<usize> = (0..s.0.len()).filter(|i| match &s.0[*i] { Stmt::Unit(u) => u.rhs.is_some(), Stmt::Const(..) => true, _ => false }).collect();
        let ddefs: Vec<usize> = (0..s.0.len()).filter(|i| matches!(&s.0[*i], Stmt::Dim(_, Some(_)))).collect();
        let bases: Vec<String> = s.0.iter().filter_map(|x| if let Stmt::Dim(n, None) = x { Some(n.clone()) } else { None }).collect();
        let derived: Vec<String> = ddefs.iter().map(|i| if let Stmt::Dim(n, _) = &s.0[*i] { n.clone() } else { unreachable!() }).collect();
        let un: Vec<String> = o.units.keys().cloned().collect();
        let cn: Vec<String> = o.consts.keys().cloned().collect();
        let dn: Vec<String> = o.dims.keys().cloned().collect();
        let mut at = |g: &mut Self, v: &[usize]| if v.is_empty() { None } else { Some(v[g.r.below(v.len())]) };
        // put a name somewhere into the right-hand side of statement i
        fn inject(g: &mut Gen, st: &mut Stmt, name: &str) {
            let e = match st { Stmt::Unit(u) => u.rhs.as_mut().unwrap(), Stmt::Const(_, _, e) => e, Stmt::Dim(_, Some(e)) => e, _ => unreachable!() };
            let f = Factor { atom: Atom::Name(name.into()), exp: if g.r.chance(40) { Some(g.exp()) } else { None } };
            match g.r.below(3) {
                0 => e.rest.push((if g.r.chance(50) { Op::Mul } else { Op::Div }, f)),
                1 => { let i = g.r.below(e.rest.len() + 1); *e.factor_mut(i) = f; }
                _ => e.rest.push((Op::Mul, Factor { atom: Atom::Paren(Box::new(Expr { first: Factor { atom: Atom::Num("1".into(), 1.0), exp: None }, rest: vec![(Op::Div, f)] })), exp: None })),
            }
        }
        let fresh = self.lower();
        match k {
            0 => { let i = at(self, &exprs)?; let mut t = s.0[i].clone(); inject(self, &mut t, &fresh); s.0[i] = t; Some("undefined name in a unit or constant") }
            1 => { let i = at(self, &ddefs)?; let mut t = s.0[i].clone(); inject(self, &mut t, &fresh); s.0[i] = t; Some("undefined name in a dimension") }
            2 => { for i in units { if let Stmt::Unit(u) = &mut s.0[i] { if u.base.is_some() { u.base = Some(fresh); return Some("base unit of an undefined dimension"); } } } None }
            3 => { let i = at(self, &exprs)?; match &mut s.0[i] { Stmt::Unit(u) => u.annotation = Some(fresh), Stmt::Const(_, a, _) => *a = Some(fresh), _ => () }; Some("annotation names nothing defined") }
            4 => { let i = self.r.below(s.0.len()); if matches!(s.0[i], Stmt::Raw(_)) { return None; } let t = match &s.0[i] { Stmt::Unit(u) => Stmt::Const(u.name.clone(), None, Expr::of(Factor { atom: Atom::Num("2".into(), 2.0), exp: None })), Stmt::Dim(n, _) => Stmt::Dim(n.clone(), Some(Expr::name(&bases[0]))), Stmt::Const(n, ..) => Stmt::Const(n.clone(), None, Expr::of(Factor { atom: Atom::Num("2".into(), 2.0), exp: None })), _ => return None };
                   let p = self.r.below(s.0.len() + 1); s.0.insert(p, t); Some("name defined twice") }
            5 => { let n = un.get(self.r.below(un.len().max(1)))?.clone(); let p = self.r.below(s.0.len() + 1); s.0.insert(p, Stmt::Const(n, None, Expr::of(Factor { atom: Atom::Num("2".into(), 2.0), exp: None }))); Some("generated unit name defined again") }
            6 => { let n = dn[self.r.below(dn.len())].clone(); let p = self.r.below(s.0.len() + 1); s.0.insert(p, Stmt::Const(n, None, Expr::of(Factor { atom: Atom::Num("2".into(), 2.0), exp: None }))); Some("one name for a dimension and a constant") }
            7 => { let sy: Vec<String> = o.units.values().filter_map(|u| u.2.clone()).collect(); let sy = sy.get(self.r.below(sy.len().max(1)))?.clone(); let p = self.r.below(s.0.len() + 1);
                   s.0.insert(p, Stmt::Unit(UnitD { name: fresh, symbol: Some(sy), rhs: Some(Expr::of(Factor { atom: Atom::Num("2".into(), 2.0), exp: None })), ..Default::default() })); Some("symbol used twice") }
            8 => { let i = at(self, &exprs)?; let n = dn[self.r.below(dn.len())].clone(); let mut t = s.0[i].clone(); inject(self, &mut t, &n); s.0[i] = t; Some("dimension in a unit or constant definition") }
            9 => { let i = at(self, &ddefs)?; let mut v = un; v.extend(cn); let n = v.get(self.r.below(v.len().max(1)))?.clone(); let mut t = s.0[i].clone(); inject(self, &mut t, &n); s.0[i] = t; Some("unit or constant in a dimension definition") }
            10 => { let d = derived.get(self.r.below(derived.len().max(1)))?.clone(); let sy = self.symbol(); let p = self.r.below(s.0.len() + 1); s.0.insert(p, Stmt::Unit(UnitD { name: fresh, symbol: Some(sy), base: Some(d), ..Default::default() })); Some("base unit of a derived dimension") }
            11 => { let has: Vec<String> = s.0.iter().filter_map(|x| if let Stmt::Unit(u) = x { u.base.clone() } else { None }).collect(); let d = has.get(self.r.below(has.len().max(1)))?.clone(); let sy = self.symbol(); let p = self.r.below(s.0.len() + 1);
                    s.0.insert(p, Stmt::Unit(UnitD { name: fresh, symbol: Some(sy), base: Some(d), ..Default::default() })); Some("two base units of one dimension") }
            12 => { for i in units { if let Stmt::Unit(u) = &mut s.0[i] { if u.base.is_some() { u.symbol = None; return Some("base unit without a symbol"); } } } None }
            13 => { // wrong annotation: another dimension, or one that differs in a single base dimension
                    let i = at(self, &exprs)?;
                    let d = match &s.0[i] { Stmt::Unit(u) => o.units[&u.name].0.clone(), Stmt::Const(n, ..) => o.consts[n].0.clone(), _ => return None };
                    let other: Vec<String> = o.dims.iter().filter(|(_, e)| **e != d).map(|x| x.0.clone()).collect();
                    let n = if !other.is_empty() && self.r.chance(40) { other[self.r.below(other.len())].clone() } else {
                        let name_of: HashMap<String, String> = bases.iter().map(|b| (snake(b), b.clone())).collect();
                        let mut d2 = d.clone();
                        let b = snake(&bases[self.r.below(bases.len())]);
                        let e = *d2.get(&b).unwrap_or(&(0, 1));
                        let e2 = if e.0 != 0 && self.r.chance(40) { (0, 1) } else if e.0 != 0 && self.r.chance(30) { (-e.0, e.1) } else { qadd(e, if self.rational && self.r.chance(40) { (1, 2) } else { (1, 1) }) };
                        d2.insert(b, e2);
                        d2.retain(|_, v| v.0 != 0);
                        if d2 == d { return None; }
                        let n = self.camel();
                        let e = self.dim_expr(&d2, &name_of);
                        s.0.push(Stmt::Dim(n.clone(), Some(e)));
                        n
                    };
                    match &mut s.0[i] { Stmt::Unit(u) => u.annotation = Some(n), Stmt::Const(_, a, _) => *a = Some(n), _ => () };
                    Some("violated annotation") }
            14 => { let i = at(self, &exprs)?; let mut v = un; v.extend(cn); let n = v.get(self.r.below(v.len().max(1)))?.clone(); match &mut s.0[i] { Stmt::Unit(u) => u.annotation = Some(n), Stmt::Const(_, a, _) => *a = Some(n), _ => () }; Some("annotation names a unit or constant") }
            15 => { // base unit annotated with another dimension
                    let other: Vec<String> = o.dims.keys().cloned().collect();
                    for i in units { if let Stmt::Unit(u) = &mut s.0[i] { if let Some(b) = &u.base { let v: Vec<&String> = other.iter().filter(|x| o.dims[*x] != o.dims[b]).collect(); if v.is_empty() { return None; } u.annotation = Some(v[self.r.below(v.len())].clone()); return Some("violated annotation of a base unit"); } } } None }
            16 => { self.cycle(s).map(|_| "cyclic definitions") }
            17 => { s.0.push(Stmt::Raw("quantity_type Other;".into())); Some("two quantity types") }
            18 => { s.0.retain(|x| !matches!(x, Stmt::Raw(r) if r.starts_with("dimension_type"))); Some("no dimension type") }
            19 => { for i in units { if let Stmt::Unit(u) = &mut s.0[i] { if u.base.is_some() { let n = un[self.r.below(un.len())].clone(); u.base = Some(n); return Some("base unit of a unit"); } } } None }
            20 => { // symbols that coincide only after prefixing: deca + "S" and deci + "aS"
                    let x = format!("Z{}", self.n);
                    let two = |b: &str| Some(Expr { first: Factor { atom: Atom::Num("2".into(), 2.0), exp: None }, rest: vec![(Op::Mul, Factor { atom: Atom::Name(b.into()), exp: None })] });
                    let b = un.get(self.r.below(un.len().max(1)))?.clone();
                    let (n1, n2) = (self.lower(), self.lower());
                    for (n, s2, i) in [(n1, x.clone(), 7), (n2, format!("a{x}"), 8)] {
                        let p = self.r.below(s.0.len() + 1);
                        s.0.insert(p, Stmt::Unit(UnitD { name: n, symbol: Some(s2), prefixes: vec![i], prefix_attr: format!("#[prefix({})] ", PREFIXES[i].0), rhs: two(&b), ..Default::default() }));
                    }
                    Some("symbols that coincide after prefixing") }
            21 => { // an alias (or a prefixed alias) that is the name of something else
                    let n = un.get(self.r.below(un.len().max(1)))?.clone();
                    let p = self.r.below(s.0.len() + 1);
                    s.0.insert(p, Stmt::Unit(UnitD { name: fresh, aliases: vec![n], rhs: Some(Expr::of(Factor { atom: Atom::Num("2".into(), 2.0), exp: None })), ..Default::default() }));
                    Some("alias is the name of another unit") }
            22 => { // a prefixed name that is the name of a constant or another unit
                    let x = PREFIXES[self.r.below(16)].0;
                    let e = || Expr::of(Factor { atom: Atom::Num("2".into(), 2.0), exp: None });
                    let full = format!("{x}{fresh}");
                    let p = self.r.below(s.0.len() + 1);
                    let other = if self.r.chance(50) { Stmt::Const(full, None, e()) } else { Stmt::Unit(UnitD { name: full, rhs: Some(e()), ..Default::default() }) };
                    s.0.insert(p, other);
                    let p = self.r.below(s.0.len() + 1);
                    s.0.insert(p, Stmt::Unit(UnitD { name: fresh, prefix_attr: "#[metric_prefixes] ".into(), prefixes: (0..16).collect(), rhs: Some(e()), ..Default::default() }));
                    Some("prefixed name is the name of another item") }
            23 => { // the third or later factor is of the wrong kind
                    let i = at(self, &exprs)?; let n = dn[self.r.below(dn.len())].clone(); let mut t = s.0[i].clone();
                    { let e = match &mut t { Stmt::Unit(u) => u.rhs.as_mut().unwrap(), Stmt::Const(_, _, e) => e, _ => return None };
                      while e.rest.len() < 3 { e.rest.push((Op::Mul, Factor { atom: Atom::Num("2".into(), 2.0), exp: None })); }
                      e.rest.push((if self.r.chance(50) { Op::Mul } else { Op::Div }, Factor { atom: Atom::Name(n), exp: None })); }
                    s.0[i] = t; Some("dimension as a late factor of a unit or constant definition") }
            24 => { let i = at(self, &ddefs)?; let mut v = un; v.extend(cn); let n = v.get(self.r.below(v.len().max(1)))?.clone(); let mut t = s.0[i].clone();
                    { let e = match &mut t { Stmt::Dim(_, Some(e)) => e, _ => return None };
                      while e.rest.len() < 3 { e.rest.push((Op::Mul, Factor { atom: Atom::Num("1".into(), 1.0), exp: None })); }
                      e.rest.push((Op::Mul, Factor { atom: Atom::Name(n), exp: None })); }
                    s.0[i] = t; Some("unit or constant as a late factor of a dimension definition") }
            _ => None,
        }
    }
    pub const FAULTS: usize = 25;

    /// a long chain of definitions, each using the next (or the previous) one
    pub fn chain(&mut self, s: &mut Sys, len: usize, order: usize) {
        let o = s.oracle();
        let dim = self.r.chance(30);
        let pool: Vec<String> = if dim { o.dims.keys().cloned().collect() } else { o.units.keys().chain(o.consts.keys()).cloned().collect() };
        let names: Vec<String> = (0..len).map(|_| if dim { self.camel() } else { self.lower() }).collect();
        let mut v: Vec<Stmt> = vec![];
        for i in 0..len {
            let prev = if i == 0 { pool.get(self.r.below(pool.len().max(1))).cloned() } else { Some(names[i - 1].clone()) };
            let first = match prev { Some(n) => Factor { atom: Atom::Name(n), exp: if i % 7 == 3 { Some((-1, 1)) } else { None } }, None => Factor { atom: Atom::Num("1".into(), 1.0), exp: None } };
            let mut e = Expr::of(first);
            if !dim { e.rest.push((if i % 2 == 0 { Op::Mul } else { Op::Div }, Factor { atom: Atom::Num("2".into(), 2.0), exp: None })); }
            let mut one = Sys(vec![]);
            self.put(&mut one, dim, names[i].clone(), e);
            if let Stmt::Unit(u) = &mut one.0[0] { u.prefixes.clear(); u.prefix_attr.clear(); }
            v.append(&mut one.0);
        }
        match order { 0 => (), 1 => v.reverse(), _ => self.r.shuffle(&mut v) }
        let k = self.r.below(s.0.len() + 1);
        let tail = s.0.split_off(k);
        s.0.extend(v);
        s.0.extend(tail);
    }

    /// adds a cycle of definitions and dependents of it
    pub fn cycle(&mut self, s: &mut Sys) -> Option<()> {
        let o = s.oracle();
        let dim = self.r.chance(30);
        let len = 1 + self.r.below(4);
        let names: Vec<String> = (0..len).map(|_| if dim { self.camel() } else { self.lower() }).collect();
        let pool: Vec<String> = if dim { o.dims.keys().cloned().collect() } else { o.units.keys().chain(o.consts.keys()).cloned().collect() };
        for i in 0..len {
            let mut e = self.expr(&pool, dim, 1);
            let f = Factor { atom: Atom::Name(names[(i + 1) % len].clone()), exp: if self.r.chance(30) { Some((2, 1)) } else { None } };
            let k = self.r.below(e.rest.len() + 1);
            *e.factor_mut(k) = f;
            self.put(s, dim, names[i].clone(), e);
        }
        let mut bad = names;
        for _ in 0..self.r.below(4) {
            let n = if dim { self.camel() } else { self.lower() };
            let mut e = self.expr(&pool, dim, 1);
            let b = bad[self.r.below(bad.len())].clone();
            e.rest.push((Op::Mul, Factor { atom: Atom::Name(b), exp: None }));
            self.put(s, dim, n.clone(), e);
            bad.push(n);
        }
        self.r.shuffle(&mut s.0);
        Some(())
    }
    fn put(&mut self, s: &mut Sys, dim: bool, n: String, e: Expr) {
        let st = if dim { Stmt::Dim(n, Some(e)) } else if self.r.chance(60) {
            let mut u = UnitD { name: n, rhs: Some(e), ..Default::default() };
            if self.r.chance(30) { self.unit_attrs(&mut u); }
            Stmt::Unit(u)
        } else { Stmt::Const(n, None, e) };
        s.0.push(st);
    }
}
