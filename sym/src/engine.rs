//! Path-forking symbolic executor over exact reals. The library's own generic code runs with the
//! scalar type `Sym`; this module owns the term arena, the path condition and the solver.
use crate::poly::*;
use crate::smt::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type E = u32;
pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    C(Rat),
    A(u32),
    Add(E, E),
    Mul(E, E),
    Neg(E),
}

#[derive(Clone, Debug)]
pub struct Atom {
    pub name: String,
    pub int: bool,
    pub input: bool,
}

/// d * atom^exp = n
#[derive(Clone)]
pub struct Rule {
    pub atom: u32,
    pub exp: u32,
    pub d: E,
    pub n: E,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Q { num: E, den: Vec<(u32, u32)> },
    Bad,
}

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

#[derive(Clone)]
pub struct TrigBase {
    pub unit: Rat,
    pub c: Sym,
    pub s: Sym,
    pub base_c: u32, // atom ids for model extraction (u32::MAX: none)
    pub base_s: u32,
}
#[derive(Clone)]
pub struct ExpBase {
    pub unit: Rat,
    pub v: Sym,
    pub atom: u32,
}

#[derive(Clone, Debug)]
pub struct Factor {
    pub e: E,
    pub key: Option<Poly>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Proved,
    Known,
    Refuted,
    Undecided,
}

#[derive(Clone, Debug)]
pub struct GoalRec {
    pub name: String,
    pub verdict: Verdict,
    pub path: String,
    pub inputs: Vec<(String, f64)>,
    pub note: String,
    pub how: String,
}

pub struct NativeOut {
    pub skipped: bool,
    pub panicked: Option<String>,
    pub failed: Vec<(String, String)>,
}

pub type Native = Rc<dyn Fn(&HashMap<String, f64>) -> NativeOut>;

pub struct PathAbort(pub &'static str);
/// Bound on the arithmetic operations of one path (the unchanged library stays far below).
pub const PATH_OPS: u64 = 1_000_000;
/// Signs of life of the worker threads, read by the watchdog.
pub static BEATS: [std::sync::atomic::AtomicU64; 64] = [const { std::sync::atomic::AtomicU64::new(0) }; 64];
thread_local! { pub static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
pub fn beat() {
    BEATS[WORKER.with(|w| w.get()) & 63].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

#[derive(Clone)]
pub struct Cfg {
    pub seed: u64,
    pub feas_ms: u64,
    pub goal_ms: u64,
    pub pin_ms: u64,
    pub pins: usize,
    pub second: bool,
    /// Isolated run: file that receives a model of the path before every step that may not return.
    pub trace: Option<String>,
}

pub struct Persist {
    pub z3: Z3,
    pub stats: Stats,
    pub stats2: Stats,
    pub cache: HashMap<u64, Res>,
    pub goals: Vec<GoalRec>,
    pub alts: Vec<Vec<u8>>,
    pub disagreements: u64,
    pub ident_proved: u64,
    pub decisions: u64,
    pub seen_goal_names: BTreeSet<String>,
    pub deadline: std::time::Instant,
    pub max_terms: usize,
    pub ops: u64,
}

pub struct Eng {
    pub cfg: Cfg,
    pub native: Native,
    pub p: Persist,
    robust: bool,
    /// equality tests may come out false although they hold exactly (rounding)
    pub loose: bool,
    /// the distance in ULPs is the distance
    pub ulps_unit: bool,
    nodes: Vec<Node>,
    nmap: HashMap<Node, E>,
    polys: Vec<Option<Option<Rc<Poly>>>>,
    pub atoms: Vec<Atom>,
    amap: HashMap<String, u32>,
    vals: Vec<Val>,
    vmap: HashMap<Val, u32>,
    factors: Vec<Factor>,
    pub rules: Vec<Rule>,
    pub facts: Vec<Vec<(E, u8)>>,
    signs: HashMap<Poly, u8>,
    trig: Vec<(Mono, TrigBase)>,
    exps: Vec<(Mono, ExpBase)>,
    lns: Vec<(Poly, Poly, Sym)>,
    sqrts: Vec<(Poly, Poly, Sym)>,
    opaque: Vec<(Poly, Poly, u32)>,
    ints: Vec<(u8, Sym, Sym)>,
    halves: Vec<(u32, u32, Sym)>,
    angles: HashMap<(u8, u32, u32), Sym>,
    fresh: u32,
    prefix: Vec<u8>,
    pub taken: Vec<u8>,
    pub path_ops: u64,
    pub goal_names: HashMap<String, u32>,
    pub pi_atom: u32,
    order_hint: bool,
}

thread_local! {
    pub static ENG: RefCell<Option<Eng>> = RefCell::new(None);
}

pub fn eng<R>(f: impl FnOnce(&mut Eng) -> R) -> R {
    ENG.with(|c| f(c.borrow_mut().as_mut().expect("no engine")))
}

fn flip(m: u8) -> u8 {
    (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}

impl Eng {
    pub fn new(cfg: Cfg, native: Native, p: Persist, prefix: Vec<u8>) -> Eng {
        let mut e = Eng {
            cfg,
            native,
            p,
            robust: false,
            loose: false,
            ulps_unit: false,
            nodes: vec![],
            nmap: HashMap::new(),
            polys: vec![],
            atoms: vec![],
            amap: HashMap::new(),
            vals: vec![],
            vmap: HashMap::new(),
            factors: vec![],
            rules: vec![],
            facts: vec![],
            signs: HashMap::new(),
            trig: vec![],
            exps: vec![],
            lns: vec![],
            sqrts: vec![],
            opaque: vec![],
            ints: vec![],
            halves: vec![],
            angles: HashMap::new(),
            fresh: 0,
            prefix,
            taken: vec![],
            path_ops: 0,
            goal_names: HashMap::new(),
            pi_atom: u32::MAX,
            order_hint: true,
        };
        let z = e.c(Rat::ZERO);
        e.mk(z, vec![]); // Sym(0) = 0
        let o = e.c(Rat::ONE);
        e.mk(o, vec![]); // Sym(1) = 1
        e
    }

    // ---------------------------------------------------------------- terms
    fn intern(&mut self, n: Node) -> E {
        if let Some(&i) = self.nmap.get(&n) {
            return i;
        }
        let i = self.nodes.len() as E;
        self.nodes.push(n.clone());
        self.polys.push(None);
        self.nmap.insert(n, i);
        i
    }
    pub fn c(&mut self, r: Rat) -> E {
        self.intern(Node::C(r))
    }
    pub fn a(&mut self, a: u32) -> E {
        self.intern(Node::A(a))
    }
    fn cst_of(&self, e: E) -> Option<Rat> {
        if let Node::C(r) = self.nodes[e as usize] { Some(r) } else { None }
    }
    pub fn add(&mut self, x: E, y: E) -> E {
        match (self.cst_of(x), self.cst_of(y)) {
            (Some(a), Some(b)) => {
                if let Some(r) = a.add(b) {
                    return self.c(r);
                }
            }
            (Some(a), _) if a.is_zero() => return y,
            (_, Some(b)) if b.is_zero() => return x,
            _ => {}
        }
        if let (Node::Neg(a), Node::Neg(b)) = (self.nodes[x as usize].clone(), self.nodes[y as usize].clone()) {
            let t = self.add(a, b);
            return self.neg(t);
        }
        let (x, y) = if x <= y { (x, y) } else { (y, x) };
        self.intern(Node::Add(x, y))
    }
    pub fn neg(&mut self, x: E) -> E {
        match self.nodes[x as usize].clone() {
            Node::C(r) => self.c(r.neg()),
            Node::Neg(y) => y,
            _ => self.intern(Node::Neg(x)),
        }
    }
    pub fn sub(&mut self, x: E, y: E) -> E {
        if x == y {
            return self.c(Rat::ZERO);
        }
        let n = self.neg(y);
        self.add(x, n)
    }
    pub fn mul(&mut self, x: E, y: E) -> E {
        match (self.cst_of(x), self.cst_of(y)) {
            (Some(a), Some(b)) => {
                if let Some(r) = a.mul(b) {
                    return self.c(r);
                }
            }
            (Some(a), _) if a.is_zero() => return x,
            (_, Some(b)) if b.is_zero() => return y,
            (Some(a), _) if a == Rat::ONE => return y,
            (_, Some(b)) if b == Rat::ONE => return x,
            _ => {}
        }
        match (self.nodes[x as usize].clone(), self.nodes[y as usize].clone()) {
            (Node::Neg(a), Node::Neg(b)) => return self.mul(a, b),
            (Node::Neg(a), _) => {
                let t = self.mul(a, y);
                return self.neg(t);
            }
            (_, Node::Neg(b)) => {
                let t = self.mul(x, b);
                return self.neg(t);
            }
            _ => {}
        }
        let (x, y) = if x <= y { (x, y) } else { (y, x) };
        self.intern(Node::Mul(x, y))
    }
    pub fn powe(&mut self, x: E, n: u32) -> E {
        let mut r = self.c(Rat::ONE);
        for _ in 0..n {
            r = self.mul(r, x);
        }
        r
    }
    /// Term for an expanded polynomial.
    pub fn from_poly(&mut self, p: &Poly) -> E {
        let mut terms = vec![];
        for (m, c) in &p.t {
            let mut t = self.c(*c);
            for &(a, e) in m {
                let ae = self.a(a);
                for _ in 0..e {
                    t = self.mul(t, ae);
                }
            }
            terms.push(t);
        }
        let mut r = self.c(Rat::ZERO);
        for t in terms {
            r = self.add(r, t);
        }
        r
    }
    pub fn poly(&mut self, e: E) -> Option<Rc<Poly>> {
        if let Some(p) = &self.polys[e as usize] {
            return p.clone();
        }
        // explicit stack: terms can be deep
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.polys[x as usize].is_some() {
                st.pop();
                continue;
            }
            let ch: Vec<E> = match self.nodes[x as usize] {
                Node::C(_) | Node::A(_) => vec![],
                Node::Add(a, b) | Node::Mul(a, b) => vec![a, b],
                Node::Neg(a) => vec![a],
            };
            let need: Vec<E> = ch.iter().cloned().filter(|&c| self.polys[c as usize].is_none()).collect();
            if !need.is_empty() {
                st.extend(need);
                continue;
            }
            let g = |i: E| self.polys[i as usize].as_ref().unwrap().clone();
            let r = match self.nodes[x as usize] {
                Node::C(r) => Some(Poly::cst(r)),
                Node::A(a) => Some(Poly::atom(a)),
                Node::Add(a, b) => match (g(a), g(b)) {
                    (Some(a), Some(b)) => a.add(&b),
                    _ => None,
                },
                Node::Mul(a, b) => match (g(a), g(b)) {
                    (Some(a), Some(b)) => a.mul(&b),
                    _ => None,
                },
                Node::Neg(a) => g(a).map(|p| p.neg()),
            };
            if let Some(p) = &r {
                if p.t.len() > self.p.max_terms {
                    self.p.max_terms = p.t.len();
                }
            }
            self.polys[x as usize] = Some(r.map(Rc::new));
            st.pop();
        }
        self.polys[e as usize].as_ref().unwrap().clone()
    }
    pub fn new_atom(&mut self, name: &str, input: bool, int: bool) -> u32 {
        let id = self.atoms.len() as u32;
        let mut n = name.to_string();
        if self.amap.contains_key(&n) {
            self.fresh += 1;
            n = format!("{}!{}", name, self.fresh);
        }
        self.amap.insert(n.clone(), id);
        self.atoms.push(Atom { name: n, int, input });
        id
    }
    pub fn mk(&mut self, num: E, mut den: Vec<(u32, u32)>) -> Sym {
        self.p.ops += 1;
        self.path_ops += 1;
        if self.path_ops & 63 == 0 {
            beat();
            if self.path_ops > PATH_OPS {
                std::panic::panic_any(PathAbort("operations"));
            }
        }
        den.retain(|x| x.1 > 0);
        if let Some(c) = self.cst_of(num) {
            if c.is_zero() {
                den.clear();
            }
        }
        let v = Val::Q { num, den };
        if let Some(&i) = self.vmap.get(&v) {
            return Sym(i);
        }
        let i = self.vals.len() as u32;
        self.vals.push(v.clone());
        self.vmap.insert(v, i);
        Sym(i)
    }
    pub fn bad(&mut self) -> Sym {
        let v = Val::Bad;
        if let Some(&i) = self.vmap.get(&v) {
            return Sym(i);
        }
        let i = self.vals.len() as u32;
        self.vals.push(v.clone());
        self.vmap.insert(v, i);
        Sym(i)
    }
    pub fn val(&self, s: Sym) -> Option<(E, Vec<(u32, u32)>)> {
        match &self.vals[s.0 as usize] {
            Val::Q { num, den } => Some((*num, den.clone())),
            Val::Bad => None,
        }
    }
    pub fn is_bad(&self, s: Sym) -> bool {
        matches!(self.vals[s.0 as usize], Val::Bad)
    }
    pub fn rat(&mut self, r: Rat) -> Sym {
        let e = self.c(r);
        self.mk(e, vec![])
    }
    pub fn atom_sym(&mut self, a: u32) -> Sym {
        let e = self.a(a);
        self.mk(e, vec![])
    }
    pub fn input(&mut self, name: &str) -> Sym {
        if let Some(&a) = self.amap.get(name) {
            return self.atom_sym(a);
        }
        let a = self.new_atom(name, true, false);
        self.atom_sym(a)
    }
    /// Constant of the float type that is not a small rational: exact value, kept as a symbol so that
    /// the certificate search stays small.
    pub fn big_const(&mut self, x: f64) -> Sym {
        let name = format!("k{:016x}", x.to_bits());
        if let Some(&a) = self.amap.get(&name) {
            return self.atom_sym(a);
        }
        let a = self.new_atom(&name, false, false);
        // x = m * 2^e exactly
        let bits = x.to_bits();
        let ex = ((bits >> 52) & 0x7ff) as i32;
        let m = (bits & ((1u64 << 52) - 1)) | if ex > 0 { 1u64 << 52 } else { 0 };
        let sh = ex.max(1) - 1075;
        let ae = self.a(a);
        let sgn = if x < 0.0 { -1 } else { 1 };
        // |sh| may exceed 100: build powers of two by multiplication of terms
        let mut lhs = ae;
        let mut rhs = self.c(Rat::int(sgn * m as i128));
        let mut k = sh.abs();
        while k > 0 {
            let s = k.min(60);
            let t = self.c(Rat::int(1i128 << s));
            if sh < 0 {
                lhs = self.intern(Node::Mul(lhs, t));
            } else {
                rhs = self.intern(Node::Mul(rhs, t));
            }
            k -= s;
        }
        let n = self.neg(rhs);
        let d = self.intern(Node::Add(lhs, n));
        self.facts.push(vec![(d, ZERO)]);
        self.facts.push(vec![(ae, if x < 0.0 { NEG } else { POS })]);
        self.set_sign(ae, if x < 0.0 { NEG } else { POS });
        self.atom_sym(a)
    }
    pub fn pi(&mut self) -> Sym {
        if self.pi_atom == u32::MAX {
            self.pi_atom = self.new_atom("pi", false, false);
            let p = self.a(self.pi_atom);
            let lo = self.c(Rat::new(314159265358979, 100000000000000).unwrap());
            let hi = self.c(Rat::new(314159265358980, 100000000000000).unwrap());
            let a = self.sub(p, lo);
            let b = self.sub(hi, p);
            self.facts.push(vec![(a, POS)]);
            self.facts.push(vec![(b, POS)]);
            self.set_sign(p, POS);
        }
        self.atom_sym(self.pi_atom)
    }
    pub fn constant(&mut self, x: f64) -> Sym {
        use std::f64::consts as k;
        if !x.is_finite() {
            return self.bad();
        }
        for (v, n, d) in [
            (k::PI, 1, 1),
            (2.0 * k::PI, 2, 1),
            (k::FRAC_PI_2, 1, 2),
            (k::FRAC_PI_3, 1, 3),
            (k::FRAC_PI_4, 1, 4),
            (k::FRAC_PI_6, 1, 6),
            (k::FRAC_PI_8, 1, 8),
        ] {
            if x.abs() == v {
                let p = self.pi();
                let q = self.rat(Rat::new(if x < 0.0 { -n } else { n }, d).unwrap());
                return self.smul(p, q);
            }
        }
        if x == k::PI / 180.0 {
            let p = self.pi();
            let q = self.rat(Rat::new(1, 180).unwrap());
            return self.smul(p, q);
        }
        if x == 180.0 / k::PI {
            let p = self.pi();
            let q = self.rat(Rat::int(180));
            return self.sdiv(q, p);
        }
        match Rat::from_f64(x) {
            Some(r) if r.d < (1 << 24) && r.n.abs() < (1 << 40) => self.rat(r),
            _ => self.big_const(x),
        }
    }

    // ------------------------------------------------- rational-function arithmetic
    fn den_expr(&mut self, den: &[(u32, u32)]) -> E {
        let mut r = self.c(Rat::ONE);
        for &(f, e) in den {
            let fe = self.factors[f as usize].e;
            for _ in 0..e {
                r = self.mul(r, fe);
            }
        }
        r
    }
    fn scale_to(&mut self, num: E, den: &[(u32, u32)], l: &[(u32, u32)]) -> E {
        let mut r = num;
        for &(f, e) in l {
            let have = den.iter().find(|x| x.0 == f).map(|x| x.1).unwrap_or(0);
            let fe = self.factors[f as usize].e;
            for _ in have..e {
                r = self.mul(r, fe);
            }
        }
        r
    }
    fn lcm(a: &[(u32, u32)], b: &[(u32, u32)]) -> Vec<(u32, u32)> {
        let mut m: BTreeMap<u32, u32> = a.iter().cloned().collect();
        for &(f, e) in b {
            let x = m.entry(f).or_insert(0);
            *x = (*x).max(e);
        }
        m.into_iter().collect()
    }
    pub fn sadd(&mut self, x: Sym, y: Sym) -> Sym {
        let (Some((n1, d1)), Some((n2, d2))) = (self.val(x), self.val(y)) else { return self.bad() };
        let l = Self::lcm(&d1, &d2);
        let a = self.scale_to(n1, &d1, &l);
        let b = self.scale_to(n2, &d2, &l);
        let s = self.add(a, b);
        self.mk(s, l)
    }
    pub fn sneg(&mut self, x: Sym) -> Sym {
        let Some((n, d)) = self.val(x) else { return self.bad() };
        let n = self.neg(n);
        self.mk(n, d)
    }
    pub fn ssub(&mut self, x: Sym, y: Sym) -> Sym {
        let n = self.sneg(y);
        let (Some((n1, d1)), Some((n2, d2))) = (self.val(x), self.val(y)) else { return self.bad() };
        if n1 == n2 && d1 == d2 {
            return Sym(0);
        }
        self.sadd(x, n)
    }
    pub fn smul(&mut self, x: Sym, y: Sym) -> Sym {
        let (Some((n1, d1)), Some((n2, d2))) = (self.val(x), self.val(y)) else { return self.bad() };
        let mut m: BTreeMap<u32, u32> = d1.into_iter().collect();
        for (f, e) in d2 {
            *m.entry(f).or_insert(0) += e;
        }
        // cancel whole-term factors
        let (mut n1, mut n2) = (n1, n2);
        let fs: Vec<u32> = m.keys().cloned().collect();
        for f in fs {
            let fe = self.factors[f as usize].e;
            let k = m.get_mut(&f).unwrap();
            if *k > 0 && n1 == fe {
                *k -= 1;
                n1 = self.c(Rat::ONE);
            }
            let k = m.get_mut(&f).unwrap();
            if *k > 0 && n2 == fe {
                *k -= 1;
                n2 = self.c(Rat::ONE);
            }
        }
        let n = self.mul(n1, n2);
        self.mk(n, m.into_iter().collect())
    }
    fn factor_of(&mut self, e: E) -> u32 {
        let key = self.poly(e).map(|p| (*p).clone());
        for (i, f) in self.factors.iter().enumerate() {
            if f.e == e || (key.is_some() && f.key == key) {
                return i as u32;
            }
        }
        self.factors.push(Factor { e, key });
        (self.factors.len() - 1) as u32
    }
    /// Multiplicative decomposition of a numerator: constant * product of factor terms.
    fn split(&mut self, e: E) -> (Rat, Vec<E>) {
        let p = self.poly(e);
        if let Some(p) = &p {
            if p.t.len() == 1 {
                let (m, c) = p.t.iter().next().map(|(m, c)| (m.clone(), *c)).unwrap();
                let mut v = vec![];
                for (a, k) in m {
                    for _ in 0..k {
                        v.push(self.a(a));
                    }
                }
                return (c, v);
            }
        }
        match self.nodes[e as usize].clone() {
            Node::Mul(a, b) => {
                let (c1, mut v1) = self.split(a);
                let (c2, v2) = self.split(b);
                if let Some(c) = c1.mul(c2) {
                    v1.extend(v2);
                    return (c, v1);
                }
                (Rat::ONE, vec![e])
            }
            Node::Neg(a) => {
                let (c, v) = self.split(a);
                (c.neg(), v)
            }
            Node::C(r) => (r, vec![]),
            _ => (Rat::ONE, vec![e]),
        }
    }
    pub fn sdiv(&mut self, x: Sym, y: Sym) -> Sym {
        let (Some((n1, d1)), Some((n2, d2))) = (self.val(x), self.val(y)) else { return self.bad() };
        if !self.ensure_nonzero(n2) {
            return self.bad();
        }
        if n1 == n2 && d1 == d2 {
            return Sym(1);
        }
        let (c, fs) = self.split(n2);
        let (c, fs) = if c.is_zero() { (Rat::ONE, vec![n2]) } else { (c, fs) };
        let Some(ci) = c.inv() else { return self.bad() };
        let cie = self.c(ci);
        let mut num = self.mul(n1, cie);
        let mut den: BTreeMap<u32, u32> = d1.into_iter().collect();
        // multiply by the divisor's denominator, cancelling against ours
        for (f, e) in d2 {
            let have = den.get(&f).cloned().unwrap_or(0);
            let k = have.min(e);
            den.insert(f, have - k);
            let fe = self.factors[f as usize].e;
            for _ in k..e {
                num = self.mul(num, fe);
            }
        }
        for fe in fs {
            let f = self.factor_of(fe);
            *den.entry(f).or_insert(0) += 1;
        }
        self.mk(num, den.into_iter().collect())
    }

    // ---------------------------------------------------------------- signs and branching
    fn canon(p: &Poly) -> (Poly, bool) {
        // primitive with positive leading coefficient
        let lead = p.t.iter().next_back().map(|x| *x.1).unwrap_or(Rat::ONE);
        let neg = lead.n < 0;
        let k = lead.inv().unwrap_or(Rat::ONE);
        (p.scale(k).unwrap_or_else(|| if neg { p.neg() } else { p.clone() }), neg)
    }
    fn sign_key(&mut self, e: E) -> Option<(Poly, bool)> {
        let p = self.poly(e)?;
        if p.t.len() > 3000 {
            return None;
        }
        let q = self.reduce_monic(&p).unwrap_or_else(|| (*p).clone());
        Some(Self::canon(&q))
    }
    pub fn set_sign(&mut self, e: E, m: u8) {
        if let Some((k, neg)) = self.sign_key(e) {
            let m = if neg { flip(m) } else { m };
            let old = *self.signs.get(&k).unwrap_or(&7);
            self.signs.insert(k, old & m);
        }
    }
    pub fn known_mask(&mut self, e: E) -> u8 {
        if let Some(r) = self.cst_of(e) {
            return if r.n < 0 { NEG } else if r.n == 0 { ZERO } else { POS };
        }
        if let Some((k, neg)) = self.sign_key(e) {
            if let Some(c) = k.constant() {
                let m = if c.n < 0 { NEG } else if c.n == 0 { ZERO } else { POS };
                return if neg { flip(m) } else { m };
            }
            if let Some(&m) = self.signs.get(&k) {
                return if neg { flip(m) } else { m };
            }
            if k.t.len() == 1 {
                // monomial with known atom signs
                let (m, c) = k.t.iter().next().unwrap();
                let mut r = if c.n > 0 { POS } else { NEG };
                let m = m.clone();
                for (a, ex) in m {
                    let am = *self.signs.get(&Poly::atom(a)).unwrap_or(&7);
                    let am = if ex % 2 == 0 { (am & ZERO) | if am & (NEG | POS) != 0 { POS } else { 0 } } else { am };
                    let mut n = 0;
                    if (r & ZERO) | (am & ZERO) != 0 {
                        n |= ZERO;
                    }
                    if (r & POS != 0 && am & POS != 0) || (r & NEG != 0 && am & NEG != 0) {
                        n |= POS;
                    }
                    if (r & POS != 0 && am & NEG != 0) || (r & NEG != 0 && am & POS != 0) {
                        n |= NEG;
                    }
                    r = n;
                }
                return if neg { flip(r) } else { r };
            }
        }
        7
    }
    pub fn assume_sign(&mut self, e: E, m: u8) {
        if m == 7 {
            return;
        }
        self.facts.push(vec![(e, m)]);
        self.set_sign(e, m);
        if m == ZERO || m == (NEG | ZERO) {
            self.learn_squares(e);
        }
        if m == ZERO {
            self.learn_zero(e, 0);
        }
    }
    /// A sum of squares (seen in the term structure) that is <= 0: every summand is zero.
    fn learn_squares(&mut self, e: E) {
        let mut parts = vec![];
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            match self.nodes[x as usize].clone() {
                Node::Add(a, b) => {
                    st.push(a);
                    st.push(b);
                }
                Node::Mul(a, b) if a == b => parts.push(a),
                _ => return,
            }
        }
        if parts.len() < 2 {
            return;
        }
        // solver verdict on the shape itself: x1^2 + ... + xn^2 <= 0 forces xi = 0
        use std::fmt::Write;
        let mut s = String::new();
        for i in 0..parts.len() {
            writeln!(s, "(declare-const x{} Real)", i).unwrap();
        }
        let sum: Vec<String> = (0..parts.len()).map(|i| format!("(* x{} x{})", i, i)).collect();
        let nz: Vec<String> = (0..parts.len()).map(|i| format!("(not (= x{} 0.0))", i)).collect();
        writeln!(s, "(assert (<= (+ {}) 0.0))\n(assert (or {}))", sum.join(" "), nz.join(" ")).unwrap();
        if self.solve(&s, &[], 2000).0 != Res::Unsat {
            return;
        }
        for x in parts {
            self.facts.push(vec![(x, ZERO)]);
            self.set_sign(x, ZERO);
            self.learn_zero(x, 0);
        }
    }
    /// Turns an equality on the path into rewrite rules for the certificate search.
    fn learn_zero(&mut self, e: E, depth: u32) {
        if depth > 6 {
            return;
        }
        let Some(p) = self.poly(e) else { return };
        let Some(p) = self.reduce_monic(&p) else { return };
        if p.is_zero() {
            return;
        }
        // single monomial: if only one atom can be zero, that atom is zero
        if p.t.len() == 1 {
            let m = p.t.keys().next().unwrap().clone();
            let mut cand = vec![];
            for (a, _) in m {
                let ae = self.a(a);
                if self.known_mask(ae) & ZERO != 0 {
                    cand.push(a);
                }
            }
            if cand.len() == 1 {
                self.zero_atom(cand[0], depth);
            }
            return;
        }
        // sum of even powers with coefficients of one sign
        let pos = p.t.values().all(|c| c.n > 0) || p.t.values().all(|c| c.n < 0);
        let single = p.t.keys().all(|m| m.len() == 1 && m[0].1 % 2 == 0);
        if pos && single {
            for m in p.t.keys() {
                self.zero_atom(m[0].0, depth);
            }
            return;
        }
        // linear in an atom with a constant coefficient
        let ats = p.atoms();
        for &a in ats.iter().rev() {
            if a == self.pi_atom || self.rules.iter().any(|r| r.atom == a) || !self.atoms[a as usize].input {
                continue;
            }
            let co = p.coeffs_in(a);
            if co.keys().max() == Some(&1) {
                if let Some(k) = co[&1].constant() {
                    let mut rest = Poly::zero();
                    if let Some(r) = co.get(&0) {
                        rest = r.clone();
                    }
                    if let Some(n) = k.inv().and_then(|ki| rest.scale(ki.neg())) {
                        let ne = self.from_poly(&n);
                        let one = self.c(Rat::ONE);
                        // atom = n is implied by the path: checked by the solver before use
                        let ae = self.a(a);
                        let df = self.sub(ae, ne);
                        if self.implied(df, ZERO) {
                            self.rules.push(Rule { atom: a, exp: 1, d: one, n: ne });
                            self.facts.push(vec![(df, ZERO)]);
                        }
                        return;
                    }
                }
            }
        }
    }
    fn zero_atom(&mut self, a: u32, depth: u32) {
        let ae = self.a(a);
        if !self.implied(ae, ZERO) {
            return;
        }
        let zero = self.c(Rat::ZERO);
        let one = self.c(Rat::ONE);
        let olds: Vec<Rule> = self.rules.iter().filter(|r| r.atom == a).cloned().collect();
        self.rules.retain(|r| r.atom != a);
        self.rules.push(Rule { atom: a, exp: 1, d: one, n: zero });
        self.facts.push(vec![(ae, ZERO)]);
        self.set_sign(ae, ZERO);
        for o in olds {
            // d*a^k = n  =>  n = 0
            let ak = self.powe(ae, o.exp);
            let l = self.mul(o.d, ak);
            let ax = self.sub(l, o.n);
            self.facts.push(vec![(ax, ZERO)]);
            if self.implied(o.n, ZERO) {
                self.facts.push(vec![(o.n, ZERO)]);
                self.set_sign(o.n, ZERO);
                self.learn_squares(o.n);
                self.learn_zero(o.n, depth + 1);
            }
        }
    }
    /// Does the path condition force sign(e) into m?  (solver verdict)
    pub fn implied(&mut self, e: E, m: u8) -> bool {
        if self.known_mask(e) & !m == 0 {
            return true;
        }
        self.query(&[vec![(e, 7 & !m)]], &[], self.cfg.feas_ms, &[]).0 == Res::Unsat
    }
    fn ensure_nonzero(&mut self, e: E) -> bool {
        let k = self.known_mask(e);
        if k & ZERO == 0 {
            return true;
        }
        if k == ZERO {
            return false;
        }
        let i = self.choose(e, &[ZERO, NEG | POS]);
        i == 1
    }
    /// Branch on sign(e): returns the index of the mask taken.
    pub fn choose(&mut self, e: E, masks: &[u8]) -> usize {
        let k = self.known_mask(e);
        let poss: Vec<usize> = (0..masks.len()).filter(|&i| masks[i] & k != 0).collect();
        if poss.len() == 1 {
            return poss[0];
        }
        if poss.is_empty() {
            std::panic::panic_any(PathAbort("contradiction"));
        }
        self.p.decisions += 1;
        let pos = self.taken.len();
        let pick;
        if pos < self.prefix.len() {
            pick = self.prefix[pos] as usize;
        } else {
            if std::time::Instant::now() > self.p.deadline {
                std::panic::panic_any(PathAbort("deadline"));
            }
            let mut feas = vec![];
            for (n, &i) in poss.iter().enumerate() {
                if n + 1 == poss.len() && feas.is_empty() {
                    feas.push(i);
                    break;
                }
                let r = self.query(&[vec![(e, masks[i] & k)]], &[], self.cfg.feas_ms, &[]).0;
                if r != Res::Unsat {
                    feas.push(i);
                }
            }
            pick = feas[0];
            for &o in &feas[1..] {
                let mut alt = self.taken.clone();
                alt.push(o as u8);
                self.p.alts.push(alt);
            }
        }
        self.taken.push(pick as u8);
        beat();
        let m = masks[pick];
        let nr = self.rules.len();
        self.assume_sign(e, m);
        if pos + 1 >= self.prefix.len() {
            self.trace();
        }
        if self.rules.len() > nr && (self.linear_unsat(&[]) || self.all_unsat()) {
            // what the equality implies contradicts the path
            std::panic::panic_any(PathAbort("infeasible"));
        }
        pick
    }
    /// Isolated runs only: writes inputs that satisfy the path so far, so that a step which never
    /// returns leaves a counterexample behind.
    fn trace(&mut self) {
        let Some(f) = self.cfg.trace.clone() else { return };
        let names = self.value_names();
        let (r, v) = self.query(&[], &[], self.cfg.feas_ms, &names);
        if r != Res::Sat {
            return;
        }
        let ins: Vec<String> = self.atoms.iter().filter(|a| a.input).map(|a| a.name.clone()).collect();
        let mut s = String::new();
        for (n, x) in ins.iter().zip(&v) {
            s.push_str(&format!("{} {:016x} {:?}\n", n, x.to_bits(), x));
        }
        std::fs::write(f, s).ok();
    }
    /// Term whose sign is the sign of x - y (denominators with odd exponents multiplied in).
    pub fn cmp_expr(&mut self, x: Sym, y: Sym) -> Option<E> {
        let d = self.ssub(x, y);
        let (n, den) = self.val(d)?;
        let mut r = n;
        for (f, e) in den {
            if e % 2 == 1 {
                let fe = self.factors[f as usize].e;
                let k = self.known_mask(fe);
                if k & (NEG | ZERO) == 0 {
                    continue;
                }
                if k & (POS | ZERO) == 0 {
                    r = self.neg(r);
                    continue;
                }
                r = self.mul(r, fe);
            }
        }
        Some(r)
    }
    pub fn branch(&mut self, x: Sym, y: Sym, m_true: u8) -> bool {
        if self.loose && m_true == ZERO {
            self.p.decisions += 1;
            let pos = self.taken.len();
            let pick = if pos < self.prefix.len() {
                self.prefix[pos]
            } else {
                let mut alt = self.taken.clone();
                alt.push(1);
                self.p.alts.push(alt);
                0
            };
            self.taken.push(pick);
            if pick == 1 {
                return false;
            }
        }
        match self.cmp_expr(x, y) {
            None => false,
            Some(e) => self.choose(e, &[m_true, 7 & !m_true]) == 0,
        }
    }
    /// Three-way branch: -1, 0, 1.
    pub fn three(&mut self, x: Sym, y: Sym) -> Option<i32> {
        let e = self.cmp_expr(x, y)?;
        Some(match self.choose(e, &[POS, NEG, ZERO]) {
            0 => 1,
            1 => -1,
            _ => 0,
        })
    }

    // ---------------------------------------------------------------- solver queries
    fn atoms_of(&self, es: &[E]) -> BTreeSet<u32> {
        let mut seen = BTreeSet::new();
        let mut out = BTreeSet::new();
        let mut st: Vec<E> = es.to_vec();
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            match self.nodes[e as usize] {
                Node::A(a) => {
                    out.insert(a);
                }
                Node::Add(a, b) | Node::Mul(a, b) => {
                    st.push(a);
                    st.push(b);
                }
                Node::Neg(a) => st.push(a),
                Node::C(_) => {}
            }
        }
        out
    }
    fn emit(&self, es: &[E], out: &mut String, done: &mut BTreeSet<E>) {
        use std::fmt::Write;
        let mut st: Vec<(E, bool)> = es.iter().map(|&e| (e, false)).collect();
        while let Some((e, ready)) = st.pop() {
            if done.contains(&e) {
                continue;
            }
            match self.nodes[e as usize] {
                Node::C(_) | Node::A(_) => {}
                Node::Add(a, b) | Node::Mul(a, b) => {
                    if !ready {
                        st.push((e, true));
                        st.push((a, false));
                        st.push((b, false));
                    } else {
                        let op = if matches!(self.nodes[e as usize], Node::Add(..)) { "+" } else { "*" };
                        writeln!(out, "(define-fun t!{} () Real ({} {} {}))", e, op, self.rf(a), self.rf(b)).unwrap();
                        done.insert(e);
                    }
                }
                Node::Neg(a) => {
                    if !ready {
                        st.push((e, true));
                        st.push((a, false));
                    } else {
                        writeln!(out, "(define-fun t!{} () Real (- {}))", e, self.rf(a)).unwrap();
                        done.insert(e);
                    }
                }
            }
        }
    }
    fn rf(&self, e: E) -> String {
        match &self.nodes[e as usize] {
            Node::C(r) => r.smt(),
            Node::A(a) => self.arf(*a),
            _ => format!("t!{}", e),
        }
    }
    pub fn arf(&self, a: u32) -> String {
        let at = &self.atoms[a as usize];
        if at.int { format!("(to_real |{}|)", at.name) } else { format!("|{}|", at.name) }
    }
    fn lit(&self, e: E, m: u8) -> String {
        let x = self.rf(e);
        match m {
            0 => "false".into(),
            NEG => format!("(< {} 0.0)", x),
            ZERO => format!("(= {} 0.0)", x),
            POS => format!("(> {} 0.0)", x),
            3 => format!("(<= {} 0.0)", x),
            5 => format!("(not (= {} 0.0))", x),
            6 => format!("(>= {} 0.0)", x),
            _ => "true".into(),
        }
    }
    fn clause(&self, c: &[(E, u8)]) -> String {
        if c.len() == 1 {
            return self.lit(c[0].0, c[0].1);
        }
        format!("(or {})", c.iter().map(|x| self.lit(x.0, x.1)).collect::<Vec<_>>().join(" "))
    }
    /// Script asserting everything known on the path (restricted to the connected part) plus `extra`.
    pub fn script(&mut self, extra: &[Vec<(E, u8)>], raw: &[String], all: bool) -> String {
        let mut axioms: Vec<(E, u32)> = vec![];
        for r in self.rules.clone() {
            let ae = self.a(r.atom);
            let k = self.powe(ae, r.exp);
            let l = self.mul(r.d, k);
            let ax = self.sub(l, r.n);
            axioms.push((ax, r.atom));
        }
        let ext: Vec<E> = extra.iter().flatten().map(|x| x.0).collect();
        let mut cl: BTreeSet<u32> = self.atoms_of(&ext);
        let ax_atoms: Vec<BTreeSet<u32>> = axioms.iter().map(|x| self.atoms_of(&[x.0])).collect();
        let f_atoms: Vec<BTreeSet<u32>> =
            self.facts.iter().map(|f| self.atoms_of(&f.iter().map(|x| x.0).collect::<Vec<_>>())).collect();
        if all {
            for a in ax_atoms.iter().chain(f_atoms.iter()) {
                cl.extend(a);
            }
            cl.extend(0..self.atoms.len() as u32);
        }
        let mut use_ax = vec![false; axioms.len()];
        let mut use_f = vec![false; self.facts.len()];
        loop {
            let mut ch = false;
            for i in 0..axioms.len() {
                if !use_ax[i] && (all || cl.contains(&axioms[i].1)) {
                    use_ax[i] = true;
                    cl.extend(&ax_atoms[i]);
                    ch = true;
                }
            }
            for i in 0..use_f.len() {
                let pi = self.pi_atom;
                if !use_f[i] && (all || f_atoms[i].iter().any(|a| *a != pi && cl.contains(a)) || (f_atoms[i].len() == 1 && f_atoms[i].contains(&pi) && cl.contains(&pi))) {
                    use_f[i] = true;
                    cl.extend(&f_atoms[i]);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut s = String::new();
        for &a in &cl {
            let at = &self.atoms[a as usize];
            s.push_str(&format!("(declare-const |{}| {})\n", at.name, if at.int { "Int" } else { "Real" }));
        }
        let mut done = BTreeSet::new();
        let mut roots = ext.clone();
        for i in 0..axioms.len() {
            if use_ax[i] {
                roots.push(axioms[i].0);
            }
        }
        for i in 0..use_f.len() {
            if use_f[i] {
                roots.extend(self.facts[i].iter().map(|x| x.0));
            }
        }
        self.emit(&roots, &mut s, &mut done);
        for i in 0..axioms.len() {
            if use_ax[i] {
                s.push_str(&format!("(assert (= {} 0.0))\n", self.rf(axioms[i].0)));
            }
        }
        for i in 0..use_f.len() {
            if use_f[i] {
                s.push_str(&format!("(assert {})\n", self.clause(&self.facts[i])));
            }
        }
        for c in extra {
            s.push_str(&format!("(assert {})\n", self.clause(c)));
        }
        for r in raw {
            s.push_str(&format!("(assert {})\n", r));
        }
        s
    }
    fn solve(&mut self, s: &str, vals: &[String], ms: u64) -> (Res, Vec<f64>) {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        let key = h.finish();
        if vals.is_empty() {
            if let Some(r) = self.p.cache.get(&key) {
                return (r.clone(), vec![]);
            }
        }
        let t0 = std::time::Instant::now();
        let r = self.p.z3.run(s, vals, ms, &mut self.p.stats);
        let dt = t0.elapsed().as_secs_f64();
        if let Ok(d) = std::env::var("SYM_SLOW") {
            if dt > d.parse::<f64>().unwrap_or(1.0) {
                let f = format!("/tmp/slow_{:x}.smt2", key);
                std::fs::write(&f, format!("{}(check-sat)\n", s)).ok();
                eprintln!("slow {:.1}s {:?} {}", dt, r.0, f);
            }
        }
        if r.0 == Res::Unknown && std::env::var("SYM_UNK").is_ok() {
            let f = format!("/tmp/unk_{:x}.smt2", key);
            std::fs::write(&f, format!("{}(check-sat)\n(get-info :reason-unknown)\n", s)).ok();
            eprintln!("unknown {:.1}s {}", dt, f);
        }
        if r.0 != Res::Unknown || vals.is_empty() {
            self.p.cache.insert(key, r.0.clone());
        }
        r
    }
    /// Linear relaxation: every non-constant monomial of the (reduced) facts becomes a free real,
    /// non-negative when all its exponents are even.  Unsat here implies unsat of the full query.
    fn linear_unsat(&mut self, extra: &[Vec<(E, u8)>]) -> bool {
        use std::fmt::Write;
        let mut names: BTreeMap<Mono, usize> = BTreeMap::new();
        let mut body = String::new();
        let mut nonlinear = false;
        let mut rel: BTreeSet<Mono> = BTreeSet::new();
        let mut cls: Vec<Vec<(Poly, u8)>> = vec![];
        let mut all: Vec<Vec<(E, u8)>> = self.facts.clone();
        for r in self.rules.clone() {
            if self.cst_of(r.d).is_some() {
                continue;
            }
            let ae = self.a(r.atom);
            let k = self.powe(ae, r.exp);
            let l = self.mul(r.d, k);
            let ax = self.sub(l, r.n);
            all.push(vec![(ax, ZERO)]);
        }
        let n0 = all.len();
        all.extend(extra.iter().cloned());
        for c in &all {
            let mut o = vec![];
            for &(e, m) in c {
                let Some(p) = self.poly(e) else { continue };
                if p.t.len() > 400 {
                    continue;
                }
                let q = self.reduce_monic(&p).unwrap_or_else(|| (*p).clone());
                if q.t.len() > 400 {
                    continue;
                }
                o.push((q, m));
            }
            cls.push(if o.len() == c.len() { o } else { vec![] });
        }
        if cls[n0..].iter().any(|c| c.is_empty()) {
            return false;
        }
        // clauses connected to the query through shared monomials
        let mut used = vec![false; cls.len()];
        for i in n0..cls.len() {
            used[i] = true;
            for (p, _) in &cls[i] {
                rel.extend(p.t.keys().filter(|m| !m.is_empty()).cloned());
            }
        }
        if extra.is_empty() {
            for i in 0..n0 {
                used[i] = !cls[i].is_empty();
                for (p, _) in &cls[i] {
                    rel.extend(p.t.keys().filter(|m| !m.is_empty()).cloned());
                }
            }
        }
        loop {
            let mut ch = false;
            for i in 0..n0 {
                if !used[i] && !cls[i].is_empty() && cls[i].iter().any(|(p, _)| p.t.keys().any(|m| rel.contains(m))) {
                    used[i] = true;
                    ch = true;
                    for (p, _) in &cls[i] {
                        rel.extend(p.t.keys().filter(|m| !m.is_empty()).cloned());
                    }
                }
            }
            if !ch {
                break;
            }
        }
        if rel.len() > 3000 {
            return false;
        }
        for (i, m) in rel.iter().enumerate() {
            names.insert(m.clone(), i);
            if m.len() > 1 || m[0].1 > 1 {
                nonlinear = true;
            }
        }
        if !nonlinear {
            return false;
        }
        for (m, i) in &names {
            writeln!(body, "(declare-const m{} Real)", i).unwrap();
            if m.iter().all(|x| x.1 % 2 == 0) {
                writeln!(body, "(assert (>= m{} 0.0))", i).unwrap();
            }
        }
        for (i, c) in cls.iter().enumerate() {
            if !used[i] {
                continue;
            }
            let mut ls = vec![];
            for (p, mk) in c {
                let mut t: Vec<String> = vec!["0.0".into()];
                for (m, k) in &p.t {
                    t.push(if m.is_empty() { k.smt() } else { format!("(* {} m{})", k.smt(), names[m]) });
                }
                let x = if t.len() == 1 { t[0].clone() } else { format!("(+ {})", t.join(" ")) };
                ls.push(match *mk {
                    0 => "false".into(),
                    NEG => format!("(< {} 0.0)", x),
                    ZERO => format!("(= {} 0.0)", x),
                    POS => format!("(> {} 0.0)", x),
                    3 => format!("(<= {} 0.0)", x),
                    5 => format!("(not (= {} 0.0))", x),
                    6 => format!("(>= {} 0.0)", x),
                    _ => "true".to_string(),
                });
            }
            writeln!(body, "(assert (or {}))", ls.join(" ")).unwrap();
        }
        self.solve(&body, &[], 1000).0 == Res::Unsat
    }
    fn all_unsat(&mut self) -> bool {
        let s = self.script(&[], &[], true);
        self.solve(&s, &[], self.cfg.feas_ms).0 == Res::Unsat
    }
    /// Abstraction: sums shared by several constraints become free reals.  Unsat here implies unsat
    /// of the full query.
    fn abstract_unsat(&mut self, extra: &[Vec<(E, u8)>], ms: u64) -> bool {
        use std::fmt::Write;
        let mut cls: Vec<Vec<(E, u8)>> = extra.to_vec();
        for r in self.rules.clone() {
            let ae = self.a(r.atom);
            let k = self.powe(ae, r.exp);
            let l = self.mul(r.d, k);
            let ax = self.sub(l, r.n);
            cls.push(vec![(ax, ZERO)]);
        }
        cls.extend(self.facts.iter().cloned());
        // in-degrees over the shared graph
        let mut indeg: HashMap<E, u32> = HashMap::new();
        let mut st: Vec<E> = vec![];
        for c in &cls {
            for x in c {
                let d = indeg.entry(x.0).or_insert(0);
                *d += 1;
                if *d == 1 {
                    st.push(x.0);
                }
            }
        }
        while let Some(e) = st.pop() {
            let ch: Vec<E> = match self.nodes[e as usize] {
                Node::Add(a, b) | Node::Mul(a, b) => vec![a, b],
                Node::Neg(a) => vec![a],
                _ => vec![],
            };
            for c in ch {
                let d = indeg.entry(c).or_insert(0);
                *d += 1;
                if *d == 1 {
                    st.push(c);
                }
            }
        }
        if indeg.len() > 4000 {
            return false;
        }
        // lowest shared sums over at least three symbols
        let mut order: Vec<E> = indeg.keys().cloned().collect();
        order.sort();
        let mut cut: BTreeSet<E> = BTreeSet::new();
        let mut has: HashMap<E, bool> = HashMap::new();
        for e in order {
            let below = match self.nodes[e as usize] {
                Node::Add(a, b) | Node::Mul(a, b) => has.get(&a) == Some(&true) || has.get(&b) == Some(&true),
                Node::Neg(a) => has.get(&a) == Some(&true),
                _ => false,
            };
            let mut h = below;
            if !below && indeg[&e] >= 2 && matches!(self.nodes[e as usize], Node::Add(..)) && self.atoms_of(&[e]).len() >= 3 {
                cut.insert(e);
                h = true;
            }
            has.insert(e, h);
        }
        if cut.is_empty() {
            return false;
        }
        // symbols (atoms and cuts) of each clause
        let syms = |eng: &Eng, es: &[E]| -> BTreeSet<(bool, u32)> {
            let mut seen = BTreeSet::new();
            let mut out = BTreeSet::new();
            let mut st: Vec<E> = es.to_vec();
            while let Some(e) = st.pop() {
                if !seen.insert(e) {
                    continue;
                }
                if cut.contains(&e) {
                    out.insert((true, e));
                    continue;
                }
                match eng.nodes[e as usize] {
                    Node::A(a) => {
                        out.insert((false, a));
                    }
                    Node::Add(a, b) | Node::Mul(a, b) => {
                        st.push(a);
                        st.push(b);
                    }
                    Node::Neg(a) => st.push(a),
                    Node::C(_) => {}
                }
            }
            out
        };
        let sets: Vec<BTreeSet<(bool, u32)>> = cls.iter().map(|c| syms(self, &c.iter().map(|x| x.0).collect::<Vec<_>>())).collect();
        let ne = extra.len();
        let mut used = vec![false; cls.len()];
        let mut cl: BTreeSet<(bool, u32)> = BTreeSet::new();
        for i in 0..ne {
            used[i] = true;
            cl.extend(&sets[i]);
        }
        if !cl.iter().any(|x| x.0) && cl.len() > 6 {
            return false;
        }
        let pi = (false, self.pi_atom);
        loop {
            let mut ch = false;
            for i in ne..cls.len() {
                if !used[i] && sets[i].iter().any(|x| *x != pi && cl.contains(x)) {
                    used[i] = true;
                    ch = true;
                    cl.extend(&sets[i]);
                }
            }
            if !ch {
                break;
            }
        }
        let mut s = String::new();
        for x in &cl {
            if x.0 {
                writeln!(s, "(declare-const t!{} Real)", x.1).unwrap();
            } else {
                let at = &self.atoms[x.1 as usize];
                writeln!(s, "(declare-const |{}| {})", at.name, if at.int { "Int" } else { "Real" }).unwrap();
            }
        }
        let mut done: BTreeSet<E> = cut.clone();
        let roots: Vec<E> = (0..cls.len()).filter(|&i| used[i]).flat_map(|i| cls[i].iter().map(|x| x.0)).collect();
        self.emit(&roots, &mut s, &mut done);
        for i in 0..cls.len() {
            if used[i] {
                writeln!(s, "(assert {})", self.clause(&cls[i])).unwrap();
            }
        }
        self.solve(&s, &[], (ms / 4).min(2000)).0 == Res::Unsat
    }
    pub fn query(&mut self, extra: &[Vec<(E, u8)>], raw: &[String], ms: u64, vals: &[String]) -> (Res, Vec<f64>) {
        if raw.is_empty() && !extra.is_empty() && self.linear_unsat(extra) {
            return (Res::Unsat, vec![]);
        }
        if raw.is_empty() && !extra.is_empty() && self.abstract_unsat(extra, ms) {
            return (Res::Unsat, vec![]);
        }
        let all = !vals.is_empty();
        beat();
        let s = self.script(extra, raw, all);
        self.solve(&s, vals, ms)
    }
    /// Solver decides a pure polynomial identity lhs == rhs (no assumptions).
    pub fn identity(&mut self, lhs: E, rhs: E) -> bool {
        if lhs == rhs {
            return true;
        }
        let ats = self.atoms_of(&[lhs, rhs]);
        let mut s = String::new();
        for &a in &ats {
            s.push_str(&format!("(declare-const |{}| {})\n", self.atoms[a as usize].name, if self.atoms[a as usize].int { "Int" } else { "Real" }));
        }
        let mut done = BTreeSet::new();
        self.emit(&[lhs, rhs], &mut s, &mut done);
        s.push_str(&format!("(assert (not (= {} {})))\n", self.rf(lhs), self.rf(rhs)));
        let ms = self.cfg.goal_ms.max(20000);
        let (mut r, _) = self.solve(&s, &[], ms);
        if r == Res::Unknown {
            r = oneshot(&["cvc5", "-q"], &s, ms, &mut self.p.stats2);
        } else if self.cfg.second {
            let r2 = oneshot(&["cvc5", "-q"], &s, 10000, &mut self.p.stats2);
            if r2 != Res::Unknown && r2 != r {
                self.p.disagreements += 1;
                r = Res::Unknown;
            }
        }
        if r == Res::Unsat {
            self.p.ident_proved += 1;
        }
        r == Res::Unsat
    }

    // ---------------------------------------------------------------- certificates
    /// Reduction with monic rules only (denominator 1): value-preserving normal form.
    fn reduce_monic(&mut self, p: &Poly) -> Option<Poly> {
        let (r, m, _) = self.reduce(p, true, false)?;
        debug_assert!(m.constant() == Some(Rat::ONE));
        Some(r)
    }
    /// M * p = R + sum c_i * axiom_i.
    pub fn reduce(&mut self, p: &Poly, monic: bool, want: bool) -> Option<(Poly, Poly, BTreeMap<usize, Poly>)> {
        let mut cur = p.clone();
        let mut mult = Poly::one();
        let mut cof: BTreeMap<usize, Poly> = BTreeMap::new();
        let rules: Vec<(usize, Rule)> = self.rules.iter().cloned().enumerate().collect();
        let mut rounds = 0;
        loop {
            rounds += 1;
            if rounds > 400 {
                return None;
            }
            let mut changed = false;
            // linear definitions first, then newest quadratic
            let mut idx: Vec<usize> = (0..rules.len()).collect();
            idx.sort_by_key(|&i| (if rules[i].1.exp == 1 { 0 } else { 1 }, u32::MAX - rules[i].1.atom));
            for i in idx {
                let ru = &rules[i].1;
                let e = cur.degree_in(ru.atom);
                if e < ru.exp {
                    continue;
                }
                let dp = self.poly(ru.d)?;
                let np = self.poly(ru.n)?;
                let isone = dp.constant() == Some(Rat::ONE);
                if monic && !isone {
                    continue;
                }
                let h = e / ru.exp;
                let co = cur.coeffs_in(ru.atom);
                let mut npow = vec![Poly::one()];
                let mut dpow = vec![Poly::one()];
                for k in 0..h as usize {
                    npow.push(npow[k].mul(&np)?);
                    dpow.push(if isone { Poly::one() } else { dpow[k].mul(&dp)? });
                }
                let mut nxt = Poly::zero();
                let mut c = Poly::zero();
                for (k, pk) in &co {
                    let m = (k / ru.exp) as usize;
                    let rest = k % ru.exp;
                    let base = pk.mul(&dpow[h as usize - m])?.mul_atom_pow(ru.atom, rest);
                    nxt = nxt.add(&base.mul(&npow[m])?)?;
                    if want {
                        for t in 0..m {
                            // (d a^e)^t n^(m-1-t)
                            let term = base.mul(&dpow[t])?.mul(&npow[m - 1 - t])?.mul_atom_pow(ru.atom, ru.exp * t as u32);
                            c = c.add(&term)?;
                        }
                    }
                }
                if !isone {
                    let dh = &dpow[h as usize];
                    mult = mult.mul(dh)?;
                    if want {
                        for v in cof.values_mut() {
                            *v = v.mul(dh)?;
                        }
                    }
                }
                if want {
                    let x = cof.entry(rules[i].0).or_default();
                    *x = x.add(&c)?;
                }
                cur = nxt;
                changed = true;
                break;
            }
            if !changed {
                break;
            }
        }
        Some((cur, mult, cof))
    }
    /// Certificate: solver-checked identity  M*num = R + sum cof*axiom.  Returns R (as term) and M's sign-free truth.
    fn certified(&mut self, num: E) -> Option<(Poly, Poly)> {
        let p = self.poly(num)?;
        let (r, m, cof) = self.reduce(&p, false, true)?;
        let me = self.from_poly(&m);
        let lhs = self.mul(me, num);
        let mut rhs = self.from_poly(&r);
        for (i, c) in cof {
            let ru = self.rules[i].clone();
            let ae = self.a(ru.atom);
            let k = self.powe(ae, ru.exp);
            let l = self.mul(ru.d, k);
            let ax = self.sub(l, ru.n);
            let ce = self.from_poly(&c);
            let t = self.mul(ce, ax);
            rhs = self.add(rhs, t);
        }
        if self.identity(lhs, rhs) { Some((r, m)) } else { None }
    }
    pub fn prove_zero(&mut self, num: E) -> Option<String> {
        if let Some(p) = self.poly(num) {
            if p.is_zero() {
                let z = self.c(Rat::ZERO);
                if self.identity(num, z) {
                    return Some("identity".into());
                }
            }
        }
        if let Some((r, _m)) = self.certified(num) {
            // M is a product of denominators already shown non-zero on this path
            if r.is_zero() {
                return Some("identity modulo definitions".into());
            }
        }
        if self.upgrade_halves() {
            if let Some((r, _m)) = self.certified(num) {
                if r.is_zero() {
                    return Some("identity modulo definitions".into());
                }
            }
        }
        None
    }
    /// Half angles with non-zero cosine c: sin = S / (2 c) becomes a rewrite rule.
    fn upgrade_halves(&mut self) -> bool {
        let mut any = false;
        for (ca, sa, big) in std::mem::take(&mut self.halves) {
            let ce = self.a(ca);
            let Some((sn, sd)) = self.val(big) else { continue };
            if !self.implied(ce, NEG | POS) {
                continue;
            }
            for r in self.rules.clone() {
                if r.atom == sa {
                    let ae = self.a(sa);
                    let k = self.powe(ae, r.exp);
                    let l = self.mul(r.d, k);
                    let ax = self.sub(l, r.n);
                    self.facts.push(vec![(ax, ZERO)]);
                }
            }
            self.rules.retain(|r| r.atom != sa);
            let two = self.c(Rat::int(2));
            let de = self.den_expr(&sd);
            let d = self.mul(two, ce);
            let d = self.mul(d, de);
            self.rules.push(Rule { atom: sa, exp: 1, d, n: sn });
            any = true;
        }
        any
    }
    pub fn path_str(&self) -> String {
        self.taken.iter().map(|d| d.to_string()).collect::<Vec<_>>().join("")
    }

    // ---------------------------------------------------------------- goals
    /// goal: sign(e) in mask
    pub fn goal_sign(&mut self, name: &str, e: E, mask: u8) {
        let neg = vec![vec![(e, 7 & !mask)]];
        if mask == ZERO {
            if let Some(h) = self.prove_zero(e) {
                self.record(name, Verdict::Proved, vec![], "", &h);
                return;
            }
        } else if self.known_mask(e) & !mask == 0 {
            // follows from a recorded sign; confirm with the solver below
        }
        self.finish_goal(name, neg, Some(e));
    }
    pub fn goal_false(&mut self, name: &str, note: &str) {
        self.finish_goal_note(name, vec![], None, note);
    }
    fn finish_goal(&mut self, name: &str, neg: Vec<Vec<(E, u8)>>, e: Option<E>) {
        self.finish_goal_note(name, neg, e, "")
    }
    fn finish_goal_note(&mut self, name: &str, mut neg: Vec<Vec<(E, u8)>>, e: Option<E>, note: &str) {
        let und = self.p.goals.iter().filter(|g| g.verdict == Verdict::Undecided).count();
        if std::time::Instant::now() > self.p.deadline || und >= 60 {
            self.record(name, Verdict::Undecided, vec![], &format!("time budget reached {}", note), "");
            return;
        }
        // after several undecided goals in one harness the remaining ones get less time
        let cut = if und >= 12 { 8 } else if und >= 4 { 3 } else { 1 };
        let ms = self.cfg.goal_ms / cut;
        let npins = (self.cfg.pins / cut as usize).max(3);
        let vnames = self.value_names();
        let t0 = std::time::Instant::now();
        let mut tried = 0;
        let mut sat_seen = false;
        if let (Some(e0), false) = (e, self.rules.is_empty()) {
            if neg.len() == 1 && neg[0].len() == 1 {
                let mask = neg[0][0].1;
                if let Some((rp, m)) = self.certified(e0) {
                    let me = self.from_poly(&m);
                    let re = self.from_poly(&rp);
                    let q = if m.constant().map(|c| c.n > 0) == Some(true) { re } else { self.mul(re, me) };
                    if q != e0 && self.query(&[vec![(q, mask)]], &[], ms / 4, &[]).0 == Res::Unsat {
                        self.record(name, Verdict::Proved, vec![], "", "real arithmetic query on a certified reduced form");
                        return;
                    }
                }
            }
        }
        let (r, m) = self.query(&neg, &[], ms, &vnames);
        let mut res = r.clone();
        if r == Res::Sat {
            sat_seen = true;
            tried += 1;
            if self.try_replay(name, &m, note) {
                return;
            }
        }
        if res == Res::Unknown {
            // reduced form, certified
            if let Some(e0) = e {
                if neg.len() == 1 && neg[0].len() == 1 {
                    let mask = neg[0][0].1;
                    if let Some((rp, m)) = self.certified(e0) {
                        let me = self.from_poly(&m);
                        let re = self.from_poly(&rp);
                        // sign(e0) = sign(R/M) = sign(R*M)
                        let q = if m.constant().map(|c| c.n > 0) == Some(true) { re } else { self.mul(re, me) };
                        neg = vec![vec![(q, mask)]];
                        let (r2, m2) = self.query(&neg, &[], ms, &vnames);
                        res = r2.clone();
                        if r2 == Res::Sat {
                            sat_seen = true;
                            tried += 1;
                            if self.try_replay(name, &m2, note) {
                                return;
                            }
                        }
                    }
                }
            }
            if res == Res::Unknown {
                let s = self.script(&neg, &[], false);
                res = oneshot(&["cvc5", "-q", "--nl-cov"], &s, ms, &mut self.p.stats2);
                if res == Res::Sat {
                    res = Res::Unknown;
                }
            }
        }
        if res == Res::Unsat {
            let how = if note.is_empty() { "real arithmetic query" } else { "path infeasible" };
            self.record(name, Verdict::Proved, vec![], "", how);
            return;
        }
        // look for a bounded, well-separated counterexample, then pin inputs
        let mut ladders: Vec<Vec<String>> = vec![];
        let bounds: Vec<String> = self
            .atoms
            .iter()
            .filter(|a| a.input)
            .map(|a| format!("(and (<= |{}| 4.0) (>= |{}| (- 4.0)))", a.name, a.name))
            .collect();
        let mut b = bounds.clone();
        if let Some(e) = e {
            if neg.len() == 1 && neg[0].len() == 1 && neg[0][0].0 == e {
                let x = self.rf(e);
                b.push(format!("(>= (* {} {}) 0.01)", x, x));
            }
        }
        ladders.push(b);
        ladders.push(bounds);
        for l in ladders {
            let (r, m) = self.query(&neg, &l, ms / 2, &vnames);
            if r == Res::Sat {
                sat_seen = true;
                tried += 1;
                if self.try_replay(name, &m, note) {
                    return;
                }
            }
        }
        let mut rng = Rng::new(self.cfg.seed ^ hash_str(name));
        for k in 0..npins {
            if std::time::Instant::now() > self.p.deadline {
                break;
            }
            let pins = self.pin(&mut rng, k);
            let (r, m) = self.query(&neg, &pins, self.cfg.pin_ms, &vnames);
            if r == Res::Sat {
                sat_seen = true;
                tried += 1;
                if self.try_replay(name, &m, note) {
                    return;
                }
            }
        }
        // weakest relaxation: only the part of the path condition that speaks about inputs alone; its
        // models are candidates that count only when the real code violates the goal on them
        let budget = if und >= 12 { 6 } else { 40 };
        for k in 0..budget {
            if std::time::Instant::now() > self.p.deadline {
                break;
            }
            let pins = self.pin(&mut rng, if k % 2 == 0 { 3 * k } else { k });
            let pins: Vec<String> = pins.into_iter().filter(|p| !p.contains("cos") && !p.contains("sin")).collect();
            let s = self.input_script(&pins);
            let vals: Vec<String> = self.atoms.iter().filter(|a| a.input).map(|a| format!("|{}|", a.name)).collect();
            if vals.is_empty() {
                break;
            }
            let (r, m) = self.solve(&s, &vals, self.cfg.pin_ms.min(300));
            if r == Res::Sat {
                tried += 1;
                self.robust = true;
                let hit = self.try_replay(name, &m, note);
                self.robust = false;
                if hit {
                    return;
                }
            }
        }
        let n = format!(
            "not decided: {} ({} model(s) did not reproduce natively; sat seen: {}; {:.1}s) {}",
            if res == Res::Unknown { "solver gave up" } else { "model not reproduced" },
            tried,
            sat_seen,
            t0.elapsed().as_secs_f64(),
            note
        );
        self.record(name, Verdict::Undecided, vec![], &n, "");
    }
    fn input_script(&mut self, raw: &[String]) -> String {
        let ins: BTreeSet<u32> = (0..self.atoms.len() as u32).filter(|&a| self.atoms[a as usize].input).collect();
        let mut s = String::new();
        for &a in &ins {
            s.push_str(&format!("(declare-const |{}| {})\n", self.atoms[a as usize].name, if self.atoms[a as usize].int { "Int" } else { "Real" }));
        }
        let mut cls: Vec<Vec<(E, u8)>> = self.facts.clone();
        for r in self.rules.clone() {
            let ae = self.a(r.atom);
            let k = self.powe(ae, r.exp);
            let l = self.mul(r.d, k);
            let ax = self.sub(l, r.n);
            cls.push(vec![(ax, ZERO)]);
        }
        let cls: Vec<Vec<(E, u8)>> = cls.into_iter().filter(|c| self.atoms_of(&c.iter().map(|x| x.0).collect::<Vec<_>>()).is_subset(&ins)).collect();
        let roots: Vec<E> = cls.iter().flatten().map(|x| x.0).collect();
        let mut done = BTreeSet::new();
        self.emit(&roots, &mut s, &mut done);
        for c in &cls {
            s.push_str(&format!("(assert {})\n", self.clause(c)));
        }
        for r in raw {
            s.push_str(&format!("(assert {})\n", r));
        }
        s
    }
    fn pin(&mut self, rng: &mut Rng, k: usize) -> Vec<String> {
        let mut out = vec![];
        let ruled: BTreeSet<u32> = self.rules.iter().map(|r| r.atom).collect();
        let inputs: Vec<u32> = (0..self.atoms.len() as u32)
            .filter(|&a| self.atoms[a as usize].input && !ruled.contains(&a))
            .collect();
        let free = if inputs.is_empty() || k % 3 == 0 { usize::MAX } else { rng.below(inputs.len() as u64) as usize };
        let mut angle_of: HashMap<u32, (u32, u32, f64)> = HashMap::new();
        for (m, b) in &self.trig {
            if let Some((a, s)) = self.angle_atom(m, b.unit) {
                if b.base_c != u32::MAX {
                    angle_of.insert(a, (b.base_c, b.base_s, s));
                }
            }
        }
        for (i, &a) in inputs.iter().enumerate() {
            if i == free {
                continue;
            }
            let nm = format!("|{}|", self.atoms[a as usize].name);
            if let Some(&(c, s, sc)) = angle_of.get(&a) {
                let t = Rat::new(rng.below(13) as i128 - 6, 1 + rng.below(5) as i128).unwrap();
                let t2 = t.mul(t).unwrap();
                let dn = t2.add(Rat::ONE).unwrap();
                let cv = Rat::ONE.add(t2.neg()).unwrap().mul(dn.inv().unwrap()).unwrap();
                let sv = t.mul(Rat::int(2)).unwrap().mul(dn.inv().unwrap()).unwrap();
                let ang = 2.0 * t.to_f64().atan() / sc;
                let q = Rat::new((ang * 1e12).round() as i128, 1_000_000_000_000).unwrap();
                out.push(format!("(= {} {})", self.arf(c), cv.smt()));
                out.push(format!("(= {} {})", self.arf(s), sv.smt()));
                out.push(format!("(= {} {})", nm, q.smt()));
            } else {
                let v = Rat::new(rng.below(17) as i128 - 8, 1 + rng.below(4) as i128).unwrap();
                let v = if v.n == 0 && rng.below(3) > 0 { Rat::int(3) } else { v };
                out.push(format!("(= {} {})", nm, v.smt()));
            }
        }
        out
    }
    /// monomial = input atom (times pi): returns the atom and the factor s with angle(base) = s * atom
    fn angle_atom(&self, m: &Mono, unit: Rat) -> Option<(u32, f64)> {
        let mut a = None;
        let mut f = unit.to_f64();
        for &(x, e) in m {
            if x == self.pi_atom && e == 1 {
                f *= std::f64::consts::PI;
            } else if e == 1 && a.is_none() && self.atoms[x as usize].input {
                a = Some(x);
            } else {
                return None;
            }
        }
        a.map(|a| (a, f))
    }
    fn value_names(&self) -> Vec<String> {
        let mut v: Vec<String> = self.atoms.iter().filter(|a| a.input).map(|a| format!("|{}|", a.name)).collect();
        for (_, b) in &self.trig {
            if b.base_c != u32::MAX {
                v.push(self.arf(b.base_c));
                v.push(self.arf(b.base_s));
            }
        }
        for (_, b) in &self.exps {
            if b.atom != u32::MAX {
                v.push(self.arf(b.atom));
            }
        }
        if v.is_empty() {
            v.push("1.0".into());
        }
        v
    }
    fn try_replay(&mut self, name: &str, model: &[f64], note: &str) -> bool {
        let ins: Vec<String> = self.atoms.iter().filter(|a| a.input).map(|a| a.name.clone()).collect();
        let mut base: HashMap<String, f64> = HashMap::new();
        for (i, n) in ins.iter().enumerate() {
            base.insert(n.clone(), model.get(i).cloned().unwrap_or(0.0));
        }
        let mut k = ins.len();
        let mut alt = base.clone();
        for (m, b) in &self.trig {
            if b.base_c != u32::MAX {
                let (c, s) = (model.get(k).cloned().unwrap_or(1.0), model.get(k + 1).cloned().unwrap_or(0.0));
                k += 2;
                if let Some((a, f)) = self.angle_atom(m, b.unit) {
                    alt.insert(self.atoms[a as usize].name.clone(), s.atan2(c) / f);
                }
            }
        }
        for (m, b) in &self.exps {
            if b.atom != u32::MAX {
                let x = model.get(k).cloned().unwrap_or(1.0);
                k += 1;
                if let Some((a, f)) = self.angle_atom(m, b.unit) {
                    alt.insert(self.atoms[a as usize].name.clone(), x.ln() / f);
                }
            }
        }
        let tau = std::f64::consts::TAU;
        let mut cands = vec![alt.clone()];
        if alt != base {
            // other representatives of the same angles
            for s in [tau, -tau] {
                let mut c = alt.clone();
                for (m, b) in &self.trig {
                    if let Some((a, f)) = self.angle_atom(m, b.unit) {
                        if b.base_c != u32::MAX {
                            *c.get_mut(&self.atoms[a as usize].name).unwrap() += s / f;
                        }
                    }
                }
                cands.push(c);
            }
            cands.push(base);
        }
        for c in cands {
            if c.values().any(|x| !x.is_finite()) {
                continue;
            }
            let nat = self.native.clone();
            let out = nat(&c);
            if out.skipped {
                continue;
            }
            let hit = out.failed.iter().find(|f| f.0 == name).cloned().or_else(|| out.failed.iter().find(|f| !f.1.starts_with('~')).cloned());
            let what = match (&out.panicked, hit) {
                (Some(p), _) => format!("panicked: {}", p),
                (None, Some((g, d))) => format!("goal {}: {}", g, d),
                _ => continue,
            };
            if self.robust {
                // the candidate is not a model of the whole path: a failure that disappears under small
                // changes of the inputs is rounding at a singularity, not a counterexample
                let mut rng = Rng::new(17);
                let mut ok = 0;
                for _ in 0..6 {
                    let mut ks: Vec<(&String, &f64)> = c.iter().collect();
                    ks.sort_by(|a, b| a.0.cmp(b.0));
                    let d: HashMap<String, f64> = ks.iter().map(|(k, x)| (k.to_string(), **x * (1.0 + 1e-4 * (rng.below(2001) as f64 / 1000.0 - 1.0)))).collect();
                    let o = nat(&d);
                    if !o.skipped && (o.panicked.is_some() || o.failed.iter().any(|f| !f.1.starts_with('~'))) {
                        ok += 1;
                    }
                }
                if ok < 4 {
                    continue;
                }
            }
            let mut v: Vec<(String, f64)> = c.into_iter().collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            self.record(name, Verdict::Refuted, v, &format!("{} {}", what, note), "solver model, reproduced natively");
            return true;
        }
        false
    }
    pub fn record(&mut self, name: &str, v: Verdict, inputs: Vec<(String, f64)>, note: &str, how: &str) {
        let path = self.path_str();
        self.p.seen_goal_names.insert(name.to_string());
        self.p.goals.push(GoalRec { name: name.to_string(), verdict: v, path, inputs, note: note.to_string(), how: how.to_string() });
    }
    pub fn goal_eq(&mut self, name: &str, x: Sym, y: Sym) {
        let d = self.ssub(x, y);
        match self.val(d) {
            None => self.goal_false(name, "result is not finite (division by zero or domain error)"),
            Some((n, _)) => self.goal_sign(name, n, ZERO),
        }
    }
    /// equal to `known` instead of the expected value (recorded defect)?
    pub fn goal_eq_known(&mut self, name: &str, x: Sym, y: Sym, known: Sym) {
        let d = self.ssub(x, y);
        let k = self.ssub(x, known);
        if let (Some((n, _)), Some((kn, _))) = (self.val(d), self.val(k)) {
            if self.prove_zero(n).is_some() {
                self.record(name, Verdict::Proved, vec![], "", "identity");
                return;
            }
            if self.prove_zero(kn).is_some() {
                self.record(name, Verdict::Known, vec![], "matches the recorded defect", "identity");
                return;
            }
        }
        self.goal_eq(name, x, y);
    }
    pub fn goal_cmp(&mut self, name: &str, x: Sym, y: Sym, mask: u8) {
        match self.cmp_expr(x, y) {
            None => self.goal_false(name, "result is not finite"),
            Some(e) => self.goal_sign(name, e, mask),
        }
    }
    pub fn assume_eq(&mut self, x: Sym, y: Sym) {
        let d = self.ssub(x, y);
        if let Some((n, _)) = self.val(d) {
            self.assume_sign(n, ZERO);
        }
    }
    /// Assume atom^2 = rhs for an input atom (monic rule).
    pub fn assume_square(&mut self, x: Sym, rhs: Sym) {
        let (xn, _) = self.val(x).unwrap();
        let Node::A(a) = self.nodes[xn as usize] else { panic!("not an atom") };
        let (rn, rd) = self.val(rhs).unwrap();
        let d = self.den_expr(&rd);
        self.rules.push(Rule { atom: a, exp: 2, d, n: rn });
    }

    // ---------------------------------------------------------------- functions
    pub fn reduced_pair(&mut self, x: Sym) -> Option<(Poly, Poly)> {
        let (n, d) = self.val(x)?;
        let de = self.den_expr(&d);
        let np = self.poly(n)?;
        let dp = self.poly(de)?;
        let np = self.reduce_monic(&np)?;
        let dp = self.reduce_monic(&dp)?;
        Some((np, dp))
    }
    /// Is x = p/q (given as reduced polynomials)?  Solver-checked.
    fn same_value(&mut self, x: Sym, y: Sym) -> bool {
        let d = self.ssub(x, y);
        match self.val(d) {
            None => false,
            Some((n, _)) => {
                let Some(p) = self.poly(n) else { return false };
                let Some((r, _, _)) = self.reduce(&p, false, false) else { return false };
                r.is_zero() && self.prove_zero(n).is_some()
            }
        }
    }
    pub fn sqrt(&mut self, x: Sym) -> Sym {
        let Some((n, den)) = self.val(x) else { return self.bad() };
        let zero = Sym(0);
        // domain
        let e = self.cmp_expr(x, zero).unwrap();
        let k = self.known_mask(e);
        if k == ZERO {
            return zero;
        }
        if k & NEG != 0 {
            let i = self.choose(e, &[NEG, POS | ZERO]);
            if i == 0 {
                return self.bad();
            }
        }
        // exact constant or perfect square
        if let Some((np, dp)) = self.reduced_pair(x) {
            if let (Some(a), Some(b)) = (np.constant(), dp.constant()) {
                if let Some(r) = b.inv().and_then(|bi| a.mul(bi)).and_then(|q| q.sqrt()) {
                    let cand = self.rat(r);
                    let sq = self.smul(cand, cand);
                    if self.same_value(x, sq) {
                        return cand;
                    }
                }
            }
            if let Some(r) = self.as_poly(x).and_then(|q| q.sqrt()) {
                let re = self.from_poly(&r);
                let q = self.mk(re, vec![]);
                let sq = self.smul(q, q);
                if self.same_value(x, sq) {
                    let neg = self.branch(q, zero, NEG);
                    return if neg { self.sneg(q) } else { q };
                }
            }
            // p/q with p*k a square etc.: only when both are squares up to the same constant
            let lead = np.t.iter().next_back().map(|t| *t.1);
            if let Some(l) = lead {
                for k in [Rat::ONE, l] {
                    let Some(ki) = k.inv() else { continue };
                    let (Some(n2), Some(d2)) = (np.scale(ki), dp.scale(ki)) else { continue };
                    if let (Some(pn), Some(pd)) = (n2.sqrt(), d2.sqrt()) {
                        let ne = self.from_poly(&pn);
                        let de = self.from_poly(&pd);
                        let a = self.mk(ne, vec![]);
                        let b = self.mk(de, vec![]);
                        let q = self.sdiv(a, b);
                        if self.is_bad(q) {
                            break;
                        }
                        let sq = self.smul(q, q);
                        if self.same_value(x, sq) {
                            let neg = self.branch(q, zero, NEG);
                            return if neg { self.sneg(q) } else { q };
                        }
                    }
                }
            }
            let olds = self.sqrts.clone();
            for (on, od, s) in &olds {
                if *on == np && *od == dp {
                    return *s;
                }
            }
            for (_, _, s) in &olds {
                let s2 = self.smul(*s, *s);
                if self.same_value(x, s2) {
                    return *s;
                }
            }
        }
        let id = self.new_atom("sqrt", false, false);
        let ae = self.a(id);
        let d = self.den_expr(&den);
        self.rules.push(Rule { atom: id, exp: 2, d, n });
        self.facts.push(vec![(ae, POS | ZERO)]);
        self.set_sign(ae, POS | ZERO);
        // s = 0 iff x = 0
        let ke = self.known_mask(e);
        if ke & ZERO == 0 {
            self.facts.push(vec![(ae, POS)]);
            self.set_sign(ae, POS);
        }
        let s = self.atom_sym(id);
        if let Some((np, dp)) = self.reduced_pair(x) {
            self.sqrts.push((np, dp, s));
        }
        s
    }
    pub fn cbrt(&mut self, x: Sym) -> Sym {
        let Some((n, den)) = self.val(x) else { return self.bad() };
        let id = self.new_atom("cbrt", false, false);
        let d = self.den_expr(&den);
        self.rules.push(Rule { atom: id, exp: 3, d, n });
        self.atom_sym(id)
    }
    pub fn abs(&mut self, x: Sym) -> Sym {
        if self.is_bad(x) {
            return x;
        }
        if self.branch(x, Sym(0), NEG) { self.sneg(x) } else { x }
    }
    /// Candidate polynomial equal to the quotient x (to be confirmed by the caller).
    fn as_poly(&mut self, x: Sym) -> Option<Poly> {
        let (n, den) = self.val(x)?;
        let de = self.den_expr(&den);
        let np = self.poly(n)?;
        let dp = self.poly(de)?;
        if np.t.len() > 2000 || dp.t.len() > 2000 {
            return None;
        }
        if let Some(q) = np.div_exact(&dp) {
            return self.reduce_monic(&q);
        }
        let (rn, mn, _) = self.reduce(&np, false, false)?;
        let (rd, md, _) = self.reduce(&dp, false, false)?;
        let a = rn.mul(&md)?;
        let b = rd.mul(&mn)?;
        if b.is_zero() {
            return None;
        }
        if let Some(q) = a.div_exact(&b) {
            return self.reduce_monic(&q);
        }
        let (a, m1, _) = self.reduce(&a, false, false)?;
        let (b, m2, _) = self.reduce(&b, false, false)?;
        let a = a.mul(&m2)?;
        let b = b.mul(&m1)?;
        if b.is_zero() {
            return None;
        }
        a.div_exact(&b).and_then(|q| self.reduce_monic(&q))
    }
    /// Linear decomposition of an argument into monomials with rational coefficients; the solver
    /// confirms the decomposition. Non-polynomial arguments become one opaque symbol.
    fn arg_terms(&mut self, x: Sym) -> Option<Vec<(Mono, Rat)>> {
        let (n, den) = self.val(x)?;
        if den.is_empty() {
            let p = self.poly(n)?;
            let q = self.reduce_monic(&p).unwrap_or((*p).clone());
            if q.t.len() <= 12 {
                if *p != q {
                    let qe = self.from_poly(&q);
                    let df = self.sub(n, qe);
                    self.prove_zero(df)?;
                } else {
                    let qe = self.from_poly(&q);
                    if !self.identity(n, qe) {
                        return None;
                    }
                }
                return Some(q.t.into_iter().collect());
            }
        }
        if let Some(q) = self.as_poly(x) {
            if q.t.len() <= 12 {
                let qe = self.from_poly(&q);
                let qs = self.mk(qe, vec![]);
                if self.same_value(x, qs) {
                    return Some(q.t.into_iter().collect());
                }
            }
        }
        let (np, dp) = self.reduced_pair(x)?;
        for (a, b, w) in self.opaque.clone() {
            if a == np && b == dp {
                return Some(vec![(vec![(w, 1)], Rat::ONE)]);
            }
            let ws = self.atom_sym(w);
            if self.same_value(x, ws) {
                return Some(vec![(vec![(w, 1)], Rat::ONE)]);
            }
        }
        let w = self.new_atom("arg", false, false);
        let d = self.den_expr(&den);
        let we = self.a(w);
        let l = self.mul(d, we);
        let f = self.sub(l, n);
        self.facts.push(vec![(f, ZERO)]);
        self.opaque.push((np, dp, w));
        Some(vec![(vec![(w, 1)], Rat::ONE)])
    }
    fn cs_mul(&mut self, a: (Sym, Sym), b: (Sym, Sym)) -> (Sym, Sym) {
        let cc = self.smul(a.0, b.0);
        let ss = self.smul(a.1, b.1);
        let cs = self.smul(a.0, b.1);
        let sc = self.smul(a.1, b.0);
        (self.ssub(cc, ss), self.sadd(cs, sc))
    }
    fn cs_pow(&mut self, a: (Sym, Sym), k: i128) -> (Sym, Sym) {
        let mut r = (Sym(1), Sym(0));
        for _ in 0..k.unsigned_abs() {
            r = self.cs_mul(r, a);
        }
        if k < 0 {
            let n = self.sneg(r.1);
            r = (r.0, n);
        }
        r
    }
    /// (cos x, sin x)
    pub fn cos_sin(&mut self, x: Sym) -> (Sym, Sym) {
        let Some(terms) = self.arg_terms(x) else {
            let b = self.bad();
            return (b, b);
        };
        let mut r = (Sym(1), Sym(0));
        let many = terms.len();
        for (m, q) in terms {
            if m.len() == 1 && m[0] == (self.pi_atom, 1) {
                // exact multiples of pi/4 and pi/6
                let q12 = q.mul(Rat::int(12)).unwrap();
                if q12.d == 1 && (q12.n % 3 == 0 || q12.n % 2 == 0) {
                    let k = q12.n.rem_euclid(24);
                    let v = self.pi_table(k);
                    r = self.cs_mul(r, v);
                    continue;
                }
            }
            let b = self.trig_base(&m, q, if many == 1 { Some(x) } else { None });
            let k = q.mul(b.unit.inv().unwrap()).unwrap();
            if k.d != 1 || k.n.abs() > 64 {
                let b = self.bad();
                return (b, b);
            }
            let v = self.cs_pow((b.c, b.s), k.n);
            r = self.cs_mul(r, v);
        }
        r
    }
    fn pi_table(&mut self, k: i128) -> (Sym, Sym) {
        // angle = k * pi/12
        let z = Sym(0);
        let o = Sym(1);
        let mo = self.sneg(o);
        let h = self.rat(Rat::new(1, 2).unwrap());
        let two = self.rat(Rat::int(2));
        let three = self.rat(Rat::int(3));
        let (quad, rest) = (k / 6, k % 6);
        let base = match rest {
            0 => (o, z),
            3 => {
                let s = self.sqrt(two);
                let v = self.smul(s, h);
                (v, v)
            }
            2 => {
                let s = self.sqrt(three);
                (self.smul(s, h), h)
            }
            4 => {
                let s = self.sqrt(three);
                (h, self.smul(s, h))
            }
            _ => unreachable!(),
        };
        let rot = [(o, z), (z, o), (mo, z), (z, mo)][quad as usize];
        self.cs_mul(rot, base)
    }
    fn trig_base(&mut self, m: &Mono, q: Rat, arg: Option<Sym>) -> TrigBase {
        let q = if q.n < 0 { q.neg() } else { q };
        if let Some(i) = self.trig.iter().position(|x| x.0 == *m) {
            let b = self.trig[i].1.clone();
            let k = q.mul(b.unit.inv().unwrap()).unwrap();
            if k.d == 1 {
                return b;
            }
            // refine: new unit = unit / k.d
            let r = k.d;
            let unit = b.unit.mul(Rat::new(1, r).unwrap()).unwrap();
            let (c, s, ca, sa) = self.new_cs(m, unit);
            let (cc, ss) = self.cs_pow((c, s), r);
            // old atoms are eliminated in favour of the new ones; half angles of known values use the
            // inverse direction
            let mut done = false;
            if let (Some((cn, cd)), Some((sn, sd))) = (self.val(b.c), self.val(b.s)) {
                if let (Node::A(oc), Node::A(os)) = (self.nodes[cn as usize].clone(), self.nodes[sn as usize].clone()) {
                    if cd.is_empty() && sd.is_empty() && self.rules.iter().filter(|x| x.atom == oc).count() == 0 {
                        self.rules.retain(|x| x.atom != os);
                        let (cce, _) = self.val(cc).unwrap();
                        let (sse, _) = self.val(ss).unwrap();
                        let one = self.c(Rat::ONE);
                        self.rules.push(Rule { atom: oc, exp: 1, d: one, n: cce });
                        self.rules.push(Rule { atom: os, exp: 1, d: one, n: sse });
                        done = true;
                    }
                }
            }
            if !done {
                if r == 2 {
                    // c^2 = (1 + C)/2, s^2 = (1 - C)/2, 2 s c = S
                    self.rules.retain(|x| x.atom != sa && x.atom != ca);
                    let half = self.rat(Rat::new(1, 2).unwrap());
                    let a = self.sadd(Sym(1), b.c);
                    let a = self.smul(a, half);
                    let (an, ad) = self.val(a).unwrap();
                    let ade = self.den_expr(&ad);
                    self.rules.push(Rule { atom: ca, exp: 2, d: ade, n: an });
                    let a = self.ssub(Sym(1), b.c);
                    let a = self.smul(a, half);
                    let (an, ad) = self.val(a).unwrap();
                    let ade = self.den_expr(&ad);
                    self.rules.push(Rule { atom: sa, exp: 2, d: ade, n: an });
                    let sc = self.smul(c, s);
                    let two = self.rat(Rat::int(2));
                    let sc2 = self.smul(sc, two);
                    if let Some((sn, sd)) = self.val(b.s) {
                        if let Node::A(os) = self.nodes[sn as usize].clone() {
                            if sd.is_empty() {
                                self.rules.retain(|x| x.atom != os);
                                let one = self.c(Rat::ONE);
                                let (n2, _) = self.val(sc2).unwrap();
                                self.rules.push(Rule { atom: os, exp: 1, d: one, n: n2 });
                            }
                        }
                    }
                    let df = self.ssub(sc2, b.s);
                    let (dn, _) = self.val(df).unwrap();
                    self.facts.push(vec![(dn, ZERO)]);
                    self.halves.push((ca, sa, b.s));
                } else {
                    let d1 = self.ssub(cc, b.c);
                    let d2 = self.ssub(ss, b.s);
                    let (n1, _) = self.val(d1).unwrap();
                    let (n2, _) = self.val(d2).unwrap();
                    self.facts.push(vec![(n1, ZERO)]);
                    self.facts.push(vec![(n2, ZERO)]);
                }
            }
            let nb = TrigBase { unit, c, s, base_c: ca, base_s: sa };
            self.trig[i].1 = nb.clone();
            self.quadrant_facts(m, unit, c, s);
            return nb;
        }
        let _ = arg;
        let (c, s, ca, sa) = self.new_cs(m, q);
        let b = TrigBase { unit: q, c, s, base_c: ca, base_s: sa };
        self.trig.push((m.clone(), b.clone()));
        self.quadrant_facts(m, q, c, s);
        b
    }
    fn new_cs(&mut self, _m: &Mono, _unit: Rat) -> (Sym, Sym, u32, u32) {
        let ca = self.new_atom("cos", false, false);
        let sa = self.new_atom("sin", false, false);
        let c = self.atom_sym(ca);
        let s = self.atom_sym(sa);
        let c2 = self.smul(c, c);
        let n = self.ssub(Sym(1), c2);
        let (ne, _) = self.val(n).unwrap();
        let one = self.c(Rat::ONE);
        self.rules.push(Rule { atom: sa, exp: 2, d: one, n: ne });
        // explicit bounds help the solver
        let ce = self.a(ca);
        let se = self.a(sa);
        for e in [ce, se] {
            let a = self.sub(one, e);
            let b = self.add(one, e);
            self.facts.push(vec![(a, POS | ZERO)]);
            self.facts.push(vec![(b, POS | ZERO)]);
        }
        (c, s, ca, sa)
    }
    fn quadrant_facts(&mut self, m: &Mono, unit: Rat, c: Sym, s: Sym) {
        let pi = self.pi();
        let mut p = Poly::zero();
        p.add_term(m.clone(), unit);
        let ae = self.from_poly(&p);
        let a = self.mk(ae, vec![]);
        let (pe, _) = self.val(pi).unwrap();
        let half = self.c(Rat::new(1, 2).unwrap());
        let hp = self.mul(pe, half);
        let (ce, _) = self.val(c).unwrap();
        let (se, _) = self.val(s).unwrap();
        let _ = a;
        let a_m_pi = self.sub(ae, pe);
        let a_p_pi = self.add(ae, pe);
        let a_m_h = self.sub(ae, hp);
        let a_p_h = self.add(ae, hp);
        // 0 < a < pi => sin > 0
        self.facts.push(vec![(ae, NEG | ZERO), (a_m_pi, POS | ZERO), (se, POS)]);
        // -pi < a < 0 => sin < 0
        self.facts.push(vec![(ae, POS | ZERO), (a_p_pi, NEG | ZERO), (se, NEG)]);
        // -pi/2 < a < pi/2 => cos > 0
        self.facts.push(vec![(a_p_h, NEG | ZERO), (a_m_h, POS | ZERO), (ce, POS)]);
        // pi/2 < |a| <= pi => cos < 0
        self.facts.push(vec![(a_m_h, NEG | ZERO), (a_m_pi, POS), (ce, NEG)]);
        self.facts.push(vec![(a_p_h, POS | ZERO), (a_p_pi, NEG), (ce, NEG)]);
        // a = 0 => sin = 0, cos = 1
        let one = self.c(Rat::ONE);
        let c1 = self.sub(ce, one);
        self.facts.push(vec![(ae, NEG | POS), (se, ZERO)]);
        self.facts.push(vec![(ae, NEG | POS), (c1, ZERO)]);
        // |a| < 2 pi, a /= 0 => cos < 1
        let two = self.c(Rat::int(2));
        let tp = self.mul(two, pe);
        let a_m_2 = self.sub(ae, tp);
        let a_p_2 = self.add(ae, tp);
        self.facts.push(vec![(ae, ZERO), (a_m_2, POS | ZERO), (a_p_2, NEG | ZERO), (c1, NEG)]);
    }
    /// New angle with known cosine and sine, lo <= A <= hi given by facts pushed by the caller.
    fn new_angle(&mut self, name: &str, c: Sym, s: Sym) -> Sym {
        // same cosine and sine as an existing inverse-trig result of the same kind
        for (m, b) in self.trig.clone() {
            if m.len() == 1 && b.unit == Rat::ONE {
                let nm = self.atoms[m[0].0 as usize].name.clone();
                if nm.split('!').next() == Some(name) && self.same_value(b.c, c) && self.same_value(b.s, s) {
                    return self.atom_sym(m[0].0);
                }
            }
        }
        let w = self.new_atom(name, false, false);
        let m = vec![(w, 1)];
        self.trig.push((m.clone(), TrigBase { unit: Rat::ONE, c, s, base_c: u32::MAX, base_s: u32::MAX }));
        self.atom_sym(w)
    }
    fn fact_cmp(&mut self, x: Sym, y: Sym, m: u8) {
        if let Some(e) = self.cmp_expr(x, y) {
            self.facts.push(vec![(e, m)]);
            self.set_sign(e, m);
        }
    }
    fn angle_quadrants(&mut self, a: Sym, c: Sym, s: Sym) {
        // signs of known cos/sin values against the angle (principal range |a| <= pi)
        let pi = self.pi();
        let half = self.rat(Rat::new(1, 2).unwrap());
        let hp = self.smul(pi, half);
        let mhp = self.sneg(hp);
        let z = Sym(0);
        let (Some(ce), Some(se), Some(ae)) = (self.cmp_expr(c, z), self.cmp_expr(s, z), self.cmp_expr(a, z)) else { return };
        let api = self.cmp_expr(a, pi).unwrap();
        let ah = self.cmp_expr(a, hp).unwrap();
        let amh = self.cmp_expr(a, mhp).unwrap();
        // sin > 0 <=> 0 < a < pi ; sin < 0 <=> a < 0 ; sin = 0 <=> a in {0, pi}
        self.facts.push(vec![(se, NEG | ZERO), (ae, POS)]);
        self.facts.push(vec![(se, NEG | ZERO), (api, NEG)]);
        self.facts.push(vec![(se, POS | ZERO), (ae, NEG)]);
        self.facts.push(vec![(se, POS | NEG), (ae, ZERO), (api, ZERO)]);
        // cos > 0 <=> |a| < pi/2
        self.facts.push(vec![(ce, NEG | ZERO), (ah, NEG)]);
        self.facts.push(vec![(ce, NEG | ZERO), (amh, POS)]);
        self.facts.push(vec![(ce, POS | ZERO), (ah, POS), (amh, NEG)]);
        self.facts.push(vec![(ce, POS | NEG), (ah, ZERO), (amh, ZERO)]);
    }
    pub fn acos(&mut self, x: Sym) -> Sym {
        let key = (1, x.0, 0);
        if let Some(&a) = self.angles.get(&key) {
            return a;
        }
        let a = self.acos_new(x);
        self.angles.insert(key, a);
        a
    }
    fn acos_new(&mut self, x: Sym) -> Sym {
        if self.is_bad(x) {
            return x;
        }
        let one = Sym(1);
        let mone = self.sneg(one);
        if self.branch(x, one, POS) || self.branch(x, mone, NEG) {
            return self.bad();
        }
        let x2 = self.smul(x, x);
        let d = self.ssub(one, x2);
        let s = self.sqrt(d);
        let a = self.new_angle("acos", x, s);
        let pi = self.pi();
        self.fact_cmp(a, Sym(0), POS | ZERO);
        self.fact_cmp(a, pi, NEG | ZERO);
        self.angle_quadrants(a, x, s);
        a
    }
    pub fn asin(&mut self, x: Sym) -> Sym {
        let key = (2, x.0, 0);
        if let Some(&a) = self.angles.get(&key) {
            return a;
        }
        let a = self.asin_new(x);
        self.angles.insert(key, a);
        a
    }
    fn asin_new(&mut self, x: Sym) -> Sym {
        if self.is_bad(x) {
            return x;
        }
        let one = Sym(1);
        let mone = self.sneg(one);
        if self.branch(x, one, POS) || self.branch(x, mone, NEG) {
            return self.bad();
        }
        let x2 = self.smul(x, x);
        let d = self.ssub(one, x2);
        let c = self.sqrt(d);
        let a = self.new_angle("asin", c, x);
        let pi = self.pi();
        let half = self.rat(Rat::new(1, 2).unwrap());
        let hp = self.smul(pi, half);
        let mhp = self.sneg(hp);
        self.fact_cmp(a, hp, NEG | ZERO);
        self.fact_cmp(a, mhp, POS | ZERO);
        self.angle_quadrants(a, c, x);
        a
    }
    pub fn atan(&mut self, x: Sym) -> Sym {
        let key = (3, x.0, 0);
        if let Some(&a) = self.angles.get(&key) {
            return a;
        }
        let a = self.atan_new(x);
        self.angles.insert(key, a);
        a
    }
    fn atan_new(&mut self, x: Sym) -> Sym {
        if self.is_bad(x) {
            return x;
        }
        let x2 = self.smul(x, x);
        let d = self.sadd(Sym(1), x2);
        let r = self.sqrt(d);
        let c = self.sdiv(Sym(1), r);
        let s = self.sdiv(x, r);
        let a = self.new_angle("atan", c, s);
        let pi = self.pi();
        let half = self.rat(Rat::new(1, 2).unwrap());
        let hp = self.smul(pi, half);
        let mhp = self.sneg(hp);
        self.fact_cmp(a, hp, NEG);
        self.fact_cmp(a, mhp, POS);
        self.angle_quadrants(a, c, s);
        a
    }
    pub fn atan2(&mut self, y: Sym, x: Sym) -> Sym {
        let key = (0, y.0, x.0);
        if let Some(&a) = self.angles.get(&key) {
            return a;
        }
        let a = self.atan2_new(y, x);
        self.angles.insert(key, a);
        a
    }
    fn atan2_new(&mut self, y: Sym, x: Sym) -> Sym {
        if self.is_bad(x) || self.is_bad(y) {
            return self.bad();
        }
        let x2 = self.smul(x, x);
        let y2 = self.smul(y, y);
        let d = self.sadd(x2, y2);
        let r = self.sqrt(d);
        if self.cmp_expr(r, Sym(0)).is_some_and(|d| self.choose(d, &[ZERO, 7 & !ZERO]) == 0) {
            return Sym(0);
        }
        let c = self.sdiv(x, r);
        let s = self.sdiv(y, r);
        let a = self.new_angle("atan2", c, s);
        let pi = self.pi();
        let mpi = self.sneg(pi);
        self.fact_cmp(a, pi, NEG | ZERO);
        self.fact_cmp(a, mpi, POS);
        self.angle_quadrants(a, c, s);
        a
    }
    pub fn exp(&mut self, x: Sym) -> Sym {
        let Some(terms) = self.arg_terms(x) else { return self.bad() };
        let mut r = Sym(1);
        for (m, q) in terms {
            let (neg, q) = if q.n < 0 { (true, q.neg()) } else { (false, q) };
            let b = self.exp_base(&m, q);
            let k = q.mul(b.unit.inv().unwrap()).unwrap();
            if k.d != 1 || k.n > 64 {
                return self.bad();
            }
            for _ in 0..k.n {
                r = if neg { self.sdiv(r, b.v) } else { self.smul(r, b.v) };
            }
        }
        r
    }
    fn exp_base(&mut self, m: &Mono, q: Rat) -> ExpBase {
        if let Some(i) = self.exps.iter().position(|x| x.0 == *m) {
            let b = self.exps[i].1.clone();
            let k = q.mul(b.unit.inv().unwrap()).unwrap();
            if k.d == 1 {
                return b;
            }
            let r = k.d;
            let unit = b.unit.mul(Rat::new(1, r).unwrap()).unwrap();
            let nb = if r == 2 {
                let v = self.sqrt(b.v);
                ExpBase { unit, v, atom: u32::MAX }
            } else {
                let id = self.new_atom("exp", false, false);
                let ae = self.a(id);
                self.facts.push(vec![(ae, POS)]);
                self.set_sign(ae, POS);
                let (n, den) = self.val(b.v).unwrap();
                let d = self.den_expr(&den);
                self.rules.push(Rule { atom: id, exp: r as u32, d, n });
                ExpBase { unit, v: self.atom_sym(id), atom: id }
            };
            self.exps[i].1 = nb.clone();
            return nb;
        }
        let id = self.new_atom("exp", false, false);
        let ae = self.a(id);
        self.facts.push(vec![(ae, POS)]);
        self.set_sign(ae, POS);
        // monotonicity against 1: sign(exp(a) - 1) = sign(a)
        let mut p = Poly::zero();
        p.add_term(m.clone(), q);
        let arg = self.from_poly(&p);
        let one = self.c(Rat::ONE);
        let d = self.sub(ae, one);
        self.facts.push(vec![(arg, NEG | ZERO), (d, POS)]);
        self.facts.push(vec![(arg, POS | ZERO), (d, NEG)]);
        self.facts.push(vec![(arg, POS | NEG), (d, ZERO)]);
        let b = ExpBase { unit: q, v: self.atom_sym(id), atom: id };
        self.exps.push((m.clone(), b.clone()));
        b
    }
    pub fn ln(&mut self, x: Sym) -> Sym {
        if self.is_bad(x) {
            return x;
        }
        let z = Sym(0);
        let i = {
            let e = self.cmp_expr(x, z).unwrap();
            self.choose(e, &[POS, NEG | ZERO])
        };
        if i == 1 {
            return self.bad();
        }
        if self.same_value(x, Sym(1)) {
            return z;
        }
        // ln of a known exponential
        for (m, b) in self.exps.clone() {
            let mut pw = Sym(1);
            for k in 1..=4 {
                pw = self.smul(pw, b.v);
                if self.same_value(x, pw) {
                    let mut p = Poly::zero();
                    p.add_term(m.clone(), b.unit.mul(Rat::int(k)).unwrap());
                    let e = self.from_poly(&p);
                    return self.mk(e, vec![]);
                }
            }
        }
        let Some((np, dp)) = self.reduced_pair(x) else { return self.bad() };
        for (a, b, l) in self.lns.clone() {
            if a == np && b == dp {
                return l;
            }
        }
        let w = self.new_atom("ln", false, false);
        let s = self.atom_sym(w);
        self.lns.push((np, dp, s));
        self.exps.push((vec![(w, 1)], ExpBase { unit: Rat::ONE, v: x, atom: u32::MAX }));
        // sign(ln x) = sign(x - 1)
        if let (Some(e1), Some(e2)) = (self.cmp_expr(s, z), self.cmp_expr(x, Sym(1))) {
            for m in [NEG, ZERO, POS] {
                self.facts.push(vec![(e2, 7 & !m), (e1, m)]);
            }
        }
        s
    }
    /// Largest integer <= x (kind 0) or x rounded toward zero (kind 1), as an integer symbol.
    fn integral(&mut self, x: Sym, kind: u8) -> Sym {
        let Some((n, d)) = self.val(x) else { return self.bad() };
        if d.is_empty() {
            if let Some(c) = self.poly(n).and_then(|p| p.constant()) {
                return self.rat(Rat::int(if kind == 0 { c.n.div_euclid(c.d) } else { c.n / c.d }));
            }
        }
        for (k, y, r) in self.ints.clone() {
            if k == kind && (y.0 == x.0 || self.same_value(x, y)) {
                return r;
            }
        }
        let k = self.new_atom("int", false, true);
        let ks = self.atom_sym(k);
        let k1 = self.sadd(ks, Sym(1));
        if kind == 0 {
            self.fact_cmp(ks, x, NEG | ZERO);
            self.fact_cmp(x, k1, NEG);
        } else {
            let mone = self.sneg(Sym(1));
            let km = self.sadd(ks, mone);
            if let (Some(s), Some(a), Some(b), Some(c)) =
                (self.cmp_expr(x, Sym(0)), self.cmp_expr(ks, x), self.cmp_expr(x, k1), self.cmp_expr(km, x))
            {
                // x >= 0: k <= x < k + 1;  x <= 0: k - 1 < x <= k
                self.facts.push(vec![(s, NEG), (a, NEG | ZERO)]);
                self.facts.push(vec![(s, NEG), (b, NEG)]);
                self.facts.push(vec![(s, POS), (c, NEG)]);
                self.facts.push(vec![(s, POS), (a, POS | ZERO)]);
            }
        }
        self.ints.push((kind, x, ks));
        ks
    }
    pub fn floor(&mut self, x: Sym) -> Sym {
        self.integral(x, 0)
    }
    pub fn trunc(&mut self, x: Sym) -> Sym {
        self.integral(x, 1)
    }
    /// Goal: x is an integer (an integer combination of the integer symbols on this path).
    pub fn goal_int(&mut self, name: &str, x: Sym) {
        if let Some((np, dp)) = self.reduced_pair(x) {
            if let Some(q) = np.div_exact(&dp) {
                let ok = q.t.iter().all(|(m, c)| c.d == 1 && m.iter().all(|(a, _)| self.atoms[*a as usize].int));
                if ok {
                    let qe = self.from_poly(&q);
                    let qs = self.mk(qe, vec![]);
                    self.goal_eq(name, x, qs);
                    return;
                }
            }
        }
        self.goal_false(name, "not an integer multiple");
    }
    pub fn const_f64(&mut self, s: Sym) -> Option<f64> {
        let (n, d) = self.val(s)?;
        if !d.is_empty() {
            return None;
        }
        if let Node::A(a) = self.nodes[n as usize] {
            let nm = &self.atoms[a as usize].name;
            if nm.len() == 17 && nm.starts_with('k') {
                return u64::from_str_radix(&nm[1..], 16).ok().map(f64::from_bits);
            }
        }
        let p = self.poly(n)?;
        let c = p.constant()?;
        Some(c.to_f64())
    }
    /// Non-negative p-th root of a non-negative value.
    pub fn root(&mut self, x: Sym, p: u32) -> Sym {
        if p == 1 {
            return x;
        }
        if p == 2 {
            return self.sqrt(x);
        }
        let Some((n, den)) = self.val(x) else { return self.bad() };
        let e = self.cmp_expr(x, Sym(0)).unwrap();
        if self.choose(e, &[NEG, POS | ZERO]) == 0 {
            return self.bad();
        }
        let id = self.new_atom("root", false, false);
        let ae = self.a(id);
        let d = self.den_expr(&den);
        self.rules.push(Rule { atom: id, exp: p, d, n });
        self.facts.push(vec![(ae, POS | ZERO)]);
        self.set_sign(ae, POS | ZERO);
        self.atom_sym(id)
    }
}

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
