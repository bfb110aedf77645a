//! Sparse multivariate polynomials with exact (checked i128) rational coefficients.
//! They are only used to *find* certificates and to recognise equal terms; every identity that a
//! verdict rests on is discharged by the SMT solver on the unexpanded terms.
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(mut a: i128, mut b: i128) -> i128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a.abs()
}
impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 || n == i128::MIN || d == i128::MIN {
            return None;
        }
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Some(Rat { n: s * n / g, d: s * d / g })
    }
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        if self.d == 1 && o.d == 1 {
            return Some(Rat { n: self.n.checked_add(o.n)?, d: 1 });
        }
        let a = self.n.checked_mul(o.d)?;
        let b = o.n.checked_mul(self.d)?;
        Rat::new(a.checked_add(b)?, self.d.checked_mul(o.d)?)
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        if self.d == 1 && o.d == 1 {
            return Some(Rat { n: self.n.checked_mul(o.n)?, d: 1 });
        }
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Some(Rat {
            n: (self.n / g1).checked_mul(o.n / g2)?,
            d: (self.d / g2).checked_mul(o.d / g1)?,
        })
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn inv(self) -> Option<Rat> {
        Rat::new(self.d, self.n)
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn to_f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    /// Exact conversion, if the value fits comfortably.
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        let mut d: i128 = 1;
        let mut v = x;
        let mut k = 0;
        while v != v.trunc() {
            v *= 2.0;
            d = d.checked_mul(2)?;
            k += 1;
            if k > 120 {
                return None;
            }
        }
        if v.abs() > 1e36 {
            return None;
        }
        Rat::new(v as i128, d)
    }
    /// Rational square root.
    pub fn sqrt(self) -> Option<Rat> {
        fn isqrt(x: i128) -> Option<i128> {
            if x < 0 {
                return None;
            }
            let mut r = (x as f64).sqrt() as i128;
            while r * r > x {
                r -= 1;
            }
            while (r + 1) * (r + 1) <= x {
                r += 1;
            }
            if r * r == x { Some(r) } else { None }
        }
        Rat::new(isqrt(self.n)?, isqrt(self.d)?)
    }
    pub fn smt(self) -> String {
        let a = if self.d == 1 {
            format!("{}.0", self.n.unsigned_abs())
        } else {
            format!("(/ {}.0 {}.0)", self.n.unsigned_abs(), self.d)
        };
        if self.n < 0 { format!("(- {})", a) } else { a }
    }
}

/// Monomial: sorted list of (atom, exponent).
pub type Mono = Vec<(u32, u32)>;

pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 == b[j].0 {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        } else if a[i].0 < b[j].0 {
            r.push(a[i]);
            i += 1;
        } else {
            r.push(b[j]);
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}

pub const MAX_TERMS: usize = 60_000;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, PartialOrd, Ord)]
pub struct Poly {
    pub t: BTreeMap<Mono, Rat>,
}

impl Poly {
    pub fn zero() -> Poly {
        Poly::default()
    }
    pub fn cst(r: Rat) -> Poly {
        let mut p = Poly::default();
        if !r.is_zero() {
            p.t.insert(vec![], r);
        }
        p
    }
    pub fn one() -> Poly {
        Poly::cst(Rat::ONE)
    }
    pub fn atom(a: u32) -> Poly {
        let mut p = Poly::default();
        p.t.insert(vec![(a, 1)], Rat::ONE);
        p
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty()
    }
    pub fn constant(&self) -> Option<Rat> {
        if self.t.is_empty() {
            return Some(Rat::ZERO);
        }
        if self.t.len() == 1 {
            let (m, c) = self.t.iter().next().unwrap();
            if m.is_empty() {
                return Some(*c);
            }
        }
        None
    }
    pub fn add_term(&mut self, m: Mono, c: Rat) -> Option<()> {
        if c.is_zero() {
            return Some(());
        }
        use std::collections::btree_map::Entry;
        match self.t.entry(m) {
            Entry::Vacant(v) => {
                v.insert(c);
            }
            Entry::Occupied(mut o) => {
                let s = o.get().add(c)?;
                if s.is_zero() {
                    o.remove();
                } else {
                    *o.get_mut() = s;
                }
            }
        }
        Some(())
    }
    pub fn add(&self, o: &Poly) -> Option<Poly> {
        if self.t.len() < o.t.len() {
            return o.add(self);
        }
        let mut r = self.clone();
        for (m, c) in &o.t {
            r.add_term(m.clone(), *c)?;
        }
        Some(r)
    }
    pub fn neg(&self) -> Poly {
        Poly { t: self.t.iter().map(|(m, c)| (m.clone(), c.neg())).collect() }
    }
    pub fn sub(&self, o: &Poly) -> Option<Poly> {
        self.add(&o.neg())
    }
    pub fn scale(&self, k: Rat) -> Option<Poly> {
        if k.is_zero() {
            return Some(Poly::zero());
        }
        let mut r = Poly::default();
        for (m, c) in &self.t {
            r.t.insert(m.clone(), c.mul(k)?);
        }
        Some(r)
    }
    pub fn mul(&self, o: &Poly) -> Option<Poly> {
        if self.t.len() > 600 && o.t.len() > 600 {
            return None;
        }
        let mut r = Poly::default();
        for (m1, c1) in &self.t {
            for (m2, c2) in &o.t {
                r.add_term(mono_mul(m1, m2), c1.mul(*c2)?)?;
            }
            if r.t.len() > MAX_TERMS {
                return None;
            }
        }
        Some(r)
    }
    pub fn pow(&self, n: u32) -> Option<Poly> {
        let mut r = Poly::one();
        for _ in 0..n {
            r = r.mul(self)?;
        }
        Some(r)
    }
    pub fn degree_in(&self, a: u32) -> u32 {
        self.t
            .keys()
            .flat_map(|m| m.iter())
            .filter(|x| x.0 == a)
            .map(|x| x.1)
            .max()
            .unwrap_or(0)
    }
    /// Coefficients with respect to atom `a`: map exponent -> polynomial in the others.
    pub fn coeffs_in(&self, a: u32) -> BTreeMap<u32, Poly> {
        let mut r: BTreeMap<u32, Poly> = BTreeMap::new();
        for (m, c) in &self.t {
            let mut e = 0;
            let rest: Mono = m
                .iter()
                .filter(|x| {
                    if x.0 == a {
                        e = x.1;
                        false
                    } else {
                        true
                    }
                })
                .cloned()
                .collect();
            r.entry(e).or_default().t.insert(rest, *c);
        }
        r
    }
    pub fn mul_atom_pow(&self, a: u32, e: u32) -> Poly {
        if e == 0 {
            return self.clone();
        }
        let mm = vec![(a, e)];
        Poly { t: self.t.iter().map(|(m, c)| (mono_mul(m, &mm), *c)).collect() }
    }
    pub fn atoms(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.t.keys().flat_map(|m| m.iter().map(|x| x.0)).collect();
        v.sort();
        v.dedup();
        v
    }
    /// Exact division by a polynomial (multivariate, lexicographic leading terms); None if not divisible.
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        let (dm, dc) = d.t.iter().max_by(|a, b| cmp_lex(a.0, b.0))?;
        let mut rem = self.clone();
        let mut q = Poly::zero();
        let mut steps = 0;
        while !rem.is_zero() {
            steps += 1;
            if steps > 5000 {
                return None;
            }
            let (rm, rc) = rem.t.iter().max_by(|a, b| cmp_lex(a.0, b.0)).map(|(m, c)| (m.clone(), *c))?;
            let qm = mono_div(&rm, dm)?;
            let qc = rc.mul(dc.inv()?)?;
            for (m, c) in &d.t {
                rem.add_term(mono_mul(m, &qm), c.mul(qc)?.neg())?;
            }
            q.add_term(qm, qc)?;
        }
        Some(q)
    }
    /// A polynomial p with p^2 == self, if there is one.
    pub fn sqrt(&self) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        if self.t.len() > 400 {
            return None;
        }
        let (m, c) = self.t.iter().max_by(|a, b| cmp_lex(a.0, b.0))?;
        let mut lm = vec![];
        for &(a, e) in m {
            if e % 2 != 0 {
                return None;
            }
            lm.push((a, e / 2));
        }
        let lc = c.sqrt()?;
        let mut p = Poly::zero();
        p.add_term(lm.clone(), lc)?;
        let mut rem = self.sub(&p.mul(&p)?)?;
        let two_lc = lc.mul(Rat::int(2))?;
        let mut steps = 0;
        while !rem.is_zero() {
            steps += 1;
            if steps > 200 {
                return None;
            }
            let (rm, rc) = rem.t.iter().max_by(|a, b| cmp_lex(a.0, b.0)).map(|(m, c)| (m.clone(), *c))?;
            let qm = mono_div(&rm, &lm)?;
            let qc = rc.mul(two_lc.inv()?)?;
            p.add_term(qm, qc)?;
            rem = self.sub(&p.mul(&p)?)?;
        }
        Some(p)
    }
}

/// Lexicographic order, atom with the largest id first.
pub fn cmp_lex(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    let mut i = a.len();
    let mut j = b.len();
    loop {
        match (i, j) {
            (0, 0) => return std::cmp::Ordering::Equal,
            (0, _) => return std::cmp::Ordering::Less,
            (_, 0) => return std::cmp::Ordering::Greater,
            _ => {
                let x = a[i - 1];
                let y = b[j - 1];
                if x.0 != y.0 {
                    return x.0.cmp(&y.0);
                }
                if x.1 != y.1 {
                    return x.1.cmp(&y.1);
                }
                i -= 1;
                j -= 1;
            }
        }
    }
}

pub fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = vec![];
    let mut j = 0;
    for &(x, e) in a {
        if j < b.len() && b[j].0 == x {
            if b[j].1 > e {
                return None;
            }
            if e > b[j].1 {
                r.push((x, e - b[j].1));
            }
            j += 1;
        } else {
            r.push((x, e));
        }
    }
    if j < b.len() { None } else { Some(r) }
}
