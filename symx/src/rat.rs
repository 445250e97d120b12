//! Small exact rationals (checked i128). `None` on overflow: the caller keeps the symbolic node.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 {
            return None;
        }
        let g = gcd(n.unsigned_abs(), d.unsigned_abs());
        let g = if g == 0 { 1 } else { i128::try_from(g).ok()? };
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 {
            n = n.checked_neg()?;
            d = d.checked_neg()?;
        }
        Some(Rat { n, d })
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        Rat::new(
            self.n.checked_mul(o.d)?.checked_add(o.n.checked_mul(self.d)?)?,
            self.d.checked_mul(o.d)?,
        )
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Rat) -> Option<Rat> {
        self.add(o.neg())
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        let a = Rat::new(self.n, o.d)?;
        let b = Rat::new(o.n, self.d)?;
        Rat::new(a.n.checked_mul(b.n)?, a.d.checked_mul(b.d)?)
    }
    pub fn recip(self) -> Option<Rat> {
        if self.n == 0 {
            None
        } else {
            Rat::new(self.d, self.n)
        }
    }
    pub fn div(self, o: Rat) -> Option<Rat> {
        self.mul(o.recip()?)
    }
    pub fn lt(self, o: Rat) -> bool {
        // exact when it fits, else by f64 (constants only; never that large here)
        match (self.n.checked_mul(o.d), o.n.checked_mul(self.d)) {
            (Some(a), Some(b)) => a < b,
            _ => self.f64() < o.f64(),
        }
    }
    pub fn f64(self) -> f64 {
        // correctly rounded when both fit 2^53, nearly so otherwise
        self.n as f64 / self.d as f64
    }
    pub fn is_neg(self) -> bool {
        self.n < 0
    }
    /// Decimal reading of a float: the shortest decimal that denotes it (0.1 -> 1/10).
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        if x == 0.0 {
            return Some(Rat::ZERO);
        }
        // powers of two (machine epsilon and friends) stay exact
        let bits = x.abs().to_bits();
        if bits & ((1u64 << 52) - 1) == 0 {
            let e = (bits >> 52) as i64 - 1023;
            if (-120..=120).contains(&e) {
                let p = 1i128 << e.unsigned_abs();
                let r = if e >= 0 { Rat::int(p) } else { Rat { n: 1, d: p } };
                return Some(if x < 0.0 { r.neg() } else { r });
            }
        }
        let s = format!("{:e}", x);
        let (m, e) = s.split_once('e')?;
        let e: i32 = e.parse().ok()?;
        let (neg, m) = match m.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, m),
        };
        let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
        let digits: i128 = format!("{ip}{fp}").parse().ok()?;
        let exp = e - fp.len() as i32;
        let digits = if neg { -digits } else { digits };
        if exp >= 0 {
            Some(Rat::int(digits.checked_mul(10i128.checked_pow(exp as u32)?)?))
        } else {
            Rat::new(digits, 10i128.checked_pow((-exp) as u32)?)
        }
    }
    pub fn smt(self) -> String {
        let a = if self.d == 1 {
            format!("{}.0", self.n.unsigned_abs())
        } else {
            format!("(/ {}.0 {}.0)", self.n.unsigned_abs(), self.d)
        };
        if self.n < 0 {
            format!("(- {a})")
        } else {
            a
        }
    }
}

/// Arbitrary-size rationals, not reduced: the exact evaluation of counterexamples.
#[derive(Clone, Debug)]
pub struct Big {
    neg: bool,
    n: Vec<u32>,
    d: Vec<u32>,
}
type Mag = Vec<u32>;
fn norm(mut a: Mag) -> Mag {
    while a.last() == Some(&0) {
        a.pop();
    }
    a
}
fn mmul(a: &Mag, b: &Mag) -> Mag {
    let mut r = vec![0u32; a.len() + b.len()];
    for (i, &x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, &y) in b.iter().enumerate() {
            let t = r[i + j] as u64 + x as u64 * y as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    norm(r)
}
fn mcmp(a: &Mag, b: &Mag) -> std::cmp::Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn madd(a: &Mag, b: &Mag) -> Mag {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let t = a[i] as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        r.push(t as u32);
        c = t >> 32;
    }
    r.push(c as u32);
    norm(r)
}
/// a - b for a >= b
fn msub(a: &Mag, b: &Mag) -> Mag {
    let mut r = Vec::with_capacity(a.len());
    let mut c = 0i64;
    for i in 0..a.len() {
        let mut t = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 + c;
        c = 0;
        if t < 0 {
            t += 1 << 32;
            c = -1;
        }
        r.push(t as u32);
    }
    norm(r)
}
fn mint(mut x: u128) -> Mag {
    let mut r = vec![];
    while x != 0 {
        r.push(x as u32);
        x >>= 32;
    }
    r
}
fn mshl(a: &Mag, k: u32) -> Mag {
    let mut p = vec![0u32; (k / 32) as usize];
    p.push(1 << (k % 32));
    mmul(a, &p)
}
const MAXW: usize = 400;
impl Big {
    fn mk(neg: bool, n: Mag, d: Mag) -> Option<Big> {
        if d.is_empty() {
            return None;
        }
        if n.is_empty() {
            return Some(Big { neg: false, n, d: vec![1] });
        }
        // common powers of two (whole words)
        let z = n.iter().take_while(|&&w| w == 0).count().min(d.iter().take_while(|&&w| w == 0).count());
        let (n, d) = (n[z..].to_vec(), d[z..].to_vec());
        if n.len() > MAXW || d.len() > MAXW {
            return None;
        }
        Some(Big { neg, n, d })
    }
    pub fn rat(r: Rat) -> Option<Big> {
        Big::mk(r.n < 0, mint(r.n.unsigned_abs()), mint(r.d.unsigned_abs()))
    }
    /// the number a float denotes, exactly
    pub fn float(x: f64) -> Option<Big> {
        if !x.is_finite() {
            return None;
        }
        let b = x.abs().to_bits();
        let e = (b >> 52) as i32;
        let f = b & ((1 << 52) - 1);
        let (m, e) = if e == 0 { (f, -1074) } else { (f | (1 << 52), e - 1075) };
        let m = mint(m as u128);
        if e >= 0 {
            Big::mk(x < 0.0, mshl(&m, e as u32), vec![1])
        } else {
            Big::mk(x < 0.0, m, mshl(&vec![1], (-e) as u32))
        }
    }
    pub fn add(&self, o: &Big) -> Option<Big> {
        let a = mmul(&self.n, &o.d);
        let b = mmul(&o.n, &self.d);
        let d = mmul(&self.d, &o.d);
        if self.neg == o.neg {
            return Big::mk(self.neg, madd(&a, &b), d);
        }
        match mcmp(&a, &b) {
            std::cmp::Ordering::Less => Big::mk(o.neg, msub(&b, &a), d),
            _ => Big::mk(self.neg, msub(&a, &b), d),
        }
    }
    pub fn neg(&self) -> Big {
        Big { neg: !self.neg && !self.n.is_empty(), ..self.clone() }
    }
    pub fn abs(&self) -> Big {
        Big { neg: false, ..self.clone() }
    }
    pub fn mul(&self, o: &Big) -> Option<Big> {
        Big::mk(self.neg != o.neg, mmul(&self.n, &o.n), mmul(&self.d, &o.d))
    }
    pub fn recip(&self) -> Option<Big> {
        Big::mk(self.neg, self.d.clone(), self.n.clone())
    }
    pub fn cmp(&self, o: &Big) -> Option<std::cmp::Ordering> {
        let d = self.add(&o.neg())?;
        Some(if d.n.is_empty() {
            std::cmp::Ordering::Equal
        } else if d.neg {
            std::cmp::Ordering::Less
        } else {
            std::cmp::Ordering::Greater
        })
    }
}
#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn big() {
        let f = |x: f64| Big::float(x).unwrap();
        assert_ne!(f(0.1).mul(&f(0.3)).unwrap().cmp(&f(0.1 * 0.3)), Some(std::cmp::Ordering::Equal));
        assert_eq!(f(1e300).add(&f(-1e300)).unwrap().cmp(&f(0.0)), Some(std::cmp::Ordering::Equal));
        assert_eq!(f(3.5).add(&f(-4.25)).unwrap().cmp(&f(-0.75)), Some(std::cmp::Ordering::Equal));
        assert_eq!(f(1e-20).recip().unwrap().mul(&f(1e-20)).unwrap().cmp(&f(1.0)), Some(std::cmp::Ordering::Equal));
        assert_eq!(f(-5e-324).cmp(&f(0.0)), Some(std::cmp::Ordering::Less));
    }
}
