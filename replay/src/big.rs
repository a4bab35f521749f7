//! Fixed-width unsigned integers for the exact oracle. Independent of the code under test:
//! base 2^64, schoolbook multiplication, binary long division.
use std::cmp::Ordering;

pub const W: usize = 16;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Big(pub [u64; W]);

impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Self) -> Ordering {
        for i in (0..W).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        Ordering::Equal
    }
}

impl Big {
    pub const ZERO: Big = Big([0; W]);
    pub fn from_u64(v: u64) -> Big {
        let mut b = Big::ZERO;
        b.0[0] = v;
        b
    }
    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
    pub fn len(&self) -> usize {
        let mut n = W;
        while n > 0 && self.0[n - 1] == 0 {
            n -= 1;
        }
        n
    }
    pub fn add(&self, o: &Big) -> Big {
        let mut r = Big::ZERO;
        let mut c = 0u128;
        for i in 0..W {
            let v = self.0[i] as u128 + o.0[i] as u128 + c;
            r.0[i] = v as u64;
            c = v >> 64;
        }
        assert!(c == 0, "oracle overflow");
        r
    }
    pub fn sub(&self, o: &Big) -> Big {
        let mut r = Big::ZERO;
        let mut b = 0i128;
        for i in 0..W {
            let v = self.0[i] as i128 - o.0[i] as i128 + b;
            r.0[i] = v as u64;
            b = if v < 0 { -1 } else { 0 };
        }
        assert!(b == 0, "oracle underflow");
        r
    }
    pub fn mul_small_add(&self, m: u64, a: u64) -> Big {
        let mut r = Big::ZERO;
        let mut c = a as u128;
        for i in 0..W {
            let v = self.0[i] as u128 * m as u128 + c;
            r.0[i] = v as u64;
            c = v >> 64;
        }
        assert!(c == 0, "oracle overflow");
        r
    }
    pub fn mul(&self, o: &Big) -> Big {
        let (n, m) = (self.len(), o.len());
        let mut r = [0u64; 2 * W];
        for i in 0..n {
            let mut c = 0u128;
            for j in 0..m {
                let v = self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = v as u64;
                c = v >> 64;
            }
            r[i + m] = c as u64;
        }
        assert!(r[W..].iter().all(|x| *x == 0), "oracle overflow");
        let mut b = Big::ZERO;
        b.0.copy_from_slice(&r[..W]);
        b
    }
    pub fn bits(&self) -> usize {
        let n = self.len();
        if n == 0 {
            0
        } else {
            n * 64 - self.0[n - 1].leading_zeros() as usize
        }
    }
    fn shl(&self, s: usize) -> Big {
        let (w, b) = (s / 64, s % 64);
        let mut r = Big::ZERO;
        for i in (w..W).rev() {
            let mut v = self.0[i - w] << b;
            if b > 0 && i > w {
                v |= self.0[i - w - 1] >> (64 - b);
            }
            r.0[i] = v;
        }
        r
    }
    fn shr1(&mut self) {
        for i in 0..W {
            self.0[i] = (self.0[i] >> 1) | if i + 1 < W { self.0[i + 1] << 63 } else { 0 };
        }
    }
    pub fn divrem_small(&self, d: u64) -> (Big, u64) {
        let mut q = Big::ZERO;
        let mut r = 0u128;
        for i in (0..W).rev() {
            let v = (r << 64) | self.0[i] as u128;
            q.0[i] = (v / d as u128) as u64;
            r = v % d as u128;
        }
        (q, r as u64)
    }
    /// binary long division
    pub fn divrem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero());
        let (bn, bd) = (self.bits(), d.bits());
        if bn < bd {
            return (Big::ZERO, *self);
        }
        let mut s = d.shl(bn - bd);
        let mut r = *self;
        let mut q = Big::ZERO;
        for k in (0..=bn - bd).rev() {
            if r >= s {
                r = r.sub(&s);
                q.0[k / 64] |= 1 << (k % 64);
            }
            s.shr1();
        }
        (q, r)
    }
    pub fn digits(&self) -> String {
        let mut v = *self;
        let mut out = Vec::new();
        while !v.is_zero() {
            let (q, r) = v.divrem_small(10);
            out.push(b'0' + r as u8);
            v = q;
        }
        if out.is_empty() {
            out.push(b'0');
        }
        out.reverse();
        String::from_utf8(out).unwrap()
    }
}

pub struct Pow(Vec<Big>);
impl Pow {
    pub fn new() -> Pow {
        let mut v = vec![Big::from_u64(1)];
        for i in 0..260 {
            let n = v[i].mul_small_add(10, 0);
            v.push(n);
        }
        Pow(v)
    }
    pub fn get(&self, e: usize) -> &Big {
        &self.0[e]
    }
}
