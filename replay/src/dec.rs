//! Plain representation of a decimal, its well-formedness, exact value and expected results.
use crate::big::{Big, Pow};
use fxd::FixedDecimal;

pub const B: i64 = 1_000_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Dec {
    pub neg: bool,
    pub intg: i8,
    pub frac: i8,
    pub lsu: [i32; 9],
}

pub fn units(d: i64) -> i64 {
    (d + 8).div_euclid(9)
}

impl Dec {
    pub const ZERO: Dec = Dec { neg: false, intg: 1, frac: 0, lsu: [0; 9] };
    pub fn fx(&self) -> FixedDecimal {
        let i = if self.neg { self.intg as u8 | 0x80 } else { self.intg as u8 };
        FixedDecimal::verif_from_parts(i as i8, self.frac, self.lsu)
    }
    pub fn of(f: &FixedDecimal) -> Dec {
        let (i, frac, lsu) = f.verif_parts();
        Dec { neg: (i as u8) & 0x80 != 0, intg: (i as u8 & 0x7f) as i8, frac, lsu }
    }
    pub fn iu(&self) -> i64 {
        units(self.intg as i64)
    }
    pub fn fu(&self) -> i64 {
        units(self.frac as i64)
    }
    pub fn is_zero(&self) -> bool {
        self.lsu.iter().all(|x| *x == 0)
    }
    /// None when well formed, otherwise what is wrong
    pub fn ill(&self) -> Option<String> {
        let (iu, fu) = (self.iu(), self.fu());
        if self.intg < 0 || self.intg > 81 {
            return Some(format!("integral digits {} out of range", self.intg));
        }
        if self.frac < 0 || self.frac > 36 {
            return Some(format!("scale {} out of range", self.frac));
        }
        if iu + fu > 9 {
            return Some(format!("{}+{} groups exceed nine", iu, fu));
        }
        for (i, u) in self.lsu.iter().enumerate() {
            if *u < 0 || *u as i64 >= B {
                return Some(format!("unit {} is {}", i, u));
            }
            if i as i64 >= iu + fu && *u != 0 {
                return Some(format!("unused unit {} is {}", i, u));
            }
        }
        let ti = self.intg % 9;
        if ti != 0 && self.lsu[(iu + fu - 1) as usize] as i64 >= 10i64.pow(ti as u32) {
            return Some(format!("integral part has more than {} digits", self.intg));
        }
        let tf = self.fu() * 9 - self.frac as i64;
        if tf != 0 && self.lsu[0] as i64 % 10i64.pow(tf as u32) != 0 {
            return Some(format!("non-zero digit beyond scale {}", self.frac));
        }
        if self.neg && self.is_zero() {
            return Some("negative zero".into());
        }
        None
    }
    /// magnitude times 10^36
    pub fn v(&self, p: &Pow) -> Big {
        let mut r = Big::ZERO;
        for u in self.lsu.iter().rev() {
            r = r.mul_small_add(B as u64, *u as i64 as u64 & 0x7fff_ffff);
        }
        r.mul(p.get(9 * (4 - self.fu().clamp(0, 4)) as usize))
    }
    /// builds a well-formed decimal of magnitude m*10^-scale (m exact) if it fits
    pub fn build(neg: bool, m: &Big, scale: i64, extra_intg: i64) -> Option<Dec> {
        if !(0..=36).contains(&scale) {
            return None;
        }
        let fu = units(scale);
        let digs = m.digits();
        let n = if m.is_zero() { 0 } else { digs.len() as i64 };
        let intg = (n - scale).max(0) + extra_intg;
        if intg > 81 || units(intg) + fu > 9 {
            return None;
        }
        let mut s = digs;
        for _ in 0..(fu * 9 - scale) {
            s.push('0');
        }
        let bs = s.as_bytes();
        let mut lsu = [0i32; 9];
        let mut end = bs.len();
        let mut k = 0;
        while end > 0 {
            let st = end.saturating_sub(9);
            let v: i32 = s[st..end].parse().unwrap();
            if k >= 9 {
                if v != 0 {
                    return None;
                }
            } else {
                lsu[k] = v;
            }
            k += 1;
            end = st;
        }
        let d = Dec { neg: neg && !m.is_zero(), intg: intg as i8, frac: scale as i8, lsu };
        if d.ill().is_some() {
            return None;
        }
        Some(d)
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        let n = (self.iu() + self.fu()).clamp(0, 9) as usize;
        for i in (0..n).rev() {
            s.push_str(&format!("{:09}", self.lsu[i]));
            if i as i64 == self.fu() && i > 0 {
                s.push('.');
            } else if i > 0 {
                s.push('_');
            }
        }
        format!("{} (intg={} frac={} lsu={:?})", s, self.intg, self.frac, self.lsu)
    }
    pub fn ser(&self) -> String {
        let mut v = vec![(self.neg as i32).to_string(), self.intg.to_string(), self.frac.to_string()];
        v.extend(self.lsu.iter().map(|x| x.to_string()));
        v.join(",")
    }
    pub fn de(s: &str) -> Dec {
        let v: Vec<i64> = s.split(',').map(|x| x.trim().parse().unwrap()).collect();
        let mut lsu = [0; 9];
        for i in 0..9 {
            lsu[i] = v[3 + i] as i32;
        }
        Dec { neg: v[0] != 0, intg: v[1] as i8, frac: v[2] as i8, lsu }
    }
}
