//! Boundary-biased case generation.
use crate::big::{Big, Pow};
use crate::dec::{units, Dec, B};
use crate::{Case, Op};

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
}

/// numbers that occur as literals in the source under test (and their neighbours)
fn dict() -> &'static Vec<i32> {
    static D: std::sync::OnceLock<Vec<i32>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let t = std::env::var("FXD_DICT").unwrap_or_default();
        t.split(',').filter_map(|x| x.parse::<i64>().ok()).filter(|x| *x > 0 && *x < B).map(|x| x as i32).collect()
    })
}

/// literals of the source (and neighbours) that can be a length or a position
fn dict_len(r: &mut Rng) -> Option<i64> {
    static D: std::sync::OnceLock<Vec<i64>> = std::sync::OnceLock::new();
    let d = D.get_or_init(|| dict().iter().map(|x| *x as i64).filter(|x| *x <= 70_000).collect());
    if d.is_empty() {
        return None;
    }
    Some(d[r.below(d.len() as u64) as usize] + r.range(-1, 2))
}

/// literals of more than 9 digits that the source did not have before, in full
fn dict_wide(r: &mut Rng) -> Option<u64> {
    static D: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    let d = D.get_or_init(|| {
        std::env::var("FXD_WIDE").unwrap_or_default().split(',').filter_map(|x| x.parse::<u64>().ok()).collect()
    });
    if d.is_empty() {
        return None;
    }
    Some(d[r.below(d.len() as u64) as usize])
}

/// near a power of two, either sign: what a narrowing cast maps to a small number
fn near_pow2(r: &mut Rng) -> i64 {
    let b = 1i64 << r.range(7, 62);
    let v = b.wrapping_add(r.range(-40, 40));
    if r.chance(50) {
        v
    } else {
        v.wrapping_neg()
    }
}

fn special(r: &mut Rng) -> i32 {
    match r.below(6) {
        0 => return (10i64.pow(r.below(10) as u32) + r.range(-1, 1)).clamp(0, B - 1) as i32,
        1 => return ((1 + r.below(9) as i64) * 10i64.pow(r.below(9) as u32) + r.range(-1, 1)).clamp(0, B - 1) as i32,
        2 if !dict().is_empty() => {
            let n = dict().len() as u64;
            let v = dict()[r.below(n) as usize] as i64;
            return if r.chance(60) { v } else { v + r.range(-1, 1) }.clamp(0, B - 1) as i32;
        }
        _ => {}
    }
    let s: [i64; 16] = [
        1, 2, 3, 9, 10, B - 1, B - 2, B / 2, B / 2 - 1, B / 2 + 1, B / 10, B / 10 - 1, B / 3, 499_999_999, 999_999_990, 100_000_001,
    ];
    s[r.below(16) as usize] as i32
}

pub fn unit(r: &mut Rng, mode: u64) -> i32 {
    match mode {
        0 => r.below(B as u64) as i32,
        1 => (B - 1) as i32,
        2 => match r.below(4) {
            0 => (B - 1) as i32,
            1 => 0,
            2 => special(r),
            _ => r.below(B as u64) as i32,
        },
        3 => {
            if r.chance(80) {
                0
            } else {
                special(r)
            }
        }
        4 => special(r),
        5 => {
            // few significant digits anywhere
            let p = 10i64.pow(r.below(9) as u32);
            ((r.below(1000) as i64 * p) % B) as i32
        }
        6 => {
            if r.chance(80) {
                (B - 1) as i32
            } else {
                (B - 1 - r.below(3) as i64) as i32
            }
        }
        _ => {
            // trailing pattern 49999.. / 50000..
            let k = r.below(9) as u32;
            let p = 10i64.pow(k);
            let hi = r.below((B / p) as u64) as i64 * p;
            let lo = match r.below(4) {
                0 => p / 2,
                1 => (p / 2 - 1).max(0),
                2 => p - 1,
                _ => (p / 2 + 1) % p,
            };
            (hi + lo) as i32
        }
    }
}

pub fn fix(d: &mut Dec) {
    let (iu, fu) = (d.iu(), d.fu());
    for i in 0..9 {
        if i as i64 >= iu + fu {
            d.lsu[i] = 0;
        }
    }
    let ti = d.intg as i64 % 9;
    if ti != 0 {
        let k = (iu + fu - 1) as usize;
        d.lsu[k] = (d.lsu[k] as i64 % 10i64.pow(ti as u32)) as i32;
    }
    let tf = fu * 9 - d.frac as i64;
    if tf != 0 {
        d.lsu[0] -= (d.lsu[0] as i64 % 10i64.pow(tf as u32)) as i32;
    }
    if d.is_zero() {
        d.neg = false;
    }
}

fn digits_in_units(r: &mut Rng, u: i64, max: i64) -> i64 {
    if u == 0 {
        return 0;
    }
    let d = match r.below(4) {
        0 | 1 => u * 9,
        2 => u * 9 - 8,
        _ => r.range(u * 9 - 8, u * 9),
    };
    d.min(max)
}

pub fn dec_shape(r: &mut Rng) -> (i64, i64) {
    let fu = match r.below(10) {
        0..=2 => 0,
        3..=6 => r.range(1, 4),
        7 => 4,
        _ => r.range(0, 2),
    };
    let iu = match r.below(10) {
        0 => 0,
        1..=3 => r.range(0, 3.min(9 - fu)),
        4..=6 => 9 - fu,
        7 => 8 - fu,
        _ => r.range(0, 9 - fu),
    };
    (iu, fu)
}

pub fn dec(r: &mut Rng) -> Dec {
    let (iu, fu) = dec_shape(r);
    dec_of(r, iu, fu)
}

pub fn dec_of(r: &mut Rng, iu: i64, fu: i64) -> Dec {
    let intg = digits_in_units(r, iu, 81);
    let frac = digits_in_units(r, fu, 36);
    let mut lsu = [0i32; 9];
    let mode = r.below(10);
    for u in lsu.iter_mut() {
        *u = if mode >= 8 {
            let m = r.below(8);
            unit(r, m)
        } else {
            unit(r, mode)
        };
    }
    // leading / trailing zero groups
    if r.chance(30) {
        let z = r.below((iu + fu + 1) as u64) as i64;
        for i in 0..z {
            lsu[(iu + fu - 1 - i) as usize] = 0;
        }
    }
    if r.chance(20) {
        for u in lsu.iter_mut().take(r.below((iu + fu + 1) as u64) as usize) {
            *u = 0;
        }
    }
    let mut d = Dec { neg: r.chance(40), intg: intg as i8, frac: frac as i8, lsu };
    fix(&mut d);
    d
}

pub fn nonzero(r: &mut Rng) -> Dec {
    loop {
        let d = dec(r);
        if !d.is_zero() {
            return d;
        }
    }
}

/// same value, other representation
pub fn respell(r: &mut Rng, d: &Dec, p: &Pow) -> Dec {
    let v = d.v(p);
    for _ in 0..8 {
        let s = r.range(0, 36);
        let (q, rem) = v.divrem(p.get(36 - s as usize));
        if !rem.is_zero() {
            continue;
        }
        let extra = match r.below(3) {
            0 => 0,
            1 => r.range(0, 12),
            _ => r.range(0, 60),
        };
        if let Some(x) = Dec::build(d.neg, &q, s, extra) {
            return x;
        }
    }
    *d
}

/// neighbour of d: one digit step up or down in some unit
pub fn nudge(r: &mut Rng, d: &Dec) -> Dec {
    let mut x = *d;
    let n = (x.iu() + x.fu()).max(1) as u64;
    let k = r.below(n) as usize;
    let step = if k == 0 && x.frac > 0 { 10i64.pow((x.fu() * 9 - x.frac as i64) as u32) } else { 1 };
    let v = x.lsu[k] as i64 + if r.chance(50) { step } else { -step };
    if (0..B).contains(&v) {
        x.lsu[k] = v as i32;
    }
    fix(&mut x);
    x
}

pub fn pair(r: &mut Rng, p: &Pow) -> (Dec, Dec) {
    let a = dec(r);
    let mut b = match r.below(8) {
        0 => respell(r, &a, p),
        1 => {
            let t = respell(r, &a, p);
            nudge(r, &t)
        }
        2 => {
            let mut t = dec(r);
            // share units
            for i in 0..9 {
                if r.chance(60) {
                    t.lsu[i] = a.lsu[i];
                }
            }
            fix(&mut t);
            t
        }
        3 => {
            // complement, sums close to a power of the base
            let mut t = a;
            let n = (t.iu() + t.fu()) as usize;
            for i in 0..n {
                t.lsu[i] = (B - 1) as i32 - a.lsu[i];
            }
            fix(&mut t);
            nudge(r, &t)
        }
        _ => dec(r),
    };
    if r.chance(30) {
        b.neg = r.chance(50);
        fix(&mut b);
    }
    if r.chance(50) {
        (a, b)
    } else {
        (b, a)
    }
}

/// dividend close to a multiple of the divisor, or with leading units that stress the
/// quotient estimate
pub fn div_pair(r: &mut Rng, p: &Pow) -> (Dec, Dec) {
    match r.below(7) {
        0 => pair(r, p),
        6 => {
            // divisor and quotient close to powers of ten
            for _ in 0..6 {
                let step = |r: &mut Rng, v: Big| -> Big {
                    match r.below(4) {
                        0 => v.sub(&Big::from_u64(1)),
                        1 => v.add(&Big::from_u64(1)),
                        _ => v,
                    }
                };
                let k = r.range(0, 45) as usize;
                let f = if r.chance(50) { 1 } else { special(r).max(1) as u64 };
                let b = step(r, p.get(k).mul(&Big::from_u64(f)));
                let k = if r.chance(60) { 9 * r.range(0, 5) } else { r.range(0, 45) } as usize;
                let f = if r.chance(70) { 1 } else { special(r).max(1) as u64 };
                let q = step(r, p.get(k).mul(&Big::from_u64(f)));
                if b.is_zero() || q.is_zero() || b.bits() + q.bits() > 268 {
                    continue;
                }
                let a = b.mul(&q);
                let a = match r.below(4) {
                    0 => step(r, a),
                    1 => a.add(&b.divrem_small(2).0),
                    _ => a,
                };
                if a.is_zero() {
                    continue;
                }
                let (sa, sb, ea, eb) = (r.range(0, 36), r.range(0, 36), r.range(0, 10), r.range(0, 10));
                let (na, nb) = (r.chance(40), r.chance(40));
                if let (Some(x), Some(y)) = (Dec::build(na, &a, if r.chance(50) { 0 } else { sa }, ea), Dec::build(nb, &b, if r.chance(50) { 0 } else { sb }, eb)) {
                    return (x, y);
                }
            }
            pair(r, p)
        }
        1 | 2 => {
            // a = b*q + delta as integers over some scale
            let b = nonzero(r);
            let q = nonzero(r);
            let bi = int_of(&b);
            let qi = int_of(&q);
            for _ in 0..6 {
                let keep = p.get(9 * r.range(1, 8) as usize);
                let (_, q2) = qi.divrem(keep);
                let bl = if r.chance(50) { bi } else { bi.divrem(p.get(9 * r.range(1, 8) as usize)).1 };
                if bl.is_zero() || q2.is_zero() || bl.bits() + q2.bits() > 268 {
                    continue;
                }
                let mut m = bl.mul(&q2);
                match r.below(5) {
                    0 => {}
                    1 => m = m.add(&Big::from_u64(1)),
                    2 => m = m.sub(&Big::from_u64(1)),
                    3 => m = m.add(&bl.sub(&Big::from_u64(1))),
                    _ => m = m.add(&bl.divrem_small(2).0),
                }
                let sa = r.range(0, 36);
                let sb = r.range(0, 36);
                let ea = r.range(0, 10);
                let eb = r.range(0, 10);
                let (na, nb) = (r.chance(40), r.chance(40));
                if let (Some(x), Some(y)) = (Dec::build(na, &m, sa, ea), Dec::build(nb, &bl, sb, eb)) {
                    return (x, y);
                }
            }
            pair(r, p)
        }
        3 | 4 => {
            // leading units of the dividend repeat the divisor's
            let iu = r.range(0, 3);
            let fu = r.range(if iu == 0 { 1 } else { 0 }, 4);
            let mut b = dec_of(r, iu, fu);
            let n = (b.iu() + b.fu()) as usize;
            let tops = [1, 2, B / 2, B / 2 - 1, B / 2 + 1, B - 1, B - 2, B / 3, 5, 10];
            if n > 0 && r.chance(70) {
                b.lsu[n - 1] = tops[r.below(10) as usize] as i32;
                if n > 1 && r.chance(70) {
                    b.lsu[n - 2] = if r.chance(50) { (B - 1) as i32 } else { 0 };
                }
                b.intg = (b.iu() * 9) as i8;
                b.frac = (b.fu() * 9) as i8;
            }
            fix(&mut b);
            if b.is_zero() {
                b = nonzero(r);
            }
            let nb = {
                let mut k = 9;
                while b.lsu[k - 1] == 0 {
                    k -= 1;
                }
                k
            };
            let mut a = dec(r);
            a.intg = (a.iu() * 9) as i8;
            a.frac = (a.fu() * 9) as i8;
            let na = (a.iu() + a.fu()) as usize;
            let mut k = 0;
            while k < nb && k < na {
                let mut u = b.lsu[nb - 1 - k] as i64;
                if r.chance(30) {
                    u += r.range(-1, 1);
                }
                a.lsu[na - 1 - k] = u.clamp(0, B - 1) as i32;
                k += 1;
            }
            while k < na {
                if r.chance(60) {
                    let m = r.below(3);
                    a.lsu[na - 1 - k] = if m == 0 { 0 } else { unit(r, m) };
                }
                k += 1;
            }
            if r.chance(20) && na > 0 {
                // shift down by one
                for i in 0..na - 1 {
                    a.lsu[i] = a.lsu[i + 1];
                }
                a.lsu[na - 1] = 0;
            }
            fix(&mut a);
            (a, b)
        }
        _ => {
            let a = dec(r);
            let (iu, fu) = if r.chance(50) { (1, 0) } else { (0, 1) };
            let b = dec_of(r, iu, fu);
            (a, b)
        }
    }
}

pub fn int_of(d: &Dec) -> Big {
    let mut r = Big::ZERO;
    for u in d.lsu.iter().rev() {
        r = r.mul_small_add(B as u64, *u as u64);
    }
    r
}

fn text(r: &mut Rng) -> Vec<u8> {
    let mut s = Vec::new();
    if r.chance(40) {
        s.push(b"+-"[r.below(2) as usize]);
    }
    let long = r.chance(5);
    let il = match r.below(6) {
        0 => 0,
        1 => r.range(0, 9),
        2 => r.range(0, 66),
        3 => r.range(9, 19),
        4 => 9 * r.range(0, 8),
        _ => if long { r.range(60, 400) } else { r.range(0, 36) },
    };
    let fl = match r.below(6) {
        0 | 1 => 0,
        2 => r.range(0, 9),
        3 => r.range(0, 31),
        4 => 9 * r.range(0, 4),
        _ => if long { r.range(25, 300) } else { r.range(0, 36) },
    };
    let m = r.below(4);
    let dig = |r: &mut Rng| -> u8 {
        match m {
            0 => b'0' + r.below(10) as u8,
            1 => b'9',
            2 => if r.chance(70) { b'0' } else { b'0' + r.below(10) as u8 },
            _ => b'1' + r.below(9) as u8,
        }
    };
    for _ in 0..il {
        let c = dig(r);
        s.push(c);
    }
    if fl > 0 || r.chance(10) {
        s.push(b'.');
    }
    for _ in 0..fl {
        let c = dig(r);
        s.push(c);
    }
    if r.chance(45) {
        s.push(b"eE"[r.below(2) as usize]);
        if r.chance(60) {
            s.push(b"+-"[r.below(2) as usize]);
        }
        if r.chance(20) {
            let n = match r.below(200) {
                0 => r.range(0, 300),
                1 => dict_len(r).unwrap_or(9),
                2 if r.chance(5) => [32768, 65536][r.below(2) as usize] + r.range(-100, 100),
                _ => r.range(0, 5),
            };
            for _ in 0..n {
                s.push(b'0');
            }
        }
        let e = match r.below(5) {
            0 => r.range(0, 9),
            1 => r.range(0, 35),
            2 => r.range(0, 70),
            3 => r.range(0, 1200),
            _ => r.range(26, 32),
        };
        if !r.chance(4) {
            s.extend_from_slice(e.to_string().as_bytes());
        }
        if r.chance(2) {
            for _ in 0..r.range(1, 30) {
                s.push(b'0' + r.below(10) as u8);
            }
        }
    }
    if r.chance(2) {
        // around the number, or between its parts
        let w: &[&[u8]] = &[b" ", b"\t", b"\n", b"\0", b"_", b"0x", b"+", b"-", b"\xd9\xa3", b"\xef\xbc\x91", b"inf", b"nan", b"f64", b"%"];
        let w = w[r.below(w.len() as u64) as usize];
        let at = match r.below(3) {
            0 => 0,
            1 => s.len(),
            _ => r.below(s.len() as u64 + 1) as usize,
        };
        s.splice(at..at, w.iter().copied());
    }
    // mutations
    if r.chance(15) {
        for _ in 0..r.range(1, 3) {
            let alpha: &[u8] = b"0123456789+-.eE /:;\0\xffx,dD";
            let c = if r.chance(80) { alpha[r.below(alpha.len() as u64) as usize] } else { r.below(256) as u8 };
            let n = s.len() as u64;
            match r.below(3) {
                0 => s.insert(r.below(n + 1) as usize, c),
                1 if n > 0 => {
                    s.remove(r.below(n) as usize);
                }
                2 if n > 0 => {
                    let k = r.below(n) as usize;
                    s[k] = c;
                }
                _ => {}
            }
        }
    }
    if r.chance(2) {
        let n = r.below(12);
        s = (0..n).map(|_| b"0123456789+-.eE"[r.below(15) as usize]).collect();
    }
    s
}

fn round_pos(r: &mut Rng, a: &Dec) -> i64 {
    match r.below(22) {
        0 => i64::MIN,
        1 => i64::MAX,
        20 => near_pow2(r),
        21 => dict_len(r).unwrap_or(0) * if r.chance(50) { -1 } else { 1 },
        2 => [-82, -81, -80, 36, 37, 127, 128, 255, 256, -127, -128, -129, -256, -255][r.below(14) as usize],
        3..=5 => a.frac as i64 + r.range(-2, 2),
        6..=8 => -(a.intg as i64) + r.range(-2, 2),
        9..=11 => 9 * r.range(-9, 4),
        12..=13 => r.range(-90, 60),
        _ => r.range(-(a.intg as i64), a.frac as i64),
    }
}

/// number with a rounding boundary at position n
fn round_case(r: &mut Rng, p: &Pow) -> (Dec, i64) {
    let mut a = dec(r);
    let n = round_pos(r, &a);
    if r.chance(50) && (-80..36).contains(&n) {
        // put ...999 | 4999../5000../5 | .. around the cut
        let v = a.v(p);
        let t = p.get((36 - n) as usize);
        let (mut q, _) = v.divrem(t);
        if r.chance(40) {
            // trailing nines above the cut
            let k = r.range(1, 30) as usize;
            let pk = p.get(k);
            let (qq, _) = q.divrem(pk);
            if qq.bits() + pk.bits() < 500 {
                q = qq.mul(pk).add(pk).sub(&Big::from_u64(1));
            }
        }
        let half = t.divrem_small(2).0;
        let low = p.get(36 - a.frac.max(0) as usize);
        let rem = match r.below(4) {
            0 => half,
            1 if half > *low => half.sub(low),
            2 => half.add(low),
            _ => half,
        };
        let nv = q.mul(t).add(&rem);
        let (m, rr) = nv.divrem(low);
        if rr.is_zero() {
            let e = r.range(0, 9);
            if let Some(x) = Dec::build(a.neg, &m, a.frac as i64, e) {
                a = x;
            }
        }
    }
    (a, n)
}

pub fn case(r: &mut Rng, op: Op, p: &Pow) -> Case {
    let mut c = Case::new(op);
    c.dst = if r.chance(50) { dec(r) } else { dec_max(r) };
    match op {
        Op::Add | Op::Sub | Op::Cmp => {
            let (a, b) = pair(r, p);
            c.a = a;
            c.b = b;
        }
        Op::Hash => {
            c.a = dec(r);
            c.b = respell(r, &c.a, p);
            if r.chance(20) {
                c.b = nudge(r, &c.b);
            }
        }
        Op::Mul => {
            let (a, b) = pair(r, p);
            c.a = a;
            c.b = b;
            if r.chance(60) {
                // keep the integral digits within capacity
                let iu = r.range(0, 9 - units(a.intg as i64));
                let fu = r.range(0, (9 - iu).min(4));
                c.b = dec_of(r, iu, fu);
            }
        }
        Op::Div => {
            let (a, b) = div_pair(r, p);
            c.a = a;
            c.b = b;
            c.n = match r.below(40) {
                38 => near_pow2(r),
                39 => dict_len(r).unwrap_or(4),
                x if x < 10 => 4,
                x if x < 15 => 0,
                x if x < 19 => [i64::MAX, 127, 128, 129, 255, 256, 54, 55, 36, 37, -1, i64::MIN][r.below(12) as usize],
                _ => r.range(0, 60),
            };
        }
        Op::Rem => {
            let (a, b) = div_pair(r, p);
            c.a = a;
            c.b = b;
        }
        Op::Round => {
            let (a, n) = round_case(r, p);
            c.a = a;
            c.n = n;
        }
        Op::RoundEq => {
            let (a, n) = round_case(r, p);
            c.a = a;
            c.b = respell(r, &a, p);
            c.n = n;
        }
        Op::Parse | Op::Reparse => {
            c.bytes = text(r);
            c.n = r.below(2) as i64;
        }
        Op::Format => {
            c.a = dec(r);
            c.n = match r.below(6) {
                0 => -1,
                1 => [i64::MIN, -128, -2, 0, 36, 37, 127, 128, 256, 300][r.below(10) as usize],
                2 => c.a.frac as i64 + r.range(-1, 1),
                3 => r.range(0, 45),
                4 => 9 * r.range(0, 5) + r.range(0, 2),
                _ => r.range(0, 36),
            };
            if r.chance(2) {
                c.n = match r.below(40) {
                    0 => r.range(0, 66_000),
                    1..=9 => r.range(0, 1000),
                    10..=19 => -near_pow2(r).abs(),
                    20 => [32767, 32768, 65535, 65536][r.below(4) as usize] + r.range(0, 40),
                    _ => dict_len(r).unwrap_or(100),
                };
            }
            let n = if r.chance(2) { r.below(100) } else { r.below(4) };
            c.bytes = (0..n).map(|_| r.below(256) as u8).collect();
        }
        Op::PrintParse => {
            c.a = dec(r);
        }
        Op::FromInt => {
            c.n = int64(r) as i64;
        }
        Op::ToInt => {
            c.a = if r.chance(60) {
                let n = int64(r);
                let base = Big::from_u64(n);
                let s = r.range(0, 36);
                let m = base.mul(p.get(s as usize));
                let d = match r.below(6) {
                    0 => Big::ZERO,
                    1 => p.get(s as usize).divrem_small(2).0,
                    2 => Big::from_u64(1),
                    3 => p.get(s as usize).sub(&Big::from_u64(1)),
                    _ => Big::from_u64(r.next()).divrem(p.get(s as usize)).1,
                };
                let m = if r.chance(50) || m < d { m.add(&d) } else { m.sub(&d) };
                let e = r.range(0, 40);
                let neg = r.chance(50);
                Dec::build(neg, &m, s, e).unwrap_or_else(|| dec(r))
            } else {
                let iu = r.range(0, 4);
                let fu = r.range(0, 4);
                dec_of(r, iu, fu)
            };
        }
        Op::Access => {
            c.a = dec(r);
        }
    }
    c
}

pub fn dec_max(r: &mut Rng) -> Dec {
    let fu = r.range(0, 4);
    let mut d = dec_of(r, 9 - fu, fu);
    for i in 0..9 {
        if r.chance(90) {
            d.lsu[i] = r.range(1, B - 1) as i32;
        }
    }
    fix(&mut d);
    d
}

fn int64(r: &mut Rng) -> u64 {
    match r.below(10) {
        8 => (1u64 << r.below(64)).wrapping_add(r.below(5)).wrapping_sub(2),
        9 => match dict_wide(r) {
            Some(v) => v.wrapping_add(r.below(5)).wrapping_sub(2),
            None => r.next(),
        },
        0 => r.next(),
        1 => u64::MAX - r.below(3),
        2 => (i64::MAX as u64).wrapping_add(r.below(5)).wrapping_sub(2),
        3 => r.below(3),
        4 => (B as u64).wrapping_mul(B as u64).wrapping_mul(r.below(19)).wrapping_add(r.below(5)).wrapping_sub(2),
        5 => (B as u64).wrapping_mul(r.below(B as u64)).wrapping_add(r.below(3)).wrapping_sub(1),
        6 => 10u64.pow(r.below(20) as u32).wrapping_add(r.below(3)).wrapping_sub(1),
        _ => r.next() >> r.below(64),
    }
}
