//! Expected behaviour, stated independently of the code.
use crate::big::{Big, Pow};
use crate::dec::{units, Dec};
use crate::{Case, Op};
use fxd::{Error, FixedDecimal};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

type V = Option<String>;

fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}

fn ename(e: &Error) -> &'static str {
    match e {
        Error::ConversionSyntax => "ConversionSyntax",
        Error::DivisionByZero => "DivisionByZero",
        Error::Overflow => "Overflow",
        Error::ExceedsConversionTargetRange => "ExceedsConversionTargetRange",
    }
}

/// signed comparison / sums on (neg, magnitude)
type S = (bool, Big);
fn sadd(a: &S, b: &S) -> S {
    if a.0 == b.0 {
        (a.0, a.1.add(&b.1))
    } else if a.1 >= b.1 {
        (a.0, a.1.sub(&b.1))
    } else {
        (b.0, b.1.sub(&a.1))
    }
}
fn norm(s: S) -> S {
    if s.1.is_zero() {
        (false, s.1)
    } else {
        s
    }
}
fn sv(d: &Dec, p: &Pow) -> S {
    if d.lsu.iter().any(|u| *u < 0 || *u as i64 >= crate::dec::B) {
        // not a digit group: no digit string has this content, so it equals no expected value
        return (true, p.get(90).add(p.get(89)));
    }
    (d.neg, d.v(p))
}

pub fn nontrivial(c: &Case) -> bool {
    match c.op {
        Op::Parse | Op::Reparse => !c.bytes.is_empty(),
        Op::FromInt => c.n != 0,
        _ => !c.a.is_zero() || !c.b.is_zero(),
    }
}

#[derive(Clone, Copy)]
enum Outcome {
    Ok,
    Err(&'static str),
}

/// runs the fallible operation into a destination
fn run(c: &Case, dst: &Dec) -> Result<(Outcome, Dec), String> {
    let (a, b) = (c.a.fx(), c.b.fx());
    let mut d = dst.fx();
    let r = call(|| match c.op {
        Op::Add => FixedDecimal::add_to(&a, &b, &mut d),
        Op::Sub => FixedDecimal::sub_to(&a, &b, &mut d),
        Op::Mul => FixedDecimal::mul_to(&a, &b, &mut d),
        Op::Div => FixedDecimal::div_to(&a, &b, &mut d, c.n as usize),
        Op::Rem => FixedDecimal::rem_to(&a, &b, &mut d),
        _ => unreachable!(),
    })?;
    Ok((
        match r {
            Ok(()) => Outcome::Ok,
            Err(e) => Outcome::Err(ename(&e)),
        },
        Dec::of(&d),
    ))
}

fn arith(prop: &str, c: &Case, p: &Pow) -> V {
    let own = match c.op {
        Op::Add => "C02",
        Op::Sub => "C03",
        Op::Mul => "C04",
        Op::Div => "C05",
        _ => "C06",
    };
    let (out, res) = match run(c, &c.dst) {
        Ok(x) => x,
        Err(m) => {
            if prop == own || prop == "C18" {
                return Some(format!("panicked: {}", m));
            }
            if prop == "C15" {
                // the outcome may still depend on the destination
                return match run(c, &Dec::ZERO) {
                    Ok(_) => Some(format!("panics only for this destination: {}", m)),
                    Err(_) => None,
                };
            }
            return None;
        }
    };
    match prop {
        "C01" => return res.ill().map(|m| format!("result {} is not well formed: {}", res.show(), m)),
        "C15" => {
            let (o2, r2) = match run(c, &Dec::ZERO) {
                Ok(x) => x,
                Err(m) => return Some(format!("panics only for an all-zero destination: {}", m)),
            };
            let same = match (out, o2) {
                (Outcome::Ok, Outcome::Ok) => true,
                (Outcome::Err(x), Outcome::Err(y)) => x == y,
                _ => false,
            };
            if !same || res != r2 {
                return Some(format!("result {} differs from {} obtained with a zero destination", res.show(), r2.show()));
            }
            return None;
        }
        "C16" => {
            let (a, b) = (c.a.fx(), c.b.fx());
            let mut c2 = c.clone();
            c2.n = 4;
            let (out, res) = match run(&c2, &Dec::ZERO) {
                Ok(x) => x,
                Err(_) => return None,
            };
            let r = call(|| match c.op {
                Op::Add => a + b,
                Op::Sub => a - b,
                Op::Mul => a * b,
                Op::Div => a / b,
                _ => a % b,
            });
            return match (out, r) {
                (Outcome::Ok, Ok(x)) => {
                    if Dec::of(&x) != res {
                        Some(format!("operator gives {}, fallible form {}", Dec::of(&x).show(), res.show()))
                    } else {
                        None
                    }
                }
                (Outcome::Ok, Err(m)) => Some(format!("operator panics ({}) but the fallible form succeeds", m)),
                (Outcome::Err(e), Ok(_)) => Some(format!("operator succeeds but the fallible form reports {}", e)),
                (Outcome::Err(_), Err(_)) => None,
            };
        }
        "C18" => return None,
        _ => {}
    }
    let (a, b) = (&c.a, &c.b);
    if prop == "C19" {
        if a.is_zero() || b.is_zero() {
            if let (Op::Add | Op::Sub, Outcome::Ok) = (c.op, out) {
                let want = if a.is_zero() { b.frac } else { a.frac };
                if res.frac != want {
                    return Some(format!("scale {} instead of {}", res.frac, want));
                }
            }
            return None;
        }
        if let Outcome::Err(_) = out {
            return None;
        }
        let want = match c.op {
            Op::Add | Op::Sub | Op::Rem => {
                if res.is_zero() {
                    return None;
                }
                a.frac.max(b.frac) as i64
            }
            Op::Mul => {
                let rf = a.frac as i64 + b.frac as i64;
                let g = units(rf).min(9 - units(a.intg as i64 + b.intg as i64)).min(4);
                rf.min(9 * g)
            }
            _ => {
                let (le, re) = (a.fu() * 9, b.fu() * 9);
                let slack = le - a.frac as i64 + re - b.frac as i64;
                let incr = (c.n as u64 as u128).min(1000) as i64;
                let g = units(le + re + (incr - slack).max(0)).min(4);
                let (q, _) = a.v(p).divrem(&b.v(p));
                let gi = if q.is_zero() { 0 } else { units(q.digits().len() as i64) };
                9 * g.min(9 - gi)
            }
        };
        if res.frac as i64 != want {
            return Some(format!("scale {} instead of {} in {}", res.frac, want, res.show()));
        }
        return None;
    }
    if prop != own {
        return None;
    }
    let (va, vb) = (sv(a, p), sv(b, p));
    let expect_err: Option<&str> = match c.op {
        Op::Add | Op::Sub => {
            if a.is_zero() || b.is_zero() {
                None
            } else {
                let vb2 = if c.op == Op::Sub { (!vb.0, vb.1) } else { vb };
                let s = sadd(&va, &vb2);
                let (iu, fu) = (a.iu().max(b.iu()), a.fu().max(b.fu()));
                // a carry group is needed when the magnitudes add up to a further group
                let carry = s.1 >= *p.get((36 + 9 * iu) as usize);
                if iu + fu > 9 || (carry && iu + fu + 1 > 9) {
                    Some("Overflow")
                } else {
                    None
                }
            }
        }
        Op::Mul => {
            if !a.is_zero() && !b.is_zero() && a.intg as i64 + b.intg as i64 > 81 {
                Some("Overflow")
            } else {
                None
            }
        }
        Op::Div => {
            if b.is_zero() {
                Some("DivisionByZero")
            } else if va.1 >= vb.1.mul(p.get(81)) {
                Some("Overflow")
            } else {
                None
            }
        }
        _ => {
            if b.is_zero() {
                Some("DivisionByZero")
            } else {
                None
            }
        }
    };
    match (out, expect_err) {
        (Outcome::Err(e), Some(w)) => {
            return if e == w { None } else { Some(format!("reports {} instead of {}", e, w)) };
        }
        (Outcome::Err(e), None) => return Some(format!("reports {} although the result exists", e)),
        (Outcome::Ok, Some(w)) => return Some(format!("succeeds with {} instead of reporting {}", res.show(), w)),
        (Outcome::Ok, None) => {}
    }
    // a malformed result still denotes some number; C01 covers malformedness itself
    if res.frac < 0 || res.frac > 36 || res.iu() + res.fu() > 9 || res.lsu.iter().any(|u| *u < 0) {
        return Some(format!("result {} is not a valid decimal", res.show()));
    }
    let vr = sv(&res, p);
    let bad = |want: &S| Some(format!("got {} = {}{}e-36, expected {}{}e-36", res.show(), if vr.0 { "-" } else { "" }, vr.1.digits(), if want.0 { "-" } else { "" }, want.1.digits()));
    match c.op {
        Op::Add => {
            let w = norm(sadd(&va, &vb));
            if norm(vr) != w || (vr.0 && vr.1.is_zero()) {
                return bad(&w);
            }
        }
        Op::Sub => {
            let w = norm(sadd(&va, &(!vb.0, vb.1)));
            if norm(vr) != w || (vr.0 && vr.1.is_zero()) {
                return bad(&w);
            }
        }
        Op::Mul => {
            let prod = va.1.mul(&vb.1);
            let got = vr.1.mul(p.get(36));
            let rf = a.frac as i64 + b.frac as i64;
            let fits = units(a.intg as i64 + b.intg as i64) + units(rf) <= 9 && units(rf) <= 4;
            let neg = va.0 != vb.0;
            let w = (neg && !prod.is_zero(), prod);
            if got > prod {
                return Some(format!("{} exceeds the exact product {}e-72", res.show(), w.1.digits()));
            }
            let diff = prod.sub(&got);
            if fits && !diff.is_zero() {
                return Some(format!("{} is not the exact product {}e-72", res.show(), w.1.digits()));
            }
            if diff >= p.get((72 - res.frac) as usize).mul_small_add(16, 0) {
                return Some(format!("{} is 16 or more units below the product {}e-72", res.show(), w.1.digits()));
            }
            if !vr.1.is_zero() && vr.0 != neg || vr.1.is_zero() && vr.0 {
                return Some(format!("wrong sign: {}", res.show()));
            }
        }
        Op::Div => {
            let lo = vr.1.mul(&vb.1);
            let num = va.1.mul(p.get(36));
            let hi = vr.1.add(p.get((36 - res.frac) as usize)).mul(&vb.1);
            if !(lo <= num && num < hi) {
                return Some(format!("{} is not the truncated quotient", res.show()));
            }
            if !vr.1.divrem(p.get((36 - res.frac) as usize)).1.is_zero() {
                return Some(format!("{} has digits beyond its scale", res.show()));
            }
            let neg = va.0 != vb.0;
            if !vr.1.is_zero() && vr.0 != neg || vr.1.is_zero() && vr.0 {
                return Some(format!("wrong sign: {}", res.show()));
            }
        }
        _ => {
            let (_, r) = va.1.divrem(&vb.1);
            let w = norm((va.0, r));
            if vr != w {
                return bad(&w);
            }
        }
    }
    None
}

fn cmp(prop: &str, c: &Case, p: &Pow) -> V {
    let (a, b) = (c.a.fx(), c.b.fx());
    let (va, vb) = (sv(&c.a, p), sv(&c.b, p));
    let want = match (va.0, vb.0) {
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
        (false, false) => va.1.cmp(&vb.1),
        (true, true) => vb.1.cmp(&va.1),
    };
    let r = call(|| (a.cmp(&b), a.partial_cmp(&b), a == b, a != b, a < b, a <= b, a > b, a >= b));
    let r = match r {
        Ok(r) => r,
        Err(m) => return if prop == "C07" || prop == "C18" { Some(format!("panicked: {}", m)) } else { None },
    };
    if prop == "C18" {
        return None;
    }
    let w = (
        want,
        Some(want),
        want == Ordering::Equal,
        want != Ordering::Equal,
        want == Ordering::Less,
        want != Ordering::Greater,
        want == Ordering::Greater,
        want != Ordering::Less,
    );
    if r != w {
        return Some(format!("compared {:?}, expected {:?}", r, w));
    }
    None
}

#[derive(Default)]
struct Log(Vec<u8>);
impl Hasher for Log {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0.push(bytes.len() as u8);
        self.0.extend_from_slice(bytes);
    }
}

fn hash(prop: &str, c: &Case, p: &Pow) -> V {
    let (a, b) = (c.a.fx(), c.b.fx());
    let r = call(|| {
        let (mut x, mut y) = (Log::default(), Log::default());
        a.hash(&mut x);
        b.hash(&mut y);
        (x.0, y.0, a == b || b == a || a.cmp(&b) == Ordering::Equal)
    });
    let (x, y, same) = match r {
        Ok(r) => r,
        Err(m) => return Some(format!("panicked: {}", m)),
    };
    if prop == "C08" && (same || sv(&c.a, p) == sv(&c.b, p)) && x != y {
        return Some(format!("equal decimals feed {:?} and {:?}", x, y));
    }
    None
}

/// magnitude (times 10^36) after rounding half away from zero to n digits; None if >= 10^81
fn rounded(v: &Big, n: i64, p: &Pow) -> Option<Big> {
    if n >= 36 {
        return Some(*v);
    }
    if n < -82 {
        return Some(Big::ZERO);
    }
    let t = p.get((36 - n) as usize);
    let (q, r) = v.divrem(t);
    let q = if r.add(&r) >= *t { q.add(&Big::from_u64(1)) } else { q };
    let m = q.mul(t);
    if m >= *p.get(117) {
        None
    } else {
        Some(m)
    }
}

fn round(prop: &str, c: &Case, p: &Pow) -> V {
    let n = c.n as isize;
    let want = rounded(&c.a.v(p), c.n, p);
    let a = c.a.fx();
    let r1 = call(|| {
        let mut x = a.clone();
        x.round(n);
        Dec::of(&x)
    });
    let r2 = call(|| {
        let mut d = c.dst.fx();
        a.round_to(&mut d, n);
        Dec::of(&d)
    });
    if prop == "C15" {
        let r3 = call(|| {
            let mut d = Dec::ZERO.fx();
            a.round_to(&mut d, n);
            Dec::of(&d)
        });
        if r2.is_ok() != r3.is_ok() || (r2.is_ok() && r2 != r3) {
            return Some(format!("{:?} differs from {:?} obtained with a zero destination", r2, r3));
        }
        return None;
    }
    for (name, r) in [("round", &r1), ("round_to", &r2)] {
        match (r, &want) {
            (Err(m), Some(_)) => {
                if prop == "C12" || prop == "C18" {
                    return Some(format!("{} panicked: {}", name, m));
                }
            }
            (Err(_), None) => {}
            (Ok(d), w) => {
                if prop == "C01" {
                    if let Some(m) = d.ill() {
                        return Some(format!("{} gives {}: {}", name, d.show(), m));
                    }
                }
                if prop == "C12" {
                    let w = match w {
                        Some(w) => w,
                        None => return Some(format!("{} gives {} although the result needs 82 digits", name, d.show())),
                    };
                    let ws = norm((c.a.neg, *w));
                    if sv(d, p) != ws {
                        return Some(format!("{} gives {}, expected {}{}e-36", name, d.show(), if ws.0 { "-" } else { "" }, w.digits()));
                    }
                }
                if prop == "C19" {
                    let cap = (9 - c.a.iu()).min(4) * 9;
                    let w = if c.n < 0 {
                        0
                    } else if c.n >= c.a.frac as i64 {
                        c.n.min(cap)
                    } else if sv(d, p).1 >= *p.get((36 + 9 * c.a.iu()) as usize) {
                        // a further integral group appeared
                        c.n.min((9 - c.a.iu() - 1) * 9)
                    } else {
                        c.n
                    };
                    if d.frac as i64 != w {
                        return Some(format!("{} gives scale {}, expected {}", name, d.frac, w));
                    }
                }
            }
        }
    }
    if prop == "C12" {
        if let (Ok(x), Ok(y)) = (&r1, &r2) {
            if x != y {
                return Some(format!("round gives {}, round_to gives {}", x.show(), y.show()));
            }
        }
        if r1.is_ok() != r2.is_ok() {
            return Some("round and round_to disagree on failing".into());
        }
    }
    None
}

fn roundeq(c: &Case, p: &Pow) -> V {
    if sv(&c.a, p) != sv(&c.b, p) {
        return None;
    }
    let n = c.n as isize;
    if rounded(&c.a.v(p), c.n, p).is_none() {
        return None;
    }
    let r = call(|| {
        let mut x = c.a.fx();
        x.round(n);
        let mut y = c.b.fx();
        y.round(n);
        (Dec::of(&x), Dec::of(&y))
    });
    match r {
        Err(m) => Some(format!("panicked: {}", m)),
        Ok((x, y)) => {
            if sv(&x, p) != sv(&y, p) {
                Some(format!("equal numbers round to {} and {}", x.show(), y.show()))
            } else {
                None
            }
        }
    }
}

/// value (sign, magnitude digits), scale and total digits of an accepted text
pub fn parse_spec(s: &[u8], p: &Pow) -> Option<(bool, Big, i64)> {
    let mut i = 0;
    let mut neg = false;
    if i < s.len() && (s[i] == b'+' || s[i] == b'-') {
        neg = s[i] == b'-';
        i += 1;
    }
    let mut m = Big::ZERO;
    let (mut d, mut f, mut dot) = (0i64, 0i64, false);
    while i < s.len() && (s[i].is_ascii_digit() || (s[i] == b'.' && !dot)) {
        if s[i] == b'.' {
            dot = true;
        } else {
            d += 1;
            if dot {
                f += 1;
            }
            if d <= 70 {
                m = m.mul_small_add(10, (s[i] - b'0') as u64);
            }
        }
        i += 1;
    }
    if d == 0 {
        return None;
    }
    let mut exp = 0i64;
    if i < s.len() {
        if s[i] != b'e' && s[i] != b'E' {
            return None;
        }
        i += 1;
        let mut en = false;
        if i < s.len() && (s[i] == b'+' || s[i] == b'-') {
            en = s[i] == b'-';
            i += 1;
        }
        let e = &s[i..];
        if e.is_empty() || !e.iter().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let t: Vec<u8> = e.iter().copied().skip_while(|c| *c == b'0').collect();
        if t.len() > 3 {
            return None;
        }
        for c in t {
            exp = exp * 10 + (c - b'0') as i64;
        }
        if en {
            exp = -exp;
        }
        if !(-30..=65).contains(&exp) {
            return None;
        }
    }
    let fr = f - exp;
    let digits = if fr < 0 { d - fr } else { d.max(fr) };
    if digits > 65 || fr > 30 {
        return None;
    }
    let (m, scale) = if fr < 0 { (m.mul(p.get((-fr) as usize)), 0) } else { (m, fr) };
    Some((neg && !m.is_zero(), m, scale))
}

fn parse(prop: &str, c: &Case, p: &Pow) -> V {
    let reset = c.n & 1 == 1;
    let go = |dst: &Dec| {
        call(|| {
            let mut d = dst.fx();
            let r = d.from_bytes_str(&c.bytes, reset);
            (r.map_err(|e| ename(&e)), Dec::of(&d))
        })
    };
    let (r, d) = match go(&c.dst) {
        Ok(x) => x,
        Err(m) => {
            if prop == "C09" || prop == "C18" {
                return Some(format!("panicked: {}", m));
            }
            if prop == "C15" && go(&Dec::ZERO).is_ok() {
                return Some(format!("panics only for this destination: {}", m));
            }
            return None;
        }
    };
    match prop {
        "C01" => d.ill().map(|m| format!("parsed into {}: {}", d.show(), m)),
        "C15" => {
            let (r2, d2) = match go(&Dec::ZERO) {
                Ok(x) => x,
                Err(m) => return Some(format!("panics only for a zero destination: {}", m)),
            };
            if r.is_ok() != r2.is_ok() {
                return Some("acceptance depends on the destination".into());
            }
            match r {
                Ok(()) if d != d2 => Some(format!("{} differs from {} obtained with a zero destination", d.show(), d2.show())),
                Err(_) => {
                    let w = if reset { Dec::ZERO } else { c.dst };
                    if d != w {
                        Some(format!("rejected text changed the destination to {}", d.show()))
                    } else {
                        None
                    }
                }
                _ => None,
            }
        }
        "C09" => {
            let w = parse_spec(&c.bytes, p);
            match (&r, &w) {
                (Ok(()), None) => Some(format!("accepted as {}", d.show())),
                (Err(e), Some(_)) => Some(format!("rejected with {}", e)),
                (Err(e), None) => {
                    if *e != "ConversionSyntax" {
                        return Some(format!("rejected with {}", e));
                    }
                    if let Ok(s) = std::str::from_utf8(&c.bytes) {
                        let r = call(|| {
                            let x: Result<FixedDecimal, Error> = s.parse();
                            let mut y = c.dst.fx();
                            let ry = y.from_ascii_str(s, reset);
                            (x.map(|x| Dec::of(&x)).map_err(|e| ename(&e)), ry.map_err(|e| ename(&e)))
                        });
                        if r != Ok((Err("ConversionSyntax".into()), Err("ConversionSyntax".into()))) {
                            return Some(format!("str entry points disagree: {:?}", r));
                        }
                    }
                    None
                }
                (Ok(()), Some((neg, m, scale))) => {
                    let v = m.mul(p.get((36 - scale) as usize));
                    if sv(&d, p) != (*neg, v) || d.frac as i64 != *scale {
                        return Some(format!("gives {}, expected {}{}e-{}", d.show(), if *neg { "-" } else { "" }, m.digits(), scale));
                    }
                    // the other entry points
                    if let Ok(s) = std::str::from_utf8(&c.bytes) {
                        let r = call(|| {
                            let x: Result<FixedDecimal, Error> = s.parse();
                            let mut y = FixedDecimal::zero();
                            let ry = y.from_ascii_str(s, reset);
                            (x.map(|x| Dec::of(&x)).map_err(|e| ename(&e)), ry.is_ok(), Dec::of(&y))
                        });
                        if r != Ok((Ok(d), true, d)) {
                            return Some(format!("str entry points disagree: {:?}", r));
                        }
                    }
                    None
                }
            }
        }
        _ => None,
    }
}

pub fn text_spec(d: &Dec, n: i64, p: &Pow) -> String {
    let v = d.v(p);
    let (i, f) = v.divrem(p.get(36));
    let mut s = String::new();
    if d.neg {
        s.push('-');
    }
    s.push_str(&i.digits());
    let k = if n < 0 { d.frac as i64 } else { n };
    if k > 0 {
        s.push('.');
        let fs = format!("{:0>36}", f.digits());
        for j in 0..k as usize {
            s.push(if j < 36 { fs.as_bytes()[j] as char } else { '0' });
        }
    }
    s
}

fn format(prop: &str, c: &Case, p: &Pow) -> V {
    let a = c.a.fx();
    let r = call(|| {
        let mut buf = c.bytes.clone();
        a.append_str_buf(&mut buf, c.n as isize);
        (buf, a.to_string(c.n as isize).into_bytes())
    });
    let (buf, s) = match r {
        Ok(x) => x,
        Err(m) => return Some(format!("panicked: {}", m)),
    };
    if prop == "C18" {
        if std::str::from_utf8(&s).is_err() {
            return Some("text is not UTF-8".into());
        }
        return None;
    }
    let w = text_spec(&c.a, c.n, p).into_bytes();
    if s != w {
        return Some(format!("printed {:?}, expected {:?}", String::from_utf8_lossy(&s), String::from_utf8_lossy(&w)));
    }
    let mut pre = c.bytes.clone();
    pre.extend_from_slice(&w);
    if buf != pre {
        return Some(format!("buffer holds {:?}, expected {:?}", buf, pre));
    }
    None
}

fn printparse(c: &Case, p: &Pow) -> V {
    let t = text_spec(&c.a, -1, p);
    let digs = t.bytes().filter(|x| x.is_ascii_digit()).count();
    if c.a.frac > 30 || digs > 65 {
        return None;
    }
    let a = c.a.fx();
    let r = call(|| {
        let s = a.to_string(-1);
        let x: Result<FixedDecimal, Error> = s.parse();
        (s, x.map(|x| Dec::of(&x)).map_err(|e| ename(&e)))
    });
    match r {
        Err(m) => Some(format!("panicked: {}", m)),
        Ok((s, Err(e))) => Some(format!("{:?} is rejected with {}", s, e)),
        Ok((s, Ok(d))) => {
            if sv(&d, p) != sv(&c.a, p) || d.frac != c.a.frac {
                Some(format!("{:?} gives {}", s, d.show()))
            } else {
                None
            }
        }
    }
}

fn reparse(c: &Case, _p: &Pow) -> V {
    let r = call(|| {
        let mut d = FixedDecimal::zero();
        if d.from_bytes_str(&c.bytes, true).is_err() {
            return None;
        }
        let s = d.to_string(-1);
        let x: Result<FixedDecimal, Error> = s.parse();
        Some((Dec::of(&d), s, x.map(|x| (Dec::of(&x), x.to_string(-1))).map_err(|e| ename(&e))))
    });
    match r {
        Err(m) => Some(format!("panicked: {}", m)),
        Ok(None) => None,
        Ok(Some((_, s, Err(e)))) => {
            // the leading 0 of a pure fraction may exceed the digit limit
            let digs = s.bytes().filter(|x| x.is_ascii_digit()).count();
            if digs > 65 {
                None
            } else {
                Some(format!("{:?} is rejected with {}", s, e))
            }
        }
        Ok(Some((d, s, Ok((x, s2))))) => {
            if d.neg != x.neg || d.frac != x.frac || d.lsu != x.lsu || s != s2 {
                Some(format!("{} printed {:?} became {} printed {:?}", d.show(), s, x.show(), s2))
            } else {
                None
            }
        }
    }
}

fn fromint(prop: &str, c: &Case, p: &Pow) -> V {
    let (i, u) = (c.n, c.n as u64);
    let r = call(|| {
        let x = FixedDecimal::from(i);
        let y = FixedDecimal::from(u);
        (Dec::of(&x), Dec::of(&y))
    });
    let (x, y) = match r {
        Ok(r) => r,
        Err(m) => return if prop == "C13" || prop == "C18" { Some(format!("panicked: {}", m)) } else { None },
    };
    match prop {
        "C01" => x.ill().or(y.ill()).map(|m| format!("{} / {}: {}", x.show(), y.show(), m)),
        "C13" => {
            let wx = (i < 0, Big::from_u64(i.unsigned_abs()).mul(p.get(36)));
            let wy = (false, Big::from_u64(u).mul(p.get(36)));
            if sv(&x, p) != wx || x.frac != 0 {
                return Some(format!("i64 {} became {}", i, x.show()));
            }
            if sv(&y, p) != wy || y.frac != 0 {
                return Some(format!("u64 {} became {}", u, y.show()));
            }
            None
        }
        "C14" | "C18" => {
            let r = call(|| (x.fx().as_i64().map_err(|e| ename(&e)), y.fx().as_u64().map_err(|e| ename(&e))));
            match r {
                Err(m) => Some(format!("panicked: {}", m)),
                Ok(r) => {
                    if prop == "C14" && r != (Ok(i), Ok(u)) {
                        Some(format!("round trip of {} / {} gives {:?}", i, u, r))
                    } else {
                        None
                    }
                }
            }
        }
        _ => None,
    }
}

fn toint(prop: &str, c: &Case, p: &Pow) -> V {
    let a = c.a.fx();
    let r = call(|| (a.as_i64().map_err(|e| ename(&e)), a.as_u64().map_err(|e| ename(&e))));
    let (ri, ru) = match r {
        Ok(r) => r,
        Err(m) => return Some(format!("panicked: {}", m)),
    };
    if prop == "C18" {
        return None;
    }
    let v = c.a.v(p);
    let lim = |x: u64| Big::from_u64(x).mul(p.get(36));
    let w = rounded(&v, 0, p).map(|m| m.divrem(p.get(36)).0);
    let low = |w: Option<Big>| w.map(|b| b.0[0]).unwrap_or(0);
    let wi: Result<i64, &str> = if c.a.neg && v <= lim(1 << 63) {
        Ok((low(w) as i64).wrapping_neg())
    } else if !c.a.neg && v <= lim(i64::MAX as u64) {
        Ok(low(w) as i64)
    } else {
        Err("ExceedsConversionTargetRange")
    };
    let wu: Result<u64, &str> = if !c.a.neg && v <= lim(u64::MAX) { Ok(low(w)) } else { Err("ExceedsConversionTargetRange") };
    if ri != wi {
        return Some(format!("as_i64 gives {:?}, expected {:?}", ri, wi));
    }
    if ru != wu {
        return Some(format!("as_u64 gives {:?}, expected {:?}", ru, wu));
    }
    None
}

fn access(prop: &str, c: &Case, _p: &Pow) -> V {
    let r = call(|| {
        let a = c.a.fx();
        let mut ne = a.clone();
        ne.set_neg();
        let mut po = a.clone();
        po.set_pos();
        let mut z = a.clone();
        z.set_zero();
        let mut o = a.clone();
        o.set_one();
        (
            (a.is_neg(), a.is_zero(), a.intg(), a.frac(), a.intg_units(), a.frac_units()),
            Dec::of(&ne),
            Dec::of(&po),
            (Dec::of(&z), Dec::of(&FixedDecimal::zero())),
            (Dec::of(&o), Dec::of(&FixedDecimal::one())),
            Dec::of(&a),
        )
    });
    let (acc, ne, po, z, o, cl) = match r {
        Ok(r) => r,
        Err(m) => return Some(format!("panicked: {}", m)),
    };
    let a = &c.a;
    match prop {
        "C01" => {
            for d in [&ne, &po, &z.0, &z.1, &o.0, &o.1, &cl] {
                if let Some(m) = d.ill() {
                    return Some(format!("{}: {}", d.show(), m));
                }
            }
            None
        }
        "C17" => {
            let w = (a.neg, a.is_zero(), a.intg, a.frac, a.iu() as usize, a.fu() as usize);
            if acc != w {
                return Some(format!("accessors give {:?}, expected {:?}", acc, w));
            }
            let mut wn = *a;
            wn.neg = !a.is_zero();
            let mut wp = *a;
            wp.neg = false;
            if ne != wn || po != wp {
                return Some(format!("set_neg gives {}, set_pos gives {}", ne.show(), po.show()));
            }
            for (k, d) in [(0, &z.0), (0, &z.1), (1, &o.0), (1, &o.1)] {
                let ok = !d.neg && d.frac == 0 && d.lsu[0] == k && d.lsu[1..].iter().all(|x| *x == 0);
                if !ok {
                    return Some(format!("constant {} is {}", k, d.show()));
                }
            }
            None
        }
        _ => None,
    }
}

pub fn judge(prop: &str, c: &Case, p: &Pow) -> V {
    match c.op {
        Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Rem => arith(prop, c, p),
        Op::Cmp => cmp(prop, c, p),
        Op::Hash => hash(prop, c, p),
        Op::Round => round(prop, c, p),
        Op::RoundEq => roundeq(c, p),
        Op::Parse => parse(prop, c, p),
        Op::Reparse => reparse(c, p),
        Op::Format => format(prop, c, p),
        Op::PrintParse => printparse(c, p),
        Op::FromInt => fromint(prop, c, p),
        Op::ToInt => toint(prop, c, p),
        Op::Access => access(prop, c, p),
    }
}
