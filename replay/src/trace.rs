//! Prints cases and what the real crate does with them, one per line.
use crate::outcome::{outcome, Res, S};
use fxd::{Error, FixedDecimal};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

fn code(e: Error) -> u8 {
    match e {
        Error::ConversionSyntax => 1,
        Error::DivisionByZero => 2,
        Error::Overflow => 3,
        Error::ExceedsConversionTargetRange => 4,
    }
}
#[derive(Default)]
struct Log(Vec<u8>);
impl Hasher for Log {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b);
    }
}
impl S for FixedDecimal {
    fn mk(i: i8, f: i8, l: [i32; 9]) -> Self {
        FixedDecimal::verif_from_parts(i, f, l)
    }
    fn parts(&self) -> (i8, i8, [i32; 9]) {
        self.verif_parts()
    }
    fn op_to(op: usize, a: &Self, b: &Self, r: &mut Self, n: usize) -> Res<()> {
        match op {
            0 => FixedDecimal::add_to(a, b, r),
            1 => FixedDecimal::sub_to(a, b, r),
            2 => FixedDecimal::mul_to(a, b, r),
            3 => FixedDecimal::div_to(a, b, r, n),
            _ => FixedDecimal::rem_to(a, b, r),
        }
        .map_err(code)
    }
    fn op(op: usize, a: Self, b: Self) -> Self {
        match op {
            0 => a + b,
            1 => a - b,
            2 => a * b,
            3 => a / b,
            _ => a % b,
        }
    }
    fn o_cmp(&self, o: &Self) -> (i8, Option<i8>, bool) {
        (self.cmp(o) as i8, self.partial_cmp(o).map(|x: Ordering| x as i8), self == o)
    }
    fn o_hash(&self) -> Vec<u8> {
        let mut l = Log::default();
        self.hash(&mut l);
        l.0
    }
    fn o_round(&mut self, n: isize) {
        self.round(n)
    }
    fn o_round_to(&self, r: &mut Self, n: isize) {
        self.round_to(r, n)
    }
    fn o_bytes(&mut self, b: &[u8], reset: bool) -> Res<()> {
        self.from_bytes_str(b, reset).map_err(code)
    }
    fn o_ascii(&mut self, b: &str, reset: bool) -> Res<()> {
        self.from_ascii_str(b, reset).map_err(code)
    }
    fn o_str(b: &str) -> Res<Self> {
        b.parse::<FixedDecimal>().map_err(code)
    }
    fn o_append(&self, v: &mut Vec<u8>, n: isize) {
        self.append_str_buf(v, n)
    }
    fn o_text(&self, n: isize) -> String {
        self.to_string(n)
    }
    fn o_u64(v: u64) -> Self {
        FixedDecimal::from(v)
    }
    fn o_i64(v: i64) -> Self {
        FixedDecimal::from(v)
    }
    fn o_to(&self) -> (Res<i64>, Res<u64>) {
        (self.as_i64().map_err(code), self.as_u64().map_err(code))
    }
    fn o_access(&self) -> (bool, bool, i8, i8, usize, usize) {
        (self.is_neg(), self.is_zero(), self.intg(), self.frac(), self.intg_units(), self.frac_units())
    }
    fn o_set(&mut self, k: usize) {
        match k {
            0 => self.set_neg(),
            1 => self.set_pos(),
            2 => self.set_zero(),
            _ => self.set_one(),
        }
    }
    fn o_const() -> (Self, Self) {
        (FixedDecimal::zero(), FixedDecimal::one())
    }
}

pub fn trace(prop: &str, n: u64, seed: u64) {
    use std::io::Write;
    let p = crate::big::Pow::new();
    let ops = crate::ops_of(prop);
    let mut r = crate::gen::Rng::new(seed ^ 0x7ace);
    let mut o = std::io::BufWriter::new(std::io::stdout());
    for k in 0..n {
        let c = crate::gen::case(&mut r, ops[k as usize % ops.len()], &p);
        let l = c.line();
        if writeln!(o, "{} => {}", l, outcome::<FixedDecimal>(&l)).is_err() {
            return;
        }
    }
}
