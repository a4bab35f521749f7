// Appended to the text handed to the verifier when it is compiled for the comparison with the real
// crate; not part of what is verified. outcome.rs is pasted in front of it.
verus! {
pub struct XLog { pub v: Vec<u8> }
impl VHasher for XLog {
    uninterp spec fn log(&self) -> Seq<(int, int)>;
    #[verifier::external_body] fn write_u8(&mut self, i: u8) { xlog(self, &i.to_ne_bytes()) }
    #[verifier::external_body] fn write_u16(&mut self, i: u16) { xlog(self, &i.to_ne_bytes()) }
    #[verifier::external_body] fn write_u32(&mut self, i: u32) { xlog(self, &i.to_ne_bytes()) }
    #[verifier::external_body] fn write_u64(&mut self, i: u64) { xlog(self, &i.to_ne_bytes()) }
    #[verifier::external_body] fn write_usize(&mut self, i: usize) { xlog(self, &i.to_ne_bytes()) }
    #[verifier::external_body] fn write_i8(&mut self, i: i8) { xlog(self, &i.to_ne_bytes()) }
    #[verifier::external_body] fn write_i16(&mut self, i: i16) { xlog(self, &i.to_ne_bytes()) }
    #[verifier::external_body] fn write_i32(&mut self, i: i32) { xlog(self, &i.to_ne_bytes()) }
    #[verifier::external_body] fn write_i64(&mut self, i: i64) { xlog(self, &i.to_ne_bytes()) }
    #[verifier::external_body] fn write_isize(&mut self, i: isize) { xlog(self, &i.to_ne_bytes()) }
}
}
fn xlog(l: &mut XLog, b: &[u8]) { l.v.push(b.len() as u8); l.v.extend_from_slice(b); }
fn xcode(e: Error) -> u8 {
    match e { Error::ConversionSyntax => 1, Error::DivisionByZero => 2, Error::Overflow => 3, Error::ExceedsConversionTargetRange => 4 }
}
impl S for FixedDecimal {
    fn mk(intg: i8, frac: i8, lsu: [i32; 9]) -> Self { FixedDecimal { intg, frac, lsu } }
    fn parts(&self) -> (i8, i8, [i32; 9]) { (self.intg, self.frac, self.lsu) }
    fn op_to(op: usize, a: &Self, b: &Self, r: &mut Self, n: usize) -> Res<()> {
        match op {
            0 => FixedDecimal::add_to(a, b, r),
            1 => FixedDecimal::sub_to(a, b, r),
            2 => FixedDecimal::mul_to(a, b, r),
            3 => FixedDecimal::div_to(a, b, r, n),
            _ => FixedDecimal::rem_to(a, b, r),
        }.map_err(xcode)
    }
    fn op(op: usize, a: Self, b: Self) -> Self {
        match op { 0 => a.op_add_any(b), 1 => a.op_sub_any(b), 2 => a.op_mul_any(b), 3 => a.op_div_any(b), _ => a.op_rem_any(b) }
    }
    fn o_cmp(&self, o: &Self) -> (i8, Option<i8>, bool) { (FixedDecimal::cmp(self, o) as i8, FixedDecimal::partial_cmp(self, o).map(|x| x as i8), FixedDecimal::eq(self, o)) }
    fn o_hash(&self) -> Vec<u8> { let mut l = XLog { v: vec![] }; self.hash(&mut l); l.v }
    fn o_round(&mut self, n: isize) { self.round(n) }
    fn o_round_to(&self, r: &mut Self, n: isize) { self.round_to(r, n) }
    fn o_bytes(&mut self, b: &[u8], reset: bool) -> Res<()> { self.from_bytes_str(b, reset).map_err(xcode) }
    fn o_ascii(&mut self, b: &str, reset: bool) -> Res<()> { self.from_ascii_str(b, reset).map_err(xcode) }
    fn o_str(b: &str) -> Res<Self> { FixedDecimal::from_str(b).map_err(xcode) }
    fn o_append(&self, v: &mut Vec<u8>, n: isize) { self.append_str_buf(v, n) }
    fn o_text(&self, n: isize) -> String { self.to_string(n) }
    fn o_u64(v: u64) -> Self { FixedDecimal::from_u64(v) }
    fn o_i64(v: i64) -> Self { FixedDecimal::from_i64(v) }
    fn o_to(&self) -> (Res<i64>, Res<u64>) { (self.as_i64().map_err(xcode), self.as_u64().map_err(xcode)) }
    fn o_access(&self) -> (bool, bool, i8, i8, usize, usize) { (self.is_neg(), self.is_zero(), self.intg(), self.frac(), self.intg_units(), self.frac_units()) }
    fn o_set(&mut self, k: usize) { match k { 0 => self.set_neg(), 1 => self.set_pos(), 2 => self.set_zero(), _ => self.set_one() } }
    fn o_const() -> (Self, Self) { (FixedDecimal::zero(), FixedDecimal::one()) }
}
pub fn main() {
    use std::io::BufRead;
    std::panic::set_hook(Box::new(|_| {}));
    let (mut n, mut bad, mut hard) = (0u64, 0u64, 0u64);
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let (c, want) = l.split_once(" => ").unwrap();
        let got = outcome::<FixedDecimal>(c);
        n += 1;
        if got != want {
            bad += 1;
            if !want.contains("panic") { hard += 1; }
            if bad <= 3 { println!("DIFFERS {}\n  crate:    {}\n  verified: {}", c, want, got); }
        }
    }
    println!("compared {} differ {} hard {}", n, bad, hard);
}
