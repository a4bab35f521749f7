// C01 as clients of the contracts: every public operation that makes or changes a decimal leaves a
// valid one, whatever it was given and whether or not it reports an error. By induction over the calls
// nothing reachable from valid decimals is invalid.

pub fn thm_add(l: &FixedDecimal, r: &FixedDecimal, d: &mut FixedDecimal) -> (x: Result<()>)
    requires wf(*l), wf(*r),
    ensures wf(*final(d)),
{ FixedDecimal::add_to(l, r, d) }

pub fn thm_sub(l: &FixedDecimal, r: &FixedDecimal, d: &mut FixedDecimal) -> (x: Result<()>)
    requires wf(*l), wf(*r),
    ensures wf(*final(d)),
{ FixedDecimal::sub_to(l, r, d) }

pub fn thm_mul(l: &FixedDecimal, r: &FixedDecimal, d: &mut FixedDecimal) -> (x: Result<()>)
    requires wf(*l), wf(*r),
    ensures wf(*final(d)),
{ FixedDecimal::mul_to(l, r, d) }

pub fn thm_div(l: &FixedDecimal, r: &FixedDecimal, d: &mut FixedDecimal, i: usize) -> (x: Result<()>)
    requires wf(*l), wf(*r),
    ensures wf(*final(d)),
{ FixedDecimal::div_to(l, r, d, i) }

pub fn thm_rem(l: &FixedDecimal, r: &FixedDecimal, d: &mut FixedDecimal) -> (x: Result<()>)
    requires wf(*l), wf(*r),
    ensures wf(*final(d)),
{ FixedDecimal::rem_to(l, r, d) }

/// the operators: if one returns, it returns a valid decimal
pub fn thm_ops(k: u8, l: FixedDecimal, r: FixedDecimal) -> (x: FixedDecimal)
    requires wf(l), wf(r),
    ensures wf(x),
{
    if k == 0 { l.op_add_any(r) } else if k == 1 { l.op_sub_any(r) } else if k == 2 { l.op_mul_any(r) } else if k == 3 { l.op_div_any(r) } else { l.op_rem_any(r) }
}

pub fn thm_round(d: &mut FixedDecimal, n: isize)
    requires wf(*old(d)), round_ok(*old(d), n as int),
    ensures wf(*final(d)),
{ d.round(n) }

pub fn thm_round_to(s: &FixedDecimal, d: &mut FixedDecimal, n: isize)
    requires wf(*s), round_ok(*s, n as int),
    ensures wf(*final(d)),
{ s.round_to(d, n) }

pub fn thm_parse(d: &mut FixedDecimal, bs: &[u8], reset: bool) -> (r: Result<()>)
    requires bs@.len() < 0x4000_0000_0000_0000, wf(*old(d)),
    ensures wf(*final(d)),
{
    proof { lem_zero_dec(); }
    d.from_bytes_str(bs, reset)
}

pub fn thm_parse_str(d: &mut FixedDecimal, s: &str, reset: bool) -> (r: Result<()>)
    requires vstd::utf8::encode_utf8(s@).len() < 0x4000_0000_0000_0000, wf(*old(d)),
    ensures wf(*final(d)),
{
    proof { lem_zero_dec(); }
    d.from_ascii_str(s, reset)
}

pub fn thm_from_str(s: &str) -> (r: Result<FixedDecimal>)
    requires vstd::utf8::encode_utf8(s@).len() < 0x4000_0000_0000_0000,
    ensures r is Ok ==> wf(r->Ok_0),
{ FixedDecimal::from_str(s) }

pub fn thm_from_int(a: i64, b: u64) -> (r: (FixedDecimal, FixedDecimal))
    ensures wf(r.0), wf(r.1),
{ (FixedDecimal::from_i64(a), FixedDecimal::from_u64(b)) }

pub fn thm_make() -> (r: (FixedDecimal, FixedDecimal))
    ensures wf(r.0), wf(r.1),
{ (FixedDecimal::zero(), FixedDecimal::one()) }

pub fn thm_set(d: &mut FixedDecimal, k: u8)
    requires wf(*old(d)),
    ensures wf(*final(d)),
{
    let ghost o = *d;
    if k == 0 { d.set_zero(); }
    else if k == 1 { d.set_one(); }
    else if k == 2 { d.set_pos(); proof { lem_sign(o, *d, false); } }
    else { d.set_neg(); proof { lem_mag_zero(o); if !neg(o) { lem_sign(o, *d, true); } } }
}

/// what valid means
pub proof fn thm_valid(d: FixedDecimal)
    requires wf(d),
    ensures
        // at most 81 digits in nine groups, at most four of them fractional
        0 <= dg(d) <= 81, 0 <= d.frac <= 36, iu(d) + fu(d) <= 9, fu(d) <= 4,
        // groups below 10^9, nothing in those not used
        forall|i: int| 0 <= i < 9 ==> 0 <= #[trigger] d.lsu@[i] < 1_000_000_000,
        forall|i: int| iu(d) + fu(d) <= i < 9 ==> #[trigger] d.lsu@[i] == 0,
        // the integral part has no more digits than counted, no digit beyond the scale is set
        ipart(d) < p10(dg(d)),
        fpart(d) % p10(9 * fu(d) - d.frac) == 0,
        // zero is never negative
        val(d) == 0 ==> !neg(d),
{
    lem_mag_zero(d);
    let s = d.lsu@;
    let a = fu(d);
    lem_rng_split(s, 0, a, 9);
    lem_rng_bound(s, 0, a);
    lem_rng_bound(s, a, 9);
    let (i, f, p, q) = (ipart(d), fpart(d), pw(a), p10(dg(d)));
    lem_pw_pos(a);
    assert(p * i == i * p) by (nonlinear_arith);
    assert(i < q) by (nonlinear_arith) requires i * p + f < q * p, f >= 0, p >= 1;
    // pw(a) is a multiple of 10^(9 fu - scale)
    let k = 9 * a - d.frac;
    lem_p10_pw(a);
    lem_p10_add(k, d.frac as int);
    lem_p10_pos(k);
    let (pk, pf) = (p10(k), p10(d.frac as int));
    assert(p * i == (i * pf) * pk) by (nonlinear_arith) requires p == pk * pf;
    lem_mul_mod(i * pf, pk);
    lem_mod_add(mag(d), (i * pf) * pk, pk);
}
