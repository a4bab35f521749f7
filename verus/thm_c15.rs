// C15: the outcome is the same whatever the destination held. The operands are shared references,
// which the language keeps unchanged.

/// equal outcome: value, scale and sign
pub open spec fn same(a: FixedDecimal, b: FixedDecimal) -> bool {
    mag(a) == mag(b) && a.frac == b.frac && neg(a) == neg(b) && val(a) == val(b)
}

pub open spec fn same_res(a: Result<()>, b: Result<()>) -> bool {
    match (a, b) {
        (Ok(_), Ok(_)) => true,
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}

pub proof fn lem_same(a: FixedDecimal, b: FixedDecimal)
    requires wf(a), wf(b), a.frac == b.frac, val(a) == val(b) || mag(a) == mag(b) && neg(a) == neg(b),
    ensures same(a, b),
{
    lem_mag_zero(a);
    lem_mag_zero(b);
    lem_pw_pos(4 - fu(a));
    let (x, y, p) = (mag(a), mag(b), pw(4 - fu(a)));
    if val(a) == val(b) {
        assert(x == y) by (nonlinear_arith) requires p >= 1, neg(a) == neg(b), (if neg(a) { -x } else { x }) * p == (if neg(b) { -y } else { y }) * p;
    }
}

pub proof fn lem_same_zero(a: FixedDecimal, b: FixedDecimal)
    requires is_zero_dec(a), is_zero_dec(b),
    ensures same(a, b),
{
    lem_zero_dec();
    lem_rng_zeros(a.lsu@, 0, 9);
    lem_rng_zeros(b.lsu@, 0, 9);
    assert(0 * pw(4) == 0 && -0 * pw(4) == 0);
}

pub fn thm_add(l: &FixedDecimal, r: &FixedDecimal, d: &mut FixedDecimal, e: &mut FixedDecimal) -> (x: (Result<()>, Result<()>))
    requires wf(*l), wf(*r),
    ensures same_res(x.0, x.1), same(*final(d), *final(e)),
{
    let a = FixedDecimal::add_to(l, r, d);
    let b = FixedDecimal::add_to(l, r, e);
    proof {
        if is_zero_dec(*d) && is_zero_dec(*e) { lem_same_zero(*d, *e); } else { lem_same(*d, *e); }
    }
    (a, b)
}

pub fn thm_sub(l: &FixedDecimal, r: &FixedDecimal, d: &mut FixedDecimal, e: &mut FixedDecimal) -> (x: (Result<()>, Result<()>))
    requires wf(*l), wf(*r),
    ensures same_res(x.0, x.1), same(*final(d), *final(e)),
{
    let a = FixedDecimal::sub_to(l, r, d);
    let b = FixedDecimal::sub_to(l, r, e);
    proof {
        if is_zero_dec(*d) && is_zero_dec(*e) { lem_same_zero(*d, *e); } else { lem_same(*d, *e); }
    }
    (a, b)
}

pub fn thm_mul(l: &FixedDecimal, r: &FixedDecimal, d: &mut FixedDecimal, e: &mut FixedDecimal) -> (x: (Result<()>, Result<()>))
    requires wf(*l), wf(*r),
    ensures same_res(x.0, x.1), same(*final(d), *final(e)),
{
    let a = FixedDecimal::mul_to(l, r, d);
    let b = FixedDecimal::mul_to(l, r, e);
    proof {
        if is_zero_dec(*d) && is_zero_dec(*e) { lem_same_zero(*d, *e); } else { lem_same(*d, *e); }
    }
    (a, b)
}

pub fn thm_div(l: &FixedDecimal, r: &FixedDecimal, i: usize, d: &mut FixedDecimal, e: &mut FixedDecimal) -> (x: (Result<()>, Result<()>))
    requires wf(*l), wf(*r),
    ensures same_res(x.0, x.1), same(*final(d), *final(e)),
{
    let a = FixedDecimal::div_to(l, r, d, i);
    let b = FixedDecimal::div_to(l, r, e, i);
    proof {
        if is_zero_dec(*d) && is_zero_dec(*e) { lem_same_zero(*d, *e); } else { lem_same(*d, *e); }
    }
    (a, b)
}

pub fn thm_rem(l: &FixedDecimal, r: &FixedDecimal, d: &mut FixedDecimal, e: &mut FixedDecimal) -> (x: (Result<()>, Result<()>))
    requires wf(*l), wf(*r),
    ensures same_res(x.0, x.1), same(*final(d), *final(e)),
{
    let a = FixedDecimal::rem_to(l, r, d);
    let b = FixedDecimal::rem_to(l, r, e);
    proof {
        if is_zero_dec(*d) && is_zero_dec(*e) { lem_same_zero(*d, *e); } else { lem_same(*d, *e); }
    }
    (a, b)
}

pub fn thm_round(s: &FixedDecimal, n: isize, d: &mut FixedDecimal, e: &mut FixedDecimal)
    requires wf(*s), round_ok(*s, n as int),
    ensures same(*final(d), *final(e)),
{
    s.round_to(d, n);
    s.round_to(e, n);
    proof {
        let (x, y, p) = (mag(*d), mag(*e), pw(4 - fu(*d)));
        lem_pw_pos(4 - fu(*d));
        assert(x == y) by (nonlinear_arith) requires p >= 1, x * p == y * p;
        lem_same(*d, *e);
    }
}

pub fn thm_parse(bs: &[u8], d: &mut FixedDecimal, e: &mut FixedDecimal, rd: bool, re: bool) -> (x: (Result<()>, Result<()>))
    requires bs@.len() < 0x4000_0000_0000_0000,
    ensures
        same_res(x.0, x.1),
        x.0 is Ok ==> same(*final(d), *final(e)),
        x.0 is Err ==> *final(d) == *old(d) || rd && is_zero_dec(*final(d)),
        x.0 is Err && !rd ==> *final(d) == *old(d),
        x.0 is Err && rd ==> is_zero_dec(*final(d)),
{
    let a = d.from_bytes_str(bs, rd);
    let b = e.from_bytes_str(bs, re);
    proof { if a is Ok { lem_same(*d, *e); } }
    (a, b)
}
