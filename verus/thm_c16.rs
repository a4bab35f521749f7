// C16: what the operators return is what the fallible operations store.

/// equal outcome: value, scale and sign
pub open spec fn same(a: FixedDecimal, b: FixedDecimal) -> bool {
    mag(a) == mag(b) && a.frac == b.frac && neg(a) == neg(b) && val(a) == val(b)
}

pub proof fn lem_same(a: FixedDecimal, b: FixedDecimal)
    requires wf(a), wf(b), a.frac == b.frac, val(a) == val(b) || mag(a) == mag(b) && neg(a) == neg(b),
    ensures same(a, b),
{
    lem_mag_zero(a);
    lem_mag_zero(b);
    lem_pw_pos(4 - fu(a));
    let (x, y, p) = (mag(a), mag(b), pw(4 - fu(a)));
    if val(a) == val(b) {
        assert(x == y) by (nonlinear_arith) requires p >= 1, neg(a) == neg(b), (if neg(a) { -x } else { x }) * p == (if neg(b) { -y } else { y }) * p;
    }
}

pub fn thm_add(a: FixedDecimal, b: FixedDecimal, Ghost(a0): Ghost<FixedDecimal>, Ghost(b0): Ghost<FixedDecimal>, res: &mut FixedDecimal) -> (r: Option<FixedDecimal>)
    requires wf(a), wf(b), a0 == a, b0 == b,
    ensures r is Some <==> !add_ovf(a0, b0), r is Some ==> same(r->0, *final(res)),
{
    match FixedDecimal::add_to(&a, &b, res) {
        Ok(_) => { let r = a.op_add(b); proof { lem_same(r, *res); } Some(r) }
        Err(_) => None,
    }
}

pub fn thm_sub(a: FixedDecimal, b: FixedDecimal, Ghost(a0): Ghost<FixedDecimal>, Ghost(b0): Ghost<FixedDecimal>, res: &mut FixedDecimal) -> (r: Option<FixedDecimal>)
    requires wf(a), wf(b), a0 == a, b0 == b,
    ensures r is Some <==> !sub_ovf(a0, b0), r is Some ==> same(r->0, *final(res)),
{
    match FixedDecimal::sub_to(&a, &b, res) {
        Ok(_) => { let r = a.op_sub(b); proof { lem_same(r, *res); } Some(r) }
        Err(_) => None,
    }
}

pub fn thm_mul(a: FixedDecimal, b: FixedDecimal, res: &mut FixedDecimal) -> (r: Option<FixedDecimal>)
    requires wf(a), wf(b),
    ensures r is Some ==> same(r->0, *final(res)),
{
    match FixedDecimal::mul_to(&a, &b, res) {
        Ok(_) => { let r = a.op_mul(b); proof { lem_zero_dec(); lem_same(r, *res); } Some(r) }
        Err(_) => None,
    }
}

pub fn thm_div(a: FixedDecimal, b: FixedDecimal, res: &mut FixedDecimal) -> (r: Option<FixedDecimal>)
    requires wf(a), wf(b),
    ensures r is Some ==> same(r->0, *final(res)),
{
    match FixedDecimal::div_to(&a, &b, res, 4) {
        Ok(_) => { let r = a.op_div(b); proof { lem_zero_dec(); lem_same(r, *res); } Some(r) }
        Err(_) => None,
    }
}

pub fn thm_rem(a: FixedDecimal, b: FixedDecimal, res: &mut FixedDecimal) -> (r: Option<FixedDecimal>)
    requires wf(a), wf(b),
    ensures r is Some ==> same(r->0, *final(res)),
{
    match FixedDecimal::rem_to(&a, &b, res) {
        Ok(_) => { let r = a.op_rem(b); proof { lem_same(r, *res); } Some(r) }
        Err(_) => None,
    }
}

/// where the fallible operation reports an error, the operator does not return
pub fn thm_add_panics(a: FixedDecimal, b: FixedDecimal, res: &mut FixedDecimal) -> (r: FixedDecimal)
    requires wf(a), wf(b), add_ovf(a, b),
    ensures false,
{ a.op_add_any(b) }

pub fn thm_sub_panics(a: FixedDecimal, b: FixedDecimal) -> (r: FixedDecimal)
    requires wf(a), wf(b), sub_ovf(a, b),
    ensures false,
{ a.op_sub_any(b) }

pub fn thm_mul_panics(a: FixedDecimal, b: FixedDecimal, res: &mut FixedDecimal) -> (r: FixedDecimal)
    requires wf(a), wf(b), mag(a) != 0, mag(b) != 0, dg(a) + dg(b) > 81,
    ensures false,
{ a.op_mul_any(b) }

pub fn thm_div_panics(a: FixedDecimal, b: FixedDecimal) -> (r: FixedDecimal)
    requires wf(a), wf(b), mag(b) == 0 || div_ovf(a, b),
    ensures false,
{ a.op_div_any(b) }

pub fn thm_rem_panics(a: FixedDecimal, b: FixedDecimal) -> (r: FixedDecimal)
    requires wf(a), wf(b), mag(b) == 0,
    ensures false,
{ a.op_rem_any(b) }
