// Contracts of addition, subtraction and comparison.

pub open spec fn max2(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn min2(a: int, b: int) -> int { if a <= b { a } else { b } }

/// common number of fractional groups
pub open spec fn cf(l: FixedDecimal, r: FixedDecimal) -> int { max2(fu(l), fu(r)) }
/// common number of integral groups
pub open spec fn ci(l: FixedDecimal, r: FixedDecimal) -> int { max2(iu(l), iu(r)) }

/// magnitude of l in units of base^-f
pub open spec fn mags(l: FixedDecimal, f: int) -> int { mag(l) * pw(f - fu(l)) }

/// value of l in units of base^-f
pub open spec fn vals(l: FixedDecimal, f: int) -> int { if neg(l) { -mags(l, f) } else { mags(l, f) } }

/// integral digit count is that of whole groups, and the topmost group is not zero
pub open spec fn trimmed(d: FixedDecimal) -> bool {
    &&& dg(d) % 9 == 0
    &&& dg(d) > 0 ==> mag(d) >= pw(fu(d) + iu(d) - 1)
}

pub open spec fn add_abs_post(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal, res: Result<()>) -> bool {
    let s = mags(l, cf(l, r)) + mags(r, cf(l, r));
    match res {
        Ok(_) => {
            &&& ci(l, r) + cf(l, r) <= 9
            &&& s < pw(9)
            &&& wf(d)
            &&& !neg(d)
            &&& mag(d) == s
            &&& d.frac == max2(l.frac as int, r.frac as int)
            &&& trimmed(d)
        },
        Err(e) => {
            &&& e is Overflow
            &&& is_zero_dec(d)
            &&& ci(l, r) + cf(l, r) > 9 || s >= pw(9)
        },
    }
}

/// end of an addition or subtraction: n integral groups kept
pub proof fn lem_trim(d: FixedDecimal, l: FixedDecimal, r: FixedDecimal, s: int, n: int)
    requires
        wf(l), wf(r),
        d.frac == max2(l.frac as int, r.frac as int),
        0 <= n, n + cf(l, r) <= 9,
        d.intg == 9 * n,
        uok(d.lsu@, 0, 9),
        zeros(d.lsu@, n + cf(l, r), 9),
        n > 0 ==> d.lsu@[n + cf(l, r) - 1] > 0,
        mag(d) == s,
        s == mags(l, cf(l, r)) + mags(r, cf(l, r)) || s == mags(l, cf(l, r)) - mags(r, cf(l, r)) || s == mags(r, cf(l, r)) - mags(l, cf(l, r)),
    ensures
        wf(d), !neg(d), trimmed(d), fu(d) == cf(l, r), iu(d) == n,
{
    let f = cf(l, r);
    assert(fu(d) == f);
    assert(iu(d) == n);
    lem_rng_top(d.lsu@, 0, n + f, 9);
    lem_rng_bound(d.lsu@, 0, n + f);
    lem_p10_pw(n);
    lem_pw_add(n, f);
    if n > 0 { lem_rng_pos(d.lsu@, 0, 9, n + f - 1); }
    lem_mags_mod(l, d.frac as int);
    lem_mags_mod(r, d.frac as int);
    lem_p10_pos(9 * f - d.frac);
    lem_mod_add(mags(l, f), mags(r, f), p10(9 * f - d.frac));
    lem_mod_add(mags(r, f), mags(l, f), p10(9 * f - d.frac));
}

pub proof fn lem_mags_mod(l: FixedDecimal, b: int)
    requires wf(l), l.frac <= b,
    ensures mags(l, un(b)) % p10(9 * un(b) - b) == 0, un(b) >= fu(l),
{
    lem_align(mag(l), l.frac as int, b);
}

/// what stays true throughout an addition or subtraction
pub open spec fn col_ctx(l: FixedDecimal, r: FixedDecimal, ls: Seq<i32>, rs: Seq<i32>, f: int, ol: int, or: int, top: int) -> bool {
    &&& wf(l) && wf(r)
    &&& ls == l.lsu@ && rs == r.lsu@
    &&& f == cf(l, r)
    &&& ol == f - fu(l) && or == f - fu(r)
    &&& top == ci(l, r) + f
    &&& top <= 9
    &&& 0 <= ol && 0 <= or
}

pub open spec fn abs2(a: int) -> int { if a < 0 { -a } else { a } }

pub open spec fn sub_abs_post(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal, res: Result<bool>) -> bool {
    let s = mags(l, cf(l, r)) - mags(r, cf(l, r));
    match res {
        Ok(n) => {
            &&& ci(l, r) + cf(l, r) <= 9
            &&& n == (s < 0)
            &&& wf(d)
            &&& !neg(d)
            &&& mag(d) == abs2(s)
            &&& d.frac == max2(l.frac as int, r.frac as int)
            &&& trimmed(d)
        },
        Err(e) => {
            &&& e is Overflow
            &&& is_zero_dec(d)
            &&& ci(l, r) + cf(l, r) > 9
        },
    }
}

pub proof fn lem_al_mags(l: FixedDecimal, f: int, top: int)
    requires wf(l), f >= fu(l), iu(l) + f <= top <= 9,
    ensures al(l.lsu@, f - fu(l), top) == mags(l, f), 0 <= mags(l, f) < pw(top),
{
    let ol = f - fu(l);
    lem_rng_top(l.lsu@, 0, iu(l) + fu(l), 9);
    lem_rng_top(l.lsu@, 0, iu(l) + fu(l), top - ol);
    lem_rng_bound(l.lsu@, 0, iu(l) + fu(l));
    lem_pw_add(ol, iu(l) + fu(l));
    lem_pw_mono(iu(l) + f, top);
    lem_pw_pos(ol);
    let (a, m, p) = (pw(ol), mag(l), pw(iu(l) + fu(l)));
    assert(a * m == m * a) by (nonlinear_arith);
    assert(0 <= a * m < a * p) by (nonlinear_arith) requires a >= 1, 0 <= m < p;
}

pub proof fn lem_scale(b: int, p: int)
    ensures b == 0 ==> b * p == 0, b == 1 ==> b * p == p, b == -1 ==> b * p == -p,
{
    if b == 0 { assert(b * p == 0) by (nonlinear_arith) requires b == 0; }
    if b == 1 { assert(b * p == p) by (nonlinear_arith) requires b == 1; }
    if b == -1 { assert(b * p == -p) by (nonlinear_arith) requires b == -1; }
}

pub open spec fn add_ovf(l: FixedDecimal, r: FixedDecimal) -> bool {
    let f = cf(l, r);
    &&& mag(l) != 0
    &&& mag(r) != 0
    &&& ci(l, r) + f > 9 || (neg(l) == neg(r) && mags(l, f) + mags(r, f) >= pw(9))
}

pub open spec fn sub_ovf(l: FixedDecimal, r: FixedDecimal) -> bool {
    let f = cf(l, r);
    &&& mag(l) != 0
    &&& mag(r) != 0
    &&& ci(l, r) + f > 9 || (neg(l) != neg(r) && mags(l, f) + mags(r, f) >= pw(9))
}

/// scale of a sum or difference
pub open spec fn add_scale(l: FixedDecimal, r: FixedDecimal) -> int {
    if mag(l) == 0 { r.frac as int } else if mag(r) == 0 { l.frac as int } else { max2(l.frac as int, r.frac as int) }
}

/// C02
pub open spec fn add_post(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal, res: Result<()>) -> bool {
    match res {
        Ok(_) => {
            &&& !add_ovf(l, r)
            &&& wf(d)
            &&& val(d) == val(l) + val(r)
            &&& d.frac == add_scale(l, r)
        },
        Err(e) => e is Overflow && add_ovf(l, r) && is_zero_dec(d) && wf(d),
    }
}

/// C03
pub open spec fn sub_post(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal, res: Result<()>) -> bool {
    match res {
        Ok(_) => {
            &&& !sub_ovf(l, r)
            &&& wf(d)
            &&& val(d) == val(l) - val(r)
            &&& d.frac == add_scale(l, r)
        },
        Err(e) => e is Overflow && sub_ovf(l, r) && is_zero_dec(d) && wf(d),
    }
}

pub proof fn lem_val(d: FixedDecimal, f: int)
    requires wf(d), fu(d) <= f <= 4,
    ensures val(d) == vals(d, f) * pw(4 - f), mag(d) * pw(4 - fu(d)) == mags(d, f) * pw(4 - f),
        val(d) == (if neg(d) { -(mag(d) * pw(4 - fu(d))) } else { mag(d) * pw(4 - fu(d)) }),
{
    lem_pw_add(f - fu(d), 4 - f);
    let (a, p, q) = (mag(d), pw(f - fu(d)), pw(4 - f));
    assert((-a) * (p * q) == (-(a * p)) * q) by (nonlinear_arith);
    assert(a * (p * q) == (a * p) * q) by (nonlinear_arith);
    assert((-a) * (p * q) == -(a * (p * q))) by (nonlinear_arith);
}

/// from the sum or difference s of common-scale magnitudes to values
pub proof fn lem_sum(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal, sr: int)
    requires
        wf(l), wf(r), wf(d), fu(d) == cf(l, r), sr == 1 || sr == -1,
        vals(d, fu(d)) == vals(l, fu(d)) + sr * vals(r, fu(d)),
    ensures
        val(d) == val(l) + sr * val(r),
{
    let f = fu(d);
    lem_val(l, f);
    lem_val(r, f);
    lem_val(d, f);
    let (x, y, z, p) = (vals(l, f), vals(r, f), vals(d, f), pw(4 - f));
    assert(z * p == x * p + sr * (y * p)) by (nonlinear_arith) requires z == x + sr * y;
}

/// the same, whatever way the result came about
pub proof fn lem_sum_any(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal, sr: int)
    requires wf(l), wf(r), sr == 1 || sr == -1,
    ensures
        wf(d) && fu(d) == cf(l, r) && (if neg(d) { -mag(d) } else { mag(d) }) == vals(l, fu(d)) + sr * vals(r, fu(d)) ==> val(d) == val(l) + sr * val(r),
        mags(d, fu(d)) == mag(d),
{
    assert(mags(d, fu(d)) == mag(d)) by (nonlinear_arith) requires mags(d, fu(d)) == mag(d) * pw(0), pw(0) == 1;
    if wf(d) && fu(d) == cf(l, r) && (if neg(d) { -mag(d) } else { mag(d) }) == vals(l, fu(d)) + sr * vals(r, fu(d)) { lem_sum(l, r, d, sr); }
}
