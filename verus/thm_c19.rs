// C19 as clients of the contracts.

pub open spec fn mx(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn mn(a: int, b: int) -> int { if a <= b { a } else { b } }

pub fn thm_add_scale(l: &FixedDecimal, r: &FixedDecimal, d: &mut FixedDecimal) -> (x: Result<()>)
    requires wf(*l), wf(*r),
    ensures x is Ok ==> {
        &&& val(*l) != 0 && val(*r) != 0 ==> final(d).frac == mx(l.frac as int, r.frac as int)
        &&& val(*l) == 0 ==> final(d).frac == r.frac
        &&& val(*l) != 0 && val(*r) == 0 ==> final(d).frac == l.frac
    },
{
    proof { lem_mag_zero(*l); lem_mag_zero(*r); }
    FixedDecimal::add_to(l, r, d)
}

pub fn thm_sub_scale(l: &FixedDecimal, r: &FixedDecimal, d: &mut FixedDecimal) -> (x: Result<()>)
    requires wf(*l), wf(*r),
    ensures x is Ok ==> {
        &&& val(*l) != 0 && val(*r) != 0 ==> final(d).frac == mx(l.frac as int, r.frac as int)
        &&& val(*l) == 0 ==> final(d).frac == r.frac
        &&& val(*l) != 0 && val(*r) == 0 ==> final(d).frac == l.frac
    },
{
    proof { lem_mag_zero(*l); lem_mag_zero(*r); }
    FixedDecimal::sub_to(l, r, d)
}

pub fn thm_rem_scale(l: &FixedDecimal, r: &FixedDecimal, d: &mut FixedDecimal) -> (x: Result<()>)
    requires wf(*l), wf(*r),
    ensures x is Ok && val(*final(d)) != 0 ==> final(d).frac == mx(l.frac as int, r.frac as int),
{
    proof { lem_mag_zero(*l); lem_mag_zero(*r); }
    let x = FixedDecimal::rem_to(l, r, d);
    proof { if x is Ok && val(*d) != 0 { lem_mag_zero(*d); lem_rem_scale(*l, *r, *d); } }
    x
}

/// a remainder of scale 0 where an operand has a fraction is zero
proof fn lem_rem_scale(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal)
    requires wf(l), wf(r), mag(r) != 0, val(d) != 0, val(d) == val(l) - trunc_quo(l, r) * val(r), d.frac == rem_scale(l, r), wf(d), abs2(val(d)) < abs2(val(r)), mag(d) != 0 ==> neg(d) == neg(l),
    ensures d.frac == mx(l.frac as int, r.frac as int),
{
    lem_mag_zero(l);
    lem_mag_zero(r);
    if mag(l) == 0 {
        lem_rng_bound(r.lsu@, 0, 9);
        lem_pw_pos(cf(l, r) - fu(r));
        lem_pw_pos(cf(l, r) - fu(l));
        assert(ry(l, r) > 0) by (nonlinear_arith) requires mag(r) >= 1, pw(cf(l, r) - fu(r)) >= 1, ry(l, r) == mag(r) * pw(cf(l, r) - fu(r));
        assert(rx(l, r) == 0) by (nonlinear_arith) requires mag(l) == 0, rx(l, r) == mag(l) * pw(cf(l, r) - fu(l));
        assert(trunc_quo(l, r) == 0);
        assert(0 * val(r) == 0);
    } else if rx(l, r) == ry(l, r) {
        lem_rng_bound(l.lsu@, 0, 9);
        lem_pw_pos(cf(l, r) - fu(l));
        assert(rx(l, r) > 0) by (nonlinear_arith) requires mag(l) >= 1, pw(cf(l, r) - fu(l)) >= 1, rx(l, r) == mag(l) * pw(cf(l, r) - fu(l));
        lem_val(l, cf(l, r));
        lem_val(r, cf(l, r));
        vstd::arithmetic::div_mod::lemma_div_by_self(rx(l, r));
        let (x, y, p) = (rx(l, r), ry(l, r), pw(4 - cf(l, r)));
        assert((-x) * p == -(x * p)) by (nonlinear_arith);
        assert(x / y == 1);
        assert(trunc_quo(l, r) == (if neg(l) == neg(r) { 1 } else { -1int }));
        assert(1 * val(r) == val(r) && -1 * val(r) == -val(r));
        assert(val(l) == (if neg(l) { -(x * p) } else { x * p }));
        assert(val(r) == (if neg(r) { -(x * p) } else { x * p }));
    }
}

/// sum of the scales, as far as nine groups, four of them fractional, have room beside the integral groups
pub fn thm_mul_scale(l: &FixedDecimal, r: &FixedDecimal, d: &mut FixedDecimal) -> (x: Result<()>)
    requires wf(*l), wf(*r),
    ensures x is Ok && val(*l) != 0 && val(*r) != 0 ==> {
        let room = 9 * mn(4, 9 - un(dg(*l) + dg(*r)));
        final(d).frac == mn(l.frac + r.frac, room)
    },
{
    proof { lem_mag_zero(*l); lem_mag_zero(*r); }
    FixedDecimal::mul_to(l, r, d)
}

/// whole groups: the least number that covers the operands' own groups and the extra digits asked for beyond
/// their unused positions, at most four and as far as there is room
pub fn thm_div_scale(l: &FixedDecimal, r: &FixedDecimal, d: &mut FixedDecimal, incr: usize) -> (x: Result<()>)
    requires wf(*l), wf(*r),
    ensures x is Ok && val(*l) != 0 ==> {
        let unused = (9 * fu(*l) - l.frac) + (9 * fu(*r) - r.frac);
        let want = 9 * fu(*l) + 9 * fu(*r) + mx(0, incr - unused);
        let g = mn(mn(4, (want + 8) / 9), 9 - iu(*final(d)));
        &&& final(d).frac == 9 * g
        &&& final(d).frac <= 36
        // the quotient has exactly the groups its integral part needs
        &&& iu(*final(d)) > 0 ==> ipart(*final(d)) >= pw(iu(*final(d)) - 1)
    },
{
    proof { lem_mag_zero(*l); lem_mag_zero(*r); }
    let x = FixedDecimal::div_to(l, r, d, incr);
    proof { if x is Ok && val(*l) != 0 { lem_div_scale(*l, *r, *d, incr as int); } }
    x
}

proof fn lem_ugr_bound(v: int)
    requires v >= 0,
    ensures ugr(v) >= 0, v > 0 ==> ugr(v) >= 1 && pw(ugr(v) - 1) <= v, v < pw(ugr(v)),
    decreases v,
{
    lem_pw_small();
    if v > 0 {
        lem_ugr_bound(v / 1_000_000_000);
        let (u, w) = (v / 1_000_000_000, ugr(v) - 1);
        assert(pw(w + 1) == 1_000_000_000 * pw(w));
        if u > 0 { assert(pw(w) == 1_000_000_000 * pw(w - 1)); }
    }
}

proof fn lem_div_scale(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal, incr: int)
    requires div_post(l, r, d, incr, Ok(())), mag(l) != 0, wf(l), wf(r),
    ensures iu(d) == div_n(l, r), iu(d) > 0 ==> ipart(d) >= pw(iu(d) - 1), fu(d) == div_g(l, r, incr),
{
    let g = div_g(l, r, incr);
    let n = div_n(l, r);
    let q0 = div_quo(l, r, 0);
    let (a, b, pg) = (mag(l) * pw(fu(r)), mag(r) * pw(fu(l)), pw(g));
    lem_rng_bound(l.lsu@, 0, 9);
    lem_rng_bound(r.lsu@, 0, 9);
    lem_pw_pos(fu(l));
    lem_pw_pos(fu(r));
    lem_pw_pos(g);
    assert(fu(d) == g);
    assert(b > 0) by (nonlinear_arith) requires b == mag(r) * pw(fu(l)), mag(r) >= 1, pw(fu(l)) >= 1;
    assert(a >= 0) by (nonlinear_arith) requires a == mag(l) * pw(fu(r)), mag(l) >= 0, pw(fu(r)) >= 1;
    lem_pw_add(g, fu(r));
    assert(mag(l) * pw(g + fu(r)) == a * pg) by (nonlinear_arith) requires a == mag(l) * pw(fu(r)), pw(g + fu(r)) == pg * pw(fu(r));
    // floor(floor(a * pg / b) / pg) == floor(a / b)
    let m = mag(d);
    assert(m == (a * pg) / b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a * pg, b);
    vstd::arithmetic::div_mod::lemma_mod_bound(a * pg, b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    vstd::arithmetic::div_mod::lemma_mod_bound(a, b);
    lem_ugr_bound(q0);
    lem_rng_split(d.lsu@, 0, g, 9);
    lem_rng_bound(d.lsu@, 0, g);
    lem_rng_bound(d.lsu@, g, 9);
    let (i, f) = (ipart(d), fpart(d));
    assert(pg * i == i * pg) by (nonlinear_arith);
    let rm = (a * pg) % b;
    assert(i == q0) by (nonlinear_arith)
        requires m == i * pg + f, 0 <= f < pg, a * pg == b * m + rm, 0 <= rm < b, a == b * q0 + a % b, 0 <= a % b < b, b > 0, pg >= 1;
}

/// rounding to n: scale n, 0 if n is negative, the old scale or the largest that fits if n does not fit
pub fn thm_round_scale(s: &FixedDecimal, d: &mut FixedDecimal, n: isize)
    requires wf(*s), round_ok(*s, n as int),
    ensures
        n < 0 && n < s.frac ==> final(d).frac == 0,
        n >= s.frac ==> final(d).frac == mn(n as int, 9 * mn(4, 9 - iu(*s))),
        0 <= n < s.frac ==> final(d).frac == n || (iu(*s) + un(n as int) == 9 && final(d).frac == 9 * (un(n as int) - 1) && absval(*final(d)) >= p10(9 * iu(*s) + 36)),
{ s.round_to(d, n); }
