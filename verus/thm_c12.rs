/// nearest multiple of t; a value half way goes up
pub proof fn thm_nearest(v: int, t: int)
    requires v >= 0, t > 0,
    ensures rnd(v, t) % t == 0, -t < 2 * (rnd(v, t) - v) <= t,
{
    lem_rnd(v, t);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, t);
    let (q, m) = (v / t, v % t);
    assert(t * q == q * t) by (nonlinear_arith);
    assert((q + 1) * t == q * t + t) by (nonlinear_arith);
    lem_mul_mod(q, t);
    lem_mul_mod(q + 1, t);
}

pub proof fn lem_val_abs(d: FixedDecimal)
    ensures val(d) == if neg(d) { -absval(d) } else { absval(d) },
{
    let (m, p) = (mag(d), pw(4 - fu(d)));
    assert((-m) * p == -(m * p)) by (nonlinear_arith);
}

/// in place and into a destination: identical results
pub fn thm_same(s: &FixedDecimal, mut x: FixedDecimal, n: isize, d: &mut FixedDecimal)
    requires wf(*s), round_ok(*s, n as int), x == *s,
{
    x.round(n);
    s.round_to(d, n);
    proof {
        lem_val_abs(x);
        lem_val_abs(*d);
        lem_mag_zero(x);
        lem_mag_zero(*d);
        assert(val(x) == val(*d) && x.frac == d.frac && neg(x) == neg(*d));
    }
}

/// equal numbers round to equal numbers
pub fn thm_equal(a: FixedDecimal, b: FixedDecimal, n: isize)
    requires wf(a), wf(b), val(a) == val(b), round_ok(a, n as int),
{
    proof { lem_val_abs(a); lem_val_abs(b); lem_mag_zero(a); lem_mag_zero(b); }
    let mut x = a;
    x.round(n);
    let mut y = b;
    y.round(n);
    proof {
        lem_val_abs(x);
        lem_val_abs(y);
        lem_mag_zero(x);
        lem_mag_zero(y);
        assert(val(x) == val(y));
    }
}

/// at or above the current scale nothing changes
pub fn thm_keeps(a: FixedDecimal, n: isize)
    requires wf(a), n >= a.frac,
{
    proof { lem_val_abs(a); lem_keep_ok(a, n as int); }
    let mut x = a;
    x.round(n);
    proof {
        lem_val_abs(x);
        lem_mag_zero(a);
        lem_mag_zero(x);
        assert(val(x) == val(a));
    }
}

pub proof fn lem_keep_ok(a: FixedDecimal, n: int)
    requires wf(a), n >= a.frac,
    ensures round_ok(a, n), rndv(absval(a), n) == absval(a),
{
    let (m0, f0) = (mag(a), a.frac as int);
    lem_rng_bound(a.lsu@, 0, 9);
    lem_p10_pw(4);
    lem_p10_add(dg(a), 36);
    lem_p10_mono(dg(a) + 36, 117);
    lem_pw_add(fu(a), 4 - fu(a));
    lem_pw_pos(4 - fu(a));
    let (g, q, p) = (p10(dg(a)), pw(fu(a)), pw(4 - fu(a)));
    assert(0 <= m0 * p < g * (q * p)) by (nonlinear_arith) requires 0 <= m0 < g * q, p >= 1;
    if n < 36 {
        let (e, h) = (9 * fu(a) - f0, 9 * (4 - fu(a)));
        lem_p10_pos(e);
        lem_mod_zero(m0, p10(e));
        let z = m0 / p10(e);
        lem_p10_pw(4 - fu(a));
        lem_p10_add(e, h);
        lem_p10_add(36 - n, n - f0);
        let (a1, b, u, v) = (p10(e), p10(h), p10(36 - n), p10(n - f0));
        assert(m0 * b == z * (u * v)) by (nonlinear_arith) requires m0 == z * a1, a1 * b == u * v;
        lem_p10_pos(36 - n);
        lem_p10_pos(n - f0);
        lem_mod_of_mul(z, u, v);
        lem_rnd_id(absval(a), u);
    }
}
