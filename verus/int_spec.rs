// Contracts of the conversions from and to machine integers.
//@needs cmp_spec
//@needs round_spec

pub open spec fn sgn(n: bool, m: int) -> int { if n { -m } else { m } }

/// an integer held in the lowest three units
pub proof fn lem_int_dec(d: FixedDecimal, k: int, m: int, sg: bool)
    requires
        0 <= k <= 9, d.frac == 0, uok(d.lsu@, 0, 9), zeros(d.lsu@, k, 9), rng(d.lsu@, 0, k) == m,
        d.intg as int == (if sg { 9 * k - 128 } else { 9 * k }), sg ==> m != 0,
    ensures
        wf(d), mag(d) == m, val(d) == sgn(sg, m) * pw(4), neg(d) == sg, dg(d) == 9 * k,
{
    lem_rng_top(d.lsu@, 0, k, 9);
    lem_rng_bound(d.lsu@, 0, k);
    lem_p10_pw(k);
    lem_pw_small();
    lem_p10_small();
    let p = pw(k);
    assert(p * pw(0) == p) by (nonlinear_arith) requires pw(0) == 1;
    assert(m % 1 == 0);
}

pub proof fn lem_rng3(s: Seq<i32>)
    ensures rng(s, 0, 1) == s[0], rng(s, 0, 2) == s[0] + s[1] * 1_000_000_000, rng(s, 0, 3) == s[0] + s[1] * 1_000_000_000 + s[2] * 1_000_000_000_000_000_000,
{
    lem_pw_small();
    assert(rng(s, 0, 0) == 0);
    assert(rng(s, 0, 1) == rng(s, 0, 0) + s[0] * pw(0));
    assert(rng(s, 0, 2) == rng(s, 0, 1) + s[1] * pw(1));
    assert(rng(s, 0, 3) == rng(s, 0, 2) + s[2] * pw(2));
}

/// value of the constants used as limits
pub proof fn lem_min_dec()
    ensures
        MIN_I64.frac == 0, wf(MIN_I64), neg(MIN_I64), val(MIN_I64) == -9223372036854775808 * pw(4),
{
    assert((19i32 | 0x80i32) as i8 == -109i8) by (bit_vector);
    let d = MIN_I64;
    lem_limit(d, 854775808, 223372036, 9, 19);
}

pub proof fn lem_max_dec()
    ensures
        MAX_I64.frac == 0, wf(MAX_I64), !neg(MAX_I64), val(MAX_I64) == 9223372036854775807 * pw(4),
{
    assert(19i32 as i8 == 19i8) by (bit_vector);
    let d = MAX_I64;
    lem_limit(d, 854775807, 223372036, 9, 19);
}

pub proof fn lem_maxu_dec()
    ensures
        MAX_U64.frac == 0, wf(MAX_U64), !neg(MAX_U64), val(MAX_U64) == 18446744073709551615 * pw(4),
{
    assert(20i32 as i8 == 20i8) by (bit_vector);
    let d = MAX_U64;
    lem_limit(d, 709551615, 446744073, 18, 20);
}

proof fn lem_limit(d: FixedDecimal, a: int, b: int, c: int, g: int)
    requires
        g == 19 && c == 9 || g == 20 && c == 18, 0 <= a < 1_000_000_000, 0 <= b < 999_000_000,
        d.intg == g || d.intg == g - 128, d.frac == 0,
        d.lsu@[0] == a, d.lsu@[1] == b, d.lsu@[2] == c, zeros(d.lsu@, 3, 9),
    ensures
        wf(d), neg(d) == (d.intg < 0), val(d) == sgn(neg(d), a + b * 1_000_000_000 + c * 1_000_000_000_000_000_000) * pw(4),
{
    lem_rng3(d.lsu@);
    lem_rng_top(d.lsu@, 0, 3, 9);
    lem_pw_small();
    lem_p10_small();
    lem_p10_add(9, 9);
    lem_p10_add(18, 1);
    lem_p10_add(18, 2);
    assert(p10(g) * pw(0) == p10(g)) by (nonlinear_arith) requires pw(0) == 1;
}

pub open spec fn sval(d: FixedDecimal) -> int { if neg(d) { -absval(d) } else { absval(d) } }

/// C14: value of d, rounded half away from zero to an integer (times 10^36)
pub open spec fn int_of(d: FixedDecimal) -> int { sgn(neg(d), rnd(absval(d), p10(36))) }

pub open spec fn in_range(d: FixedDecimal, lo: int, hi: int) -> bool { lo * p10(36) <= val(d) <= hi * p10(36) }

/// rounding to an integer stays between integer bounds
pub proof fn lem_rnd_int(v: int, t: int, k: int)
    requires v >= 0, t > 0, v <= k * t,
    ensures 0 <= rnd(v, t) <= k * t,
{
    lem_rnd(v, t);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, t);
    let (q, m) = (v / t, v % t);
    assert(t * q == q * t) by (nonlinear_arith);
    assert(q <= k) by (nonlinear_arith) requires q * t <= k * t, t > 0;
    if 2 * m >= t {
        assert(q < k) by (nonlinear_arith) requires q * t + m <= k * t, m > 0, t > 0;
        assert((q + 1) * t <= k * t) by (nonlinear_arith) requires q + 1 <= k, t > 0;
        assert((q + 1) * t >= 0) by (nonlinear_arith) requires q >= 0, t > 0;
    } else {
        assert(q * t >= 0) by (nonlinear_arith) requires q >= 0, t > 0;
    }
}

/// d has no fraction
pub proof fn lem_whole(d: FixedDecimal, k: int)
    requires wf(d), fu(d) == 0, absval(d) <= k * p10(36), 0 <= k <= 0xffff_ffff_ffff_ffff,
    ensures
        d.frac == 0, mag(d) <= k, val(d) == sgn(neg(d), mag(d)) * p10(36), absval(d) == mag(d) * p10(36), int_of(d) == val(d), sval(d) == val(d),
        mag(d) == d.lsu@[0] + d.lsu@[1] * 1_000_000_000 + d.lsu@[2] * 1_000_000_000_000_000_000,
        uok(d.lsu@, 0, 9),
{
    lem_p10_pw(4);
    lem_pw_small();
    lem_rng_bound(d.lsu@, 0, 9);
    let (m, p) = (mag(d), pw(4));
    assert(m <= k) by (nonlinear_arith) requires m * p <= k * p, p > 0;
    lem_rng_small(d.lsu@, 3, 9);
    lem_rng_top(d.lsu@, 0, 3, 9);
    lem_rng3(d.lsu@);
    lem_mul_mod(m, p);
    assert(m * p >= 0) by (nonlinear_arith) requires m >= 0, p > 0;
    lem_rnd_id(m * p, p);
    assert((-m) * p == -(m * p)) by (nonlinear_arith);
}

pub proof fn lem_abs_val(d: FixedDecimal)
    requires wf(d),
    ensures val(d) == sval(d), absval(d) >= 0, neg(d) == (val(d) < 0),
{
    lem_mag_zero(d);
    let (m, p) = (mag(d), pw(4 - fu(d)));
    lem_pw_pos(4 - fu(d));
    assert((-m) * p == -(m * p)) by (nonlinear_arith);
    assert(m * p >= 0) by (nonlinear_arith) requires m >= 0, p >= 1;
}

/// rounding to an integer is possible, and what it gives
pub proof fn lem_as_int_pre(s: FixedDecimal, k: int)
    requires wf(s), absval(s) <= k * p10(36), 0 <= k <= 0xffff_ffff_ffff_ffff,
    ensures round_ok(s, 0), absval(s) >= 0, rndv(absval(s), 0) == rnd(absval(s), p10(36)), 0 <= rnd(absval(s), p10(36)) <= k * p10(36),
{
    lem_abs_val(s);
    lem_p10_pos(36);
    lem_rnd_int(absval(s), p10(36), k);
    lem_p10_add(36, 81);
    lem_p10_mono(27, 81);
    lem_p10_pw(3);
    lem_pw_small();
    let (a, b) = (p10(36), p10(81));
    assert(k * a < a * b) by (nonlinear_arith) requires k < b, a >= 1;
}

pub proof fn lem_as_int_post(s: FixedDecimal, d: FixedDecimal, k: int)
    requires wf(s), s.frac > 0, absval(s) <= k * p10(36), 0 <= k <= 0xffff_ffff_ffff_ffff, round_post(s, 0, d), round_ok(s, 0),
        rndv(absval(s), 0) == rnd(absval(s), p10(36)), 0 <= rnd(absval(s), p10(36)) <= k * p10(36),
    ensures fu(d) == 0, wf(d), absval(d) <= k * p10(36), val(d) == int_of(s),
        neg(d) ==> neg(s),
{
    assert(d.frac == 0);
    lem_abs_val(s);
    lem_abs_val(d);
    lem_mag_zero(d);
    if !neg(d) && neg(s) { assert(absval(d) == 0) by (nonlinear_arith) requires absval(d) == mag(d) * pw(4), mag(d) == 0; }
}
