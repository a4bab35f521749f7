//@needs div_spec
//@needs cmp_spec
// Contract of remainder.

/// magnitudes on the common scale
pub open spec fn rx(l: FixedDecimal, r: FixedDecimal) -> int { mags(l, cf(l, r)) }
pub open spec fn ry(l: FixedDecimal, r: FixedDecimal) -> int { mags(r, cf(l, r)) }

pub open spec fn rem_scale(l: FixedDecimal, r: FixedDecimal) -> int {
    if mag(l) == 0 || rx(l, r) == ry(l, r) { 0 } else { max2(l.frac as int, r.frac as int) }
}

pub open spec fn rem_abs_post(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal, res: Result<()>) -> bool {
    match res {
        Ok(_) => {
            &&& mag(r) != 0
            &&& wf(d)
            &&& !neg(d)
            &&& fu(d) <= cf(l, r)
            &&& mags(d, cf(l, r)) == rx(l, r) % ry(l, r)
            &&& d.frac == rem_scale(l, r)
        },
        Err(e) => e is DivisionByZero && mag(r) == 0 && is_zero_dec(d),
    }
}

/// the quotient l / r, truncated to an integer
pub open spec fn trunc_quo(l: FixedDecimal, r: FixedDecimal) -> int {
    let q = rx(l, r) / ry(l, r);
    if neg(l) == neg(r) { q } else { -q }
}

/// C06
pub open spec fn rem_post(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal, res: Result<()>) -> bool {
    match res {
        Ok(_) => {
            &&& mag(r) != 0
            &&& wf(d)
            &&& val(d) == val(l) - trunc_quo(l, r) * val(r)
            &&& abs2(val(d)) < abs2(val(r))
            &&& mag(d) != 0 ==> neg(d) == neg(l)
            &&& d.frac == rem_scale(l, r)
        },
        Err(e) => e is DivisionByZero && mag(r) == 0 && is_zero_dec(d) && wf(d),
    }
}

pub proof fn lem_rem_zero_case(l: FixedDecimal, r: FixedDecimal, nr: int, d: FixedDecimal)
    requires wf(l), lead(r, nr), is_zero_dec(d), wf(d), mag(l) == 0 || rx(l, r) == ry(l, r),
    ensures rem_abs_post(l, r, d, Ok(())), ry(l, r) > 0,
{
    lem_lead(r, nr);
    lem_pw_pos(nr);
    lem_pw_pos(cf(l, r) - fu(r));
    let (y, p) = (mag(r), pw(cf(l, r) - fu(r)));
    assert(y * p > 0) by (nonlinear_arith) requires y >= 1, p >= 1;
    lem_rng_zeros(d.lsu@, 0, 9);
    assert(0 * pw(cf(l, r) - fu(d)) == 0);
    assert(0 * pw(cf(l, r) - fu(l)) == 0);
    let (a, b) = (rx(l, r), ry(l, r));
    if a == b { assert(a % b == 0) by { lem_div_unique(a, b, 1, 0); } } else { lem_div_unique(a, b, 0, 0); }
}

/// the dividend is smaller
pub proof fn lem_rem_less(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int)
    requires lead(l, nl), lead(r, nr), rx(l, r) < ry(l, r),
    ensures
        rx(l, r) % ry(l, r) == rx(l, r), 0 < rx(l, r) < pw(9),
        fu(l) < fu(r) ==> nl + fu(r) - fu(l) < 9,
        fu(l) >= fu(r) ==> rx(l, r) == mag(l),
        fu(l) < fu(r) ==> rx(l, r) == mag(l) * pw(fu(r) - fu(l)) && rx(l, r) < p10(9 * (9 - fu(r))) * pw(fu(r)) && rx(l, r) < p10(dg(l)) * pw(fu(r)),
{
    lem_lead(l, nl);
    lem_lead(r, nr);
    lem_pw_pos(nl);
    lem_pw_small();
    let (x, y) = (rx(l, r), ry(l, r));
    lem_pw_pos(cf(l, r) - fu(l));
    assert(x > 0) by (nonlinear_arith) requires x == mag(l) * pw(cf(l, r) - fu(l)), mag(l) >= 1, pw(cf(l, r) - fu(l)) >= 1;
    lem_div_unique(x, y, 0, x);
    lem_pw_mono(nl + 1, 9);
    lem_pw_mono(nr + 1, 9);
    assert(mag(l) * 1 == mag(l) && mag(r) * 1 == mag(r));
    if fu(l) < fu(r) {
        let e = fu(r) - fu(l);
        lem_pw_add(nl, e);
        assert(mag(l) * pw(e) >= pw(nl) * pw(e)) by (nonlinear_arith) requires mag(l) >= pw(nl), pw(e) >= 1;
        if nl + e >= 9 { lem_pw_mono(9, nl + e); }
        lem_p10_pw(9 - fu(r));
        lem_pw_add(9 - fu(r), fu(r));
        lem_pw_add(fu(l), e);
        let (a, b, c) = (p10(dg(l)), pw(fu(l)), pw(e));
        assert(mag(l) * c < a * (b * c)) by (nonlinear_arith) requires mag(l) < a * b, c >= 1;
    }
}

/// the result is a copy of the dividend, moved to the common scale
pub proof fn lem_rem_copy(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, d: FixedDecimal)
    requires
        lead(l, nl), lead(r, nr), rx(l, r) < ry(l, r),
        d.frac == max2(l.frac as int, r.frac as int),
        uok(d.lsu@, 0, 9),
        mag(d) == rx(l, r),
        d.intg as int == if fu(l) < fu(r) { min2(dg(l), 9 * (9 - fu(r))) } else { dg(l) },
    ensures rem_abs_post(l, r, d, Ok(())),
{
    lem_rem_less(l, r, nl, nr);
    lem_lead(r, nr);
    lem_pw_pos(nr);
    assert(fu(d) == cf(l, r));
    lem_mags_mod(l, d.frac as int);
    lem_pw_small();
    assert(mag(d) * 1 == mag(d));
    assert(mag(d) < p10(dg(d)) * pw(fu(d)));
    lem_p10_pw(iu(d));
    lem_p10_mono(dg(d), 9 * iu(d));
    lem_pw_add(iu(d), fu(d));
    lem_pw_pos(fu(d));
    assert(p10(dg(d)) * pw(fu(d)) <= p10(9 * iu(d)) * pw(fu(d))) by (nonlinear_arith) requires p10(dg(d)) <= p10(9 * iu(d)), pw(fu(d)) >= 1;
    lem_rng_small(d.lsu@, iu(d) + fu(d), 9);
}

/// a unit by its number of digits
pub proof fn lem_ulz(u: int)
    requires 1 <= u < 1_000_000_000,
    ensures 0 <= ulz(u) <= 8, u + 1 <= p10(9 - ulz(u)),
{
    lem_p10_small();
}

/// the result holds the remainder, rnz is its leading unit or -1
pub proof fn lem_rem_end(l: FixedDecimal, r: FixedDecimal, q: int, d: FixedDecimal, rnz: int)
    requires
        wf(l), wf(r), mag(l) != 0, rx(l, r) != ry(l, r),
        rx(l, r) == q * ry(l, r) + mag(d), 0 <= mag(d) < ry(l, r),
        d.frac == max2(l.frac as int, r.frac as int),
        uok(d.lsu@, 0, 9),
        -1 <= rnz < 9, zeros(d.lsu@, rnz + 1, 9), rnz >= 0 ==> d.lsu@[rnz] > 0,
        d.intg as int == if rnz >= cf(l, r) { 9 * (rnz + 1 - cf(l, r)) - ulz(d.lsu@[rnz] as int) } else { 0 },
    ensures rem_abs_post(l, r, d, Ok(())),
{
    let f = cf(l, r);
    assert(fu(d) == f);
    let p = p10(9 * f - d.frac);
    lem_p10_pos(9 * f - d.frac);
    lem_mags_mod(l, d.frac as int);
    lem_mags_mod(r, d.frac as int);
    let (x, y, m) = (rx(l, r), ry(l, r), mag(d));
    lem_mod_zero(y, p);
    assert(q * ((y / p) * p) == (q * (y / p)) * p) by (nonlinear_arith);
    lem_mul_mod(q * (y / p), p);
    lem_mod_add(x, q * y, p);
    lem_div_unique(x, y, q, m);
    lem_pw_small();
    assert(m * 1 == m);
    if mag(r) == 0 { assert(0 * pw(f - fu(r)) == 0); }
    lem_pw_pos(f);
    lem_p10_small();
    if rnz >= f {
        let u = d.lsu@[rnz] as int;
        lem_ulz(u);
        let z = 9 - ulz(u);
        assert(iu(d) == rnz + 1 - f);
        lem_rng_top(d.lsu@, 0, rnz + 1, 9);
        lem_rng_bound(d.lsu@, 0, rnz);
        lem_pw_pos(rnz);
        lem_p10_pw(rnz - f);
        lem_p10_add(z, 9 * (rnz - f));
        lem_pw_add(rnz - f, f);
        let (k, w, t) = (pw(rnz), p10(z), rng(d.lsu@, 0, rnz));
        assert(m == t + u * k);
        assert((u + 1) * k <= w * k) by (nonlinear_arith) requires u + 1 <= w, k >= 1;
        assert((u + 1) * k == u * k + k) by (nonlinear_arith);
        assert(w * (p10(9 * (rnz - f)) * pw(f)) == (w * p10(9 * (rnz - f))) * pw(f)) by (nonlinear_arith);
        assert(dg(d) == z + 9 * (rnz - f));
    } else {
        lem_rng_top(d.lsu@, 0, rnz + 1, 9);
        lem_rng_bound(d.lsu@, 0, rnz + 1);
        lem_pw_mono(rnz + 1, f);
        assert(m < 1 * pw(f));
    }
}

pub open spec fn rem_ctx(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int, ol: int, or: int) -> bool {
    &&& lead(l, nl)
    &&& lead(r, nr)
    &&& nl <= 8 && nr <= 8
    &&& shift == 0 || shift == -1
    &&& mag(l) * pw(nr + 1) < mag(r) * pw(nl + 2 + shift)
    &&& rx(l, r) > ry(l, r)
    &&& ol == cf(l, r) - fu(l)
    &&& or == cf(l, r) - fu(r)
    &&& 0 <= ol <= 4 && 0 <= or <= 4
    &&& ol == 0 || or == 0
    &&& nl + ol >= nr + or
}

pub proof fn lem_rem_ctx(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int, ol: int, or: int)
    requires
        lead(l, nl), lead(r, nr), shift == 0 || shift == -1,
        mag(l) * pw(nr + 1) < mag(r) * pw(nl + 2 + shift),
        rx(l, r) > ry(l, r), ol == cf(l, r) - fu(l), or == cf(l, r) - fu(r),
    ensures rem_ctx(l, r, nl, nr, shift, ol, or),
{
    lem_lead(l, nl);
    lem_lead(r, nr);
    lem_pw_pos(nl);
    lem_pw_pos(ol);
    lem_pw_pos(or);
    if nl + ol < nr + or {
        lem_pw_add(nl + 1, ol);
        lem_pw_add(nr, or);
        lem_pw_mono(nl + 1 + ol, nr + or);
        assert(mag(l) * pw(ol) < pw(nl + 1) * pw(ol)) by (nonlinear_arith) requires mag(l) < pw(nl + 1), pw(ol) >= 1;
        assert(mag(r) * pw(or) >= pw(nr) * pw(or)) by (nonlinear_arith) requires mag(r) >= pw(nr), pw(or) >= 1;
    }
}

/// bounds of the remainder
pub proof fn lem_rem_small(l: FixedDecimal, r: FixedDecimal, q: int, m: int)
    requires wf(l), wf(r), rx(l, r) == q * ry(l, r) + m, 0 <= m < ry(l, r), rx(l, r) >= 0,
    ensures m < pw(9), q >= 0,
{
    let f = cf(l, r);
    let (x, y) = (rx(l, r), ry(l, r));
    if q < 0 { assert(q * y <= -y) by (nonlinear_arith) requires q <= -1, y >= 0; }
    assert(m <= x) by (nonlinear_arith) requires x == q * y + m, q >= 0, y >= 0;
    lem_pw_small();
    lem_rng_bound(l.lsu@, 0, 9);
    lem_rng_bound(r.lsu@, 0, 9);
    assert(mag(l) * 1 == mag(l) && mag(r) * 1 == mag(r));
}

pub proof fn lem_rem_short_first(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int, ol: int, or: int)
    requires rem_ctx(l, r, nl, nr, shift, ol, or), nr == 0,
    ensures mag(r) == r.lsu@[0], shift == -1 ==> l.lsu@[nl] < r.lsu@[0],
{
    lem_lead(l, nl);
    lem_lead(r, nr);
    lem_pw_small();
    reveal_with_fuel(rng, 2);
    let u = r.lsu@[0] as int;
    assert(u * 1 == u);
    if shift == -1 {
        let (a, x, p) = (l.lsu@[nl] as int, mag(l), pw(nl));
        assert(pw(nl + 1) == 1_000_000_000 * p);
        lem_pw_pos(nl);
        assert(a < u) by (nonlinear_arith)
            requires a * p <= x, x * 1_000_000_000 < u * (1_000_000_000 * p), p >= 1;
    }
}

/// remainder of the short division: the part divided and the units below
pub proof fn lem_rem_short(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int, ol: int, or: int, bs: Seq<i32>, q: int, rem: int, d: Seq<i32>)
    requires
        rem_ctx(l, r, nl, nr, shift, ol, or), nr == 0,
        rng(bs, 0, 18) == rx(l, r), bs.len() == 18, uok(bs, 0, 18),
        rng(bs, or, 18) == q * r.lsu@[0] + rem, 0 <= rem < r.lsu@[0],
        d.len() == 9, rng(d, 0, 9) == rng(bs, 0, or) + pw(or) * rem,
    ensures
        rx(l, r) == q * ry(l, r) + rng(d, 0, 9), 0 <= rng(d, 0, 9) < ry(l, r),
{
    lem_lead(r, nr);
    lem_pw_small();
    reveal_with_fuel(rng, 2);
    let u = r.lsu@[0] as int;
    assert(u * 1 == u);
    assert(mag(r) == u);
    lem_rng_split(bs, 0, or, 18);
    lem_rng_bound(bs, 0, or);
    lem_pw_pos(or);
    let (p, t) = (pw(or), rng(bs, 0, or));
    assert(ry(l, r) == u * p);
    assert(p * (q * u + rem) == q * (u * p) + p * rem) by (nonlinear_arith);
    assert(0 <= p * rem && t + p * rem < u * p) by (nonlinear_arith) requires 0 <= t < p, 0 <= rem, rem + 1 <= u;
}

pub open spec fn rlg_ctx(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int, ol: int, or: int,
    nf: int, bs: Seq<i32>, vs: Seq<i32>, v: int, n: int) -> bool {
    &&& rem_ctx(l, r, nl, nr, shift, ol, or)
    &&& nr >= 1
    &&& n == nr + or
    &&& 1 <= nf <= 500_000_000
    &&& bs.len() == 18 && vs.len() == 18
    &&& uok(bs, 0, 18) && uok(vs, 0, 18)
    &&& rng(bs, 0, 18) == nf * rx(l, r)
    &&& v == nf * ry(l, r)
    &&& rng(vs, 0, n + 1) == v
    &&& 1 <= v < pw(n + 1)
    &&& vs[n] >= 1
}

pub proof fn lem_rlg_ctx(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int, ol: int, or: int,
    nf: int, bs: Seq<i32>, vs: Seq<i32>, n: int)
    requires
        rem_ctx(l, r, nl, nr, shift, ol, or),
        nr >= 1, n == nr + or, 1 <= nf <= 500_000_000, nf * mag(r) < pw(nr + 1),
        bs.len() == 18, vs.len() == 18,
        uok(bs, 0, 18), zeros(bs, 0, ol), rng(bs, ol, 18) == nf * mag(l),
        uok(vs, 0, 18), zeros(vs, 0, or), rng(vs, or, n + 1) == nf * mag(r),
    ensures
        rlg_ctx(l, r, nl, nr, shift, ol, or, nf, bs, vs, nf * ry(l, r), n),
        lng_inv(bs, bs, nl + 1 + ol + shift - n, 0, nf * ry(l, r), n),
{
    lem_lead(l, nl);
    lem_lead(r, nr);
    lem_pw_pos(nr);
    lem_pw_pos(nl);
    lem_pw_pos(or);
    lem_pw_pos(ol);
    lem_rng_bottom(bs, 0, ol, 18);
    lem_rng_bottom(vs, 0, or, n + 1);
    let (x, y, pl, pr) = (mag(l), mag(r), pw(ol), pw(or));
    assert(pl * (nf * x) == nf * (x * pl)) by (nonlinear_arith);
    assert(pr * (nf * y) == nf * (y * pr)) by (nonlinear_arith);
    let v = nf * ry(l, r);
    lem_pw_add(nr + 1, or);
    assert(pr * (nf * y) < pw(nr + 1) * pr) by (nonlinear_arith) requires nf * y < pw(nr + 1), pr >= 1;
    assert(v >= pr * y) by (nonlinear_arith) requires v == nf * (y * pr), nf >= 1, y >= 1, pr >= 1;
    assert(pr * y >= pw(nr) * pr) by (nonlinear_arith) requires y >= pw(nr), pr >= 1;
    assert(pw(nr) * pr >= 1) by (nonlinear_arith) requires pw(nr) >= 1, pr >= 1;
    lem_pw_add(nr, or);
    if vs[n] < 1 {
        lem_rng_bound(vs, 0, n);
        assert(0 * pw(n) == 0);
    }
    let c = nl + 1 + ol + shift - n;
    lem_dv_scale_lt(x, y, nr + 1, nl + 2 + shift, ol, or, c);
    let pc = pw(c);
    lem_pw_pos(c);
    lem_rng_split(bs, 0, c, 18);
    lem_rng_bound(bs, 0, c);
    let w = rng(bs, c, 18);
    assert(w < v) by (nonlinear_arith)
        requires nf * (x * pl) == rng(bs, 0, c) + pc * w, rng(bs, 0, c) >= 0, x * pl < y * pr * pc, v == nf * (y * pr), nf >= 1, pc >= 1;
    lem_rng_small_at(bs, c, n + 1, 18);
    assert(0 * v == 0);
}

/// the partial remainder is nf times the remainder
pub proof fn lem_rlg_end(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int, ol: int, or: int,
    nf: int, bs: Seq<i32>, vs: Seq<i32>, n: int, ws: Seq<i32>, q: int, m: int)
    requires
        rlg_ctx(l, r, nl, nr, shift, ol, or, nf, bs, vs, nf * ry(l, r), n),
        lng_inv(bs, ws, 0, q, nf * ry(l, r), n),
        m == rx(l, r) - q * ry(l, r),
    ensures
        rng(ws, 0, 18) == nf * m, 0 <= m < ry(l, r), m < pw(9), zeros(ws, n + 1, 18),
{
    let (x, y) = (rx(l, r), ry(l, r));
    assert(nf * (x - q * y) == nf * x - q * (nf * y)) by (nonlinear_arith);
    lem_rng_bound(ws, 0, 18);
    assert(m >= 0) by (nonlinear_arith) requires nf * m >= 0, nf >= 1;
    assert(m < y) by (nonlinear_arith) requires nf * m < nf * y, nf >= 1;
    lem_lead(l, nl);
    lem_pw_pos(nl);
    lem_pw_pos(ol);
    assert(x >= 0) by (nonlinear_arith) requires x == mag(l) * pw(ol), mag(l) >= 0, pw(ol) >= 1;
    lem_rem_small(l, r, q, m);
}

/// division by the normalising factor: units from the ninth up give no quotient
pub proof fn lem_unnorm_high(ws: Seq<i32>, i: int, e: int, nf: int, m: int, t: int, rem: int)
    requires
        9 <= i <= e, uok(ws, 0, e), rng(ws, 0, e) == nf * m, 0 <= m < pw(9), nf >= 1,
        rng(ws, i, e) == t * nf + rem, 0 <= rem,
    ensures t <= 0,
{
    lem_rng_split(ws, 0, i, e);
    lem_rng_bound(ws, 0, i);
    lem_rng_bound(ws, i, e);
    lem_pw_mono(9, i);
    lem_pw_pos(9);
    let (w, p, k) = (rng(ws, i, e), pw(i), pw(9));
    assert(w * p >= w * k) by (nonlinear_arith) requires p >= k, w >= 0;
    assert(p * w == w * p) by (nonlinear_arith);
    assert(nf * m < nf * k) by (nonlinear_arith) requires m < k, nf >= 1;
    assert(w < nf) by (nonlinear_arith) requires w * k < nf * k, k >= 1;
    assert(t <= 0) by (nonlinear_arith) requires t * nf + rem < nf, rem >= 0, nf >= 1;
}

/// end of the division by the normalising factor
pub proof fn lem_unnorm_end(w: int, nf: int, m: int, t: int, rem: int)
    requires w == nf * m, w == t * nf + rem, 0 <= rem < nf,
    ensures rem == 0, t == m,
{
    assert(t == m) by (nonlinear_arith) requires nf * m == t * nf + rem, 0 <= rem < nf;
    assert(rem == 0) by (nonlinear_arith) requires nf * m == t * nf + rem, t == m;
}

/// d has the magnitude and scale of the remainder and the sign of the dividend
pub open spec fn rem_done(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal) -> bool {
    &&& mag(r) != 0
    &&& wf(d)
    &&& fu(d) <= cf(l, r)
    &&& mags(d, cf(l, r)) == rx(l, r) % ry(l, r)
    &&& d.frac == rem_scale(l, r)
    &&& neg(d) == (neg(l) && mag(d) != 0)
}

pub proof fn lem_rem_any(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal)
    requires wf(l), wf(r),
    ensures rem_done(l, r, d) ==> rem_post(l, r, d, Ok(())),
{
    if rem_done(l, r, d) { lem_rem_val(l, r, d); }
}

pub proof fn lem_rem_val(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal)
    requires wf(l), wf(r), rem_done(l, r, d),
    ensures rem_post(l, r, d, Ok(())),
{
    let f = cf(l, r);
    lem_val(l, f);
    lem_val(r, f);
    lem_val(d, f);
    lem_pw_pos(4 - f);
    lem_pw_pos(f - fu(d));
    lem_pw_pos(f - fu(l));
    lem_pw_pos(f - fu(r));
    lem_rng_bound(l.lsu@, 0, 9);
    lem_rng_bound(r.lsu@, 0, 9);
    lem_rng_bound(d.lsu@, 0, 9);
    let (x, y, m, p) = (rx(l, r), ry(l, r), mags(d, f), pw(4 - f));
    assert(y > 0) by (nonlinear_arith) requires y == mag(r) * pw(f - fu(r)), mag(r) > 0, pw(f - fu(r)) >= 1;
    assert(x >= 0) by (nonlinear_arith) requires x == mag(l) * pw(f - fu(l)), mag(l) >= 0, pw(f - fu(l)) >= 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y);
    let q = x / y;
    assert(x == q * y + m) by (nonlinear_arith) requires x == y * q + m;
    assert(0 <= m < y);
    if mag(d) == 0 { assert(0 * pw(f - fu(d)) == 0); }
    let sm = if neg(l) { -m } else { m };
    assert(vals(d, f) == sm);
    let (sx, sy, t) = (vals(l, f), vals(r, f), trunc_quo(l, r));
    assert(t * sy == if neg(l) { -(q * y) } else { q * y }) by (nonlinear_arith)
        requires t == if neg(l) == neg(r) { q } else { -q }, sy == if neg(r) { -y } else { y };
    assert(sm == sx - t * sy);
    assert(sm * p == sx * p - t * (sy * p)) by (nonlinear_arith) requires sm == sx - t * sy;
    assert(abs2(sm) < abs2(sy));
    assert(abs2(sm * p) == abs2(sm) * p) by (nonlinear_arith) requires p >= 1;
    assert(abs2(sy * p) == abs2(sy) * p) by (nonlinear_arith) requires p >= 1;
    assert(abs2(sm) * p < abs2(sy) * p) by (nonlinear_arith) requires abs2(sm) < abs2(sy), p >= 1;
}
