//@needs arith_spec
//@needs round_spec
// Contract of division, and the steps of long division that remainder shares.

/// leading zero digits of a unit
pub open spec fn ulz(v: int) -> int {
    if v >= 100_000_000 { 0 } else if v >= 10_000_000 { 1 } else if v >= 1_000_000 { 2 } else if v >= 100_000 { 3 }
    else if v >= 10_000 { 4 } else if v >= 1_000 { 5 } else if v >= 100 { 6 } else if v >= 10 { 7 } else if v >= 1 { 8 } else { 9 }
}

/// the first k units of s[0..n], counted from the top, as an integer; zeros follow the lowest unit
pub open spec fn pre(s: Seq<i32>, n: int, k: int) -> int {
    if k <= n { rng(s, n - k, n) } else { rng(s, 0, n) * pw(k - n) }
}

/// unit number k of s[0..n] counted from the top
pub open spec fn pre_unit(s: Seq<i32>, n: int, k: int) -> int { if k < n { s[n - 1 - k] as int } else { 0 } }

pub proof fn lem_pre_step(s: Seq<i32>, n: int, k: int)
    requires 0 <= k, 0 <= n,
    ensures pre(s, n, k + 1) == pre(s, n, k) * 1_000_000_000 + pre_unit(s, n, k),
{
    lem_pw_small();
    if k < n {
        lem_rng_low(s, n - 1 - k, n);
        assert(1_000_000_000 * rng(s, n - k, n) == rng(s, n - k, n) * 1_000_000_000);
    } else {
        let (a, p) = (rng(s, 0, n), pw(k - n));
        assert(pw(k + 1 - n) == 1_000_000_000 * p);
        assert(a * (1_000_000_000 * p) == (a * p) * 1_000_000_000) by (nonlinear_arith);
        if k == n { assert(a * 1 == a); }
    }
}

/// a strict difference in the first units decides
pub proof fn lem_pre_gt(s: Seq<i32>, n: int, t: Seq<i32>, m: int, k: int, e: int)
    requires 0 <= n, 0 <= m, 0 <= k <= e, uok(s, 0, n), uok(t, 0, m), pre(s, n, k) > pre(t, m, k),
    ensures pre(s, n, e) > pre(t, m, e),
    decreases e - k,
{
    if k < e {
        lem_pre_step(s, n, k);
        lem_pre_step(t, m, k);
        lem_pre_gt(s, n, t, m, k + 1, e);
    }
}

pub proof fn lem_pre_eq(s: Seq<i32>, n: int, t: Seq<i32>, m: int, k: int, e: int)
    requires 0 <= n <= k, 0 <= m <= k, k <= e, pre(s, n, k) == pre(t, m, k),
    ensures pre(s, n, e) == pre(t, m, e),
    decreases e - k,
{
    if k < e {
        lem_pre_step(s, n, k);
        lem_pre_step(t, m, k);
        lem_pre_eq(s, n, t, m, k + 1, e);
    }
}

/// fractions with the same position of the leading unit compare like this
pub open spec fn ge_frac(s: Seq<i32>, n: int, t: Seq<i32>, m: int) -> bool {
    rng(s, 0, n) * pw(m) >= rng(t, 0, m) * pw(n)
}

pub proof fn lem_pre_whole(s: Seq<i32>, n: int, m: int)
    requires 0 <= n, 0 <= m,
    ensures pre(s, n, n + m) == rng(s, 0, n) * pw(m),
{
    lem_pw_small();
    if m == 0 { assert(rng(s, 0, n) * 1 == rng(s, 0, n)); }
}

/// end of a comparison of s[0..n] with t[0..m] after k equal leading units
pub proof fn lem_ge_end(s: Seq<i32>, n: int, t: Seq<i32>, m: int, k: int)
    requires 0 <= n, 0 <= m, 0 <= k <= n + m, uok(s, 0, n), uok(t, 0, m), pre(s, n, k) == pre(t, m, k),
    ensures
        k < n + m && pre_unit(s, n, k) > pre_unit(t, m, k) ==> ge_frac(s, n, t, m),
        k < n + m && pre_unit(s, n, k) < pre_unit(t, m, k) ==> !ge_frac(s, n, t, m),
        k >= n && k >= m ==> ge_frac(s, n, t, m),
        pre_unit(s, n, k) == pre_unit(t, m, k) ==> pre(s, n, k + 1) == pre(t, m, k + 1),
{
    lem_pre_whole(s, n, m);
    lem_pre_whole(t, m, n);
    lem_pre_step(s, n, k);
    lem_pre_step(t, m, k);
    if k < n + m && pre_unit(s, n, k) > pre_unit(t, m, k) { lem_pre_gt(s, n, t, m, k + 1, n + m); }
    if k < n + m && pre_unit(s, n, k) < pre_unit(t, m, k) { lem_pre_gt(t, m, s, n, k + 1, n + m); }
    if k >= n && k >= m { lem_pre_eq(s, n, t, m, k, n + m); }
}

/// base-10^9 digits of v
pub open spec fn ugr(v: int) -> int decreases v { if v <= 0 { 0 } else { 1 + ugr(v / 1_000_000_000) } }

pub proof fn lem_ugr(v: int, k: int)
    requires k >= 0, pw(k) <= v < pw(k + 1),
    ensures ugr(v) == k + 1,
    decreases k,
{
    lem_pw_pos(k);
    lem_pw_small();
    reveal_with_fuel(ugr, 2);
    if k > 0 {
        assert(pw(k) == 1_000_000_000 * pw(k - 1));
        assert(pw(k + 1) == 1_000_000_000 * pw(k));
        lem_ugr(v / 1_000_000_000, k - 1);
    } else {
        assert(v / 1_000_000_000 == 0);
    }
}

// ---------------------------------------------------------------- contract

/// quotient cut after g fractional groups
pub open spec fn div_quo(l: FixedDecimal, r: FixedDecimal, g: int) -> int { (mag(l) * pw(g + fu(r))) / (mag(r) * pw(fu(l))) }

/// integral groups of the quotient
pub open spec fn div_n(l: FixedDecimal, r: FixedDecimal) -> int { ugr(div_quo(l, r, 0)) }

/// fractional groups asked for
pub open spec fn div_g0(l: FixedDecimal, r: FixedDecimal, incr: int) -> int {
    let slack = (9 * fu(l) - l.frac) + (9 * fu(r) - r.frac);
    un(min2(36, 9 * fu(l) + 9 * fu(r) + max2(0, incr - slack)))
}

pub open spec fn div_g(l: FixedDecimal, r: FixedDecimal, incr: int) -> int { min2(div_g0(l, r, incr), 9 - div_n(l, r)) }

/// quotient of 10^81 or more
pub open spec fn div_ovf(l: FixedDecimal, r: FixedDecimal) -> bool { mag(l) * pw(fu(r)) >= mag(r) * pw(fu(l)) * pw(9) }

pub open spec fn div_abs_post(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal, incr: int, res: Result<()>) -> bool {
    match res {
        Ok(_) => {
            &&& mag(r) != 0
            &&& !div_ovf(l, r)
            &&& wf(d)
            &&& !neg(d)
            &&& mag(l) == 0 ==> is_zero_dec(d)
            &&& mag(l) != 0 ==> {
                &&& d.frac == 9 * div_g(l, r, incr)
                &&& dg(d) == 9 * div_n(l, r)
                &&& mag(d) == div_quo(l, r, fu(d))
            }
        },
        Err(Error::DivisionByZero) => mag(r) == 0 && is_zero_dec(d),
        Err(e) => e is Overflow && mag(r) != 0 && div_ovf(l, r) && is_zero_dec(d),
    }
}

/// C05
pub open spec fn div_post(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal, incr: int, res: Result<()>) -> bool {
    match res {
        Ok(_) => {
            &&& mag(r) != 0
            &&& !div_ovf(l, r)
            &&& wf(d)
            &&& mag(d) == div_quo(l, r, fu(d))
            &&& neg(d) == (neg(l) != neg(r) && mag(d) != 0)
            &&& mag(l) != 0 ==> d.frac == 9 * div_g(l, r, incr) && dg(d) == 9 * div_n(l, r)
            &&& mag(l) == 0 ==> is_zero_dec(d)
        },
        Err(Error::DivisionByZero) => mag(r) == 0 && is_zero_dec(d) && wf(d),
        Err(e) => e is Overflow && mag(r) != 0 && div_ovf(l, r) && is_zero_dec(d) && wf(d),
    }
}

// ---------------------------------------------------------------- head

/// index n holds the leading unit of d
pub open spec fn lead(d: FixedDecimal, n: int) -> bool {
    &&& wf(d)
    &&& 0 <= n < iu(d) + fu(d)
    &&& d.lsu@[n] > 0
    &&& zeros(d.lsu@, n + 1, 9)
}

pub proof fn lem_lead(d: FixedDecimal, n: int)
    requires lead(d, n),
    ensures
        rng(d.lsu@, 0, n + 1) == mag(d),
        d.lsu@[n] * pw(n) <= mag(d) < (d.lsu@[n] + 1) * pw(n),
        pw(n) <= mag(d) < pw(n + 1),
{
    let s = d.lsu@;
    lem_rng_top(s, 0, n + 1, 9);
    lem_rng_bound(s, 0, n);
    lem_rng_bound(s, 0, n + 1);
    let (u, p) = (s[n] as int, pw(n));
    lem_pw_pos(n);
    assert(u * p >= p && (u + 1) * p == u * p + p) by (nonlinear_arith) requires u >= 1, p >= 1;
}

pub open spec fn dv_a(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int) -> int { nl - nr + fu(r) - fu(l) }

/// the leading units decide as far as they differ; bounds of the quotient
pub proof fn lem_dv_bounds(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, ge: bool, shift: int)
    requires
        lead(l, nl), lead(r, nr),
        ge == ge_frac(l.lsu@, nl + 1, r.lsu@, nr + 1),
        shift == if ge { 0int } else { -1 },
    ensures
        ge ==> l.lsu@[nl] >= r.lsu@[nr],
        !ge ==> l.lsu@[nl] <= r.lsu@[nr],
        ge ==> ulz(l.lsu@[nl] as int) <= ulz(r.lsu@[nr] as int),
        !ge ==> ulz(l.lsu@[nl] as int) >= ulz(r.lsu@[nr] as int),
        mag(l) * pw(nr + 1) < mag(r) * pw(nl + 2 + shift),
        mag(l) * pw(nr + 1) >= mag(r) * pw(nl + 1 + shift),
{
    lem_lead(l, nl);
    lem_lead(r, nr);
    let (x, y, u, v) = (mag(l), mag(r), l.lsu@[nl] as int, r.lsu@[nr] as int);
    let (pl, pr) = (pw(nl), pw(nr));
    let B: int = 1_000_000_000;
    lem_pw_pos(nl);
    lem_pw_pos(nr);
    assert(pw(nl + 1) == B * pl && pw(nr + 1) == B * pr && pw(nl + 2) == B * (B * pl));
    if ge {
        if u < v {
            assert(x * (B * pr) < y * (B * pl)) by (nonlinear_arith)
                requires x < (u + 1) * pl, y >= v * pr, u + 1 <= v, pl >= 1, pr >= 1, B == 1_000_000_000;
        }
        assert(x * (B * pr) < y * (B * (B * pl))) by (nonlinear_arith)
            requires x < B * pl, y >= pr, pl >= 1, pr >= 1, B == 1_000_000_000, x >= 0;
    } else {
        if u > v {
            assert(x * (B * pr) >= y * (B * pl)) by (nonlinear_arith)
                requires y < (v + 1) * pr, x >= u * pl, v + 1 <= u, pl >= 1, pr >= 1, B == 1_000_000_000;
        }
        assert(x * (B * pr) >= y * pl) by (nonlinear_arith)
            requires x >= pl, y < B * pr, pl >= 1, pr >= 1, B == 1_000_000_000;
    }
}

/// quotient of magnitudes as a value: bounds that do not mention the units
pub proof fn lem_dv_value(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int)
    requires
        lead(l, nl), lead(r, nr), shift == 0 || shift == -1,
        mag(l) * pw(nr + 1) < mag(r) * pw(nl + 2 + shift),
        mag(l) * pw(nr + 1) >= mag(r) * pw(nl + 1 + shift),
    ensures
        div_ovf(l, r) == (dv_a(l, r, nl, nr) + shift >= 9),
        div_n(l, r) == max2(0, dv_a(l, r, nl, nr) + shift + 1),
{
    let t = dv_a(l, r, nl, nr) + shift;
    let (x, y) = (mag(l), mag(r));
    let (f, g) = (fu(r), fu(l));
    lem_lead(l, nl);
    lem_lead(r, nr);
    lem_pw_pos(nl);
    lem_pw_pos(nr);
    lem_pw_pos(g);
    lem_pw_pos(f);
    let d = y * pw(g);
    assert(d >= 1) by (nonlinear_arith) requires y >= 1, pw(g) >= 1, d == y * pw(g);
    // x * pw(f) against d * pw(k) for any k
    if t >= 9 {
        lem_dv_scale_ge(x, y, nr + 1, nl + 1 + shift, f, g, 9);
        assert(d * pw(9) == y * pw(g) * pw(9));
    } else {
        lem_dv_scale_lt(x, y, nr + 1, nl + 2 + shift, f, g, 9);
        assert(d * pw(9) == y * pw(g) * pw(9));
    }
    let q = div_quo(l, r, 0);
    assert(q == (x * pw(f)) / d);
    if t >= 0 {
        lem_dv_scale_ge(x, y, nr + 1, nl + 1 + shift, f, g, t);
        lem_dv_scale_lt(x, y, nr + 1, nl + 2 + shift, f, g, t + 1);
        lem_div_between(x * pw(f), d, pw(t), pw(t + 1));
        lem_ugr(q, t);
    } else {
        lem_dv_scale_lt(x, y, nr + 1, nl + 2 + shift, f, g, 0);
        lem_pw_small();
        assert(x * pw(f) < d) by (nonlinear_arith) requires x * pw(f) < y * pw(g) * pw(0), pw(0) == 1, d == y * pw(g);
        assert(x * pw(f) >= 0) by (nonlinear_arith) requires x >= 0, pw(f) >= 1;
        lem_div_unique(x * pw(f), d, 0, x * pw(f));
    }
}

/// a * pw(m) >= b * pw(n) scaled
pub proof fn lem_dv_scale_ge(a: int, b: int, m: int, n: int, f: int, g: int, k: int)
    requires a >= 0, b >= 0, m >= 0, n >= 0, f >= 0, g >= 0, k >= 0, a * pw(m) >= b * pw(n), g + k + m <= f + n,
    ensures a * pw(f) >= b * pw(g) * pw(k),
{
    let (x, y) = (a * pw(f), b * pw(g) * pw(k));
    lem_pw_add(f, n);
    lem_pw_add(g, k);
    lem_pw_add(g + k, m);
    lem_pw_mono(g + k + m, f + n);
    lem_pw_pos(f);
    lem_pw_pos(m);
    let (pf, pm, pn, pg, pk) = (pw(f), pw(m), pw(n), pw(g), pw(k));
    assert(x * pm == (a * pm) * pf) by (nonlinear_arith) requires x == a * pf;
    assert((a * pm) * pf >= (b * pn) * pf) by (nonlinear_arith) requires a * pm >= b * pn, pf >= 1;
    assert((b * pn) * pf == b * (pf * pn)) by (nonlinear_arith);
    assert(b * (pf * pn) >= b * ((pg * pk) * pm)) by (nonlinear_arith) requires b >= 0, pf * pn >= (pg * pk) * pm;
    assert(b * ((pg * pk) * pm) == y * pm) by (nonlinear_arith) requires y == b * pg * pk;
    assert(x >= y) by (nonlinear_arith) requires x * pm >= y * pm, pm >= 1;
}

pub proof fn lem_dv_scale_lt(a: int, b: int, m: int, n: int, f: int, g: int, k: int)
    requires a >= 0, b >= 0, m >= 0, n >= 0, f >= 0, g >= 0, k >= 0, a * pw(m) < b * pw(n), g + k + m >= f + n,
    ensures a * pw(f) < b * pw(g) * pw(k),
{
    let (x, y) = (a * pw(f), b * pw(g) * pw(k));
    lem_pw_add(f, n);
    lem_pw_add(g, k);
    lem_pw_add(g + k, m);
    lem_pw_mono(f + n, g + k + m);
    lem_pw_pos(f);
    lem_pw_pos(m);
    let (pf, pm, pn, pg, pk) = (pw(f), pw(m), pw(n), pw(g), pw(k));
    assert(x * pm == (a * pm) * pf) by (nonlinear_arith) requires x == a * pf;
    assert((a * pm) * pf < (b * pn) * pf) by (nonlinear_arith) requires a * pm < b * pn, pf >= 1;
    assert((b * pn) * pf == b * (pf * pn)) by (nonlinear_arith);
    assert(b * (pf * pn) <= b * ((pg * pk) * pm)) by (nonlinear_arith) requires b >= 0, pf * pn <= (pg * pk) * pm;
    assert(b * ((pg * pk) * pm) == y * pm) by (nonlinear_arith) requires y == b * pg * pk;
    assert(x < y) by (nonlinear_arith) requires x * pm < y * pm, pm >= 1;
}

pub proof fn lem_div_between(v: int, d: int, a: int, b: int)
    requires d > 0, v >= d * a, v < d * b,
    ensures a <= v / d < b,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, d);
    let (q, m) = (v / d, v % d);
    assert(q >= a) by (nonlinear_arith) requires v == d * q + m, 0 <= m < d, v >= d * a;
    assert(q < b) by (nonlinear_arith) requires v == d * q + m, 0 <= m < d, v < d * b;
}

/// everything known once the position of the quotient's first unit is
pub open spec fn dv_ctx(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int, n: int, g: int, top: int, incr: int) -> bool {
    &&& lead(l, nl)
    &&& lead(r, nr)
    &&& shift == 0 || shift == -1
    &&& mag(l) * pw(nr + 1) < mag(r) * pw(nl + 2 + shift)
    &&& mag(l) * pw(nr + 1) >= mag(r) * pw(nl + 1 + shift)
    &&& n == div_n(l, r)
    &&& n == max2(0, dv_a(l, r, nl, nr) + shift + 1)
    &&& n <= 9
    &&& g == div_g(l, r, incr)
    &&& 0 <= g <= 4
    &&& n + g <= 9
    &&& top == g + dv_a(l, r, nl, nr) + shift
    &&& !div_ovf(l, r)
}

/// x is l moved by e units (cut), and was divided by r
pub proof fn lem_quot(l: int, r: int, x: int, low: int, a: int, c: int, q: int, m: int)
    requires
        l >= 0, r > 0, a >= 0, c >= 0,
        a >= c ==> x == l * pw(a - c),
        a < c ==> l == x * pw(c - a) + low && 0 <= low < pw(c - a),
        x == q * r + m, 0 <= m < r,
    ensures q == (l * pw(a)) / (r * pw(c)),
{
    lem_pw_pos(a);
    lem_pw_pos(c);
    let (pa, pc) = (pw(a), pw(c));
    let d = r * pc;
    assert(d > 0) by (nonlinear_arith) requires r > 0, pc >= 1, d == r * pc;
    if a >= c {
        let e = pw(a - c);
        lem_pw_add(a - c, c);
        assert(pa == e * pc);
        assert(l * (e * pc) == (l * e) * pc) by (nonlinear_arith);
        assert((q * r + m) * pc == q * (r * pc) + m * pc) by (nonlinear_arith);
        assert(0 <= m * pc < r * pc) by (nonlinear_arith) requires 0 <= m < r, pc >= 1;
        lem_div_unique(l * pa, d, q, m * pc);
    } else {
        let e = pw(c - a);
        lem_pw_add(c - a, a);
        lem_pw_pos(c - a);
        assert(pc == e * pa);
        let w = m * e + low;
        assert(0 <= w < r * e) by (nonlinear_arith) requires w == m * e + low, 0 <= m < r, 0 <= low < e;
        assert(l * pa == q * (r * (e * pa)) + w * pa) by (nonlinear_arith)
            requires l == x * e + low, x == q * r + m, w == m * e + low;
        assert(0 <= w * pa < r * (e * pa)) by (nonlinear_arith) requires 0 <= w < r * e, pa >= 1;
        lem_div_unique(l * pa, d, q, w * pa);
    }
}

/// the quotient's first unit lies below the kept ones
pub proof fn lem_quot_zero(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int, n: int, g: int, top: int, incr: int)
    requires dv_ctx(l, r, nl, nr, shift, n, g, top, incr), top < 0,
    ensures div_quo(l, r, g) == 0,
{
    lem_lead(l, nl);
    lem_lead(r, nr);
    lem_pw_pos(nr);
    lem_pw_pos(nl);
    lem_pw_pos(g + fu(r));
    lem_pw_pos(fu(l));
    lem_dv_scale_lt(mag(l), mag(r), nr + 1, nl + 2 + shift, g + fu(r), fu(l), 0);
    let (x, y) = (mag(l) * pw(g + fu(r)), mag(r) * pw(fu(l)));
    lem_pw_small();
    assert(y * 1 == y);
    assert(x >= 0) by (nonlinear_arith) requires x == mag(l) * pw(g + fu(r)), mag(l) >= 0, pw(g + fu(r)) >= 1;
    assert(y > 0) by (nonlinear_arith) requires y == mag(r) * pw(fu(l)), mag(r) >= 1, pw(fu(l)) >= 1;
    lem_div_unique(x, y, 0, x);
}

pub proof fn lem_div_end(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int, n: int, g: int, top: int, incr: int, d: FixedDecimal)
    requires
        dv_ctx(l, r, nl, nr, shift, n, g, top, incr),
        d.intg == 9 * n, d.frac == 9 * g, uok(d.lsu@, 0, 9), zeros(d.lsu@, max2(0, top + 1), 9),
        mag(d) == div_quo(l, r, g),
    ensures div_abs_post(l, r, d, incr, Ok(())),
{
    lem_lead(l, nl);
    lem_lead(r, nr);
    lem_pw_pos(nl);
    lem_pw_pos(nr);
    assert(fu(d) == g && iu(d) == n);
    assert(top + 1 <= n + g);
    lem_rng_top(d.lsu@, 0, n + g, 9);
    lem_rng_bound(d.lsu@, 0, n + g);
    lem_p10_pw(n);
    lem_pw_add(n, g);
    lem_p10_small();
    assert(mag(d) % 1 == 0);
}

// ---------------------------------------------------------------- short division

pub proof fn lem_short_step(p: int, q: int, d: int, rem: int, x: int, q2: int, rem2: int)
    requires p == q * d + rem, 0 <= rem < d, 0 <= x < 1_000_000_000, q2 == (rem * 1_000_000_000 + x) / d, rem2 == rem * 1_000_000_000 + x - q2 * d,
    ensures p * 1_000_000_000 + x == (q2 + 1_000_000_000 * q) * d + rem2, 0 <= rem2 < d, 0 <= q2 < 1_000_000_000,
{
    let u = rem * 1_000_000_000 + x;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u, d);
    assert(d * q2 == q2 * d) by (nonlinear_arith);
    assert(q2 >= 0 && q2 < 1_000_000_000) by (nonlinear_arith) requires u == q2 * d + rem2, 0 <= rem2 < d, u < d * 1_000_000_000, u >= 0;
    assert(p * 1_000_000_000 + x == (q2 + 1_000_000_000 * q) * d + rem2) by (nonlinear_arith)
        requires p == q * d + rem, rem * 1_000_000_000 + x == q2 * d + rem2;
}

/// the units consumed by division, as the dividend moved by e units
pub proof fn lem_pre_shift(s: Seq<i32>, n: int, k: int)
    requires 0 <= n, 0 <= k, uok(s, 0, n),
    ensures
        k >= n ==> pre(s, n, k) == rng(s, 0, n) * pw(k - n),
        k < n ==> rng(s, 0, n) == pre(s, n, k) * pw(n - k) + rng(s, 0, n - k) && 0 <= rng(s, 0, n - k) < pw(n - k),
{
    lem_pw_small();
    if k >= n {
        if k == n { assert(rng(s, 0, n) * 1 == rng(s, 0, n)); }
    } else {
        lem_rng_split(s, 0, n - k, n);
        lem_rng_bound(s, 0, n - k);
        let (a, b) = (pw(n - k), rng(s, n - k, n));
        assert(a * b == b * a) by (nonlinear_arith);
    }
}

// ---------------------------------------------------------------- long division

/// multiplication by the normalising factor, one unit
pub proof fn lem_norm_step(t: int, c: int, p: int, s: int, x: int, f: int, y: int, c2: int)
    requires t + c * p == f * s, x * f + c == y + c2 * 1_000_000_000,
    ensures (t + y * p) + c2 * (1_000_000_000 * p) == f * (s + x * p),
{
    assert((t + y * p) + c2 * (1_000_000_000 * p) == f * (s + x * p)) by (nonlinear_arith)
        requires t + c * p == f * s, x * f + c == y + c2 * 1_000_000_000;
}

/// facts that stay during the choice of a quotient unit
pub open spec fn qh_ctx(xs: Seq<i32>, b: int, vs: Seq<i32>, n: int, x: int, v: int, u0: int, u1: int, u2: int, d0: int, d1: int) -> bool {
    &&& n >= 1
    &&& uok(xs, b, b + n + 2)
    &&& uok(vs, 0, n + 1)
    &&& x == rng(xs, b, b + n + 2)
    &&& v == rng(vs, 0, n + 1)
    &&& 0 <= x < 1_000_000_000 * v
    &&& u0 == xs[b + n + 1] && u1 == xs[b + n] && u2 == xs[b + n - 1]
    &&& d0 == vs[n] && d1 == vs[n - 1]
    &&& 0 <= u0 < 1_000_000_000 && 0 <= u1 < 1_000_000_000 && 0 <= u2 < 1_000_000_000
    &&& 1 <= d0 < 1_000_000_000 && 0 <= d1 < 1_000_000_000
    &&& u0 <= d0
}

/// the window and the divisor by their leading units
pub proof fn lem_qh_lead(xs: Seq<i32>, b: int, vs: Seq<i32>, n: int, x: int, v: int)
    requires n >= 1, uok(xs, b, b + n + 2), uok(vs, 0, n + 1), x == rng(xs, b, b + n + 2), v == rng(vs, 0, n + 1),
    ensures
        ({
            let u3 = xs[b + n + 1] * 1_000_000_000 * 1_000_000_000 + xs[b + n] * 1_000_000_000 + xs[b + n - 1];
            let d2 = vs[n] * 1_000_000_000 + vs[n - 1];
            u3 * pw(n - 1) <= x < (u3 + 1) * pw(n - 1) && d2 * pw(n - 1) <= v < (d2 + 1) * pw(n - 1)
        }),
        pw(n - 1) >= 1,
{
    let p = pw(n - 1);
    lem_pw_pos(n - 1);
    assert(pw(n) == 1_000_000_000 * p);
    assert(pw(n + 1) == 1_000_000_000 * pw(n));
    lem_rng_bound(xs, b, b + n - 1);
    lem_rng_bound(vs, 0, n - 1);
    let (u0, u1, u2, xl) = (xs[b + n + 1] as int, xs[b + n] as int, xs[b + n - 1] as int, rng(xs, b, b + n - 1));
    let (d0, d1, vl) = (vs[n] as int, vs[n - 1] as int, rng(vs, 0, n - 1));
    assert(rng(xs, b, b + n) == xl + u2 * p);
    assert(rng(xs, b, b + n + 1) == rng(xs, b, b + n) + u1 * pw(n));
    assert(x == rng(xs, b, b + n + 1) + u0 * pw(n + 1));
    assert(rng(vs, 0, n) == vl + d1 * p);
    assert(v == rng(vs, 0, n) + d0 * pw(n));
    let B: int = 1_000_000_000;
    let u3 = u0 * B * B + u1 * B + u2;
    let d2 = d0 * B + d1;
    assert(u3 * p == u0 * (B * (B * p)) + u1 * (B * p) + u2 * p) by (nonlinear_arith) requires u3 == u0 * B * B + u1 * B + u2;
    assert(d2 * p == d0 * (B * p) + d1 * p) by (nonlinear_arith) requires d2 == d0 * B + d1;
    assert((u3 + 1) * p == u3 * p + p) by (nonlinear_arith);
    assert((d2 + 1) * p == d2 * p + p) by (nonlinear_arith);
}

/// the window's first unit does not exceed the divisor's
pub proof fn lem_qh_ctx(xs: Seq<i32>, b: int, vs: Seq<i32>, n: int, x: int, v: int)
    requires n >= 1, uok(xs, b, b + n + 2), uok(vs, 0, n + 1), x == rng(xs, b, b + n + 2), v == rng(vs, 0, n + 1),
        0 <= x < 1_000_000_000 * v, vs[n] >= 1,
    ensures qh_ctx(xs, b, vs, n, x, v, xs[b + n + 1] as int, xs[b + n] as int, xs[b + n - 1] as int, vs[n] as int, vs[n - 1] as int),
{
    lem_qh_lead(xs, b, vs, n, x, v);
    let p = pw(n - 1);
    let (u0, u1, u2) = (xs[b + n + 1] as int, xs[b + n] as int, xs[b + n - 1] as int);
    let (d0, d1) = (vs[n] as int, vs[n - 1] as int);
    let B: int = 1_000_000_000;
    if u0 > d0 {
        let u3 = u0 * B * B + u1 * B + u2;
        let d2 = d0 * B + d1;
        assert(u3 >= B * (d2 + 1)) by (nonlinear_arith)
            requires u3 == u0 * B * B + u1 * B + u2, d2 == d0 * B + d1, u0 >= d0 + 1, u1 >= 0, u2 >= 0, d1 + 1 <= B, B == 1_000_000_000;
        assert(u3 * p >= B * ((d2 + 1) * p)) by (nonlinear_arith) requires u3 >= B * (d2 + 1), p >= 1;
        assert(false);
    }
}

/// first guess
pub proof fn lem_qh_init(xs: Seq<i32>, b: int, vs: Seq<i32>, n: int, x: int, v: int, u0: int, u1: int, u2: int, d0: int, d1: int, q: int, r: int)
    requires
        qh_ctx(xs, b, vs, n, x, v, u0, u1, u2, d0, d1),
        q == (u0 * 1_000_000_000 + u1) / d0, r == u0 * 1_000_000_000 + u1 - q * d0,
    ensures 0 <= q <= 2_000_000_000, 0 <= r < d0, x < (q + 1) * v, q * d0 + r == u0 * 1_000_000_000 + u1,
{
    lem_qh_lead(xs, b, vs, n, x, v);
    let B: int = 1_000_000_000;
    let u = u0 * B + u1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u, d0);
    assert(d0 * q == q * d0) by (nonlinear_arith);
    assert(0 <= q <= 2 * B) by (nonlinear_arith) requires u == q * d0 + r, 0 <= r < d0, u < (d0 + 1) * B, u >= 0, d0 >= 1, B > 0;
    let p = pw(n - 1);
    let u3 = u0 * B * B + u1 * B + u2;
    let d2 = d0 * B + d1;
    assert((q + 1) * d2 >= u3 + 1) by (nonlinear_arith)
        requires u == u0 * B + u1, u == q * d0 + r, r <= d0 - 1, u3 == u0 * B * B + u1 * B + u2, u2 + 1 <= B, d2 == d0 * B + d1, d1 >= 0, q >= 0, B == 1_000_000_000;
    assert((q + 1) * v >= (q + 1) * (d2 * p)) by (nonlinear_arith) requires v >= d2 * p, q >= 0;
    assert((q + 1) * (d2 * p) == ((q + 1) * d2) * p) by (nonlinear_arith);
    assert(((q + 1) * d2) * p >= (u3 + 1) * p) by (nonlinear_arith) requires (q + 1) * d2 >= u3 + 1, p >= 1;
}

/// a guess found too large is
pub proof fn lem_qh_step(xs: Seq<i32>, b: int, vs: Seq<i32>, n: int, x: int, v: int, u0: int, u1: int, u2: int, d0: int, d1: int, q: int, r: int)
    requires
        qh_ctx(xs, b, vs, n, x, v, u0, u1, u2, d0, d1),
        0 <= q, 0 <= r, q * d0 + r == u0 * 1_000_000_000 + u1,
        q >= 1_000_000_000 || q * d1 > r * 1_000_000_000 + u2,
    ensures x < q * v, q >= 1, (q - 1) * d0 + (r + d0) == u0 * 1_000_000_000 + u1, r + d0 < 2_000_000_000,
{
    lem_qh_lead(xs, b, vs, n, x, v);
    let B: int = 1_000_000_000;
    assert((q - 1) * d0 == q * d0 - d0) by (nonlinear_arith);
    if q >= B {
        lem_rng_bound(vs, 0, n + 1);
        assert(B * v <= q * v) by (nonlinear_arith) requires q >= B, v >= 0;
        assert(r < B) by (nonlinear_arith) requires q * d0 + r == u0 * B + u1, q >= B, u0 <= d0, u1 < B, d0 >= 1, B == 1_000_000_000;
    } else {
        if q < 1 { assert(q * d1 == 0) by (nonlinear_arith) requires q == 0; }
        let p = pw(n - 1);
        let u3 = u0 * B * B + u1 * B + u2;
        let d2 = d0 * B + d1;
        assert(q * d2 == (q * d0) * B + q * d1) by (nonlinear_arith) requires d2 == d0 * B + d1;
        assert(q * d2 >= u3 + 1);
        assert(q * v >= q * (d2 * p)) by (nonlinear_arith) requires v >= d2 * p, q >= 0;
        assert(q * (d2 * p) == (q * d2) * p) by (nonlinear_arith);
        assert((q * d2) * p >= (u3 + 1) * p) by (nonlinear_arith) requires q * d2 >= u3 + 1, p >= 1;
        assert(r < B) by (nonlinear_arith) requires q * d1 > r * B + u2, q < B, d1 < B, q >= 0, d1 >= 0, u2 >= 0, B == 1_000_000_000;
    }
}

/// products in the test of the guess do not overflow
pub proof fn lem_qh_range(q: int, d1: int, r: int, u2: int)
    requires 0 <= q <= 2_000_000_000, 0 <= d1 < 1_000_000_000, 0 <= r < 2_000_000_000, 0 <= u2 < 1_000_000_000,
    ensures 0 <= q * d1 <= 2_000_000_000_000_000_000, 0 <= r * 1_000_000_000 + u2 <= 3_000_000_000_000_000_000,
{
    assert(0 <= q * d1 <= 2_000_000_000_000_000_000) by (nonlinear_arith) requires 0 <= q <= 2_000_000_000, 0 <= d1 < 1_000_000_000;
}

/// a guess that passes is at most one too large
pub proof fn lem_qh_end(xs: Seq<i32>, b: int, vs: Seq<i32>, n: int, x: int, v: int, u0: int, u1: int, u2: int, d0: int, d1: int, q: int, r: int)
    requires
        qh_ctx(xs, b, vs, n, x, v, u0, u1, u2, d0, d1),
        0 <= q < 1_000_000_000, 0 <= r, q * d0 + r == u0 * 1_000_000_000 + u1, q * d1 <= r * 1_000_000_000 + u2,
        x < (q + 1) * v,
    ensures -v < x - q * v < v,
{
    lem_qh_lead(xs, b, vs, n, x, v);
    let B: int = 1_000_000_000;
    let p = pw(n - 1);
    let u3 = u0 * B * B + u1 * B + u2;
    let d2 = d0 * B + d1;
    assert(q * d2 == (q * d0) * B + q * d1) by (nonlinear_arith) requires d2 == d0 * B + d1;
    assert(q * d2 <= u3);
    assert((q + 1) * v == q * v + v) by (nonlinear_arith);
    assert(q * v <= q * ((d2 + 1) * p)) by (nonlinear_arith) requires v < (d2 + 1) * p, q >= 0;
    assert(q * ((d2 + 1) * p) == (q * d2) * p + q * p) by (nonlinear_arith);
    assert((q * d2) * p <= u3 * p) by (nonlinear_arith) requires q * d2 <= u3, p >= 1;
    assert(q * p < d2 * p) by (nonlinear_arith) requires q < B, B <= d2, p >= 1;
}

/// multiply and subtract, one unit: r + (bo - ca) * p == s - q * w before and after
pub proof fn lem_ms_step(r: int, bo: int, ca: int, p: int, s: int, q: int, w: int, a: int, vk: int, m0: int, ca2: int, t: int, bo2: int)
    requires
        r + (bo - ca) * p == s - q * w,
        q * vk + ca == m0 + ca2 * 1_000_000_000,
        a - m0 + bo == t + bo2 * 1_000_000_000,
    ensures
        (r + t * p) + (bo2 - ca2) * (1_000_000_000 * p) == (s + a * p) - q * (w + vk * p),
{
    let y = q * vk;
    assert(q * (w + vk * p) == q * w + y * p) by (nonlinear_arith) requires y == q * vk;
    assert((r + t * p) + (bo2 - ca2) * (1_000_000_000 * p) == (s + a * p) - (q * w + y * p)) by (nonlinear_arith)
        requires r + (bo - ca) * p == s - q * w, y + ca == m0 + ca2 * 1_000_000_000, a - m0 + bo == t + bo2 * 1_000_000_000;
}

pub proof fn lem_ms_range(q: int, vk: int, ca: int)
    requires 0 <= q < 1_000_000_000, 0 <= vk < 1_000_000_000, 0 <= ca < 1_000_000_000,
    ensures 0 <= q * vk + ca < 1_000_000_000_000_000_000,
{
    assert(0 <= q * vk <= 999_999_999 * 999_999_999) by (nonlinear_arith) requires 0 <= q <= 999_999_999, 0 <= vk <= 999_999_999;
}

/// what the top of the window says after multiply and subtract
pub proof fn lem_ms_end(x: int, q: int, v: int, r: int, t: int, p: int)
    requires -v < x - q * v < v, r + t * p == x - q * v, 0 <= r < p, 0 < v < p,
    ensures t == 0 || t == -1, t == -1 ==> x - q * v < 0 && r == x - q * v + p, t == 0 ==> x - q * v == r && r < v,
{
    let y = x - q * v;
    assert(t < 1) by (nonlinear_arith) requires r + t * p == y, y < p, r >= 0, p > 0;
    assert(t > -2) by (nonlinear_arith) requires r + t * p == y, y > -p, r < p, p > 0;
    if t == -1 { assert(t * p == -p) by (nonlinear_arith) requires t == -1; }
    if t == 0 { assert(t * p == 0) by (nonlinear_arith) requires t == 0; }
}

/// add back: y < 0 is the difference, r its complement
pub proof fn lem_ab_end(y: int, v: int, r: int, p: int, r2: int, c: int)
    requires -v < y < 0, r == y + p, r2 + c * p == r + v, 0 <= r2 < p, 0 < v < p, 0 <= c,
    ensures c == 1, r2 == y + v,
{
    assert(c == 1) by (nonlinear_arith) requires r2 + c * p == y + p + v, -v < y < 0, 0 <= r2 < p, 0 < v < p, c >= 0;
    assert(c * p == p) by (nonlinear_arith) requires c == 1;
}

/// one unit of the quotient more
pub proof fn lem_long_step(bs: Seq<i32>, ws: Seq<i32>, b: int, m: int, qp: int, v: int, q: int, r2: int)
    requires
        b + 1 <= m,
        bs[b] == ws[b],
        rng(bs, b + 1, m) == qp * v + rng(ws, b + 1, m),
        rng(ws, b, m) - q * v == r2,
    ensures rng(bs, b, m) == (q + 1_000_000_000 * qp) * v + r2,
{
    lem_rng_low(bs, b, m);
    lem_rng_low(ws, b, m);
    let (x, y) = (rng(bs, b + 1, m), rng(ws, b + 1, m));
    assert((q + 1_000_000_000 * qp) * v == q * v + 1_000_000_000 * (qp * v)) by (nonlinear_arith);
}

/// the normalised dividend seen from unit z
pub proof fn lem_bs_shift(bs: Seq<i32>, start: int, z: int, m: int, x: int)
    requires 0 <= start <= m, 0 <= z <= m, uok(bs, 0, m), zeros(bs, 0, start), rng(bs, start, m) == x,
    ensures
        z <= start ==> rng(bs, z, m) == x * pw(start - z),
        z > start ==> x == rng(bs, z, m) * pw(z - start) + rng(bs, start, z) && 0 <= rng(bs, start, z) < pw(z - start),
{
    if z <= start {
        lem_rng_bottom(bs, z, start, m);
        assert(pw(start - z) * x == x * pw(start - z)) by (nonlinear_arith);
    } else {
        lem_rng_split(bs, start, z, m);
        lem_rng_bound(bs, start, z);
        let (a, b) = (pw(z - start), rng(bs, z, m));
        assert(a * b == b * a) by (nonlinear_arith);
    }
}

/// below the divisor before the first quotient unit
pub proof fn lem_long_first(f: int, l: int, r: int, nl: int, nr: int, shift: int, x: int, low: int)
    requires
        f >= 1, l >= 0, r >= 1, nl >= 0, nr >= 0, shift == 0 || shift == -1,
        l * pw(nr + 1) < r * pw(nl + 2 + shift),
        nl + shift + 1 - nr <= 0 ==> x == f * l * pw(nr - nl - shift - 1),
        nl + shift + 1 - nr > 0 ==> f * l == x * pw(nl + shift + 1 - nr) + low && 0 <= low,
    ensures x < f * r,
{
    let t = nl + shift + 1 - nr;
    lem_pw_pos(nr + 1);
    lem_pw_pos(nl + 2 + shift);
    if t <= 0 {
        lem_pw_add(-t, nl + 2 + shift);
        let (p, e) = (pw(nl + 2 + shift), pw(-t));
        assert(pw(nr + 1) == e * p);
        assert(l * e < r) by (nonlinear_arith) requires l * (e * p) < r * p, p >= 1;
        assert(f * l * e < f * r) by (nonlinear_arith) requires l * e < r, f >= 1;
    } else {
        lem_pw_add(t, nr + 1);
        let (p, e) = (pw(nr + 1), pw(t));
        lem_pw_pos(t);
        assert(pw(nl + 2 + shift) == e * p);
        assert(l < r * e) by (nonlinear_arith) requires l * p < r * (e * p), p >= 1;
        assert(f * l < f * r * e) by (nonlinear_arith) requires l < r * e, f >= 1;
        assert(x < f * r) by (nonlinear_arith) requires f * l == x * e + low, low >= 0, f * l < f * r * e, e >= 1;
    }
}

/// the common factor cancels
pub proof fn lem_cancel(f: int, l: int, r: int, a: int, c: int)
    requires f >= 1, l >= 0, r >= 1, a >= 0, c >= 0,
    ensures ((f * l) * pw(a)) / ((f * r) * pw(c)) == (l * pw(a)) / (r * pw(c)),
{
    lem_pw_pos(a);
    lem_pw_pos(c);
    let (x, y) = (l * pw(a), r * pw(c));
    assert(y >= 1) by (nonlinear_arith) requires r >= 1, pw(c) >= 1, y == r * pw(c);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y);
    let (q, m) = (x / y, x % y);
    assert((f * l) * pw(a) == f * x) by (nonlinear_arith) requires x == l * pw(a);
    assert((f * r) * pw(c) == f * y) by (nonlinear_arith) requires y == r * pw(c);
    assert(f * x == q * (f * y) + f * m) by (nonlinear_arith) requires x == y * q + m;
    assert(0 <= f * m < f * y) by (nonlinear_arith) requires 0 <= m < y, f >= 1;
    assert(f * y > 0) by (nonlinear_arith) requires f >= 1, y >= 1;
    lem_div_unique(f * x, f * y, q, f * m);
}

/// normalising factor: the divisor keeps its number of units
pub proof fn lem_norm_factor(f: int, v0: int, r: int, nr: int)
    requires f == 1_000_000_000int / (v0 + 1), 1 <= v0 < 1_000_000_000, r < (v0 + 1) * pw(nr), nr >= 0,
    ensures 1 <= f <= 500_000_000, f * r < pw(nr + 1),
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(1_000_000_000int, v0 + 1);
    let B: int = 1_000_000_000;
    lem_pw_pos(nr);
    let p = pw(nr);
    let m = B % (v0 + 1);
    assert((v0 + 1) * f == f * (v0 + 1)) by (nonlinear_arith);
    if f < 1 { assert(f * (v0 + 1) <= 0) by (nonlinear_arith) requires f <= 0, v0 + 1 >= 1; }
    assert(f <= 500_000_000) by (nonlinear_arith) requires f * (v0 + 1) + m == B, m >= 0, v0 >= 1, B == 1_000_000_000;
    assert(f * r < f * ((v0 + 1) * p)) by (nonlinear_arith) requires f >= 1, r < (v0 + 1) * p;
    assert(f * ((v0 + 1) * p) == (f * (v0 + 1)) * p) by (nonlinear_arith);
    assert((f * (v0 + 1)) * p <= B * p) by (nonlinear_arith) requires f * (v0 + 1) <= B, p >= 1;
}

pub proof fn lem_rng_small_at(s: Seq<i32>, lo: int, n: int, hi: int)
    requires uok(s, lo, hi), 0 <= n, rng(s, lo, hi) < pw(n),
    ensures zeros(s, lo + n, hi),
{
    assert forall|i: int| lo + n <= i < hi implies #[trigger] s[i] == 0 by {
        if s[i] != 0 { lem_rng_pos(s, lo, hi, i); lem_pw_mono(n, i - lo); }
    }
}

/// long division: everything that stays
pub open spec fn lng_ctx(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int, n: int, g: int, top: int, incr: int,
    start: int, nf: int, bs: Seq<i32>, vs: Seq<i32>, v: int) -> bool {
    &&& dv_ctx(l, r, nl, nr, shift, n, g, top, incr)
    &&& nr >= 1
    &&& nr <= 8 && nl <= 8
    &&& start == n + g + nr
    &&& nf >= 1
    &&& bs.len() == 28 && vs.len() == 9
    &&& uok(bs, 0, 28)
    &&& zeros(bs, 0, start)
    &&& rng(bs, start, 28) == nf * mag(l)
    &&& uok(vs, 0, 9)
    &&& v == nf * mag(r)
    &&& rng(vs, 0, nr + 1) == v
    &&& 1 <= v < pw(nr + 1)
    &&& vs[nr] >= 1
}

/// state of the partial remainder ws before quotient unit j; qp holds the units found so far
pub open spec fn lng_inv(bs: Seq<i32>, ws: Seq<i32>, c: int, qp: int, v: int, nr: int) -> bool {
    let e = bs.len() as int;
    &&& ws.len() == e
    &&& 0 <= c <= e
    &&& uok(ws, 0, e)
    &&& zeros(ws, c + nr + 1, e)
    &&& forall|m: int| 0 <= m < c ==> #[trigger] ws[m] == bs[m]
    &&& rng(bs, c, e) == qp * v + rng(ws, c, e)
    &&& rng(ws, c, e) < v
}

pub proof fn lem_lng_ctx(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int, n: int, g: int, top: int, incr: int,
    start: int, nf: int, bs: Seq<i32>, vs: Seq<i32>)
    requires
        dv_ctx(l, r, nl, nr, shift, n, g, top, incr),
        nr >= 1,
        start == n + g + nr,
        nf >= 1,
        nf * mag(r) < pw(nr + 1),
        bs.len() == 28, vs.len() == 9,
        uok(bs, 0, 28), zeros(bs, 0, start), rng(bs, start, 28) == nf * mag(l),
        uok(vs, 0, 9), rng(vs, 0, nr + 1) == nf * mag(r),
    ensures
        lng_ctx(l, r, nl, nr, shift, n, g, top, incr, start, nf, bs, vs, nf * mag(r)),
        top >= 0 ==> lng_inv(bs, bs, start + nl + shift + 1 - nr, 0, nf * mag(r), nr),
{
    lem_lead(l, nl);
    lem_lead(r, nr);
    lem_pw_pos(nr);
    lem_pw_pos(nl);
    let v = nf * mag(r);
    assert(v >= mag(r)) by (nonlinear_arith) requires v == nf * mag(r), nf >= 1, mag(r) >= 0;
    if vs[nr] < 1 {
        lem_rng_bound(vs, 0, nr);
        assert(0 * pw(nr) == 0);
    }
    let c = start + nl + shift + 1 - nr;
    lem_bs_shift(bs, start, c, 28, nf * mag(l));
    lem_long_first(nf, mag(l), mag(r), nl, nr, shift, rng(bs, c, 28), if c > start { rng(bs, start, c) } else { 0 });
    lem_rng_small_at(bs, c, nr + 1, 28);
    assert(0 * v == 0);
}

pub proof fn lem_lng_window(bs: Seq<i32>, ws: Seq<i32>, b: int, qp: int, vs: Seq<i32>, v: int, nr: int)
    requires
        lng_inv(bs, ws, b + 1, qp, v, nr), 0 <= b, b + nr + 2 <= bs.len(), nr >= 1,
        uok(vs, 0, nr + 1), rng(vs, 0, nr + 1) == v, vs[nr] >= 1,
    ensures
        qh_ctx(ws, b, vs, nr, rng(ws, b, b + nr + 2), v, ws[b + nr + 1] as int, ws[b + nr] as int, ws[b + nr - 1] as int, vs[nr] as int, vs[nr - 1] as int),
        rng(ws, b, bs.len() as int) == rng(ws, b, b + nr + 2),
        bs[b] == ws[b],
{
    let x = rng(ws, b, b + nr + 2);
    lem_rng_top(ws, b, b + nr + 2, bs.len() as int);
    lem_rng_low(ws, b, bs.len() as int);
    lem_rng_bound(ws, b, b + nr + 2);
    lem_qh_ctx(ws, b, vs, nr, x, v);
}

pub proof fn lem_lng_end(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int, n: int, g: int, top: int, incr: int,
    start: int, nf: int, bs: Seq<i32>, vs: Seq<i32>, ws: Seq<i32>, c: int, q: int)
    requires
        lng_ctx(l, r, nl, nr, shift, n, g, top, incr, start, nf, bs, vs, nf * mag(r)),
        top >= 0,
        c == start + nl + shift + 1 - nr - (top + 1),
        lng_inv(bs, ws, c, q, nf * mag(r), nr),
    ensures q == div_quo(l, r, g),
{
    lem_lead(l, nl);
    lem_lead(r, nr);
    lem_pw_pos(nr);
    lem_pw_pos(nl);
    let (a, k) = (g + fu(r), fu(l));
    assert(c - start == k - a);
    lem_bs_shift(bs, start, c, 28, nf * mag(l));
    lem_rng_bound(ws, c, 28);
    assert(nf * mag(l) >= 0) by (nonlinear_arith) requires nf >= 1, mag(l) >= 0;
    lem_quot(nf * mag(l), nf * mag(r), rng(bs, c, 28), if c > start { rng(bs, start, c) } else { 0 }, a, k, q, rng(ws, c, 28));
    lem_cancel(nf, mag(l), mag(r), a, k);
}

pub proof fn lem_div_nothing(l: FixedDecimal, r: FixedDecimal, nr: int)
    requires mag(l) == 0, lead(r, nr),
    ensures mag(r) > 0, !div_ovf(l, r), forall|g: int| div_quo(l, r, g) == 0,
{
    lem_lead(r, nr);
    lem_pw_pos(nr);
    lem_pw_pos(fu(l));
    lem_pw_pos(9);
    let d = mag(r) * pw(fu(l));
    assert(d >= 1) by (nonlinear_arith) requires mag(r) >= 1, pw(fu(l)) >= 1, d == mag(r) * pw(fu(l));
    assert(d * pw(9) >= 1) by (nonlinear_arith) requires d >= 1, pw(9) >= 1;
    assert(0 * pw(fu(r)) == 0);
    assert forall|g: int| div_quo(l, r, g) == 0 by {
        assert(0 * pw(g + fu(r)) == 0);
        lem_div_unique(0, d, 0, 0);
    }
}

/// short division starts below the divisor
pub proof fn lem_short_first(l: FixedDecimal, r: FixedDecimal, nl: int, nr: int, shift: int, n: int, g: int, top: int, incr: int)
    requires dv_ctx(l, r, nl, nr, shift, n, g, top, incr), nr == 0,
    ensures
        mag(r) == r.lsu@[0],
        shift == -1 ==> l.lsu@[nl] < r.lsu@[0],
        pre(l.lsu@, nl + 1, -shift) == if shift == -1 { l.lsu@[nl] as int } else { 0 },
{
    lem_pw_small();
    lem_lead(l, nl);
    lem_lead(r, nr);
    lem_pw_pos(nl);
    reveal_with_fuel(rng, 2);
    let (u, d, p) = (l.lsu@[nl] as int, r.lsu@[0] as int, pw(nl));
    assert(d * 1 == d);
    if shift == -1 {
        assert(pw(nl + 1) == 1_000_000_000 * p);
        assert(u < d) by (nonlinear_arith) requires u * p <= mag(l), mag(l) * 1_000_000_000 < d * (1_000_000_000 * p), p >= 1;
        assert(u * 1 == u);
    }
}

/// nothing is gained by asking for more than 54 further digits
pub proof fn lem_incr(l: FixedDecimal, r: FixedDecimal, incr: int)
    requires wf(l), wf(r), incr >= 0,
    ensures div_g0(l, r, incr) == div_g0(l, r, min2(incr, 54)), div_g(l, r, incr) == div_g(l, r, min2(incr, 54)),
{
}

pub proof fn lem_no_dividend(l: FixedDecimal, r: FixedDecimal)
    requires wf(l), wf(r), mag(l) == 0, mag(r) != 0,
    ensures forall|g: int| div_quo(l, r, g) == 0,
{
    lem_rng_bound(r.lsu@, 0, 9);
    lem_pw_pos(fu(l));
    let d = mag(r) * pw(fu(l));
    assert(d >= 1) by (nonlinear_arith) requires mag(r) >= 1, pw(fu(l)) >= 1, d == mag(r) * pw(fu(l));
    assert forall|g: int| div_quo(l, r, g) == 0 by {
        assert(0 * pw(g + fu(r)) == 0);
        lem_div_unique(0, d, 0, 0);
    }
}
