//@needs arith_spec
// Contract of multiplication.

/// what the product of one pair of units contributes at unit k
pub open spec fn term(x: int, y: int, k: int) -> int {
    if k >= 0 { x * y * pw(k) } else if k == -1 { (x * y) / 1_000_000_000 } else { 0 }
}

/// what the units below i of l, times y, contribute
pub open spec fn prow(l: Seq<i32>, y: int, j: int, s: int, i: int) -> int decreases i {
    if i <= 0 { 0 } else { prow(l, y, j, s, i - 1) + term(l[i - 1] as int, y, i - 1 + j - s) }
}

/// what l (n units) times the units below j of r contribute
pub open spec fn ptot(l: Seq<i32>, r: Seq<i32>, n: int, s: int, j: int) -> int decreases j {
    if j <= 0 { 0 } else { ptot(l, r, n, s, j - 1) + prow(l, r[j - 1] as int, j - 1, s, n) }
}

/// scale of a product of non-zero decimals
pub open spec fn mul_scale(l: FixedDecimal, r: FixedDecimal) -> int {
    min2(l.frac + r.frac, 9 * min2(4, 9 - un(dg(l) + dg(r))))
}

/// fractional groups dropped
pub open spec fn mul_cut(l: FixedDecimal, r: FixedDecimal) -> int {
    fu(l) + fu(r) - un(mul_scale(l, r))
}

pub open spec fn mul_abs_post(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal, res: Result<()>) -> bool {
    match res {
        Ok(_) => {
            let s = mul_cut(l, r);
            &&& dg(l) + dg(r) <= 81
            &&& wf(d)
            &&& !neg(d)
            &&& dg(d) == 9 * un(dg(l) + dg(r))
            &&& d.frac == mul_scale(l, r)
            &&& s >= 0
            &&& mag(d) == ptot(l.lsu@, r.lsu@, iu(l) + fu(l), s, iu(r) + fu(r))
            &&& mag(d) * pw(s) <= mag(l) * mag(r) < (mag(d) + 16) * pw(s)
            &&& d.frac == l.frac + r.frac ==> mag(d) * pw(s) == mag(l) * mag(r)
        },
        Err(e) => e is Overflow && is_zero_dec(d) && dg(l) + dg(r) > 81,
    }
}

/// C04
pub open spec fn mul_post(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal, res: Result<()>) -> bool {
    match res {
        Ok(_) => {
            &&& wf(d)
            &&& mag(l) == 0 || mag(r) == 0 ==> is_zero_dec(d)
            &&& mag(l) != 0 && mag(r) != 0 ==> {
                let s = mul_cut(l, r);
                &&& dg(l) + dg(r) <= 81
                &&& dg(d) == 9 * un(dg(l) + dg(r))
                &&& d.frac == mul_scale(l, r)
                &&& s >= 0
                &&& mag(d) == ptot(l.lsu@, r.lsu@, iu(l) + fu(l), s, iu(r) + fu(r))
                &&& mag(d) * pw(s) <= mag(l) * mag(r) < (mag(d) + 16) * pw(s)
                &&& d.frac == l.frac + r.frac ==> mag(d) * pw(s) == mag(l) * mag(r)
                &&& neg(d) == (neg(l) != neg(r) && mag(d) != 0)
            }
        },
        Err(e) => e is Overflow && is_zero_dec(d) && wf(d) && mag(l) != 0 && mag(r) != 0 && dg(l) + dg(r) > 81,
    }
}

pub proof fn lem_row(l: Seq<i32>, y: int, j: int, s: int, i: int)
    requires uok(l, 0, i), 0 <= y < 1_000_000_000, j >= 0, s >= 0, i >= 0,
    ensures
        ({
            let e = rng(l, 0, i) * y * pw(j);
            let q = pw(s) * prow(l, y, j, s, i);
            &&& q <= e
            &&& prow(l, y, j, s, i) >= 0
            &&& j >= s ==> q == e
            &&& i + j < s ==> prow(l, y, j, s, i) == 0 && e < pw(i + j + 1) && (i == 0 ==> e == 0)
            &&& e - q < 2 * pw(s)
            &&& j >= s - 1 ==> e - q < pw(s)
        }),
    decreases i,
{
    lem_pw_pos(s);
    if i == 0 {
        lem_pw_pos(j + 1);
        assert(0 * y * pw(j) == 0) by (nonlinear_arith);
        assert(pw(s) * 0 == 0);
    } else {
        lem_row(l, y, j, s, i - 1);
        let k = i - 1 + j - s;
        let x = l[i - 1] as int;
        let e0 = rng(l, 0, i - 1) * y * pw(j);
        let q0 = pw(s) * prow(l, y, j, s, i - 1);
        let e = rng(l, 0, i) * y * pw(j);
        let q = pw(s) * prow(l, y, j, s, i);
        lem_pw_add(i - 1, j);
        let (r0, pi, pj) = (rng(l, 0, i - 1), pw(i - 1), pw(j));
        assert((r0 + x * pi) * y * pj == r0 * y * pj + (x * y) * (pi * pj)) by (nonlinear_arith);
        assert(e == e0 + (x * y) * pw(i - 1 + j));
        assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0;
        let t = term(x, y, k);
        let (ps, p0) = (pw(s), prow(l, y, j, s, i - 1));
        assert(ps * (p0 + t) == ps * p0 + ps * t) by (nonlinear_arith);
        assert(q == q0 + ps * t);
        if k < -1 {
            assert(ps * 0 == 0);
            lem_rng_bound(l, 0, i);
            lem_pw_add(i, j);
            lem_pw_add(i + j, 1);
            lem_pw_small();
            lem_pw_pos(j);
            lem_pw_pos(i);
            let (ri, pii) = (rng(l, 0, i), pw(i));
            assert(ri * y * pj < pii * pj * 1_000_000_000) by (nonlinear_arith)
                requires 0 <= ri < pii, 0 <= y < 1_000_000_000, pj >= 1;
            assert(ri * y * pj >= 0) by (nonlinear_arith) requires 0 <= ri, 0 <= y, pj >= 1;
            lem_pw_mono(i + j + 1, s);
        } else if k == -1 {
            let z = x * y;
            let p1 = pw(s - 1);
            lem_pw_pos(s - 1);
            assert(ps == 1_000_000_000 * p1);
            let m = z - 1_000_000_000 * t;
            assert(0 <= m < 1_000_000_000);
            assert(z * p1 - ps * t == m * p1) by (nonlinear_arith) requires ps == 1_000_000_000 * p1, m == z - 1_000_000_000 * t;
            assert(0 <= m * p1 < ps) by (nonlinear_arith) requires ps == 1_000_000_000 * p1, 0 <= m < 1_000_000_000, p1 >= 1;
            assert(pw(i - 1 + j + 1) == ps);
            assert(e - q == e0 - q0 + m * p1);
            assert(q0 == 0) by (nonlinear_arith) requires q0 == ps * p0, p0 == 0;
        } else {
            lem_pw_add(s, k);
            let pk = pw(k);
            let z = x * y;
            assert(ps * (z * pk) == z * (ps * pk)) by (nonlinear_arith);
            lem_pw_pos(k);
            assert(z * pk >= 0) by (nonlinear_arith) requires z >= 0, pk >= 1;
        }
    }
}

pub proof fn lem_tot(l: Seq<i32>, r: Seq<i32>, n: int, s: int, j: int)
    requires uok(l, 0, n), uok(r, 0, j), n >= 0, s >= 0, j >= 0,
    ensures
        ({
            let e = rng(l, 0, n) * rng(r, 0, j);
            let q = pw(s) * ptot(l, r, n, s, j);
            &&& q <= e
            &&& ptot(l, r, n, s, j) >= 0
            &&& e - q <= 2 * min2(j, s) * pw(s)
            &&& s > 0 && j > 0 ==> e - q < 2 * min2(j, s) * pw(s)
            &&& s == 1 ==> e - q < pw(s)
        }),
    decreases j,
{
    lem_pw_pos(s);
    if j == 0 {
        assert(rng(l, 0, n) * 0 == 0);
        assert(pw(s) * 0 == 0);
        assert(2 * 0 * pw(s) == 0) by (nonlinear_arith);
    } else {
        lem_tot(l, r, n, s, j - 1);
        let y = r[j - 1] as int;
        lem_row(l, y, j - 1, s, n);
        let (a, b, p, ps) = (rng(l, 0, n), rng(r, 0, j - 1), pw(j - 1), pw(s));
        assert(a * (b + y * p) == a * b + a * y * p) by (nonlinear_arith);
        let (t0, pr) = (ptot(l, r, n, s, j - 1), prow(l, y, j - 1, s, n));
        assert(ps * (t0 + pr) == ps * t0 + ps * pr) by (nonlinear_arith);
        let m = min2(j - 1, s);
        if j - 1 < s {
            assert(2 * (m + 1) * ps == 2 * m * ps + 2 * ps) by (nonlinear_arith);
        }
    }
}

/// where the product of l and r (both not zero) is kept
pub open spec fn mul_ctx(l: FixedDecimal, r: FixedDecimal, s: int, ln: int, rn: int) -> bool {
    &&& wf(l) && wf(r)
    &&& ln == iu(l) + fu(l) && rn == iu(r) + fu(r)
    &&& 1 <= ln <= 9 && 0 <= rn <= 9
    &&& 0 <= s <= 8
    &&& ln >= s
    &&& ln + rn - s <= 10
    &&& s == mul_cut(l, r)
    &&& mag(l) == rng(l.lsu@, 0, ln)
    &&& mag(r) == rng(r.lsu@, 0, rn)
    &&& mag(l) * mag(r) < pw(9 + s)
}

pub proof fn lem_mul_bound(l: FixedDecimal, r: FixedDecimal)
    requires wf(l), wf(r), mag(l) != 0, dg(l) + dg(r) <= 81,
    ensures
        mag(l) * mag(r) < p10(dg(l) + dg(r)) * pw(fu(l) + fu(r)),
        mul_ctx(l, r, mul_cut(l, r), iu(l) + fu(l), iu(r) + fu(r)),
        mul_cut(l, r) + un(dg(l) + dg(r)) + un(mul_scale(l, r)) <= 9 + mul_cut(l, r),
        mag(l) * mag(r) < pw(un(dg(l) + dg(r)) + fu(l) + fu(r)),
{
    let g = dg(l) + dg(r);
    let s = mul_cut(l, r);
    lem_rng_top(l.lsu@, 0, iu(l) + fu(l), 9);
    lem_rng_top(r.lsu@, 0, iu(r) + fu(r), 9);
    lem_rng_bound(l.lsu@, 0, 9);
    lem_rng_bound(r.lsu@, 0, 9);
    lem_p10_add(dg(l), dg(r));
    lem_pw_add(fu(l), fu(r));
    let (a, b, pa, pb, fa, fb) = (mag(l), mag(r), p10(dg(l)), p10(dg(r)), pw(fu(l)), pw(fu(r)));
    assert(a * b < (pa * pb) * (fa * fb)) by (nonlinear_arith)
        requires 0 <= a < pa * fa, 0 <= b < pb * fb;
    lem_p10_mono(g, 9 * un(g));
    lem_p10_pw(un(g));
    lem_pw_add(un(g), fu(l) + fu(r));
    lem_pw_pos(fu(l) + fu(r));
    let (x, y, z) = (p10(g), pw(un(g)), pw(fu(l) + fu(r)));
    assert(x * z <= y * z) by (nonlinear_arith) requires x <= y, z >= 1;
    assert(un(g) + fu(l) + fu(r) <= 9 + s);
    lem_pw_mono(un(g) + fu(l) + fu(r), 9 + s);
}

/// totals stay below the capacity
pub proof fn lem_mul_fit(l: FixedDecimal, r: FixedDecimal, s: int, ln: int, rn: int, j: int)
    requires mul_ctx(l, r, s, ln, rn), 0 <= j <= rn,
    ensures 0 <= ptot(l.lsu@, r.lsu@, ln, s, j) < pw(9),
{
    lem_tot(l.lsu@, r.lsu@, ln, s, j);
    lem_rng_split(r.lsu@, 0, j, rn);
    lem_rng_bound(r.lsu@, j, rn);
    lem_rng_bound(l.lsu@, 0, ln);
    lem_pw_pos(j);
    let (a, b, c, p) = (rng(l.lsu@, 0, ln), rng(r.lsu@, 0, j), rng(r.lsu@, j, rn), pw(j));
    assert(p * c >= 0) by (nonlinear_arith) requires p >= 1, c >= 0;
    let d = b + p * c;
    assert(a * b <= a * d) by (nonlinear_arith) requires a >= 0, b <= d;
    lem_pw_add(s, 9);
    lem_pw_pos(s);
    let (t, ps, n) = (ptot(l.lsu@, r.lsu@, ln, s, j), pw(s), pw(9));
    assert(t < n) by (nonlinear_arith) requires ps * t < ps * n, ps >= 1;
}

/// one pair of units; k is the unit it lands on
pub proof fn lem_mul_step(os: Seq<i32>, ns: Seq<i32>, k: int, x: int, y: int, c: int, c2: int)
    requires
        0 <= k < 9, forall|i: int| 0 <= i < 9 && i != k ==> #[trigger] os[i] == ns[i],
        x * y + os[k] + c == ns[k] + c2 * 1_000_000_000,
    ensures
        rng(ns, 0, 9) + c2 * pw(k + 1) == rng(os, 0, 9) + c * pw(k) + x * y * pw(k),
{
    lem_rng_set(os, ns, 0, 9, k);
    let (o, n, p) = (os[k] as int, ns[k] as int, pw(k));
    let z = x * y;
    assert((n - o) * p + c2 * (1_000_000_000 * p) == c * p + z * p) by (nonlinear_arith)
        requires z + o + c == n + c2 * 1_000_000_000;
}

/// the dropped groups of a product whose whole fraction fits are zero
pub proof fn lem_mul_exact(l: FixedDecimal, r: FixedDecimal, s: int, f: int, t: int)
    requires
        wf(l), wf(r), f == l.frac + r.frac, s == fu(l) + fu(r) - un(f),
        pw(s) * t <= mag(l) * mag(r),
        s == 0 ==> mag(l) * mag(r) == pw(s) * t,
        s == 1 ==> mag(l) * mag(r) - pw(s) * t < pw(s),
    ensures mag(l) * mag(r) == t * pw(s), t % p10(9 * un(f) - f) == 0,
{
    let e = mag(l) * mag(r);
    let ps = pw(s);
    let (dl, dr) = (9 * fu(l) - l.frac, 9 * fu(r) - r.frac);
    lem_p10_pos(dl);
    lem_p10_pos(dr);
    lem_mod_zero(mag(l), p10(dl));
    lem_mod_zero(mag(r), p10(dr));
    let (a, b) = (mag(l) / p10(dl), mag(r) / p10(dr));
    lem_p10_add(dl, dr);
    let (x, y) = (p10(dl), p10(dr));
    let (ml, mr) = (mag(l), mag(r));
    assert(ml * mr == (a * b) * (x * y)) by (nonlinear_arith) requires ml == a * x, mr == b * y;
    assert(s == 0 || s == 1);
    let k = 9 * un(f) - f;
    assert(dl + dr == 9 * s + k);
    lem_p10_add(9 * s, k);
    lem_p10_pw(s);
    lem_p10_pos(k);
    lem_pw_pos(s);
    let (ab, pk) = (a * b, p10(k));
    let c = ab * pk;
    assert(e == c * ps) by (nonlinear_arith) requires e == ab * (ps * pk), c == ab * pk;
    assert(c == t) by (nonlinear_arith) requires e == c * ps, e - ps * t < ps, ps * t <= e, ps >= 1;
    assert(c * ps == t * ps);
    lem_mul_mod(ab, pk);
}

pub proof fn lem_mul_end(l: FixedDecimal, r: FixedDecimal, d: FixedDecimal)
    requires
        wf(l), wf(r), mag(l) != 0, dg(l) + dg(r) <= 81,
        uok(d.lsu@, 0, 9),
        mag(d) == ptot(l.lsu@, r.lsu@, iu(l) + fu(l), mul_cut(l, r), iu(r) + fu(r)),
        d.frac == mul_scale(l, r),
        d.intg == 9 * un(dg(l) + dg(r)),
    ensures mul_abs_post(l, r, d, Ok(())),
{
    let s = mul_cut(l, r);
    let (ln, rn) = (iu(l) + fu(l), iu(r) + fu(r));
    lem_mul_bound(l, r);
    lem_tot(l.lsu@, r.lsu@, ln, s, rn);
    let g = dg(l) + dg(r);
    let n = un(g) + fu(d);
    lem_pw_add(s, n);
    lem_pw_pos(s);
    let (t, ps, pn) = (mag(d), pw(s), pw(n));
    assert(s + n == un(g) + fu(l) + fu(r));
    let e = mag(l) * mag(r);
    assert(t < pn) by (nonlinear_arith) requires ps * t <= e, e < ps * pn, ps >= 1;
    lem_rng_small(d.lsu@, n, 9);
    lem_p10_pw(un(g));
    lem_pw_add(un(g), fu(d));
    lem_p10_small();
    assert(ps * t == t * ps) by (nonlinear_arith);
    let m = min2(rn, s);
    assert(2 * m * ps <= 16 * ps) by (nonlinear_arith) requires 0 <= m <= 8, ps >= 1;
    assert(m == 0 ==> 2 * m * ps == 0) by (nonlinear_arith);
    assert((t + 16) * ps == ps * t + 16 * ps) by (nonlinear_arith);
    assert(e - ps * t < 16 * ps);
    lem_rng_bound(d.lsu@, 0, 9);
    if d.frac == l.frac + r.frac {
        if s == 0 { assert(2 * m * ps == 0); }
        lem_mul_exact(l, r, s, d.frac as int, t);
    } else {
        assert(9 * fu(d) - d.frac == 0);
    }
}
