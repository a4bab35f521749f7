// Contracts of comparison and hashing.
//@needs arith_spec

pub open spec fn ord_of(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}

/// value of the lowest n units, in units of base^-f, of a number with fu fractional units
pub open spec fn low(s: Seq<i32>, n: int, o: int) -> int { rng(s, 0, n) * pw(o) }

pub proof fn lem_low_step(s: Seq<i32>, n: int, o: int)
    requires n >= 1, o >= 0,
    ensures low(s, n, o) == low(s, n - 1, o) + s[n - 1] * pw(n - 1 + o),
{
    lem_pw_add(n - 1, o);
    let (a, c, p, q) = (rng(s, 0, n - 1), s[n - 1] as int, pw(n - 1), pw(o));
    assert((a + c * p) * q == a * q + c * (p * q)) by (nonlinear_arith);
}

pub proof fn lem_low_bound(s: Seq<i32>, n: int, o: int)
    requires uok(s, 0, n), n >= 0, o >= 0,
    ensures 0 <= low(s, n, o) < pw(n + o),
{
    lem_rng_bound(s, 0, n);
    lem_pw_add(n, o);
    lem_pw_pos(o);
    let (a, p, q) = (rng(s, 0, n), pw(n), pw(o));
    assert(0 <= a * q < p * q) by (nonlinear_arith) requires 0 <= a < p, q >= 1;
}

pub proof fn lem_low_pos(s: Seq<i32>, n: int, o: int)
    requires uok(s, 0, n), n >= 1, o >= 0, s[n - 1] > 0,
    ensures low(s, n, o) >= pw(n - 1 + o),
{
    lem_low_step(s, n, o);
    lem_low_bound(s, n - 1, o);
    let (c, p) = (s[n - 1] as int, pw(n - 1 + o));
    lem_pw_pos(n - 1 + o);
    assert(c * p >= p) by (nonlinear_arith) requires c >= 1, p >= 1;
}

/// the units at the same position decide
pub proof fn lem_low_cmp(a: int, b: int, x: int, y: int, p: int)
    requires 0 <= a < p, 0 <= b < p,
    ensures
        x > y ==> a + x * p > b + y * p,
        x < y ==> a + x * p < b + y * p,
        x == y ==> (a + x * p) - (b + y * p) == a - b,
{
    if x > y { assert(x * p >= y * p + p) by (nonlinear_arith) requires x >= y + 1, p >= 0; }
    if x < y { assert(y * p >= x * p + p) by (nonlinear_arith) requires y >= x + 1, p >= 0; }
}

pub open spec fn cmp_ctx(l: Seq<i32>, r: Seq<i32>, ol: int, or: int, lfu: int, rfu: int) -> bool {
    &&& 0 <= ol <= 4 && 0 <= or <= 4
    &&& 0 <= lfu <= 4 && 0 <= rfu <= 4
    &&& ol + lfu == or + rfu
}

/// numeric comparison
pub open spec fn cmp_val(l: FixedDecimal, r: FixedDecimal) -> Ordering { ord_of(val(l), val(r)) }

pub proof fn lem_cmp(l: FixedDecimal, r: FixedDecimal)
    requires wf(l), wf(r),
    ensures
        (val(l) < val(r)) == (vals(l, cf(l, r)) < vals(r, cf(l, r))),
        (val(l) == val(r)) == (vals(l, cf(l, r)) == vals(r, cf(l, r))),
        neg(l) ==> val(l) < 0 && vals(l, cf(l, r)) < 0,
        !neg(l) ==> val(l) >= 0 && vals(l, cf(l, r)) >= 0,
        neg(r) ==> val(r) < 0 && vals(r, cf(l, r)) < 0,
        !neg(r) ==> val(r) >= 0 && vals(r, cf(l, r)) >= 0,
        mags(l, cf(l, r)) == low(l.lsu@, iu(l) + fu(l), cf(l, r) - fu(l)),
        mags(r, cf(l, r)) == low(r.lsu@, iu(r) + fu(r), cf(l, r) - fu(r)),
{
    let f = cf(l, r);
    lem_val(l, f);
    lem_val(r, f);
    lem_mag_zero(l);
    lem_mag_zero(r);
    lem_pw_pos(4 - f);
    let (x, y, p) = (vals(l, f), vals(r, f), pw(4 - f));
    assert((x * p < y * p) == (x < y) && (x * p == y * p) == (x == y)) by (nonlinear_arith) requires p >= 1;
    assert((x * p < 0) == (x < 0) && (y * p < 0) == (y < 0)) by (nonlinear_arith) requires p >= 1;
    lem_rng_top(l.lsu@, 0, iu(l) + fu(l), 9);
    lem_rng_top(r.lsu@, 0, iu(r) + fu(r), 9);
}

/// C07: the comparison is a total order that agrees with the numeric one
pub proof fn thm_total_order(a: FixedDecimal, b: FixedDecimal, c: FixedDecimal)
    ensures
        (cmp_val(a, b) == Ordering::Equal) == (val(a) == val(b)),
        (cmp_val(a, b) == Ordering::Less) == (cmp_val(b, a) == Ordering::Greater),
        cmp_val(a, b) != Ordering::Greater && cmp_val(b, c) != Ordering::Greater ==> cmp_val(a, c) != Ordering::Greater,
        cmp_val(a, a) == Ordering::Equal,
{}
