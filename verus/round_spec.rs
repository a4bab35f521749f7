//@needs arith_spec
// Contract of rounding.

/// nearest multiple of t, halves away from zero (v not negative)
pub open spec fn rnd(v: int, t: int) -> int { (2 * v + t) / (2 * t) * t }

/// |value| * 10^36
pub open spec fn absval(d: FixedDecimal) -> int { mag(d) * pw(4 - fu(d)) }

/// |value| * 10^36 after rounding to n digits
pub open spec fn rndv(a: int, n: int) -> int { if n >= 36 { a } else { rnd(a, p10(36 - n)) } }

/// the rounded magnitude fits 81 integral digits
pub open spec fn round_ok(s: FixedDecimal, n: int) -> bool { rndv(absval(s), n) < p10(117) }

pub open spec fn round_scale(s: FixedDecimal, n: int) -> int {
    if n >= s.frac { min2(n, 9 * min2(4, 9 - iu(s))) }
    else if n < 0 { 0 }
    else if iu(s) + un(n) == 9 && rndv(absval(s), n) >= p10(9 * iu(s) + 36) { 9 * (un(n) - 1) }
    else { n }
}

/// C12
pub open spec fn round_post(s: FixedDecimal, n: int, d: FixedDecimal) -> bool {
    &&& wf(d)
    &&& absval(d) == rndv(absval(s), n)
    &&& neg(d) == (neg(s) && mag(d) != 0)
    &&& d.frac == round_scale(s, n)
}

/// 1 if the dropped part rounds up
pub open spec fn rhu_c(m: int, t: int, c: int) -> int {
    if t % 9 == 0 { c } else if 2 * (m % p10(t)) >= p10(t) { 1 } else { 0 }
}

pub open spec fn rhu_r(m: int, t: int, c: int) -> int { (m / p10(t) + rhu_c(m, t, c)) * p10(t) }

pub open spec fn rhu_pre(x: FixedDecimal, iu: int, fu: int, t: int, rf: int, c: int) -> bool {
    &&& 0 <= iu && 0 <= fu <= 4 && iu + fu <= 9
    &&& 0 <= t <= 9 * (iu + fu)
    &&& fu > 0 ==> t < 9
    &&& 0 <= rf <= 36
    &&& 0 <= c <= 1
    &&& t % 9 != 0 ==> c == 0
    &&& uok(x.lsu@, 0, 9) && zeros(x.lsu@, iu + fu, 9)
    &&& rhu_r(mag(x), t, c) < pw(9) || fu > 0
}

pub open spec fn rhu_post(x: FixedDecimal, iu: int, fu: int, t: int, rf: int, c: int, d: FixedDecimal) -> bool {
    let r = rhu_r(mag(x), t, c);
    &&& uok(d.lsu@, 0, 9)
    &&& r <= pw(iu + fu)
    &&& neg(d) == (neg(x) && mag(d) != 0)
    &&& if r < pw(9) {
        &&& mag(d) == r
        &&& dg(d) == 9 * (if r >= pw(iu + fu) { iu + 1 } else { iu })
        &&& d.frac == rf
    } else {
        &&& r == pw(9) && iu + fu == 9 && fu > 0
        &&& mag(d) == pw(8)
        &&& dg(d) == 9 * (iu + 1)
        &&& d.frac == min2(rf, 9 * (fu - 1))
    }
}

// ---------------------------------------------------------------- arithmetic of rounding

/// v = q t + m
pub proof fn lem_div_unique(v: int, t: int, q: int, m: int)
    requires t > 0, v == q * t + m, 0 <= m < t,
    ensures v / t == q, v % t == m,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v, t, q, m);
}

pub proof fn lem_rnd(v: int, t: int)
    requires v >= 0, t > 0,
    ensures rnd(v, t) == (v / t + if 2 * (v % t) >= t { 1int } else { 0 }) * t,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, t);
    let (q, m) = (v / t, v % t);
    assert(t * q == q * t) by (nonlinear_arith);
    if 2 * m >= t {
        assert(2 * v + t == (q + 1) * (2 * t) + (2 * m - t)) by (nonlinear_arith) requires v == q * t + m;
        lem_div_unique(2 * v + t, 2 * t, q + 1, 2 * m - t);
    } else {
        assert(2 * v + t == q * (2 * t) + (2 * m + t)) by (nonlinear_arith) requires v == q * t + m;
        lem_div_unique(2 * v + t, 2 * t, q, 2 * m + t);
    }
}

pub proof fn lem_rnd_scale(v: int, t: int, p: int)
    requires v >= 0, t > 0, p > 0,
    ensures rnd(v * p, t * p) == rnd(v, t) * p,
{
    let x = 2 * v + t;
    let (q, m) = (x / (2 * t), x % (2 * t));
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, 2 * t);
    assert(2 * (v * p) + t * p == q * (2 * (t * p)) + m * p) by (nonlinear_arith) requires x == (2 * t) * q + m, x == 2 * v + t;
    assert(0 <= m * p < 2 * (t * p)) by (nonlinear_arith) requires 0 <= m < 2 * t, p > 0;
    assert(t * p > 0) by (nonlinear_arith) requires t > 0, p > 0;
    lem_div_unique(2 * (v * p) + t * p, 2 * (t * p), q, m * p);
    assert(q * (t * p) == q * t * p) by (nonlinear_arith);
}

/// a multiple of t stays
pub proof fn lem_rnd_id(v: int, t: int)
    requires v >= 0, t > 0, v % t == 0,
    ensures rnd(v, t) == v,
{
    lem_rnd(v, t);
    lem_mod_zero(v, t);
}

pub proof fn lem_p10_even(t: int)
    requires t >= 1,
    ensures p10(t) % 2 == 0, p10(t) >= 10,
{
    lem_p10_pos(t - 1);
    assert((10 * p10(t - 1)) % 2 == 0);
}

/// dropping k whole groups, then t digits
pub proof fn lem_rnd_drop(m0: int, lo: int, m: int, p: int, t: int, c: int)
    requires
        m0 == lo + p * m, 0 <= lo < p, m >= 0, t >= 0,
        t > 0 ==> c == (if 2 * (m % p10(t)) >= p10(t) { 1int } else { 0 }),
        t == 0 ==> c == (if 2 * lo >= p { 1int } else { 0 }),
    ensures rnd(m0, p * p10(t)) == (m / p10(t) + c) * p10(t) * p,
{
    let w = p10(t);
    lem_p10_pos(t);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, w);
    let (q, x) = (m / w, m % w);
    assert(p * w >= p) by (nonlinear_arith) requires p >= 1, w >= 1;
    assert(m0 == q * (p * w) + (lo + p * x)) by (nonlinear_arith) requires m0 == lo + p * m, m == w * q + x;
    assert(0 <= lo + p * x < p * w) by (nonlinear_arith) requires 0 <= lo < p, 0 <= x, x + 1 <= w;
    lem_div_unique(m0, p * w, q, lo + p * x);
    lem_rnd(m0, p * w);
    if t > 0 {
        lem_p10_even(t);
        if 2 * x >= w {
            assert(2 * (lo + p * x) >= p * w) by (nonlinear_arith) requires 2 * x >= w, lo >= 0, p >= 1;
        } else {
            assert(2 * x + 2 <= w);
            assert(2 * (lo + p * x) < p * w) by (nonlinear_arith) requires 2 * x + 2 <= w, lo < p, p >= 1;
        }
    } else {
        assert(p10(0) == 1);
        assert(x == 0);
        assert(p * 0 == 0 && p * 1 == p);
    }
    assert((q + c) * (p * w) == (q + c) * w * p) by (nonlinear_arith);
}

/// the top unit decides whether a run of units is at least half
pub proof fn lem_half(s: Seq<i32>, lo: int, hi: int)
    requires lo < hi, uok(s, lo, hi),
    ensures (2 * rng(s, lo, hi) >= pw(hi - lo)) == (s[hi - 1] >= 500_000_000),
{
    lem_rng_bound(s, lo, hi - 1);
    let (a, b, p) = (rng(s, lo, hi - 1), s[hi - 1] as int, pw(hi - 1 - lo));
    assert(pw(hi - lo) == 1_000_000_000 * p);
    if b >= 500_000_000 {
        assert(2 * (a + b * p) >= 1_000_000_000 * p) by (nonlinear_arith) requires b >= 500_000_000, a >= 0, p > 0;
    } else {
        assert(2 * (a + b * p) < 1_000_000_000 * p) by (nonlinear_arith) requires b + 1 <= 500_000_000, 0 <= a < p;
    }
}

/// rounding at digit t of units: split at unit q = t / 9
pub proof fn lem_rhu(s: Seq<i32>, t: int, c: int, h2: int)
    requires
        uok(s, 0, 9), 0 <= t <= 81,
        ({
            let (q, pos) = (t / 9, t % 9);
            let h = rng(s, q, 9);
            let pp = p10(pos);
            h2 == (h / pp + if pos == 0 { c } else if 2 * (h % pp) >= pp { 1int } else { 0 }) * pp
        }),
    ensures rhu_r(rng(s, 0, 9), t, c) == h2 * pw(t / 9),
{
    let (q, pos) = (t / 9, t % 9);
    let h = rng(s, q, 9);
    let pp = p10(pos);
    let lo = rng(s, 0, q);
    let p = pw(q);
    lem_rng_split(s, 0, q, 9);
    lem_rng_bound(s, 0, q);
    lem_rng_bound(s, q, 9);
    lem_p10_pos(pos);
    lem_p10_pw(q);
    lem_p10_add(9 * q, pos);
    let m = rng(s, 0, 9);
    let (a, x) = (h / pp, h % pp);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(h, pp);
    assert(m == a * (p * pp) + (lo + p * x)) by (nonlinear_arith) requires m == lo + p * h, h == pp * a + x;
    assert(0 <= lo + p * x < p * pp) by (nonlinear_arith) requires 0 <= lo < p, 0 <= x, x + 1 <= pp;
    lem_div_unique(m, p * pp, a, lo + p * x);
    assert(p10(t) == p * pp);
    if pos > 0 {
        lem_p10_even(pos);
        if 2 * x >= pp {
            assert(2 * (lo + p * x) >= p * pp) by (nonlinear_arith) requires 2 * x >= pp, lo >= 0, p >= 1;
        } else {
            assert(2 * (lo + p * x) < p * pp) by (nonlinear_arith) requires 2 * x + 2 <= pp, lo < p, p >= 1;
        }
    }
    let e = rhu_c(m, t, c);
    assert((a + e) * (p * pp) == (a + e) * pp * p) by (nonlinear_arith);
}

/// rounding the lowest unit u of h at digit pos
pub proof fn lem_unit_round(h: int, u: int, hh: int, pos: int)
    requires 0 < pos < 9, h == u + 1_000_000_000 * hh, 0 <= u < 1_000_000_000, hh >= 0,
    ensures
        ({
            let pp = p10(pos);
            let r = u % pp;
            let c = if 2 * r >= pp { 1int } else { 0 };
            &&& h % pp == r
            &&& (h / pp + c) * pp == h - r + c * pp
            &&& 0 <= u - r && u - r + c * pp <= 1_000_000_000
            &&& pp >= 10
        }),
{
    lem_p10_small();
    lem_p10_add(pos, 9 - pos);
    let pp = p10(pos);
    let w = p10(9 - pos);
    lem_p10_pos(9 - pos);
    let r = u % pp;
    let (a, c) = (u / pp, if 2 * r >= pp { 1int } else { 0 });
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u, pp);
    assert(h == (a + w * hh) * pp + r) by (nonlinear_arith) requires h == u + 1_000_000_000 * hh, u == pp * a + r, pp * w == 1_000_000_000;
    lem_div_unique(h, pp, a + w * hh, r);
    assert((a + w * hh + c) * pp == (a + w * hh) * pp + c * pp) by (nonlinear_arith);
    assert(a < w) by (nonlinear_arith) requires pp * a <= u, u < pp * w, pp >= 1;
    assert(pp * a + pp <= pp * w) by (nonlinear_arith) requires a + 1 <= w, pp >= 1;
    assert(pp * a >= 0) by (nonlinear_arith) requires a >= 0, pp >= 1;
}

/// rounding up cannot exceed a power that bounds the number
pub proof fn lem_round_up(h: int, pos: int, n: int, c: int)
    requires 0 <= h < pw(n), 0 <= pos < 9, n >= 0, pos > 0 ==> n >= 1, 0 <= c <= 1,
    ensures (h / p10(pos) + c) * p10(pos) <= pw(n),
{
    lem_p10_pw(n);
    lem_p10_add(pos, 9 * n - pos);
    lem_p10_pos(pos);
    let (pp, w) = (p10(pos), p10(9 * n - pos));
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(h, pp);
    let (q, m) = (h / pp, h % pp);
    assert(q < w) by (nonlinear_arith) requires h == pp * q + m, m >= 0, h < pp * w, pp >= 1;
    assert((q + c) * pp <= w * pp) by (nonlinear_arith) requires q + c <= w, pp >= 1;
    assert(w * pp == pp * w) by (nonlinear_arith);
}

// ---------------------------------------------------------------- decimals

/// x is s0 without its lowest k groups
pub proof fn lem_round_shift(s0: FixedDecimal, x: FixedDecimal, k: int)
    requires
        wf(s0), 0 <= k <= fu(s0),
        forall|i: int| 0 <= i < iu(s0) + fu(s0) - k ==> #[trigger] x.lsu@[i] == s0.lsu@[i + k],
        zeros(x.lsu@, iu(s0) + fu(s0) - k, 9),
    ensures
        uok(x.lsu@, 0, 9), mag(x) == rng(s0.lsu@, k, 9), mag(s0) == rng(s0.lsu@, 0, k) + pw(k) * mag(x), mag(x) >= 0,
        mag(x) < pw(iu(s0) + fu(s0) - k),
{
    let n = iu(s0) + fu(s0);
    lem_rng_split(s0.lsu@, 0, k, 9);
    lem_rng_eq(x.lsu@, s0.lsu@, 0, n - k, k);
    lem_rng_top(x.lsu@, 0, n - k, 9);
    lem_rng_top(s0.lsu@, k, n, 9);
    assert forall|i: int| 0 <= i < 9 implies 0 <= #[trigger] x.lsu@[i] < 1_000_000_000 by {
        if i < n - k { assert(x.lsu@[i] == s0.lsu@[i + k]); assert(0 <= s0.lsu@[i + k] < 1_000_000_000); }
    }
    lem_rng_bound(x.lsu@, 0, n - k);
}

pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }

/// the round-up decision the caller takes when the cut is between units
pub open spec fn cut_c(s0: FixedDecimal, x: FixedDecimal, k: int, t: int, c: int) -> bool {
    &&& t % 9 != 0 ==> c == 0
    &&& t == 0 ==> k >= 1 && c == b2i(s0.lsu@[k - 1] >= 500_000_000)
    &&& t > 0 && t % 9 == 0 ==> c == b2i(x.lsu@[t / 9 - 1] >= 500_000_000)
}

pub open spec fn cut_at(s0: FixedDecimal, n: int, fk: int, t: int) -> bool {
    &&& n < s0.frac
    &&& n >= -dg(s0)
    &&& fk == if n >= 0 { un(n) } else { 0 }
    &&& t == 9 * fk - n
}

pub proof fn lem_round_r(s0: FixedDecimal, n: int, x: FixedDecimal, fk: int, t: int, c: int)
    requires
        wf(s0), round_ok(s0, n), cut_at(s0, n, fk, t),
        forall|i: int| 0 <= i < iu(s0) + fk ==> #[trigger] x.lsu@[i] == s0.lsu@[i + fu(s0) - fk],
        zeros(x.lsu@, iu(s0) + fk, 9),
        cut_c(s0, x, fu(s0) - fk, t, c),
    ensures
        rndv(absval(s0), n) == rhu_r(mag(x), t, c) * pw(4 - fk),
        rhu_pre(x, iu(s0), fk, t, max2(n, 0), c),
        mag(x) >= 0,
{
    let f = fu(s0);
    let k = f - fk;
    assert(0 <= fk <= f);
    assert(0 <= t && (n >= 0 ==> t < 9));
    assert(t <= 9 * iu(s0) || t < 9);
    assert forall|i: int| 0 <= i < iu(s0) + f - k implies #[trigger] x.lsu@[i] == s0.lsu@[i + k] by {
        assert(x.lsu@[i] == s0.lsu@[i + f - fk]);
    }
    lem_round_shift(s0, x, k);
    let m = mag(x);
    let lo = rng(s0.lsu@, 0, k);
    lem_rng_bound(s0.lsu@, 0, k);
    lem_rng_bound(s0.lsu@, 0, 9);
    lem_p10_pos(t);
    lem_pw_pos(k);
    if t == 0 {
        lem_half(s0.lsu@, 0, k);
    } else if t % 9 == 0 {
        let q = t / 9;
        lem_half(x.lsu@, 0, q);
        lem_rng_split(x.lsu@, 0, q, 9);
        lem_rng_bound(x.lsu@, 0, q);
        lem_p10_pw(q);
        let (h, p) = (rng(x.lsu@, q, 9), pw(q));
        assert(p * h == h * p) by (nonlinear_arith);
        lem_div_unique(m, p, h, rng(x.lsu@, 0, q));
    }
    let c1 = if t == 0 { c } else { b2i(2 * (m % p10(t)) >= p10(t)) };
    assert(c1 == rhu_c(m, t, c));
    lem_rnd_drop(mag(s0), lo, m, pw(k), t, c1);
    lem_p10_pw(k);
    lem_p10_pw(4 - f);
    lem_p10_add(9 * k, t);
    lem_p10_add(9 * k + t, 9 * (4 - f));
    lem_pw_pos(4 - f);
    let (w, g) = (pw(k) * p10(t), pw(4 - f));
    assert(w > 0) by (nonlinear_arith) requires w == pw(k) * p10(t), pw(k) >= 1, p10(t) >= 1;
    lem_rnd_scale(mag(s0), w, g);
    assert(p10(36 - n) == w * g);
    let r = rhu_r(m, t, c);
    lem_pw_add(k, 4 - f);
    let pk = pw(k);
    assert(r * pk * g == r * (pk * g)) by (nonlinear_arith);
    // room
    if fk == 0 {
        lem_p10_pw(13);
        lem_pw_add(9, 4);
        let (p4, p9) = (pw(4), pw(9));
        lem_pw_pos(4);
        assert(r < p9) by (nonlinear_arith) requires r * p4 < p9 * p4, p4 >= 1;
    }
}

pub proof fn lem_round_end(s0: FixedDecimal, n: int, x: FixedDecimal, fk: int, t: int, c: int, d: FixedDecimal)
    requires
        wf(s0), round_ok(s0, n), cut_at(s0, n, fk, t),
        rhu_pre(x, iu(s0), fk, t, max2(n, 0), c),
        rhu_post(x, iu(s0), fk, t, max2(n, 0), c, d),
        neg(x) == neg(s0),
        rndv(absval(s0), n) == rhu_r(mag(x), t, c) * pw(4 - fk),
        mag(x) >= 0,
    ensures
        round_post(s0, n, d),
{
    let g = iu(s0);
    let r = rhu_r(mag(x), t, c);
    lem_rng_bound(d.lsu@, 0, 9);
    lem_pw_pos(4 - fk);
    lem_p10_pos(t);
    if r < pw(9) {
        let gd = if r >= pw(g + fk) { g + 1 } else { g };
        assert(fu(d) == fk);
        if r >= pw(g + fk) {
            if g + fk == 9 { assert(false); }
        }
        lem_pw_add(1, g + fk);
        lem_pw_small();
        lem_pw_pos(g + fk);
        assert(iu(d) == gd);
        assert(r < pw(gd + fk));
        lem_rng_small(d.lsu@, gd + fk, 9);
        lem_p10_pw(gd);
        lem_pw_add(gd, fk);
        // no digits beyond the scale
        let z = mag(x) / p10(t) + rhu_c(mag(x), t, c);
        if n >= 0 {
            assert(9 * fu(d) - d.frac == t);
            lem_mul_mod(z, p10(t));
        } else {
            lem_p10_small();
        }
        if g + un(n) == 9 && n >= 0 {
            let (p4, p9) = (pw(4 - fk), pw(9));
            lem_pw_add(9, 4 - fk);
            lem_p10_pw(g + 4);
            assert(r * p4 < p9 * p4) by (nonlinear_arith) requires r < p9, p4 >= 1;
        }
        lem_mag_zero(d);
    } else {
        lem_pw_small();
        lem_pw_add(1, 8);
        lem_pw_pos(8);
        assert(n >= 0);
        assert(n > 9 * (fk - 1));
        assert(d.frac == 9 * (fk - 1));
        assert(fu(d) == fk - 1);
        assert(iu(d) == g + 1);
        assert(pw(8) < pw(9));
        lem_p10_pw(g + 1);
        lem_pw_add(g + 1, fk - 1);
        lem_p10_small();
        assert(mag(d) % 1 == 0);
        lem_pw_add(8, 5 - fk);
        lem_pw_add(9, 4 - fk);
        lem_p10_pw(g + 4);
        lem_mag_zero(d);
    }
}

/// rounding to the current scale or a larger one
pub proof fn lem_round_keep(s0: FixedDecimal, n: int, d: FixedDecimal)
    requires
        wf(s0), n >= s0.frac, d.intg == s0.intg, d.frac == round_scale(s0, n),
        forall|i: int| 0 <= i < fu(d) - fu(s0) ==> #[trigger] d.lsu@[i] == 0,
        forall|i: int| fu(d) - fu(s0) <= i < iu(s0) + fu(d) ==> #[trigger] d.lsu@[i] == s0.lsu@[i - (fu(d) - fu(s0))],
        zeros(d.lsu@, iu(s0) + fu(d), 9),
    ensures
        round_post(s0, n, d),
{
    let (f0, f1) = (s0.frac as int, d.frac as int);
    let off = fu(d) - fu(s0);
    assert(f0 <= f1 && off >= 0);
    let top = iu(s0) + fu(d);
    assert forall|i: int| 0 <= i < 9 implies 0 <= #[trigger] d.lsu@[i] < 1_000_000_000 by {
        if i >= off && i < top { assert(0 <= s0.lsu@[i - off] < 1_000_000_000); }
    }
    lem_rng_top(d.lsu@, 0, top, 9);
    lem_rng_bottom(d.lsu@, 0, off, top);
    assert forall|i: int| off <= i < top implies #[trigger] d.lsu@[i] == s0.lsu@[i + (-off)] by {}
    lem_rng_eq(d.lsu@, s0.lsu@, off, top, -off);
    lem_rng_top(s0.lsu@, 0, iu(s0) + fu(s0), 9);
    let (m0, m1, p) = (mag(s0), mag(d), pw(off));
    assert(m1 == p * m0);
    assert(p * m0 == m0 * p) by (nonlinear_arith);
    lem_align(m0, f0, f1);
    lem_pw_add(fu(s0), off);
    lem_pw_pos(off);
    lem_rng_bound(s0.lsu@, 0, 9);
    let (g, q) = (p10(dg(s0)), pw(fu(s0)));
    assert(m0 * p < g * (q * p)) by (nonlinear_arith) requires m0 < g * q, p >= 1;
    assert((m0 * p == 0) == (m0 == 0)) by (nonlinear_arith) requires p >= 1;
    lem_pw_add(off, 4 - fu(d));
    let y = pw(4 - fu(d));
    assert(m0 * p * y == m0 * (p * y)) by (nonlinear_arith);
    assert(absval(d) == absval(s0));
    if n < 36 {
        // a multiple of 10^(36-n)
        let (e, h) = (9 * fu(s0) - f0, 9 * (4 - fu(s0)));
        lem_p10_pos(e);
        lem_mod_zero(m0, p10(e));
        let z = m0 / p10(e);
        lem_p10_pw(4 - fu(s0));
        lem_p10_add(e, h);
        lem_p10_add(36 - n, n - f0);
        let (a, b, u, v) = (p10(e), p10(h), p10(36 - n), p10(n - f0));
        assert(m0 * b == z * (u * v)) by (nonlinear_arith) requires m0 == z * a, a * b == u * v;
        lem_p10_pos(36 - n);
        lem_p10_pos(n - f0);
        lem_p10_pos(h);
        lem_mod_of_mul(z, u, v);
        assert(m0 * b >= 0) by (nonlinear_arith) requires m0 >= 0, b >= 1;
        lem_rnd_id(absval(s0), u);
    }
}

/// everything is dropped
pub proof fn lem_round_all(s0: FixedDecimal, n: int, d: FixedDecimal)
    requires wf(s0), n < 0, n < -dg(s0), is_zero_dec(d),
    ensures round_post(s0, n, d),
{
    lem_zero_dec();
    lem_mag_zero(d);
    lem_rng_bound(s0.lsu@, 0, 9);
    let (m, p) = (mag(s0), pw(4 - fu(s0)));
    lem_pw_pos(4 - fu(s0));
    lem_pw_add(fu(s0), 4 - fu(s0));
    lem_p10_pw(4);
    lem_p10_add(dg(s0), 36);
    lem_p10_mono(dg(s0) + 36, 36 - n - 1);
    let (g, q) = (p10(dg(s0)), pw(fu(s0)));
    assert(0 <= m * p < g * (q * p)) by (nonlinear_arith) requires 0 <= m < g * q, p >= 1;
    let t = p10(36 - n);
    assert(t == 10 * p10(35 - n));
    let x = 2 * absval(s0) + t;
    lem_div_unique(x, 2 * t, 0, x);
    assert(0 * t == 0);
    let z = pw(4 - fu(d));
    assert(0 * z == 0);
}

/// a copy of the decimal, moved to a larger scale
pub open spec fn kept(s0: FixedDecimal, n: int, d: FixedDecimal) -> bool {
    &&& n >= s0.frac
    &&& d.intg == s0.intg
    &&& d.frac == round_scale(s0, n)
    &&& forall|i: int| 0 <= i < fu(d) - fu(s0) ==> #[trigger] d.lsu@[i] == 0
    &&& forall|i: int| fu(d) - fu(s0) <= i < iu(s0) + fu(d) ==> #[trigger] d.lsu@[i] == s0.lsu@[i - (fu(d) - fu(s0))]
    &&& zeros(d.lsu@, iu(s0) + fu(d), 9)
}

/// what a result has to be where nothing is cut, or everything
pub proof fn lem_round_exit(s0: FixedDecimal, n: int, d: FixedDecimal)
    requires wf(s0),
    ensures
        kept(s0, n, d) ==> round_post(s0, n, d),
        n < 0 && n < -dg(s0) && is_zero_dec(d) ==> round_post(s0, n, d),
{
    if kept(s0, n, d) { lem_round_keep(s0, n, d); }
    if n < 0 && n < -dg(s0) && is_zero_dec(d) { lem_round_all(s0, n, d); }
}
