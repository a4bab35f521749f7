//@needs text_spec
// C09: the grammar of decimal texts and what they denote.

/// length of the sign
pub open spec fn sgl(s: Seq<u8>) -> int { if s.len() > 0 && (s[0] == 43 || s[0] == 45) { 1 } else { 0 } }

/// end of the digits starting at i
pub open spec fn nd(s: Seq<u8>, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() && digit(s[i]) { nd(s, i + 1) } else { i }
}

/// end of the integral digits
pub open spec fn p1(s: Seq<u8>) -> int { nd(s, sgl(s)) }
pub open spec fn dotp(s: Seq<u8>) -> bool { p1(s) < s.len() && s[p1(s)] == 46 }
/// start and end of the fractional digits
pub open spec fn pb(s: Seq<u8>) -> int { if dotp(s) { p1(s) + 1 } else { p1(s) } }
pub open spec fn p2(s: Seq<u8>) -> int { if dotp(s) { nd(s, p1(s) + 1) } else { p1(s) } }

pub open spec fn ps_neg(s: Seq<u8>) -> bool { s.len() > 0 && s[0] == 45 }
pub open spec fn ps_a(s: Seq<u8>) -> Seq<u8> { s.subrange(sgl(s), p1(s)) }
pub open spec fn ps_b(s: Seq<u8>) -> Seq<u8> { s.subrange(pb(s), p2(s)) }
pub open spec fn ps_tail(s: Seq<u8>) -> Seq<u8> { s.subrange(p2(s), s.len() as int) }

pub open spec fn is_sign(c: u8) -> bool { c == 43 || c == 45 }

/// start of the digits of an exponent part
pub open spec fn ex_start(t: Seq<u8>) -> int { if t.len() > 1 && is_sign(t[1]) { 2 } else { 1 } }
pub open spec fn ex_neg(t: Seq<u8>) -> bool { t.len() > 1 && t[1] == 45 }
pub open spec fn ex_digits(t: Seq<u8>) -> Seq<u8> { t.subrange(ex_start(t), t.len() as int) }

/// nothing, or e or E, an optional sign and digits, between -30 and 65
pub open spec fn ex_ok(t: Seq<u8>) -> bool {
    t.len() == 0 || {
        &&& t[0] == 101 || t[0] == 69
        &&& t.len() > ex_start(t)
        &&& all_digit(ex_digits(t))
        &&& num(ex_digits(t)) <= (if ex_neg(t) { 30int } else { 65 })
    }
}

pub open spec fn ex_val(t: Seq<u8>) -> int {
    if t.len() == 0 { 0 } else if ex_neg(t) { -num(ex_digits(t)) } else { num(ex_digits(t)) }
}

/// fractional digits after the exponent is applied; negative if zeros have to be appended
pub open spec fn ps_frac(s: Seq<u8>) -> int { ps_b(s).len() - ex_val(ps_tail(s)) }

/// all digits written
pub open spec fn ps_digs(s: Seq<u8>) -> Seq<u8> { ps_a(s) + ps_b(s) }

/// digits needed, d of them written, for a scale of f
pub open spec fn need(d: int, f: int) -> int { if f <= 0 { d - f } else if d > f { d } else { f } }

/// the text is accepted
pub open spec fn ps_ok(s: Seq<u8>) -> bool {
    &&& ps_digs(s).len() > 0
    &&& ex_ok(ps_tail(s))
    &&& need(ps_digs(s).len() as int, ps_frac(s)) <= 65
    &&& ps_frac(s) <= 30
}

/// the number it denotes, times 10^36
pub open spec fn ps_val(s: Seq<u8>) -> int {
    (if ps_neg(s) { -num(ps_digs(s)) } else { num(ps_digs(s)) }) * p10(36 - ps_frac(s))
}

pub open spec fn ps_post(s: Seq<u8>, d: FixedDecimal) -> bool {
    wf(d) && d.frac == (if ps_frac(s) < 0 { 0 } else { ps_frac(s) }) && val(d) == ps_val(s)
}

pub proof fn lem_nd(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures
        i <= nd(s, i) <= s.len(),
        forall|j: int| i <= j < nd(s, i) ==> digit(#[trigger] s[j]),
        nd(s, i) < s.len() ==> !digit(s[nd(s, i)]),
    decreases s.len() - i,
{
    if i < s.len() && digit(s[i]) { lem_nd(s, i + 1); }
}

pub proof fn lem_nd_is(s: Seq<u8>, i: int, k: int)
    requires
        0 <= i <= k <= s.len(),
        forall|j: int| i <= j < k ==> digit(#[trigger] s[j]),
        k < s.len() ==> !digit(s[k]),
    ensures nd(s, i) == k,
    decreases k - i,
{
    if i < k { lem_nd_is(s, i + 1, k); }
}

/// state of the scan before position k
pub open spec fn scan_inv(s: Seq<u8>, k: int, d: int, dotchar: int, last: int, cfirst: int, neg: bool) -> bool {
    let (i0, i1, i2) = (sgl(s), p1(s), p2(s));
    &&& 0 <= k <= i2
    &&& neg == (k > 0 && s[0] == 45)
    &&& if k <= i1 {
            &&& d == (if k > i0 { k - i0 } else { 0 })
            &&& dotchar == -1
            &&& last == (if k > i0 { k - 1 } else { -1 })
            &&& cfirst == (if k < i0 { k } else { i0 })
        } else {
            &&& dotp(s)
            &&& d == k - i0 - 1
            &&& dotchar == i1
            &&& last == (if k > i1 + 1 { k - 1 } else if i1 > i0 { i1 - 1 } else { -1 })
            &&& cfirst == (if i1 == i0 { i0 + 1 } else { i0 })
        }
}

pub proof fn lem_pos(s: Seq<u8>)
    ensures
        0 <= sgl(s) <= p1(s) <= pb(s) <= p2(s) <= s.len(),
        forall|j: int| sgl(s) <= j < p1(s) ==> digit(#[trigger] s[j]),
        forall|j: int| pb(s) <= j < p2(s) ==> digit(#[trigger] s[j]),
        p1(s) < s.len() ==> !digit(s[p1(s)]),
        p2(s) < s.len() ==> !digit(s[p2(s)]),
        !dotp(s) && p2(s) < s.len() ==> s[p2(s)] != 46,
        sgl(s) == 1 ==> is_sign(s[0]),
        sgl(s) == 0 && s.len() > 0 ==> !is_sign(s[0]),
        ps_a(s).len() == p1(s) - sgl(s), ps_b(s).len() == p2(s) - pb(s),
        all_digit(ps_a(s)), all_digit(ps_b(s)), all_digit(ps_digs(s)),
        ps_tail(s).len() == s.len() - p2(s),
{
    lem_nd(s, sgl(s));
    if dotp(s) { lem_nd(s, p1(s) + 1); }
}

/// digits lo..hi as a number
pub open spec fn nr(s: Seq<u8>, lo: int, hi: int) -> int decreases hi - lo {
    if hi <= lo { 0 } else { nr(s, lo, hi - 1) * 10 + (s[hi - 1] - 48) }
}

pub proof fn lem_nr(s: Seq<u8>, lo: int, hi: int)
    requires 0 <= lo <= hi <= s.len(),
    ensures nr(s, lo, hi) == num(s.subrange(lo, hi)),
    decreases hi - lo,
{
    if lo < hi {
        lem_nr(s, lo, hi - 1);
        assert(s.subrange(lo, hi).drop_last() =~= s.subrange(lo, hi - 1));
    }
}

pub proof fn lem_nr_bound(s: Seq<u8>, lo: int, hi: int)
    requires 0 <= lo <= hi <= s.len(), forall|j: int| lo <= j < hi ==> digit(#[trigger] s[j]),
    ensures 0 <= nr(s, lo, hi) < p10(hi - lo), lo < hi && s[lo] != 48 ==> nr(s, lo, hi) >= p10(hi - lo - 1),
    decreases hi - lo,
{
    if lo < hi {
        lem_nr_bound(s, lo, hi - 1);
        assert(p10(1) == 10 * p10(0));
    }
}

pub proof fn lem_nr_zeros(s: Seq<u8>, lo: int, m: int, hi: int)
    requires 0 <= lo <= m <= hi <= s.len(), forall|j: int| lo <= j < m ==> #[trigger] s[j] == 48,
    ensures nr(s, lo, hi) == nr(s, m, hi),
    decreases hi - lo,
{
    if hi == m {
        if lo < m { lem_nr_zeros(s, lo, m - 1, m - 1); }
    } else {
        lem_nr_zeros(s, lo, m, hi - 1);
    }
}

/// the exponent part of s, its digits starting at j
pub open spec fn ex_at(s: Seq<u8>, j: int) -> bool {
    let t = ps_tail(s);
    &&& t.len() > 0 && (t[0] == 101 || t[0] == 69)
    &&& j == p2(s) + ex_start(t)
    &&& j < s.len()
}

/// leading zeros up to m; what is left is too long, or not digits, or the value
pub proof fn lem_exp(s: Seq<u8>, j: int, m: int)
    requires ex_at(s, j), j <= m < s.len(), forall|k: int| j <= k < m ==> #[trigger] s[k] == 48, s[m] != 48 || s.len() - m < 4,
    ensures
        ex_digits(ps_tail(s)) == s.subrange(j, s.len() as int),
        s.len() - m >= 4 ==> !ex_ok(ps_tail(s)),
        (exists|k: int| m <= k < s.len() && !digit(#[trigger] s[k])) ==> !ex_ok(ps_tail(s)),
        (forall|k: int| m <= k < s.len() ==> digit(#[trigger] s[k])) ==> all_digit(ex_digits(ps_tail(s))) && num(ex_digits(ps_tail(s))) == nr(s, m, s.len() as int),
        ex_neg(ps_tail(s)) == (p2(s) + 1 < s.len() && s[p2(s) + 1] == 45),
{
    lem_pos(s);
    let t = ps_tail(s);
    let x = s.subrange(j, s.len() as int);
    let n = s.len() as int;
    assert(ex_digits(t) =~= x);
    if exists|k: int| m <= k < n && !digit(#[trigger] s[k]) {
        let k = choose|k: int| m <= k < n && !digit(#[trigger] s[k]);
        assert(x[k - j] == s[k]);
        assert(!all_digit(x));
    } else {
        assert forall|k: int| 0 <= k < x.len() implies digit(#[trigger] x[k]) by { assert(x[k] == s[k + j]); }
        lem_nr(s, j, n);
        lem_nr_zeros(s, j, m, n);
        lem_nr_bound(s, m, n);
        if n - m >= 4 {
            lem_p10_mono(3, n - m - 1);
            lem_p10_small();
        }
    }
}

/// position i in the text stands before digit k of those written
pub open spec fn at_digit(s: Seq<u8>, i: int, k: int) -> bool {
    let (i0, i1) = (sgl(s), p1(s));
    ||| 0 <= k <= i1 - i0 && i == i0 + k
    ||| dotp(s) && k >= i1 - i0 && i == i0 + k + 1
}

/// position of the last digit
pub open spec fn ps_last(s: Seq<u8>) -> int { if p2(s) > pb(s) { p2(s) - 1 } else { p1(s) - 1 } }

pub proof fn lem_at(s: Seq<u8>, i: int, k: int)
    requires at_digit(s, i, k), i <= ps_last(s), ps_digs(s).len() > 0, k >= 0,
    ensures
        i < s.len(), k < ps_digs(s).len(), i >= 0,
        s[i] == 46 ==> at_digit(s, i + 1, k) && i + 1 <= ps_last(s),
        s[i] != 46 ==> s[i] == ps_digs(s)[k] && digit(s[i]) && at_digit(s, i + 1, k + 1) && (i == ps_last(s)) == (k + 1 == ps_digs(s).len()),
{
    lem_pos(s);
    let (i0, i1) = (sgl(s), p1(s));
    if i == i0 + k && k < i1 - i0 {
        assert(ps_digs(s)[k] == s[i]);
    } else if i == i0 + k && k == i1 - i0 {
        assert(dotp(s));
    } else {
        assert(ps_digs(s)[k] == s[i]);
    }
}

/// one more integral digit
pub proof fn lem_i_digit(p: int, r: int, w: int, out: int, c: int)
    requires p == r * p10(w) + out, 0 <= out < p10(w), 0 <= c <= 9, 0 <= w < 9,
    ensures p * 10 + c == r * p10(w + 1) + (out * 10 + c), 0 <= out * 10 + c < p10(w + 1), p10(w + 1) <= 1_000_000_000,
{
    lem_p10_mono(w + 1, 9);
    lem_p10_small();
    let (a, b) = (p10(w), p10(w + 1));
    assert(r * b == 10 * (r * a)) by (nonlinear_arith) requires b == 10 * a;
}

/// zeros up to the end of the unit
pub proof fn lem_i_fill(p: int, r: int, w: int, out: int, re: int)
    requires p == r * p10(w) + out, 0 <= out < p10(w), 1 <= w <= 9, w + re == 9,
    ensures p * p10(re) == r * 1_000_000_000 + out * p10(re), 0 <= out * p10(re) < 1_000_000_000,
{
    lem_p10_add(w, re);
    lem_p10_pos(re);
    lem_p10_small();
    let (a, b) = (p10(w), p10(re));
    assert(p * b == r * (a * b) + out * b) by (nonlinear_arith) requires p == r * a + out;
    assert(0 <= out * b <= (a - 1) * b) by (nonlinear_arith) requires 0 <= out <= a - 1, b >= 1;
    assert((a - 1) * b == a * b - b) by (nonlinear_arith);
}

/// one more fractional digit
pub proof fn lem_f_digit(p: int, r: int, cut: int, out: int, c: int)
    requires p * p10(cut) == r * 1_000_000_000 + out, 1 <= cut <= 9, 0 <= out <= 1_000_000_000 - p10(cut), 0 <= c <= 9,
    ensures
        (p * 10 + c) * p10(cut - 1) == r * 1_000_000_000 + (out + c * p10(cut - 1)),
        0 <= c * p10(cut - 1) < 1_000_000_000,
        0 <= out + c * p10(cut - 1) <= 1_000_000_000 - p10(cut - 1),
        p10(cut - 1) >= 1,
{
    lem_p10_pos(cut - 1);
    lem_p10_small();
    lem_p10_mono(cut, 9);
    let (a, b) = (p10(cut), p10(cut - 1));
    assert((p * 10 + c) * b == p * a + c * b) by (nonlinear_arith) requires a == 10 * b;
    assert(0 <= c * b <= 9 * b) by (nonlinear_arith) requires 0 <= c <= 9, b >= 1;
}

/// unit up written, the ones above it as they were
pub proof fn lem_put(s: Seq<i32>, t: Seq<i32>, up: int)
    requires 0 <= up < 9, s.len() == 9, t == s.update(up, t[up]), uok(s, 0, 9), 0 <= t[up] < 1_000_000_000,
    ensures uok(t, 0, 9), rng(t, up, 9) == rng(s, up + 1, 9) * 1_000_000_000 + t[up],
{
    assert(t.len() == 9);
    lem_rng_low(t, up, 9);
    lem_rng_same(s, t, up + 1, 9);
}

/// the units hold the digits: the decimal is the number
pub proof fn lem_ps_done(s: Seq<u8>, d: FixedDecimal)
    requires
        ps_ok(s),
        d.frac == (if ps_frac(s) < 0 { 0 } else { ps_frac(s) }),
        d.intg == need(ps_digs(s).len() as int, ps_frac(s)) - d.frac,
        uok(d.lsu@, 0, 9),
        rng(d.lsu@, 0, 9) == num(ps_digs(s)) * p10(if ps_frac(s) < 0 { -ps_frac(s) } else { 9 * fu(d) - ps_frac(s) }),
    ensures
        wf(d), !neg(d), ps_post(s, d) || ps_neg(s),
        mag(d) * pw(4 - fu(d)) == num(ps_digs(s)) * p10(36 - ps_frac(s)),
{
    lem_pos(s);
    let dd = ps_digs(s);
    let f = ps_frac(s);
    let p = num(dd);
    let l = dd.len() as int;
    assert(dd.subrange(0, l) =~= dd);
    lem_nr(dd, 0, l);
    lem_nr_bound(dd, 0, l);
    let z = if f < 0 { -f } else { 9 * fu(d) - f };
    lem_p10_pos(z);
    lem_p10_pos(l);
    lem_p10_add(l, z);
    let (pz, pl) = (p10(z), p10(l));
    assert(p * pz < pl * pz) by (nonlinear_arith) requires p < pl, pz >= 1;
    assert(p * pz >= 0) by (nonlinear_arith) requires p >= 0, pz >= 1;
    lem_p10_add(d.intg as int, 9 * fu(d));
    lem_p10_pw(fu(d));
    lem_p10_mono(l + z, d.intg + 9 * fu(d));
    assert(mag(d) < p10(d.intg as int) * pw(fu(d)));
    // nothing above
    lem_p10_pw(iu(d) + fu(d));
    lem_p10_mono(d.intg + 9 * fu(d), 9 * (iu(d) + fu(d)));
    lem_rng_small(d.lsu@, iu(d) + fu(d), 9);
    if f < 0 {
        assert(mag(d) % p10(0) == 0) by { assert(p10(0) == 1); }
    } else {
        lem_mul_mod(p, pz);
    }
    lem_p10_pw(4 - fu(d));
    lem_p10_add(z, 36 - 9 * fu(d));
    let q = pw(4 - fu(d));
    assert((p * pz) * q == p * (pz * q)) by (nonlinear_arith);
}

pub proof fn lem_times1(x: int)
    ensures x * p10(0) == x, p10(0) == 1, x * 1 == x,
{
    assert(x * 1 == x);
    assert(x * p10(0) == x) by (nonlinear_arith) requires p10(0) == 1;
}
