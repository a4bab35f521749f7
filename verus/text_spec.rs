//@needs fmt_spec
//@needs round_spec
// The text of a decimal in terms of its value; reading digits back.

/// value of a digit string
pub open spec fn num(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { num(s.drop_last()) * 10 + (s.last() - 48) }
}

pub proof fn lem_num_digs(v: int, k: int)
    requires 0 <= v < p10(k),
    ensures num(digs(v, k)) == v,
    decreases k,
{
    if k > 0 {
        assert(v / 10 < p10(k - 1)) by (nonlinear_arith) requires v < 10 * p10(k - 1);
        lem_num_digs(v / 10, k - 1);
        assert(digs(v, k).drop_last() =~= digs(v / 10, k - 1));
    }
}

pub proof fn lem_num_decz(v: int)
    requires v >= 0,
    ensures num(decz(v)) == v,
    decreases v,
{
    if v > 0 {
        lem_num_decz(v / 10);
        assert(decz(v).drop_last() =~= decz(v / 10));
    }
}

pub proof fn lem_num_dec(v: int)
    requires v >= 0,
    ensures num(dec(v)) == v, all_digit(dec(v)), dec(v).len() >= 1, v > 0 ==> dec(v)[0] != 48, v == 0 ==> dec(v) == seq![48u8],
{
    lem_num_decz(v);
    lem_decz_len(v);
    if v == 0 {
        assert(seq![48u8].drop_last() =~= Seq::<u8>::empty());
        assert(num(Seq::<u8>::empty()) == 0);
    }
}

/// magnitude with n fractional digits, cut: floor(|value| * 10^n)
pub open spec fn cutm(d: FixedDecimal, n: int) -> int { (abs2(val(d)) * p10(n)) / p10(36) }

/// the text in terms of the value: the integral part without leading zeros, then n digits
pub open spec fn vtext(d: FixedDecimal, n: int) -> Seq<u8> {
    tsgn(d) + dec(cutm(d, n) / p10(n)) + (if n == 0 { seq![] } else { seq![46u8] + digs(cutm(d, n) % p10(n), n) })
}

pub proof fn lem_frac_digits(f: int, a: int, n: int)
    requires 0 <= f < p10(a), a >= 0, n >= 0,
    ensures
        0 <= (f * p10(n)) / p10(a) < p10(n),
        n <= a ==> digs((f * p10(n)) / p10(a), n) == digs(f, a).subrange(0, n),
        n > a ==> digs((f * p10(n)) / p10(a), n) == digs(f, a) + rep0(n - a),
{
    lem_p10_pos(n);
    lem_p10_pos(a);
    let (pn, pa) = (p10(n), p10(a));
    assert(0 <= f * pn < pn * pa) by (nonlinear_arith) requires 0 <= f < pa, pn >= 1;
    if n <= a {
        let k = a - n;
        lem_p10_pos(k);
        lem_p10_add(n, k);
        let pk = p10(k);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(f, pk);
        vstd::arithmetic::div_mod::lemma_mod_bound(f, pk);
        let (q, r) = (f / pk, f % pk);
        assert(f * pn == q * pa + r * pn) by (nonlinear_arith) requires f == pk * q + r, pa == pn * pk;
        assert(0 <= r * pn < pa) by (nonlinear_arith) requires 0 <= r < pk, pa == pn * pk, pn >= 1;
        lem_div_unique(f * pn, pa, q, r * pn);
        assert(q >= 0) by (nonlinear_arith) requires f == pk * q + r, r < pk, f >= 0, pk >= 1;
        assert(q < pn) by (nonlinear_arith) requires f == pk * q + r, r >= 0, f < pn * pk, pk >= 1;
        assert(pk * q == q * pk) by (nonlinear_arith);
        lem_digs_cat(q, r, n, k);
        lem_digs_len(q, n);
        assert((digs(q, n) + digs(r, k)).subrange(0, n) =~= digs(q, n));
    } else {
        let k = n - a;
        lem_p10_pos(k);
        lem_p10_add(k, a);
        let pk = p10(k);
        assert(f * pn == (f * pk) * pa) by (nonlinear_arith) requires pn == pk * pa;
        lem_mul_mod(f * pk, pa);
        assert(f * pk < pn) by (nonlinear_arith) requires f < pa, pn == pk * pa, pk >= 1;
        assert(f * pk >= 0) by (nonlinear_arith) requires f >= 0, pk >= 1;
        lem_digs_cat(f, 0, a, k);
        lem_digs_zero(k);
    }
}

/// the text printed is the text of the value
pub proof fn lem_text(d: FixedDecimal, n: int)
    requires wf(d), n >= 0,
    ensures
        text(d, n) == vtext(d, n),
        cutm(d, n) / p10(n) == ipart(d),
        cutm(d, n) % p10(n) == (fpart(d) * p10(n)) / pw(fu(d)),
        0 <= cutm(d, n),
        mag(d) == ipart(d) * pw(fu(d)) + fpart(d), 0 <= fpart(d) < pw(fu(d)), 0 <= ipart(d),
{
    let a = fu(d);
    let s = d.lsu@;
    lem_rng_split(s, 0, a, 9);
    lem_rng_bound(s, 0, a);
    lem_rng_bound(s, a, 9);
    lem_rng_bound(s, 0, 9);
    lem_p10_pw(a);
    lem_p10_pw(4 - a);
    lem_p10_pw(4);
    lem_pw_add(a, 4 - a);
    lem_pw_pos(a);
    lem_pw_pos(4 - a);
    lem_p10_pos(n);
    let (i, f, pa, pb, pn, m) = (ipart(d), fpart(d), pw(a), pw(4 - a), p10(n), mag(d));
    assert(pa * i == i * pa) by (nonlinear_arith);
    assert(abs2(val(d)) == m * pb) by (nonlinear_arith) requires val(d) == m * pb || val(d) == (-m) * pb, m >= 0, pb >= 1;
    // (m * pb * pn) / (pa * pb) == (m * pn) / pa
    lem_frac_digits(f, 9 * a, n);
    let g = (f * pn) / pa;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(f * pn, pa);
    vstd::arithmetic::div_mod::lemma_mod_bound(f * pn, pa);
    let r = (f * pn) % pa;
    let t = i * pn + g;
    assert((m * pb) * pn == t * (pa * pb) + r * pb) by (nonlinear_arith) requires m == i * pa + f, f * pn == pa * g + r, t == i * pn + g;
    assert(0 <= r * pb < pa * pb) by (nonlinear_arith) requires 0 <= r < pa, pb >= 1;
    lem_div_unique((m * pb) * pn, pa * pb, t, r * pb);
    assert(cutm(d, n) == t);
    lem_div_unique(t, pn, i, g);
    assert(t >= 0) by (nonlinear_arith) requires t == i * pn + g, i >= 0, pn >= 1, g >= 0;
    assert(fdigs(s, a - 1) == digs(f, 9 * a));
}
