// C10 as clients of the contracts.

/// the text: sign, integral part without superfluous zeros, point and exactly n digits of the value cut after n digits
pub fn thm_append(d: &FixedDecimal, buf: &mut Vec<u8>, frac: isize)
    requires wf(*d),
    ensures
        final(buf)@ == old(buf)@ + vtext(*d, if frac < 0 { d.frac as int } else { frac as int }),
        ascii(vtext(*d, if frac < 0 { d.frac as int } else { frac as int })),
{
    proof { lem_text(*d, prec(*d, frac as int)); lem_text_ascii(*d, prec(*d, frac as int)); }
    d.append_str_buf(buf, frac);
}

pub fn thm_string(d: &FixedDecimal, frac: isize) -> (r: String)
    requires wf(*d),
    ensures vstd::utf8::encode_utf8(r@) == vtext(*d, if frac < 0 { d.frac as int } else { frac as int }),
{
    proof { lem_text(*d, prec(*d, frac as int)); }
    d.to_string(frac)
}

/// what the printed digits are
pub proof fn thm_digits(d: FixedDecimal, n: int)
    requires wf(d), n >= 0,
    ensures
        ({
            let t = cutm(d, n);
            let (i, f) = (dec(t / p10(n)), digs(t % p10(n), n));
            &&& vtext(d, n) == (if val(d) < 0 { seq![45u8] } else { seq![] }) + i + (if n == 0 { seq![] } else { seq![46u8] + f })
            &&& all_digit(i) && i.len() >= 1 && (i[0] == 48 ==> i.len() == 1)
            &&& all_digit(f) && f.len() == n
            &&& num(i) * p10(n) + num(f) == t
            // t is the value, cut after n digits
            &&& t * p10(36) <= abs2(val(d)) * p10(n) < (t + 1) * p10(36)
        }),
        // a scale and more: nothing is cut
        n >= d.frac ==> cutm(d, n) * p10(36) == abs2(val(d)) * p10(n),
{
    lem_text(d, n);
    lem_val(d, 4);
    let t = cutm(d, n);
    let pn = p10(n);
    lem_p10_pos(n);
    lem_p10_pos(36);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, pn);
    vstd::arithmetic::div_mod::lemma_mod_bound(t, pn);
    let (q, r) = (t / pn, t % pn);
    assert(pn * q == q * pn) by (nonlinear_arith);
    lem_num_dec(q);
    lem_num_digs(r, n);
    lem_digs_len(r, n);
    let x = abs2(val(d)) * pn;
    let e = p10(36);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, e);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, e);
    assert(e * t == t * e) by (nonlinear_arith);
    assert((t + 1) * e == t * e + e) by (nonlinear_arith);
    lem_mag_zero(d);
    lem_pw_pos(4 - fu(d));
    let (m, pb) = (mag(d), pw(4 - fu(d)));
    lem_rng_bound(d.lsu@, 0, 9);
    assert((-m) * pb < 0 || m == 0) by (nonlinear_arith) requires m >= 0, pb >= 1;
    assert(m * pb >= 0) by (nonlinear_arith) requires m >= 0, pb >= 1;
    if n >= d.frac {
        // |value| is a multiple of 10^(36 - scale)
        let k = 9 * fu(d) - d.frac;
        lem_p10_pos(k);
        lem_mod_zero(m, p10(k));
        let c = m / p10(k);
        lem_p10_pw(4 - fu(d));
        lem_p10_add(k, 36 - 9 * fu(d));
        lem_p10_add(36 - d.frac, n);
        lem_p10_add(36, n - d.frac);
        let (pk, pz, ps) = (p10(k), p10(36 - d.frac), p10(n - d.frac));
        assert(abs2(val(d)) == m * pb) by (nonlinear_arith) requires val(d) == m * pb || val(d) == (-m) * pb, m >= 0, pb >= 1;
        assert(m * pb == c * (pk * pb)) by (nonlinear_arith) requires m == c * pk;
        assert(x == (c * ps) * e) by (nonlinear_arith) requires x == (c * pz) * pn, pz * pn == e * ps;
        lem_mul_mod(c * ps, e);
    }
}
