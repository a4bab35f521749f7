// C11 as clients of the contracts of to_string and from_ascii_str.

pub proof fn lem_num_cat(a: Seq<u8>, b: Seq<u8>)
    ensures num(a + b) == num(a) * p10(b.len() as int) + num(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(num(a) * 1 == num(a));
    } else {
        lem_num_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        let (x, p) = (num(a), p10(b.len() - 1));
        assert(x * p10(b.len() as int) == 10 * (x * p)) by (nonlinear_arith) requires p10(b.len() as int) == 10 * p;
    }
}

pub proof fn lem_decz_max(v: int, k: int)
    requires 0 <= v < p10(k), k >= 0,
    ensures decz(v).len() <= k,
    decreases k,
{
    if v > 0 && k > 0 { lem_decz_max(v / 10, k - 1); }
}

/// digits in the full text of d
pub open spec fn text_digits(d: FixedDecimal) -> int { dec(ipart(d)).len() + d.frac }

/// the full text of d, read as a number
pub proof fn lem_full_text(d: FixedDecimal)
    requires wf(d), d.frac <= 30, text_digits(d) <= 65,
    ensures
        ps_ok(text(d, d.frac as int)), ps_frac(text(d, d.frac as int)) == d.frac, ps_val(text(d, d.frac as int)) == val(d),
        text(d, d.frac as int).len() <= 67,
{
    let f = d.frac as int;
    let s = text(d, f);
    thm_digits(d, f);
    lem_text(d, f);
    lem_val_sign(d);
    let t = cutm(d, f);
    let (i, g) = (dec(t / p10(f)), digs(t % p10(f), f));
    let e = Seq::<u8>::empty();
    let w = Txt { sign: tsgn(d), a: i, dot: f > 0, b: g, e: e, esign: e, x: e };
    assert(e + e + e =~= e);
    assert(s =~= w.sign + w.a + (if w.dot { seq![46u8] } else { Seq::<u8>::empty() }) + w.b + (e + e + e));
    assert(tsgn(d) =~= e || tsgn(d) =~= seq![45u8]);
    assert(seq![45u8][0] == 45);
    assert(written(s, w));
    thm_grammar(s);
    assert(num(e) == 0);
    assert(e != seq![45u8]) by { assert(e.len() != seq![45u8].len()); }
    assert(exponent(w) == 0 && places(w) == f);
    lem_num_cat(i, g);
    lem_p10_add(36 - f, f);
    lem_p10_pos(f);
    let (x, y, z) = (abs2(val(d)), p10(f), p10(36 - f));
    assert(x == t * z) by (nonlinear_arith) requires t * (z * y) == x * y, y >= 1;
    assert((-t) * z == -(t * z)) by (nonlinear_arith);
}

pub proof fn lem_val_sign(d: FixedDecimal)
    requires wf(d),
    ensures neg(d) == (val(d) < 0),
{
    lem_mag_zero(d);
}

/// text and back: equal value, scale and sign
pub fn thm_print_parse(d: &FixedDecimal, q: &mut FixedDecimal, reset: bool) -> (r: Result<()>)
    requires wf(*d), d.frac <= 30, text_digits(*d) <= 65,
    ensures r is Ok, wf(*final(q)), val(*final(q)) == val(*d), final(q).frac == d.frac, neg(*final(q)) == neg(*d),
{
    let t = d.to_string(-1);
    proof { lem_full_text(*d); }
    let r = q.from_ascii_str(t.as_str(), reset);
    proof { lem_val_sign(*d); lem_val_sign(*q); }
    r
}

/// what parsing yields can be printed and parsed
pub proof fn lem_parsed_text(s: Seq<u8>, d: FixedDecimal)
    requires ps_ok(s), ps_post(s, d),
    ensures d.frac <= 30, text_digits(d) <= 65,
{
    let f = d.frac as int;
    let dd = ps_digs(s);
    let l = dd.len() as int;
    lem_pos(s);
    lem_nr(dd, 0, l);
    lem_nr_bound(dd, 0, l);
    assert(dd.subrange(0, l) =~= dd);
    lem_text(d, f);
    thm_digits(d, f);
    let z = f - ps_frac(s);
    let (m, t, pf, p36) = (num(dd), cutm(d, f), p10(f), p10(36 - f));
    lem_p10_pos(f);
    lem_p10_pos(z);
    lem_p10_pos(36 - f);
    lem_p10_pos(36 - ps_frac(s));
    lem_p10_add(z, 36 - f);
    lem_p10_add(f, 36 - f);
    let (x, y, pz, q) = (abs2(val(d)), p10(36), p10(z), p10(36 - ps_frac(s)));
    assert(m * q >= 0) by (nonlinear_arith) requires m >= 0, q >= 1;
    assert((-m) * q == -(m * q)) by (nonlinear_arith);
    assert(x == m * q);
    // the digits written, followed by z zeros, are the digits printed
    assert(t == m * pz) by (nonlinear_arith) requires t * y == x * pf, y == pf * p36, x == m * (pz * p36), pf >= 1, p36 >= 1;
    lem_p10_add(l, z);
    assert(m * pz < p10(l) * pz) by (nonlinear_arith) requires m < p10(l), pz >= 1;
    let n = need(l, ps_frac(s));
    lem_p10_mono(l + z, n);
    let i = t / pf;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, pf);
    vstd::arithmetic::div_mod::lemma_mod_bound(t, pf);
    lem_p10_add(n - f, f);
    assert(i < p10(n - f)) by (nonlinear_arith) requires t < p10(n - f) * pf, t == pf * i + t % pf, t % pf >= 0, pf >= 1;
    assert(i >= 0) by (nonlinear_arith) requires t >= 0, t == pf * i + t % pf, t % pf < pf, pf >= 1;
    lem_decz_max(i, n - f);
}

/// a parsed decimal, printed and parsed again
pub fn thm_reparse(bs: &[u8], a: &mut FixedDecimal, b: &mut FixedDecimal, reset: bool) -> (r: Result<()>)
    requires bs@.len() < 0x4000_0000_0000_0000,
    ensures r is Ok ==> wf(*final(a)) && wf(*final(b)) && val(*final(b)) == val(*final(a)) && final(b).frac == final(a).frac && neg(*final(b)) == neg(*final(a)),
        r is Ok <==> ps_ok(bs@),
{
    a.from_bytes_str(bs, reset)?;
    proof { lem_parsed_text(bs@, *a); }
    thm_print_parse(a, b, reset)
}
