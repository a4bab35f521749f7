%% fn unit_leading_zeroes lemmas=div_spec
    requires 0 <= val,
    ensures r == ulz(val as int), 0 <= r <= 9, val >= 1 ==> r <= 8,

%% fn units_greater_equal loops=2 lemmas=div_spec
    requires uok(lhs@, 0, lhs@.len() as int), uok(rhs@, 0, rhs@.len() as int), lhs@.len() <= 9, rhs@.len() <= 9,
    ensures r == ge_frac(lhs@, lhs@.len() as int, rhs@, rhs@.len() as int),
%% loop 1
    invariant
        0 <= __k1 <= __n1, __n1 == lhs@.len(), rhs@.len() < lhs@.len(), lhs@.len() <= 9,
        uok(lhs@, 0, lhs@.len() as int), uok(rhs@, 0, rhs@.len() as int),
        pre(lhs@, lhs@.len() as int, __k1 as int) == pre(rhs@, rhs@.len() as int, __k1 as int),
    decreases __n1 - __k1,
%% loop 1 begin
    proof { lem_ge_end(lhs@, lhs@.len() as int, rhs@, rhs@.len() as int, __k1 as int); }
%% loop 1 after
    proof { lem_ge_end(lhs@, lhs@.len() as int, rhs@, rhs@.len() as int, lhs@.len() as int); }
%% loop 2
    invariant
        0 <= __k2 <= __n2, __n2 == rhs@.len(), lhs@.len() <= rhs@.len(), rhs@.len() <= 9,
        uok(lhs@, 0, lhs@.len() as int), uok(rhs@, 0, rhs@.len() as int),
        pre(lhs@, lhs@.len() as int, __k2 as int) == pre(rhs@, rhs@.len() as int, __k2 as int),
    decreases __n2 - __k2,
%% loop 2 begin
    proof { lem_ge_end(lhs@, lhs@.len() as int, rhs@, rhs@.len() as int, __k2 as int); }
%% loop 2 after
    proof { lem_ge_end(lhs@, lhs@.len() as int, rhs@, rhs@.len() as int, rhs@.len() as int); }

%% fn div_abs loops=9 lemmas=div_spec ret=result rlimit=400
    requires wf(*lhs), wf(*rhs), 0 <= incr_frac <= 54,
    ensures div_abs_post(*lhs, *rhs, *final(res), incr_frac as int, result),
%% entry
    let ghost (l, r) = (*lhs, *rhs);
    let ghost (ls, rs) = (lhs.lsu@, rhs.lsu@);
    let ghost incr = incr_frac as int;
    proof { lem_mag_zero(l); lem_mag_zero(r); lem_zero_dec(); }
%% loop 1
    invariant_except_break
        -1 <= rhs_non_zero < iu(r) + fu(r), zeros(rs, rhs_non_zero + 1, 9),
    invariant *rhs == r, rs == r.lsu@, wf(r),
    ensures
        -1 <= rhs_non_zero < iu(r) + fu(r), zeros(rs, rhs_non_zero + 1, 9), rhs_non_zero >= 0 ==> rs[rhs_non_zero as int] > 0,
    decreases rhs_non_zero + 1,
%% loop 2
    invariant_except_break
        -1 <= lhs_non_zero < iu(l) + fu(l), zeros(ls, lhs_non_zero + 1, 9),
    invariant *lhs == l, ls == l.lsu@, wf(l),
    ensures
        -1 <= lhs_non_zero < iu(l) + fu(l), zeros(ls, lhs_non_zero + 1, 9), lhs_non_zero >= 0 ==> ls[lhs_non_zero as int] > 0,
    decreases lhs_non_zero + 1,
%% before /return Ok/ #1
    proof {
        lem_rng_zeros(ls, 0, 9);
        lem_lead(r, rhs_non_zero as int);
        lem_div_nothing(l, r, rhs_non_zero as int);
    }
%% before /let rhs_prec =/
    let ghost (nl, nr) = (lhs_non_zero as int, rhs_non_zero as int);
    proof {
        lem_lead(l, nl);
        lem_lead(r, nr);
        lem_pw_pos(nl);
        lem_pw_pos(nr);
    }
%% before /if units_greater_equal/ | before /let dividend_shift.* if units_greater_equal/
    let ghost g0 = res_frac_units as int;
    proof {
        assert(g0 == div_g0(l, r, incr));
        assert(lhs.lsu@.subrange(0, nl + 1) =~= ls.subrange(0, nl + 1));
        lem_rng_eq(ls.subrange(0, nl + 1), ls, 0, nl + 1, 0);
        lem_rng_eq(rs.subrange(0, nr + 1), rs, 0, nr + 1, 0);
    }
%% before /let res_intg_units/
    let ghost shift = dividend_shift as int;
    proof {
        lem_dv_bounds(l, r, nl, nr, shift == 0, shift);
        lem_dv_value(l, r, nl, nr, shift);
    }
%% after /let res_units =/
    let ghost (n, g, top) = (res_intg_units as int, res_frac_units as int, res_start_idx as int);
    proof {
        assert(dv_ctx(l, r, nl, nr, shift, n, g, top, incr));
        lem_rng_zeros(res.lsu@, 0, 9);
        if top < 0 { lem_quot_zero(l, r, nl, nr, shift, n, g, top, incr); }
    }
%% before /let mut rem\b/
    proof { lem_short_first(l, r, nl, nr, shift, n, g, top, incr); assert(0 * rs[0] == 0); }
%% loop 3
    invariant
        *lhs == l, ls == l.lsu@, dv_ctx(l, r, nl, nr, shift, n, g, top, incr), nr == 0, nl == lhs_non_zero, d == rs[0], rs == r.lsu@,
        d > 0, top <= 8,
        -1 <= j <= top || j == top, i == nl + shift - (top - j),
        uok(res.lsu@, 0, 9), zeros(res.lsu@, 0, max2(0, j + 1)), zeros(res.lsu@, max2(0, top + 1), 9),
        0 <= rem < d, res.intg == 1, res.frac == 0,
        top >= 0 ==> pre(ls, nl + 1, nl - i) == rng(res.lsu@, j + 1, top + 1) * d + rem,
    decreases j + 1,
%% loop 3 begin
    let ghost (os, oj, oi, orem) = (res.lsu@, j as int, i as int, rem as int);
    proof {
        lem_pre_step(ls, nl + 1, nl - oi);
        let x = pre_unit(ls, nl + 1, nl - oi);
        assert(0 <= x < 1_000_000_000);
        lem_short_step(pre(ls, nl + 1, nl - oi), rng(os, oj + 1, top + 1), d as int, orem, x, (orem * 1_000_000_000 + x) / (d as int), orem * 1_000_000_000 + x - ((orem * 1_000_000_000 + x) / (d as int)) * d);
    }
%% loop 3 end
    proof {
        lem_rng_same(os, res.lsu@, oj + 1, top + 1);
        lem_rng_low(res.lsu@, oj, top + 1);
    }
%% loop 3 after
    proof {
        if top >= 0 {
            lem_rng_top(res.lsu@, 0, top + 1, 9);
            let k = top - shift + 1;
            lem_pre_shift(ls, nl + 1, k);
            let (a, c) = (g + fu(r), fu(l));
            assert(k == nl + 1 + a - c);
            lem_short_first(l, r, nl, nr, shift, n, g, top, incr);
            lem_quot(mag(l), mag(r), pre(ls, nl + 1, k), if a < c { rng(ls, 0, nl + 1 - k) } else { 0 }, a, c, rng(res.lsu@, 0, top + 1), rem as int);
        } else {
            lem_rng_zeros(res.lsu@, 0, 9);
        }
    }
%% before /return Ok/ #2
    proof { lem_div_end(l, r, nl, nr, shift, n, g, top, incr, *res); }

%% before /let norm_factor/
    proof {
        assert(rs[nr] + 1 > 0);
    }
%% before /if [^{]*\bnorm_factor\b/
    let ghost nf = norm_factor as int;
    let ghost start = n + g + nr;
    proof { lem_norm_factor(nf, rs[nr] as int, mag(r), nr); }
    proof {
        assert(buf1@.len() == 28 && buf2@.len() == 9);
        assert(zeros(buf1@, 0, 28) && zeros(buf2@, 0, 9));
    }
%% loop 4
    invariant
        *lhs == l, ls == l.lsu@, dv_ctx(l, r, nl, nr, shift, n, g, top, incr),
        norm_factor == nf, 1 <= nf <= 500_000_000, start == n + g + nr, nr <= 8, nl <= 8,
        __a1_0 == start, __a1_3 == 0, __n1 == nl + 1, 0 <= __k1 <= __n1,
        0 <= carry <= nf,
        uok(buf1@, 0, 28), zeros(buf1@, 0, start), zeros(buf1@, start + __k1, 28),
        rng(buf1@, start, start + __k1) + carry * pw(__k1 as int) == nf * rng(ls, 0, __k1 as int),
    decreases __n1 - __k1,
%% loop 4 begin
    let ghost (ws, wk, wc) = (buf1@, __k1 as int, carry as int);
    proof {
        let x = ls[wk] as int;
        assert(0 <= x < 1_000_000_000);
        assert(0 <= x * nf && x * nf + nf <= 1_000_000_000 * nf) by (nonlinear_arith) requires 0 <= x, x + 1 <= 1_000_000_000, nf >= 1;
    }
%% loop 4 end
    proof {
        lem_rng_same(ws, buf1@, start, start + wk);
        lem_norm_step(rng(ws, start, start + wk), wc, pw(wk), rng(ls, 0, wk), ls[wk] as int, nf, buf1@[start + wk] as int, carry as int);
    }
%% loop 4 after
    let ghost ws = buf1@;
%% before /let __a2_0/
    proof {
        lem_rng_same(ws, buf1@, start, start + nl + 1);
        lem_rng_top(buf1@, start, start + nl + 2, 28);
        assert(0 * pw(nl + 1) == 0);
        assert(carry == 0);
        assert(rng(buf1@, start, 28) == nf * mag(l));
        assert(0 * pw(0) == 0);
        assert(nf * 0 == 0);
    }
%% loop 5
    invariant
        *rhs == r, rs == r.lsu@, lead(r, nr), nr <= 8,
        norm_factor == nf, 1 <= nf <= 500_000_000,
        __a2_0 == 0, __a2_3 == 0, __n2 == nr + 1, 0 <= __k2 <= __n2,
        0 <= carry <= nf,
        uok(buf2@, 0, 9), zeros(buf2@, __k2 as int, 9),
        rng(buf2@, 0, __k2 as int) + carry * pw(__k2 as int) == nf * rng(rs, 0, __k2 as int),
    decreases __n2 - __k2,
%% loop 5 begin
    let ghost (vs0, wk, wc) = (buf2@, __k2 as int, carry as int);
    proof {
        let x = rs[wk] as int;
        assert(0 <= x < 1_000_000_000);
        assert(0 <= x * nf && x * nf + nf <= 1_000_000_000 * nf) by (nonlinear_arith) requires 0 <= x, x + 1 <= 1_000_000_000, nf >= 1;
    }
%% loop 5 end
    proof {
        lem_rng_same(vs0, buf2@, 0, wk);
        lem_norm_step(rng(vs0, 0, wk), wc, pw(wk), rng(rs, 0, wk), rs[wk] as int, nf, buf2@[wk] as int, carry as int);
    }
%% loop 5 after
    proof {
        lem_rng_bound(buf2@, 0, nr + 1);
        lem_pw_pos(nr + 1);
        let (c, p) = (carry as int, pw(nr + 1));
        assert(c == 0) by (nonlinear_arith) requires rng(buf2@, 0, nr + 1) + c * p < p, rng(buf2@, 0, nr + 1) >= 0, c >= 0, p >= 1;
        assert(0 * pw(nr + 1) == 0);
    }
%% before /let d0 =/
    let ghost (bs, vs) = (buf1@, buf2@);
    let ghost v = nf * mag(r);
    proof {
        if norm_factor == 1 {
            lem_rng_eq(ls, bs, 0, nl + 1, start);
            lem_rng_top(bs, start, start + nl + 1, 28);
            lem_rng_same(rs, vs, 0, nr + 1);
            assert(1 * mag(l) == mag(l));
            assert(1 * mag(r) == mag(r));
        }
        lem_lng_ctx(l, r, nl, nr, shift, n, g, top, incr, start, nf, bs, vs);
    }
%% loop 6
    invariant
        lng_ctx(l, r, nl, nr, shift, n, g, top, incr, start, nf, bs, vs, v),
        rhs_non_zero == nr, buf2@ == vs, d0 == vs[nr], d1 == vs[nr - 1],
        -1 <= j <= top || j == top, i == start + nl + shift - (top - j),
        top >= 0 ==> lng_inv(bs, buf1@, i + 1 - nr, rng(res.lsu@, j + 1, top + 1), v, nr),
        top <= 8, uok(res.lsu@, 0, 9), zeros(res.lsu@, 0, max2(0, j + 1)), zeros(res.lsu@, max2(0, top + 1), 9),
        res.intg == 1, res.frac == 0,
    decreases j + 1,
%% loop 6 begin
    let ghost (ws, b, os, oj) = (buf1@, i - nr, res.lsu@, j as int);
    let ghost x = rng(ws, b, b + nr + 2);
    proof { lem_lng_window(bs, ws, b, rng(os, oj + 1, top + 1), vs, v, nr); }
%% before /let mut rhat =/
    proof {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u as int, d0 as int);
        assert(d0 * qhat == qhat * d0) by (nonlinear_arith);
        assert(u as int == u0 * 1_000_000_000 + u1);
    }
%% loop 7 before
    proof {
        lem_qh_init(ws, b, vs, nr, x, v, u0 as int, u1 as int, u2 as int, d0 as int, d1 as int, qhat as int, rhat as int);
        lem_qh_range(qhat as int, d1 as int, rhat as int, u2 as int);
    }
%% loop 7
    invariant
        qh_ctx(ws, b, vs, nr, x, v, u0 as int, u1 as int, u2 as int, d0 as int, d1 as int),
        0 <= qhat <= 2_000_000_000, 0 <= rhat < 2_000_000_000, qhat * d0 + rhat == u0 * 1_000_000_000 + u1,
        x < (qhat + 1) * v, 0 <= qhat * d1 <= 2_000_000_000_000_000_000,
    decreases qhat,
%% loop 7 begin
    proof { lem_qh_step(ws, b, vs, nr, x, v, u0 as int, u1 as int, u2 as int, d0 as int, d1 as int, qhat as int, rhat as int); }
%% loop 7 end
    proof { lem_qh_range(qhat as int, d1 as int, rhat as int, u2 as int); }
%% loop 7 after
    proof {
        lem_qh_end(ws, b, vs, nr, x, v, u0 as int, u1 as int, u2 as int, d0 as int, d1 as int, qhat as int, rhat as int);
        assert(qhat * 0 == 0);
    }
    let ghost q1 = qhat as int;
%% loop 8
    invariant
        rhs_non_zero == nr, 1 <= nr <= 8, buf2@ == vs, uok(vs, 0, 9), q1 == qhat, 0 <= qhat < 1_000_000_000,
        0 <= k <= nr + 1, ms_idx == b + k, 0 <= b, b + nr + 2 <= 28,
        uok(buf1@, 0, 28), uok(ws, 0, 28), ws.len() == 28,
        forall|m: int| 0 <= m < b || b + k <= m < 28 ==> #[trigger] buf1@[m] == ws[m],
        0 <= carry < 1_000_000_000, -1 <= borrow <= 0,
        rng(buf1@, b, b + k) + (borrow - carry) * pw(k as int) == rng(ws, b, b + k) - q1 * rng(vs, 0, k as int),
    decreases nr + 1 - k,
%% loop 8 begin
    let ghost (ts, ok, oc, ob) = (buf1@, k as int, carry as int, borrow as int);
    proof { lem_ms_range(q1, vs[ok] as int, oc); }
%% loop 8 end
    proof {
        lem_rng_same(ts, buf1@, b, b + ok);
        lem_ms_step(rng(ts, b, b + ok), ob, oc, pw(ok), rng(ws, b, b + ok), q1, rng(vs, 0, ok), ws[b + ok] as int, vs[ok] as int, mul_v0 as int, carry as int, buf1@[b + ok] as int, borrow as int);
    }
%% before /borrow (\+=|=)[^;]*\bbuf1\b/
    let ghost (bo, ca) = (borrow as int, carry as int);
%% after /borrow (\+=|=)[^;]*\bbuf1\b/
    let ghost rs1 = rng(buf1@, b, b + nr + 1);
    let ghost ts = buf1@;
    proof {
        lem_rng_bound(ts, b, b + nr + 1);
        assert(x == rng(ws, b, b + nr + 1) + ws[b + nr + 1] * pw(nr + 1));
        let p = pw(nr + 1);
        let (u0, wr) = (ws[b + nr + 1] as int, rng(ws, b, b + nr + 1));
        assert(rs1 + borrow * p == x - q1 * v) by (nonlinear_arith)
            requires x == wr + u0 * p, borrow == bo + u0 - ca, rs1 + (bo - ca) * p == wr - q1 * v;
        lem_ms_end(x, q1, v, rs1, borrow as int, p);
        assert((q1 - 1) * v == q1 * v - v) by (nonlinear_arith);
    }
%% loop 9
    invariant
        rhs_non_zero == nr, 1 <= nr <= 8, buf2@ == vs, uok(vs, 0, 9), i == b + nr,
        0 <= __k3 <= nr + 1, __e3 == nr, 0 <= b, b + nr + 2 <= 28,
        uok(buf1@, 0, 28), uok(ts, 0, 28), ts.len() == 28,
        forall|m: int| 0 <= m < b || b + __k3 <= m < 28 ==> #[trigger] buf1@[m] == ts[m],
        0 <= carry <= 1,
        rng(buf1@, b, b + __k3) + carry * pw(__k3 as int) == rng(ts, b, b + __k3) + rng(vs, 0, __k3 as int),
    decreases nr + 1 - __k3,
%% loop 9 begin
    let ghost (as_, ok, oc) = (buf1@, __k3 as int, carry as int);
%% loop 9 end
    proof {
        lem_rng_same(as_, buf1@, b, b + ok);
        lem_add_col(rng(as_, b, b + ok), oc, rng(ts, b, b + ok), rng(vs, 0, ok), ts[b + ok] as int, vs[ok] as int, buf1@[b + ok] as int, carry as int, pw(ok));
    }
%% loop 9 after
    proof {
        lem_rng_bound(buf1@, b, b + nr + 1);
        lem_ab_end(x - q1 * v, v, rs1, pw(nr + 1), rng(buf1@, b, b + nr + 1), carry as int);
    }
%% before /buf1 \[ ms_idx as usize \] = 0/
    let ghost rs2 = buf1@;
%% loop 6 end
    proof {
        lem_rng_same(rs2, buf1@, b, b + nr + 1);
        lem_rng_top(buf1@, b, b + nr + 1, 28);
        lem_rng_bound(buf1@, b, 28);
        lem_long_step(bs, ws, b, 28, rng(os, oj + 1, top + 1), v, qhat as int, rng(buf1@, b, 28));
        lem_rng_same(os, res.lsu@, oj + 1, top + 1);
        lem_rng_low(res.lsu@, oj, top + 1);
    }
%% loop 6 after
    proof {
        if top >= 0 {
            lem_rng_top(res.lsu@, 0, top + 1, 9);
            lem_lng_end(l, r, nl, nr, shift, n, g, top, incr, start, nf, bs, vs, buf1@, i + 1 - nr, rng(res.lsu@, 0, top + 1));
        } else {
            lem_rng_zeros(res.lsu@, 0, 9);
        }
    }
%% exit tail
    proof { lem_div_end(l, r, nl, nr, shift, n, g, top, incr, *res); }

%% fn FixedDecimal::div_to ret=result lemmas=div_spec
    requires wf(*lhs), wf(*rhs),
    ensures div_post(*lhs, *rhs, *final(res), incr_frac as int, result),
%% entry
    proof { lem_mag_zero(*lhs); lem_mag_zero(*rhs); lem_zero_dec(); lem_incr(*lhs, *rhs, incr_frac as int);
        if mag(*lhs) == 0 && mag(*rhs) != 0 { lem_no_dividend(*lhs, *rhs); } }
%% exits
    proof { if zeros(res.lsu@, 0, 9) { lem_rng_zeros(res.lsu@, 0, 9); } }
