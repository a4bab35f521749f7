%% fn rem_abs loops=11 lemmas=rem_spec ret=result rlimit=400
    requires wf(*lhs), wf(*rhs),
    ensures rem_abs_post(*lhs, *rhs, *final(res), result),
%% entry
    let ghost (l, r) = (*lhs, *rhs);
    let ghost (ls, rs) = (lhs.lsu@, rhs.lsu@);
    let ghost f = cf(l, r);
    proof { lem_mag_zero(l); lem_mag_zero(r); lem_zero_dec();
        assert(rx(l, r) == low(ls, iu(l) + fu(l), f - fu(l)) && ry(l, r) == low(rs, iu(r) + fu(r), f - fu(r))) by { lem_cmp(l, r); }
    }
%% loop 1
    invariant_except_break
        -1 <= rhs_non_zero < iu(r) + fu(r), zeros(rs, rhs_non_zero + 1, 9),
    invariant *rhs == r, rs == r.lsu@, wf(r),
    ensures
        -1 <= rhs_non_zero < iu(r) + fu(r), zeros(rs, rhs_non_zero + 1, 9), rhs_non_zero >= 0 ==> rs[rhs_non_zero as int] > 0,
    decreases rhs_non_zero + 1,
%% loop 2
    invariant_except_break
        -1 <= lhs_non_zero < iu(l) + fu(l), zeros(ls, lhs_non_zero + 1, 9),
    invariant *lhs == l, ls == l.lsu@, wf(l),
    ensures
        -1 <= lhs_non_zero < iu(l) + fu(l), zeros(ls, lhs_non_zero + 1, 9), lhs_non_zero >= 0 ==> ls[lhs_non_zero as int] > 0,
    decreases lhs_non_zero + 1,
%% before /return Ok/ #1
    proof {
        lem_rng_zeros(ls, 0, 9);
        lem_rem_zero_case(l, r, rhs_non_zero as int, *res);
    }
%% loop 2 after
    let ghost (nl, nr) = (lhs_non_zero as int, rhs_non_zero as int);
%% before /match cmp_abs_lsu/ | loop 2 after
    proof {
        if nl >= 0 {
            assert(lead(l, nl) && lead(r, nr));
            assert(rng(ls, 0, nl + 1) == mag(l) && rng(rs, 0, nr + 1) == mag(r)) by { lem_lead(l, nl); lem_lead(r, nr); }
            assert(lhs.lsu@.subrange(0, 9) =~= ls);
            assert(rhs.lsu@.subrange(0, 9) =~= rs);
            assert(rx(l, r) == ry(l, r) ==> rem_abs_post(l, r, *res, Ok(()))) by {
                lem_rng_zeros(res.lsu@, 0, 9);
                if rx(l, r) == ry(l, r) { lem_rem_zero_case(l, r, nr, *res); }
            }
            assert(rx(l, r) < ry(l, r) && fu(l) < fu(r) ==> nl + fu(r) - fu(l) < 9) by {
                if rx(l, r) < ry(l, r) { lem_rem_less(l, r, nl, nr); }
            }
        }
    }
%% before /return Ok/ #2
    proof {
        let e = fu(r) - fu(l);
        lem_rem_less(l, r, nl, nr);
        lem_rng_eq(ls, res.lsu@, 0, nl + 1, e);
        lem_rng_top(res.lsu@, 0, nl + 1 + e, 9);
        lem_rng_bottom(res.lsu@, 0, e, nl + 1 + e);
        assert(mag(l) * pw(e) == pw(e) * mag(l)) by (nonlinear_arith);
        lem_rem_copy(l, r, nl, nr, *res);
    }
%% before /return Ok/ #3
    proof {
        lem_rem_less(l, r, nl, nr);
        lem_rng_eq(ls, res.lsu@, 0, iu(l) + fu(l), 0);
        lem_rng_top(res.lsu@, 0, iu(l) + fu(l), 9);
        lem_rng_top(ls, 0, iu(l) + fu(l), 9);
        lem_rem_copy(l, r, nl, nr, *res);
    }
%% before /let dividend_shift/
    proof {
        assert(lhs.lsu@.subrange(0, nl + 1) =~= ls.subrange(0, nl + 1));
        lem_rng_eq(ls.subrange(0, nl + 1), ls, 0, nl + 1, 0);
        lem_rng_eq(rs.subrange(0, nr + 1), rs, 0, nr + 1, 0);
    }
%% before /if rhs_non_zero == 0/ | before /if [^{]*\brhs_non_zero\b/ #3
    let ghost (shift, ol, or) = (dividend_shift as int, lhs_shift_units as int, rhs_shift_units as int);
    proof {
        assert(rem_ctx(l, r, nl, nr, shift, ol, or)) by {
            lem_dv_bounds(l, r, nl, nr, shift == 0, shift);
            lem_rem_ctx(l, r, nl, nr, shift, ol, or);
        }
    }
%% before /let mut rem\b/
    let ghost bs = buf@;
    proof {
        assert(rng(bs, 0, 18) == rx(l, r)) by {
            lem_pw_pos(ol);
            assert(mag(l) * pw(ol) == pw(ol) * mag(l)) by (nonlinear_arith);
            lem_rng_eq(ls, bs, 0, nl + 1, ol);
            lem_rng_top(bs, 0, nl + 1 + ol, 18);
            lem_rng_bottom(bs, 0, ol, nl + 1 + ol);
        }
        lem_rem_short_first(l, r, nl, nr, shift, ol, or);
    }
%% loop 3 before
    let ghost mut q: int = 0;
    proof {
        assert(0 * d == 0);
        assert(rng(bs, i + 1, 18) == rem) by {
            lem_rng_zeros(bs, nl + 1 + ol, 18);
            if shift == -1 {
                lem_rng_low(bs, nl + ol, 18);
            }
        }
    }
%% loop 3
    invariant
        rem_ctx(l, r, nl, nr, shift, ol, or), nr == 0, rs == r.lsu@, d == rs[0], d > 0,
        buf@ == bs, bs.len() == 18, uok(bs, 0, 18), stop == or, or - 1 <= i <= nl + ol, 
        rng(bs, i + 1, 18) == q * d + rem, 0 <= rem < d, d < 1_000_000_000,
    decreases i + 1,
%% loop 3 begin
    let ghost (oi, orem, oq) = (i as int, rem as int, q);
    proof {
        lem_rng_low(bs, oi, 18);
        let x = bs[oi] as int;
        assert(0 <= x < 1_000_000_000);
        q = (orem * 1_000_000_000 + x) / (d as int) + 1_000_000_000 * oq;
        lem_short_step(rng(bs, oi + 1, 18), oq, d as int, orem, x, (orem * 1_000_000_000 + x) / (d as int), orem * 1_000_000_000 + x - ((orem * 1_000_000_000 + x) / (d as int)) * d);
    }
%% loop 4 before
    let ghost rem0 = rem as int;
    proof {
        assert(i == or - 1);
        assert(res.lsu@[or] == rem0);
        assert(rng(res.lsu@, or, 9) == rem0) by {
            lem_rng_low(res.lsu@, or, 9);
            lem_rng_zeros(res.lsu@, or + 1, 9);
        }
        assert(rng(bs, or, or) == 0);
        assert(pw(0) * rem0 == rem0) by { assert(pw(0) == 1); }
    }
%% loop 4
    invariant
        0 <= or <= 4, -1 <= i <= or - 1, buf@ == bs, bs.len() == 18, uok(bs, 0, 18), 0 <= rem0 < 1_000_000_000,
        uok(res.lsu@, 0, 9), zeros(res.lsu@, or + 1, 9), res.lsu@[or] == rem0,
        rng(res.lsu@, i + 1, 9) == rng(bs, i + 1, or) + pw(or - i - 1) * rem0,
        -1 <= res_non_zero < 9, res_non_zero >= 0 ==> res_non_zero > i && res.lsu@[res_non_zero as int] > 0 && zeros(res.lsu@, res_non_zero + 1, 9),
        res_non_zero < 0 ==> zeros(res.lsu@, i + 1, 9),
        res.intg == 1, res.frac == 0,
    decreases i + 1,
%% loop 4 begin
    let ghost (os, oi) = (res.lsu@, i as int);
%% loop 4 end
    proof {
        lem_rng_same(os, res.lsu@, oi + 1, 9);
        lem_rng_low(res.lsu@, oi, 9);
        lem_rng_low(bs, oi, or);
        let (a, b) = (pw(or - oi - 1), rng(bs, oi + 1, or));
        assert(pw(or - oi) == 1_000_000_000 * a);
        assert(1_000_000_000 * (b + a * rem0) == 1_000_000_000 * b + (1_000_000_000 * a) * rem0) by (nonlinear_arith);
    }
%% loop 4 after
    proof { lem_rem_short(l, r, nl, nr, shift, ol, or, bs, q, rem0, res.lsu@); }
%% before /return Ok/ #4
    proof { lem_rem_end(l, r, q, *res, res_non_zero as int); }

%% before /let norm_factor/
    proof {
        assert(rs[nr] + 1 > 0);
    }
%% before /if [^{]*\bnorm_factor\b/
    let ghost nf = norm_factor as int;
    let ghost n = nr + or;
    proof { assert(mag(r) < (rs[nr] + 1) * pw(nr)) by { lem_lead(r, nr); } lem_norm_factor(nf, rs[nr] as int, mag(r), nr); }
    proof {
        assert(buf1@.len() == 18 && buf2@.len() == 18);
        assert(zeros(buf1@, 0, 18) && zeros(buf2@, 0, 18));
    }
%% loop 5 before
    proof {
        assert(0 * pw(0) == 0);
        assert(nf * 0 == 0);
    }
%% loop 5
    invariant
        *lhs == l, ls == l.lsu@, rem_ctx(l, r, nl, nr, shift, ol, or), lhs_non_zero == nl, lhs_shift_units == ol,
        norm_factor == nf, 1 <= nf <= 500_000_000,
        0 <= i <= nl + 1,
        0 <= carry <= nf,
        uok(buf1@, 0, 18), buf1@.len() == 18, zeros(buf1@, 0, ol), zeros(buf1@, ol + i, 18),
        rng(buf1@, ol, ol + i) + carry * pw(i as int) == nf * rng(ls, 0, i as int),
    decreases nl + 1 - i,
%% loop 5 begin
    let ghost (ws, wk, wc) = (buf1@, i as int, carry as int);
    proof {
        let x = ls[wk] as int;
        assert(0 <= x < 1_000_000_000);
        assert(0 <= x * nf && x * nf + nf <= 1_000_000_000 * nf) by (nonlinear_arith) requires 0 <= x, x + 1 <= 1_000_000_000, nf >= 1;
    }
%% loop 5 end
    proof {
        lem_rng_same(ws, buf1@, ol, ol + wk);
        lem_norm_step(rng(ws, ol, ol + wk), wc, pw(wk), rng(ls, 0, wk), ls[wk] as int, nf, buf1@[ol + wk] as int, carry as int);
    }
%% loop 5 after
    let ghost ws = buf1@;
%% loop 6 before
    proof {
        assert(carry == 0);
        assert(rng(buf1@, ol, 18) == nf * mag(l)) by {
            lem_rng_same(ws, buf1@, ol, ol + nl + 1);
            lem_rng_top(buf1@, ol, ol + nl + 2, 18);
            assert(0 * pw(nl + 1) == 0);
        }
        assert(0 * pw(0) == 0);
        assert(nf * 0 == 0);
    }
%% loop 6
    invariant
        *rhs == r, rs == r.lsu@, rem_ctx(l, r, nl, nr, shift, ol, or), rhs_non_zero == nr, rhs_shift_units == or,
        norm_factor == nf, 1 <= nf <= 500_000_000,
        0 <= i <= nr + 1,
        0 <= carry <= nf,
        uok(buf2@, 0, 18), buf2@.len() == 18, zeros(buf2@, 0, or), zeros(buf2@, or + i, 18),
        rng(buf2@, or, or + i) + carry * pw(i as int) == nf * rng(rs, 0, i as int),
    decreases nr + 1 - i,
%% loop 6 begin
    let ghost (vs0, wk, wc) = (buf2@, i as int, carry as int);
    proof {
        let x = rs[wk] as int;
        assert(0 <= x < 1_000_000_000);
        assert(0 <= x * nf && x * nf + nf <= 1_000_000_000 * nf) by (nonlinear_arith) requires 0 <= x, x + 1 <= 1_000_000_000, nf >= 1;
    }
%% loop 6 end
    proof {
        lem_rng_same(vs0, buf2@, or, or + wk);
        lem_norm_step(rng(vs0, or, or + wk), wc, pw(wk), rng(rs, 0, wk), rs[wk] as int, nf, buf2@[or + wk] as int, carry as int);
    }
%% loop 6 after
    proof {
        assert(carry == 0 && rng(buf2@, or, or + nr + 1) == nf * mag(r)) by {
            lem_rng_bound(buf2@, or, or + nr + 1);
            lem_pw_pos(nr + 1);
            let (c, p) = (carry as int, pw(nr + 1));
            assert(c == 0) by (nonlinear_arith) requires rng(buf2@, or, or + nr + 1) + c * p < p, rng(buf2@, or, or + nr + 1) >= 0, c >= 0, p >= 1;
            assert(0 * pw(nr + 1) == 0);
        }
    }
%% before /let stop = buf2_len - 1/
    let ghost (bs, vs) = (buf1@, buf2@);
    let ghost v = nf * ry(l, r);
    let ghost mut qp: int = 0;
    proof {
        assert(rlg_ctx(l, r, nl, nr, shift, ol, or, nf, bs, vs, v, n) && lng_inv(bs, bs, nl + 1 + ol + shift - n, 0, v, n)) by {
            if norm_factor == 1 {
                lem_rng_eq(ls, bs, 0, nl + 1, ol);
                lem_rng_top(bs, ol, ol + nl + 1, 18);
                lem_rng_eq(rs, vs, 0, nr + 1, or);
                assert(1 * mag(l) == mag(l));
                assert(1 * mag(r) == mag(r));
            }
            lem_rlg_ctx(l, r, nl, nr, shift, ol, or, nf, bs, vs, n);
        }
    }
%% loop 7
    invariant
        rlg_ctx(l, r, nl, nr, shift, ol, or, nf, bs, vs, v, n),
        buf2_len == n + 1, stop == n, buf2@ == vs, d0 == vs[n], d1 == vs[n - 1],
        n - 1 <= i <= nl + ol,
        lng_inv(bs, buf1@, i + 1 - n, qp, v, n),
    decreases i + 1,
%% loop 7 begin
    let ghost (ws, b, oq) = (buf1@, i - n, qp);
    let ghost x = rng(ws, b, b + n + 2);
    proof { lem_lng_window(bs, ws, b, oq, vs, v, n); }
%% before /let mut rhat =/
    proof {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u as int, d0 as int);
        assert(d0 * qhat == qhat * d0) by (nonlinear_arith);
        assert(u as int == u0 * 1_000_000_000 + u1);
    }
%% loop 8 before
    proof {
        lem_qh_init(ws, b, vs, n, x, v, u0 as int, u1 as int, u2 as int, d0 as int, d1 as int, qhat as int, rhat as int);
        lem_qh_range(qhat as int, d1 as int, rhat as int, u2 as int);
    }
%% loop 8
    invariant
        qh_ctx(ws, b, vs, n, x, v, u0 as int, u1 as int, u2 as int, d0 as int, d1 as int),
        0 <= qhat <= 2_000_000_000, 0 <= rhat < 2_000_000_000, qhat * d0 + rhat == u0 * 1_000_000_000 + u1,
        x < (qhat + 1) * v, 0 <= qhat * d1 <= 2_000_000_000_000_000_000,
    decreases qhat,
%% loop 8 begin
    proof { lem_qh_step(ws, b, vs, n, x, v, u0 as int, u1 as int, u2 as int, d0 as int, d1 as int, qhat as int, rhat as int); }
%% loop 8 end
    proof { lem_qh_range(qhat as int, d1 as int, rhat as int, u2 as int); }
%% loop 8 after
    proof {
        lem_qh_end(ws, b, vs, n, x, v, u0 as int, u1 as int, u2 as int, d0 as int, d1 as int, qhat as int, rhat as int);
        assert(qhat * 0 == 0);
    }
    let ghost q1 = qhat as int;
%% loop 9
    invariant
        1 <= n <= 16, buf2@ == vs, uok(vs, 0, 18), vs.len() == 18, q1 == qhat, 0 <= qhat < 1_000_000_000,
        __a1_0 == b, __a1_3 == 0, __n1 == n + 1, 0 <= __k1 <= __n1,
        0 <= b, b + n + 2 <= 18,
        uok(buf1@, 0, 18), uok(ws, 0, 18), ws.len() == 18,
        forall|m: int| 0 <= m < b || b + __k1 <= m < 18 ==> #[trigger] buf1@[m] == ws[m],
        0 <= carry < 1_000_000_000, -1 <= borrow <= 0,
        rng(buf1@, b, b + __k1) + (borrow - carry) * pw(__k1 as int) == rng(ws, b, b + __k1) - q1 * rng(vs, 0, __k1 as int),
    decreases __n1 - __k1,
%% loop 9 begin
    let ghost (ts, ok, oc, ob) = (buf1@, __k1 as int, carry as int, borrow as int);
    proof { lem_ms_range(q1, vs[ok] as int, oc); }
%% loop 9 end
    proof {
        lem_rng_same(ts, buf1@, b, b + ok);
        lem_ms_step(rng(ts, b, b + ok), ob, oc, pw(ok), rng(ws, b, b + ok), q1, rng(vs, 0, ok), ws[b + ok] as int, vs[ok] as int, mul_v0 as int, carry as int, buf1@[b + ok] as int, borrow as int);
    }
%% before /borrow (\+=|=)[^;]*\bbuf1\b/
    let ghost (bo, ca) = (borrow as int, carry as int);
%% after /borrow (\+=|=)[^;]*\bbuf1\b/
    let ghost rs1 = rng(buf1@, b, b + n + 1);
    let ghost ts = buf1@;
    let ghost mut qq = q1;
    proof {
        lem_rng_bound(ts, b, b + n + 1);
        assert(x == rng(ws, b, b + n + 1) + ws[b + n + 1] * pw(n + 1));
        let p = pw(n + 1);
        let (u0, wr) = (ws[b + n + 1] as int, rng(ws, b, b + n + 1));
        assert(rs1 + borrow * p == x - q1 * v) by (nonlinear_arith)
            requires x == wr + u0 * p, borrow == bo + u0 - ca, rs1 + (bo - ca) * p == wr - q1 * v;
        lem_ms_end(x, q1, v, rs1, borrow as int, p);
        assert((q1 - 1) * v == q1 * v - v) by (nonlinear_arith);
    }
%% loop 10
    invariant
        1 <= n <= 16, buf2@ == vs, uok(vs, 0, 18), vs.len() == 18, 
        __a2_0 == b, __a2_3 == 0, __n2 == n + 1, 0 <= __k2 <= __n2,
        0 <= b, b + n + 2 <= 18,
        uok(buf1@, 0, 18), uok(ts, 0, 18), ts.len() == 18,
        forall|m: int| 0 <= m < b || b + __k2 <= m < 18 ==> #[trigger] buf1@[m] == ts[m],
        0 <= carry <= 1,
        rng(buf1@, b, b + __k2) + carry * pw(__k2 as int) == rng(ts, b, b + __k2) + rng(vs, 0, __k2 as int),
    decreases __n2 - __k2,
%% loop 10 begin
    let ghost (as_, ok, oc) = (buf1@, __k2 as int, carry as int);
%% loop 10 end
    proof {
        lem_rng_same(as_, buf1@, b, b + ok);
        lem_add_col(rng(as_, b, b + ok), oc, rng(ts, b, b + ok), rng(vs, 0, ok), ts[b + ok] as int, vs[ok] as int, buf1@[b + ok] as int, carry as int, pw(ok));
    }
%% loop 10 after
    proof {
        lem_rng_bound(buf1@, b, b + n + 1);
        lem_ab_end(x - q1 * v, v, rs1, pw(n + 1), rng(buf1@, b, b + n + 1), carry as int);
        qq = q1 - 1;
    }
%% before /buf1 \[ \( i \+ 1 \) as usize \] = 0/
    let ghost rs2 = buf1@;
%% loop 7 end
    proof {
        qp = qq + 1_000_000_000 * oq;
        lem_rng_same(rs2, buf1@, b, b + n + 1);
        lem_rng_top(buf1@, b, b + n + 1, 18);
        lem_rng_bound(buf1@, b, 18);
        lem_long_step(bs, ws, b, 18, oq, v, qq, rng(buf1@, b, 18));
    }
%% loop 7 after
    let ghost m = rx(l, r) - qp * ry(l, r);
    let ghost fs = buf1@;
    let ghost e = nl + 1 + ol;
    proof {
        assert(rng(fs, 0, e) == nf * m && 0 <= m < ry(l, r) && m < pw(9) && zeros(fs, e, 18)) by {
            lem_rlg_end(l, r, nl, nr, shift, ol, or, nf, bs, vs, n, fs, qp, m);
            lem_rng_top(fs, 0, e, 18);
        }
    }
%% loop 11 before
    let ghost mut t: int = 0;
    proof {
        assert(0 * nf == 0);
        assert(rng(res.lsu@, min2(e, 9), 9) == 0) by { lem_rng_zeros(res.lsu@, min2(e, 9), 9); }
    }
%% loop 11
    invariant
        buf1@ == fs, fs.len() == 18, uok(fs, 0, 18), e <= 18, rng(fs, 0, e) == nf * m, 0 <= m < pw(9), norm_factor == nf, 1 <= nf <= 500_000_000,
        0 <= i <= e, 0 <= rem < nf, rng(fs, i as int, e) == t * nf + rem,
        i >= 9 ==> t == 0, i < 9 ==> t == rng(res.lsu@, i as int, 9), zeros(res.lsu@, 0, min2(i as int, 9)), uok(res.lsu@, 0, 9),
        -1 <= res_non_zero < 9, res_non_zero >= 0 ==> res_non_zero >= i && res.lsu@[res_non_zero as int] > 0 && zeros(res.lsu@, res_non_zero + 1, 9),
        res_non_zero < 0 ==> zeros(res.lsu@, 0, 9), 
        res.intg == 1, res.frac == 0,
    decreases i,
%% loop 11 begin
    let ghost (os, oi, ot, orem) = (res.lsu@, i - 1, t, rem as int);
    proof {
        lem_rng_low(fs, oi, e);
        let x = fs[oi] as int;
        assert(0 <= x < 1_000_000_000);
        let u = orem * 1_000_000_000 + x;
        let q = u / nf;
        lem_short_step(rng(fs, oi + 1, e), ot, nf, orem, x, q, u - q * nf);
        if u == 0 { lem_div_unique(0, nf, 0, 0); }
        t = q + 1_000_000_000 * ot;
        if oi >= 9 { lem_unnorm_high(fs, oi, e, nf, m, t, u - q * nf); } else {
            lem_rng_low(os, oi, 9);
            assert(os[oi] == 0);
            if oi == 8 { assert(rng(os, 9, 9) == 0); }
        }
    }
%% before /if [^{]*\bq\b/
    proof { if oi < 9 {
        let ns = os.update(oi, q as i32);
        lem_rng_same(os, ns, oi + 1, 9);
        lem_rng_low(ns, oi, 9);
        if q == 0 { assert(ns =~= os); }
    } }
%% loop 11 after
    proof { lem_unnorm_end(rng(fs, 0, e), nf, m, t, rem as int); }
%% exit tail
    proof { lem_rem_end(l, r, qp, *res, res_non_zero as int); }

%% fn FixedDecimal::rem_to ret=result lemmas=rem_spec
    requires wf(*lhs), wf(*rhs),
    ensures rem_post(*lhs, *rhs, *final(res), result),
%% entry
    proof { lem_mag_zero(*lhs); lem_mag_zero(*rhs); lem_zero_dec(); }
%% exits
    proof { lem_rem_any(*lhs, *rhs, *res); }
