%% fn add_with_carry
    requires 0 <= a < 1_000_000_000, 0 <= b < 1_000_000_000, 0 <= carry <= 1,
    ensures 0 <= r.0 < 1_000_000_000, 0 <= r.1 <= 1, a + b + carry == r.0 + r.1 * 1_000_000_000,

%% fn sub_with_borrow
    requires 0 <= a < 1_000_000_000, 0 <= b < 1_000_000_000, -1 <= borrow <= 0,
    ensures 0 <= r.0 < 1_000_000_000, -1 <= r.1 <= 0, a - b + borrow == r.0 + r.1 * 1_000_000_000,

%% fn add_abs loops=4 lemmas=arith_spec ret=result rlimit=60
    requires wf(*lhs), wf(*rhs),
    ensures add_abs_post(*lhs, *rhs, *final(res), result),
%% entry
    let ghost (l, r) = (*lhs, *rhs);
    let ghost (ls, rs) = (lhs.lsu@, rhs.lsu@);
    let ghost f = cf(l, r);
    let ghost (ol, or) = (f - fu(l), f - fu(r));
    let ghost top = ci(l, r) + f;
    proof {
        lem_pw_small();
        lem_rng_top(ls, 0, iu(l) + fu(l), 9);
        lem_rng_top(rs, 0, iu(r) + fu(r), 9);
    }
%% before /let mut stop =/
    proof {
        assert(lhs_idx == res_idx - ol && rhs_idx == res_idx - or);
        if res_idx == ol { lem_al_zero(ls, ol, ol); } else { lem_al_zero(rs, or, or); }
        if ol > 0 { lem_rng_same(rs, res.lsu@, 0, ol); lem_al_zero(ls, ol, ol); }
        else { lem_rng_same(ls, res.lsu@, 0, or); lem_al_zero(rs, or, or); }
        assert(1 * rng(rs, 0, ol) == rng(rs, 0, ol));
        assert(1 * rng(ls, 0, or) == rng(ls, 0, or));
    }
%% loop 1
    invariant
        *lhs == l, *rhs == r, col_ctx(l, r, ls, rs, f, ol, or, top),
        0 <= lhs_idx == res_idx - ol, 0 <= rhs_idx == res_idx - or, res_idx <= stop, stop <= top,
        0 <= carry <= 1,
        uok(res.lsu@, 0, 9), zeros(res.lsu@, res_idx as int, 9),
        rng(res.lsu@, 0, res_idx as int) + carry * pw(res_idx as int) == al(ls, ol, res_idx as int) + al(rs, or, res_idx as int),
    decreases stop - res_idx,
%% loop 1 begin
    let ghost (os, oi, oc) = (res.lsu@, res_idx as int, carry as int);
    assert(0 <= ls[lhs_idx as int] < 1_000_000_000 && 0 <= rs[rhs_idx as int] < 1_000_000_000);
%% loop 1 end
    proof {
        lem_rng_same(os, res.lsu@, 0, oi);
        lem_al_step(ls, ol, oi);
        lem_al_step(rs, or, oi);
        lem_add_col(rng(os, 0, oi), oc, al(ls, ol, oi), al(rs, or, oi), ls[oi - ol] as int, rs[oi - or] as int, res.lsu@[oi] as int, carry as int, pw(oi));
        assert(rng(res.lsu@, 0, oi + 1) == rng(res.lsu@, 0, oi) + res.lsu@[oi] * pw(oi));
    }
%% loop 2
    invariant
        *lhs == l, *rhs == r, col_ctx(l, r, ls, rs, f, ol, or, top),
        iu(r) < iu(l),
        0 <= lhs_idx == res_idx - ol, stop == iu(l) + fu(l), lhs_idx <= stop, res_idx >= iu(r) + fu(r) + or,
        0 <= carry <= 1,
        uok(res.lsu@, 0, 9), zeros(res.lsu@, res_idx as int, 9),
        rng(res.lsu@, 0, res_idx as int) + carry * pw(res_idx as int) == al(ls, ol, res_idx as int) + al(rs, or, res_idx as int),
    decreases stop - lhs_idx,
%% loop 2 begin
    let ghost (os, oi, oc) = (res.lsu@, res_idx as int, carry as int);
    assert(0 <= ls[lhs_idx as int] < 1_000_000_000 && rs[oi - or] == 0);
%% loop 2 end
    proof {
        lem_rng_same(os, res.lsu@, 0, oi);
        lem_al_step(ls, ol, oi);
        lem_al_step(rs, or, oi);
        lem_add_col(rng(os, 0, oi), oc, al(ls, ol, oi), al(rs, or, oi), ls[oi - ol] as int, rs[oi - or] as int, res.lsu@[oi] as int, carry as int, pw(oi));
    }
%% loop 3
    invariant
        *lhs == l, *rhs == r, col_ctx(l, r, ls, rs, f, ol, or, top),
        iu(l) < iu(r),
        0 <= rhs_idx == res_idx - or, stop == iu(r) + fu(r), rhs_idx <= stop, res_idx >= iu(l) + fu(l) + ol,
        0 <= carry <= 1,
        uok(res.lsu@, 0, 9), zeros(res.lsu@, res_idx as int, 9),
        rng(res.lsu@, 0, res_idx as int) + carry * pw(res_idx as int) == al(ls, ol, res_idx as int) + al(rs, or, res_idx as int),
    decreases stop - rhs_idx,
%% loop 3 begin
    let ghost (os, oi, oc) = (res.lsu@, res_idx as int, carry as int);
    assert(0 <= rs[rhs_idx as int] < 1_000_000_000 && ls[oi - ol] == 0);
%% loop 3 end
    proof {
        lem_rng_same(os, res.lsu@, 0, oi);
        lem_al_step(ls, ol, oi);
        lem_al_step(rs, or, oi);
        lem_add_col(rng(os, 0, oi), oc, al(ls, ol, oi), al(rs, or, oi), ls[oi - ol] as int, rs[oi - or] as int, res.lsu@[oi] as int, carry as int, pw(oi));
    }
%% before /if [^{]*\bcarry\b/
    let ghost s = mags(l, f) + mags(r, f);
    proof {
        assert(res_idx == top);
        lem_rng_top(ls, 0, top - ol, 9);
        lem_rng_top(rs, 0, top - or, 9);
        lem_rng_same(ls, ls, 0, 9);
        assert(al(ls, ol, top) == mags(l, f) && al(rs, or, top) == mags(r, f)) by (nonlinear_arith)
            requires al(ls, ol, top) == pw(ol) * rng(ls, 0, top - ol), al(rs, or, top) == pw(or) * rng(rs, 0, top - or),
                rng(ls, 0, top - ol) == mag(l), rng(rs, 0, top - or) == mag(r), mags(l, f) == mag(l) * pw(ol), mags(r, f) == mag(r) * pw(or);
        lem_rng_bound(res.lsu@, 0, top);
        lem_rng_top(res.lsu@, 0, top, 9);
        lem_pw_pos(top);
        lem_scale(carry as int, pw(top));
        if carry > 0 {
            if top < 9 { lem_pw_mono(top + 1, 9); }
        } else {
            lem_pw_mono(top, 9);
        }
    }
    let ghost os = res.lsu@;
%% before /let mut res_intg_non_zero/
    proof {
        if carry > 0 {
            lem_rng_same(os, res.lsu@, 0, top);
            lem_rng_top(res.lsu@, 0, top + 1, 9);
        }
        assert(mag(*res) == s);
    }
%% loop 4
    invariant_except_break
        -1 <= res_intg_non_zero < ci(l, r) + carry, zeros(res.lsu@, res_intg_non_zero + 1 + f, 9),
    invariant
        col_ctx(l, r, ls, rs, f, ol, or, top), 0 <= carry <= 1,
        res.frac == max2(l.frac as int, r.frac as int), res_frac_units == f, carry == 0 || top < 9, uok(res.lsu@, 0, 9), mag(*res) == s,
    ensures
        -1 <= res_intg_non_zero < ci(l, r) + carry, zeros(res.lsu@, res_intg_non_zero + 1 + f, 9),
        res_intg_non_zero >= 0 ==> res.lsu@[res_intg_non_zero + f] > 0,
    decreases res_intg_non_zero + 1,
%% exit tail
    proof { lem_trim(*res, l, r, s, res_intg_non_zero + 1); lem_rng_bound(res.lsu@, 0, 9); }

%% fn sub_abs loops=6 lemmas=arith_spec ret=result rlimit=60
    requires wf(*lhs), wf(*rhs),
    ensures sub_abs_post(*lhs, *rhs, *final(res), result),
%% entry
    let ghost (l, r) = (*lhs, *rhs);
    let ghost (ls, rs) = (lhs.lsu@, rhs.lsu@);
    let ghost f = cf(l, r);
    let ghost (ol, or) = (f - fu(l), f - fu(r));
    let ghost top = ci(l, r) + f;
    proof {
        lem_pw_small();
        lem_rng_top(ls, 0, iu(l) + fu(l), 9);
        lem_rng_top(rs, 0, iu(r) + fu(r), 9);
    }
%% loop 1 before
    proof { lem_al_zero(ls, ol, 0); lem_al_zero(rs, or, 0); }
%% loop 1
    invariant
        *lhs == l, *rhs == r, col_ctx(l, r, ls, rs, f, ol, or, top), or == 0, ol > 0,
        __k1 <= __n1, __n1 == ol, frac_unit_diff == ol,
        lhs_idx == 0,
        -1 <= borrow <= 0,
        uok(res.lsu@, 0, 9), zeros(res.lsu@, __k1 as int, 9),
        rng(res.lsu@, 0, __k1 as int) + borrow * pw(__k1 as int) == al(ls, ol, __k1 as int) - al(rs, or, __k1 as int),
    decreases __n1 - __k1,
%% loop 1 begin
    let ghost (os, oi, oc) = (res.lsu@, __k1 as int, borrow as int);
    assert(0 <= rs[__k1 as int] < 1_000_000_000);
%% loop 1 end
    proof {
        lem_rng_same(os, res.lsu@, 0, oi);
        lem_al_step(rs, or, oi);
        lem_al_zero(ls, ol, oi);
        lem_al_zero(ls, ol, oi + 1);
        lem_sub_col(rng(os, 0, oi), oc, 0, al(rs, or, oi), 0, rs[oi - or] as int, res.lsu@[oi] as int, borrow as int, pw(oi));
    }
%% before /let mut stop =/
    proof {
        assert(lhs_idx == res_idx - ol && rhs_idx == res_idx - or);
        if ol == 0 {
            lem_rng_same(ls, res.lsu@, 0, or);
            lem_al_zero(rs, or, or);
            assert(1 * rng(ls, 0, or) == rng(ls, 0, or));
        }
    }
%% loop 2
    invariant
        *lhs == l, *rhs == r, col_ctx(l, r, ls, rs, f, ol, or, top),
        0 <= lhs_idx == res_idx - ol, 0 <= rhs_idx == res_idx - or, res_idx <= stop, stop <= top,
        -1 <= borrow <= 0,
        uok(res.lsu@, 0, 9), zeros(res.lsu@, res_idx as int, 9),
        rng(res.lsu@, 0, res_idx as int) + borrow * pw(res_idx as int) == al(ls, ol, res_idx as int) - al(rs, or, res_idx as int),
    decreases stop - res_idx,
%% loop 2 begin
    let ghost (os, oi, oc) = (res.lsu@, res_idx as int, borrow as int);
    assert(0 <= ls[lhs_idx as int] < 1_000_000_000 && 0 <= rs[rhs_idx as int] < 1_000_000_000);
%% loop 2 end
    proof {
        lem_rng_same(os, res.lsu@, 0, oi);
        lem_al_step(ls, ol, oi);
        lem_al_step(rs, or, oi);
        lem_sub_col(rng(os, 0, oi), oc, al(ls, ol, oi), al(rs, or, oi), ls[oi - ol] as int, rs[oi - or] as int, res.lsu@[oi] as int, borrow as int, pw(oi));
    }
%% loop 3
    invariant
        *lhs == l, *rhs == r, col_ctx(l, r, ls, rs, f, ol, or, top),
        iu(r) < iu(l),
        0 <= lhs_idx == res_idx - ol, stop == iu(l) + fu(l), lhs_idx <= stop, res_idx >= iu(r) + fu(r) + or,
        -1 <= borrow <= 0,
        uok(res.lsu@, 0, 9), zeros(res.lsu@, res_idx as int, 9),
        rng(res.lsu@, 0, res_idx as int) + borrow * pw(res_idx as int) == al(ls, ol, res_idx as int) - al(rs, or, res_idx as int),
    decreases stop - lhs_idx,
%% loop 3 begin
    let ghost (os, oi, oc) = (res.lsu@, res_idx as int, borrow as int);
    assert(0 <= ls[lhs_idx as int] < 1_000_000_000 && rs[oi - or] == 0);
%% loop 3 end
    proof {
        lem_rng_same(os, res.lsu@, 0, oi);
        lem_al_step(ls, ol, oi);
        lem_al_step(rs, or, oi);
        lem_sub_col(rng(os, 0, oi), oc, al(ls, ol, oi), al(rs, or, oi), ls[oi - ol] as int, rs[oi - or] as int, res.lsu@[oi] as int, borrow as int, pw(oi));
    }
%% loop 4
    invariant
        *lhs == l, *rhs == r, col_ctx(l, r, ls, rs, f, ol, or, top),
        iu(l) < iu(r),
        0 <= rhs_idx == res_idx - or, stop == iu(r) + fu(r), rhs_idx <= stop, res_idx >= iu(l) + fu(l) + ol,
        -1 <= borrow <= 0,
        uok(res.lsu@, 0, 9), zeros(res.lsu@, res_idx as int, 9),
        rng(res.lsu@, 0, res_idx as int) + borrow * pw(res_idx as int) == al(ls, ol, res_idx as int) - al(rs, or, res_idx as int),
    decreases stop - rhs_idx,
%% loop 4 begin
    let ghost (os, oi, oc) = (res.lsu@, res_idx as int, borrow as int);
    assert(0 <= rs[rhs_idx as int] < 1_000_000_000 && ls[oi - ol] == 0);
%% loop 4 end
    proof {
        lem_rng_same(os, res.lsu@, 0, oi);
        lem_al_step(ls, ol, oi);
        lem_al_step(rs, or, oi);
        lem_sub_col(rng(os, 0, oi), oc, al(ls, ol, oi), al(rs, or, oi), ls[oi - ol] as int, rs[oi - or] as int, res.lsu@[oi] as int, borrow as int, pw(oi));
    }
%% before /let neg =/
    let ghost s = mags(l, f) - mags(r, f);
    let ghost os = res.lsu@;
    proof {
        assert(res_idx == top);
        lem_al_mags(l, f, top);
        lem_al_mags(r, f, top);
        lem_rng_bound(os, 0, top);
        lem_rng_top(os, 0, top, 9);
        lem_scale(borrow as int, pw(top));
    }
%% loop 5 before
    proof { assert(0 * pw(0) == 0); }
%% loop 5
    invariant
        0 <= __k2 <= __e2, __e2 == res_idx, res_idx == top, top <= 9,
        -1 <= borrow <= 0,
        uok(res.lsu@, 0, 9), zeros(res.lsu@, top, 9), uok(os, 0, 9),
        forall|k: int| __k2 <= k < 9 ==> res.lsu@[k] == os[k],
        rng(res.lsu@, 0, __k2 as int) + borrow * pw(__k2 as int) == -rng(os, 0, __k2 as int),
    decreases __e2 - __k2,
%% loop 5 begin
    let ghost (ps, oi, oc) = (res.lsu@, __k2 as int, borrow as int);
    assert(0 <= os[oi] < 1_000_000_000);
%% loop 5 end
    proof {
        lem_rng_same(ps, res.lsu@, 0, oi);
        lem_sub_col(rng(ps, 0, oi), oc, 0, rng(os, 0, oi), 0, os[oi] as int, res.lsu@[oi] as int, borrow as int, pw(oi));
    }
%% before /let mut res_intg_non_zero/
    proof {
        lem_rng_bound(res.lsu@, 0, top);
        lem_rng_top(res.lsu@, 0, top, 9);
        lem_scale(borrow as int, pw(top));
        assert(neg == (s < 0));
        assert(mag(*res) == abs2(s));
    }
%% loop 6
    invariant_except_break
        -1 <= res_intg_non_zero < ci(l, r), zeros(res.lsu@, res_intg_non_zero + 1 + f, 9),
    invariant
        col_ctx(l, r, ls, rs, f, ol, or, top),
        res.frac == max2(l.frac as int, r.frac as int), result_frac_units == f, uok(res.lsu@, 0, 9), mag(*res) == abs2(s),
    ensures
        -1 <= res_intg_non_zero < ci(l, r), zeros(res.lsu@, res_intg_non_zero + 1 + f, 9),
        res_intg_non_zero >= 0 ==> res.lsu@[res_intg_non_zero + f] > 0,
    decreases res_intg_non_zero + 1,
%% exit tail
    proof { lem_trim(*res, l, r, abs2(s), res_intg_non_zero + 1); lem_rng_bound(res.lsu@, 0, 9); }

%% fn FixedDecimal::add_to lemmas=arith_spec ret=result
    requires wf(*lhs), wf(*rhs),
    ensures add_post(*lhs, *rhs, *final(res), result),
%% entry
    proof { lem_mag_zero(*lhs); lem_mag_zero(*rhs); lem_pw_small(); lem_zero_dec(); }
%% exits
    proof { lem_sum_any(*lhs, *rhs, *res, 1); }

%% fn FixedDecimal::sub_to lemmas=arith_spec ret=result
    requires wf(*lhs), wf(*rhs),
    ensures sub_post(*lhs, *rhs, *final(res), result),
%% entry
    proof { lem_mag_zero(*lhs); lem_mag_zero(*rhs); lem_pw_small(); lem_zero_dec(); }
%% exits
    proof { lem_sum_any(*lhs, *rhs, *res, -1); }

%% fn mul_abs loops=2 lemmas=mul_spec ret=result rlimit=60
    requires wf(*lhs), wf(*rhs), mag(*lhs) != 0,
    ensures mul_abs_post(*lhs, *rhs, *final(res), result),
%% entry
    let ghost (l, r) = (*lhs, *rhs);
    let ghost (ls, rs) = (lhs.lsu@, rhs.lsu@);
    let ghost s = mul_cut(l, r);
    let ghost (ln, rn) = (iu(l) + fu(l), iu(r) + fu(r));
    proof {
        lem_rng_zeros(ls, 0, 0);
        lem_rng_top(ls, 0, ln, 9);
        if dg(l) + dg(r) <= 81 { lem_mul_bound(l, r); }
    }
%% loop 1 before
    proof { lem_rng_zeros(res.lsu@, 0, 9); assert(shift_units == s); }
%% loop 1
    invariant
        *lhs == l, *rhs == r, ls == lhs.lsu@, rs == rhs.lsu@, mul_ctx(l, r, s, ln, rn), shift_units == s,
        liu + lfu == ln, riu + rfu == rn,
        0 <= __k1 <= __n1, __n1 == rn, __a1_0 == 0,
        carry == 0,
        uok(res.lsu@, 0, 9), zeros(res.lsu@, max2(0, ln + __k1 - s), 9),
        rng(res.lsu@, 0, 9) == ptot(ls, rs, ln, s, __k1 as int),
    decreases __n1 - __k1,
%% loop 1 begin
    let ghost os = res.lsu@;
    let ghost j = __k1 as int;
    proof {
        assert(0 <= rs[j] < 1_000_000_000);
        lem_mul_fit(l, r, s, ln, rn, j);
        lem_mul_fit(l, r, s, ln, rn, j + 1);
        lem_pw_small();
        lem_pw_pos(9);
    }
%% loop 2
    invariant
        *lhs == l, *rhs == r, ls == lhs.lsu@, rs == rhs.lsu@, mul_ctx(l, r, s, ln, rn), shift_units == s,
        0 <= j < rn, rhs_idx == j, *rv == rs[j],
        0 <= __k2 <= __n2, __n2 == ln, __a2_0 == 0,
        res_idx == (if __k2 == 0 { -1 } else { __k2 - 1 + j - s }),
        0 <= carry < 1_000_000_000,
        uok(res.lsu@, 0, 9), zeros(os, max2(0, ln + j - s), 9),
        rng(os, 0, 9) == ptot(ls, rs, ln, s, j),
        forall|m: int| max2(0, __k2 + j - s) <= m < 9 ==> #[trigger] res.lsu@[m] == os[m],
        __k2 + j - s < 0 ==> carry == 0 && prow(ls, rs[j] as int, j, s, __k2 as int) == 0,
        __k2 == 0 ==> carry == 0 && res.lsu@ == os,
        __k2 + j - s >= 0 ==> rng(res.lsu@, 0, 9) + carry * pw(__k2 + j - s) == ptot(ls, rs, ln, s, j) + prow(ls, rs[j] as int, j, s, __k2 as int),
    decreases __n2 - __k2,
%% loop 2 begin
    let ghost (ps, i, oc) = (res.lsu@, __k2 as int, carry as int);
    let ghost k = i + j - s;
    proof {
        assert(0 <= ls[i] < 1_000_000_000 && 0 <= rs[j] < 1_000_000_000);
        let (x, y) = (ls[i] as int, rs[j] as int);
        assert(0 <= x * y <= 999_999_999 * 999_999_999) by (nonlinear_arith) requires 0 <= x <= 999_999_999, 0 <= y <= 999_999_999;
        lem_pw_small();
        if k == -1 {
            lem_rng_same(ps, os, 0, 9);
        }
    }
%% loop 2 continue
    proof { if k == -1 { lem_scale(1, carry as int); assert(carry * pw(0) == carry) by (nonlinear_arith) requires pw(0) == 1; } }
%% loop 2 end
    proof {
        lem_mul_step(ps, res.lsu@, k, ls[i] as int, rs[j] as int, oc, carry as int);
    }
%% loop 2 after
    proof {
        assert(ptot(ls, rs, ln, s, j + 1) == ptot(ls, rs, ln, s, j) + prow(ls, rs[j] as int, j, s, ln));
    }
    let ghost (ts, tc, k) = (res.lsu@, carry as int, ln + j - s);
    proof {
        lem_rng_bound(ts, 0, 9);
        if k >= 9 {
            lem_pw_mono(9, k);
            assert(tc == 0) by (nonlinear_arith) requires tc * pw(k) < pw(9), pw(9) <= pw(k), tc >= 0, pw(9) >= 1;
            lem_scale(tc, pw(k));
        }
    }
%% loop 1 end
    proof {
        if k < 9 { lem_rng_set(ts, res.lsu@, 0, 9, k); }
    }
%% exit tail
    proof { lem_mul_end(l, r, *res); }

%% fn FixedDecimal::mul_to lemmas=mul_spec ret=result
    requires wf(*lhs), wf(*rhs),
    ensures mul_post(*lhs, *rhs, *final(res), result),
%% entry
    proof { lem_mag_zero(*lhs); lem_mag_zero(*rhs); lem_zero_dec(); }
