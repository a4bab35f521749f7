%% fn round_half_up loops=1 lemmas=round_spec rlimit=60
    requires rhu_pre(*old(fd), intg_units as int, frac_units as int, trunc as int, round_frac as int, carry as int),
    ensures rhu_post(*old(fd), intg_units as int, frac_units as int, trunc as int, round_frac as int, carry as int, *final(fd)),
%% entry
    let ghost (x, g, f, t, rf, c) = (*fd, intg_units as int, frac_units as int, trunc as int, round_frac as int, carry as int);
    let ghost (os, e) = (fd.lsu@, g + f);
    let ghost (q, pos) = (t / 9, t % 9);
    let ghost h = rng(os, q, 9);
    let ghost h2 = (h / p10(pos) + if pos == 0 { c } else if 2 * (h % p10(pos)) >= p10(pos) { 1int } else { 0 }) * p10(pos);
    proof {
        lem_p10_small();
        lem_pw_small();
        lem_rhu(os, t, c, h2);
        lem_rng_bound(os, q, 9);
        lem_rng_bound(os, q, e);
        lem_rng_top(os, q, e, 9);
        lem_round_up(h, pos, e - q, if pos == 0 { c } else if 2 * (h % p10(pos)) >= p10(pos) { 1int } else { 0 });
        if pos > 0 { lem_rng_low(os, q, 9); lem_rng_bound(os, q + 1, 9); lem_unit_round(h, os[q] as int, rng(os, q + 1, 9), pos); }
        lem_pw_add(q, e - q);
        let (a, b, z) = (pw(q), pw(e - q), h2);
        lem_pw_pos(q);
        assert(z * a <= a * b) by (nonlinear_arith) requires z <= b, a >= 1;
        assert(z < b ==> z * a < a * b) by (nonlinear_arith) requires a >= 1;
    }
%% before /let end_idx =/
    let ghost ri = round_idx as int;
    proof {
        if pos > 0 {
            lem_rng_set(os, fd.lsu@, q, 9, q);
        }
        assert(h / 1 == h);
        assert(rng(fd.lsu@, q, 9) + carry * pw(ri - q) == h2) by {
            lem_scale(carry as int, pw(ri - q));
            if pos > 0 {
                let (a, b) = (fd.lsu@[q] as int, os[q] as int);
                assert((a - b) * pw(0) == a - b) by (nonlinear_arith) requires pw(0) == 1;
            }
        }
    }
    let ghost mut ls = fd.lsu@;
%% loop 1
    invariant_except_break
        carry > 0,
    invariant
        __a1_0 == ri, __b1_0 == e, __n1 == e - ri, 0 <= __k1 <= __n1, 0 <= q <= ri <= e, e <= 9, ri <= q + 1,
        0 <= carry <= 1,
        fd.intg == x.intg,
        uok(fd.lsu@, 0, 9), zeros(fd.lsu@, e, 9),
        rng(fd.lsu@, q, 9) + carry * pw(ri + __k1 - q) == h2,
    ensures
        carry == 0 || __k1 == __n1,
    decreases __n1 - __k1,
%% loop 1 begin
    let ghost (ps, oc, i) = (fd.lsu@, carry as int, ri + __k1);
    assert(0 <= ps[i] < 1_000_000_000);
%% after /carry = c0/
    proof {
        lem_rng_set(ps, fd.lsu@, q, 9, i);
        let (a, b, p) = (fd.lsu@[i] as int, ps[i] as int, pw(i - q));
        assert(pw(i + 1 - q) == 1_000_000_000 * p);
        assert((a - b) * p + carry * (1_000_000_000 * p) == oc * p) by (nonlinear_arith) requires b + oc == a + carry * 1_000_000_000;
    }
%% loop 1 after
    proof {
        ls = fd.lsu@;
        let ps = ls;
        lem_scale(carry as int, pw(e - q));
        if carry > 0 { lem_rng_bound(ps, q, 9); lem_rng_nonzero(ps, q, 9); assert(h2 == pw(e - q));
            lem_pw_add(q, e - q);
            let (a, b) = (pw(q), pw(e - q));
            assert(h2 * a == a * b) by (nonlinear_arith) requires h2 == b;
            assert(rhu_r(mag(x), t, c) == pw(e));
        }
    }
%% before /fxd_fill/
    let ghost cs = fd.lsu@;
    proof {
        lem_rng_bound(cs, q, 9);
        if carry > 0 {
            let w = if e == 9 && f > 0 { 8 } else { e };
            lem_rng_set(ls, cs, q, 9, w);
            lem_scale(1, pw(w - q));
        }
        lem_scale(0, pw(ri - q));
        lem_scale(0, pw(e - q));
        if carry == 0 { lem_rng_top(cs, q, e, 9); lem_rng_bound(cs, q, e); }
    }
%% after /fxd_fill/
    let ghost d0 = *fd;
    proof {
        lem_rng_same(cs, d0.lsu@, q, 9);
        lem_rng_bottom(d0.lsu@, 0, q, 9);
        lem_pw_mono(e, 9);
        let (a, b) = (pw(q), h2);
        assert(a * b == b * a) by (nonlinear_arith);
        if q == 0 { assert(1 * rng(d0.lsu@, q, 9) == rng(d0.lsu@, q, 9)); }
    }
%% exit tail
    proof {
        lem_rng_bound(fd.lsu@, 0, 9);
        if zeros(fd.lsu@, 0, 9) { lem_rng_zeros(fd.lsu@, 0, 9); }
        if mag(*fd) == 0 { lem_rng_nonzero(fd.lsu@, 0, 9); }
    }

%% fn max_round_frac
    requires intg_units <= 9,
    ensures r == 9 * min2(4, 9 - intg_units),

%% fn FixedDecimal::round loops=2 lemmas=round_spec rlimit=60
    requires wf(*old(self)), round_ok(*old(self), frac as int),
    ensures round_post(*old(self), frac as int, *final(self)),
%% entry
    let ghost (s0, n, g, f) = (*self, frac as int, iu(*self), fu(*self));
    let ghost fk = if n >= 0 { un(n) } else { 0 };
%% exit
    proof { lem_round_exit(s0, n, *self); }
%% loop 1
    invariant
        __a1_0 == fk + g, __b1_0 == f + g, __n1 == f - fk, 0 <= fk <= f, f + g <= 9, 0 <= g, 0 <= __k1 <= __n1,
        self.intg == s0.intg, self.frac == s0.frac,
        forall|i: int| 0 <= i < fk + g ==> #[trigger] self.lsu@[i] == s0.lsu@[i + f - fk],
        forall|i: int| fk + g <= i < fk + g + __k1 ==> #[trigger] self.lsu@[i] == 0,
        zeros(self.lsu@, f + g, 9),
    decreases __n1 - __k1,
%% loop 2
    invariant
        __a2_0 == fk + g, __b2_0 == f + g, __n2 == f - fk, 0 <= fk <= f, f + g <= 9, 0 <= g, 0 <= __k2 <= __n2,
        self.intg == s0.intg, self.frac == s0.frac,
        forall|i: int| 0 <= i < fk + g ==> #[trigger] self.lsu@[i] == s0.lsu@[i + f - fk],
        forall|i: int| fk + g <= i < fk + g + __k2 ==> #[trigger] self.lsu@[i] == 0,
        zeros(self.lsu@, f + g, 9),
    decreases __n2 - __k2,
%% before /round_half_up/
    let ghost x = *self;
    proof {
        assert(frac_units == fk);
        assert(trunc == 9 * fk - n);
        assert(cut_at(s0, n, fk, trunc as int));
        assert(cut_c(s0, x, f - fk, trunc as int, carry as int));
        lem_round_r(s0, n, x, fk, trunc as int, carry as int);
    }
%% exit tail
    proof { lem_round_end(s0, n, x, fk, trunc as int, carry as int, *self); }

%% fn FixedDecimal::round_to lemmas=round_spec rlimit=60
    requires wf(*self), round_ok(*self, frac as int),
    ensures round_post(*self, frac as int, *final(res)),
%% entry
    let ghost (s0, n, g, f) = (*self, frac as int, iu(*self), fu(*self));
    let ghost fk = if n >= 0 { un(n) } else { 0 };
%% exit
    proof { lem_round_exit(s0, n, *res); }
%% before /round_half_up/
    let ghost x = *res;
    proof {
        assert(frac_units == fk);
        assert(trunc == 9 * fk - n);
        assert(cut_at(s0, n, fk, trunc as int));
        assert(cut_c(s0, x, f - fk, trunc as int, carry as int));
        lem_round_r(s0, n, x, fk, trunc as int, carry as int);
    }
%% exit tail
    proof { lem_round_end(s0, n, x, fk, trunc as int, carry as int, *res); }
