%% fn From<u64>::from lemmas=int_spec
    ensures wf(r), r.frac == 0, val(r) == src * pw(4), !neg(r),
%% entry
    let ghost src0 = src as int;
%% loop 1
    invariant
        i <= 3, fd.intg == 1, fd.frac == 0, uok(fd.lsu@, 0, 9), zeros(fd.lsu@, i as int, 9),
        rng(fd.lsu@, 0, i as int) + src * pw(i as int) == src0,
        0 <= src0 <= 0xffff_ffff_ffff_ffff,
        i == 0 ==> src == src0, i == 1 ==> src < 18446744074, i == 2 ==> src < 19, i == 3 ==> src == 0,
    ensures
        src == 0,
    decreases src,
%% loop 1 begin
    let ghost (os, oi, osrc) = (fd.lsu@, i as int, src as int);
%% loop 1 end
    proof {
        lem_pw_small();
        lem_rng_same(os, fd.lsu@, 0, oi);
        assert(rng(fd.lsu@, 0, oi + 1) == rng(fd.lsu@, 0, oi) + fd.lsu@[oi] * pw(oi));
        let (p, rr) = (pw(oi), fd.lsu@[oi] as int);
        assert(osrc == src * 1_000_000_000 + rr);
        assert(pw(oi + 1) == 1_000_000_000 * p);
        assert(osrc * p == rr * p + src * (1_000_000_000 * p)) by (nonlinear_arith) requires osrc == src * 1_000_000_000 + rr;
    }
%% exit tail
    proof {
        assert(src * pw(i as int) == 0) by (nonlinear_arith) requires src == 0;
        lem_int_dec(fd, i as int, src0, false);
    }

%% fn From<i64>::from lemmas=int_spec
    ensures wf(r), r.frac == 0, val(r) == src * pw(4),
%% entry
    proof {
        lem_pw_small();
        lem_rng3(MIN_I64.lsu@);
        assert((19i32 | 0x80i32) as i8 == -109i8) by (bit_vector);
        lem_min_dec();
    }
%% exits
    proof { assert(src < 0 ==> (-src) * pw(4) > 0) by (nonlinear_arith) requires pw(4) >= 1;
        assert(-((-src) * pw(4)) == src * pw(4)) by (nonlinear_arith); }

%% fn FixedDecimal::lsu_to_i64 lemmas=int_spec
    requires wf(*self), fu(*self) == 0, in_range(*self, i64::MIN as int, i64::MAX as int),
    ensures r * p10(36) == val(*self),
%% entry
    proof {
        lem_abs_val(*self);
        lem_whole(*self, 9223372036854775808);
        lem_p10_pos(36);
        let (m, p) = (mag(*self), p10(36));
        assert(!neg(*self) ==> m <= i64::MAX) by (nonlinear_arith) requires !neg(*self) ==> m * p <= i64::MAX * p, p >= 1;
    }

%% fn FixedDecimal::lsu_to_u64 lemmas=int_spec
    requires wf(*self), fu(*self) == 0, in_range(*self, 0, u64::MAX as int),
    ensures r * p10(36) == val(*self),
%% entry
    proof {
        lem_abs_val(*self);
        lem_mag_zero(*self);
        lem_whole(*self, u64::MAX as int);
    }

%% fn FixedDecimal::as_i64 lemmas=int_spec
    requires wf(*self),
    ensures
        in_range(*self, i64::MIN as int, i64::MAX as int) ==> r is Ok && r->Ok_0 * p10(36) == int_of(*self),
        !in_range(*self, i64::MIN as int, i64::MAX as int) ==> r is Err && r->Err_0 is ExceedsConversionTargetRange,
%% entry
    proof {
        lem_min_dec();
        lem_max_dec();
        lem_p10_pw(4);
        lem_abs_val(*self);
        if in_range(*self, i64::MIN as int, i64::MAX as int) {
            lem_as_int_pre(*self, 9223372036854775808);
            if !neg(*self) { lem_as_int_pre(*self, 9223372036854775807); }
            if fu(*self) == 0 { lem_whole(*self, 9223372036854775808); }
        }
    }
%% after /self . round_to/
    proof {
        lem_as_int_post(*self, target, 9223372036854775808);
        lem_abs_val(target);
        if !neg(*self) { lem_as_int_post(*self, target, 9223372036854775807); }
    }

%% fn FixedDecimal::as_u64 lemmas=int_spec
    requires wf(*self),
    ensures
        in_range(*self, 0, u64::MAX as int) ==> r is Ok && r->Ok_0 * p10(36) == int_of(*self),
        !in_range(*self, 0, u64::MAX as int) ==> r is Err && r->Err_0 is ExceedsConversionTargetRange,
%% entry
    proof {
        lem_maxu_dec();
        lem_p10_pw(4);
        lem_abs_val(*self);
        if in_range(*self, 0, u64::MAX as int) {
            lem_as_int_pre(*self, u64::MAX as int);
            if fu(*self) == 0 { lem_whole(*self, u64::MAX as int); }
        }
    }
%% after /self . round_to/
    proof {
        lem_as_int_post(*self, target, u64::MAX as int);
        lem_abs_val(target);
    }
