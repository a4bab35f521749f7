%% fn cmp_abs_lsu loopiso=false loops=5 lemmas=arith_spec,cmp_spec
    requires
        0 <= liu <= 9, 0 <= lfu <= 4, liu + lfu <= 9, llsu@.len() == 9, uok(llsu@, 0, 9),
        0 <= riu <= 9, 0 <= rfu <= 4, riu + rfu <= 9, rlsu@.len() == 9, uok(rlsu@, 0, 9),
    ensures
        r == ord_of(low(llsu@, liu + lfu, max2(lfu as int, rfu as int) - lfu), low(rlsu@, riu + rfu, max2(lfu as int, rfu as int) - rfu)),
%% entry
    let ghost (ls, rs) = (llsu@, rlsu@);
    let ghost f = max2(lfu as int, rfu as int);
    let ghost (ol, or) = (f - lfu, f - rfu);
    let ghost dd = low(ls, liu + lfu, ol) - low(rs, riu + rfu, or);
%% loop 1
    invariant
        ls == llsu@, rs == rlsu@, ls.len() == 9, rs.len() == 9, uok(ls, 0, 9), uok(rs, 0, 9), cmp_ctx(ls, rs, ol, or, lfu as int, rfu as int),
        i == liu + lfu - 1, j == riu + rfu - 1, 0 <= liu, 0 <= riu, i < 9, j < 9,
        dd == low(ls, i + 1, ol) - low(rs, j + 1, or),
    decreases liu,
%% loop 1 begin
    proof {
        lem_low_step(ls, i + 1, ol);
        lem_low_bound(rs, j + 1, or);
        if ls[i as int] > 0 { lem_low_pos(ls, i + 1, ol); lem_pw_mono(j + 1 + or, i + ol); }
        assert(ls[i as int] == 0 ==> ls[i as int] * pw(i + ol) == 0) by (nonlinear_arith);
    }
%% loop 2
    invariant
        ls == llsu@, rs == rlsu@, ls.len() == 9, rs.len() == 9, uok(ls, 0, 9), uok(rs, 0, 9), cmp_ctx(ls, rs, ol, or, lfu as int, rfu as int),
        i == liu + lfu - 1, j == riu + rfu - 1, 0 <= liu <= riu, i < 9, j < 9,
        dd == low(ls, i + 1, ol) - low(rs, j + 1, or),
    decreases riu,
%% loop 2 begin
    proof {
        lem_low_step(rs, j + 1, or);
        lem_low_bound(ls, i + 1, ol);
        if rs[j as int] > 0 { lem_low_pos(rs, j + 1, or); lem_pw_mono(i + 1 + ol, j + or); }
        assert(rs[j as int] == 0 ==> rs[j as int] * pw(j + or) == 0) by (nonlinear_arith);
    }
%% loop 3
    invariant
        ls == llsu@, rs == rlsu@, ls.len() == 9, rs.len() == 9, uok(ls, 0, 9), uok(rs, 0, 9), cmp_ctx(ls, rs, ol, or, lfu as int, rfu as int),
        i - lfu == j - rfu, i + ol == j + or, -1 <= i < 9, -1 <= j < 9,
        dd == low(ls, i + 1, ol) - low(rs, j + 1, or),
    decreases i + 1,
%% loop 3 begin
    proof {
        lem_low_step(rs, j + 1, or);
        lem_low_step(ls, i + 1, ol);
        lem_low_bound(ls, i as int, ol);
        lem_low_bound(rs, j as int, or);
        lem_low_cmp(low(ls, i as int, ol), low(rs, j as int, or), ls[i as int] as int, rs[j as int] as int, pw(i + ol));
    }
%% loop 4
    invariant
        ls == llsu@, rs == rlsu@, ls.len() == 9, rs.len() == 9, uok(ls, 0, 9), uok(rs, 0, 9), cmp_ctx(ls, rs, ol, or, lfu as int, rfu as int),
        -1 <= i < 9, -1 <= j < 9, i < 0 || j < 0,
        dd == low(ls, i + 1, ol) - low(rs, j + 1, or),
    decreases i + 1,
%% loop 4 begin
    proof {
        assert(low(rs, j + 1, or) == 0) by (nonlinear_arith) requires low(rs, j + 1, or) == rng(rs, 0, j + 1) * pw(or), rng(rs, 0, j + 1) == 0;
        lem_low_step(ls, i + 1, ol);
        if ls[i as int] > 0 { lem_low_pos(ls, i + 1, ol); lem_pw_pos(i + ol); }
        assert(ls[i as int] == 0 ==> ls[i as int] * pw(i + ol) == 0) by (nonlinear_arith);
    }
%% loop 5
    invariant
        ls == llsu@, rs == rlsu@, ls.len() == 9, rs.len() == 9, uok(ls, 0, 9), uok(rs, 0, 9), cmp_ctx(ls, rs, ol, or, lfu as int, rfu as int),
        -1 <= i < 9, -1 <= j < 9, i < 0,
        dd == low(ls, i + 1, ol) - low(rs, j + 1, or),
    decreases j + 1,
%% loop 5 begin
    proof {
        assert(low(ls, i + 1, ol) == 0) by (nonlinear_arith) requires low(ls, i + 1, ol) == rng(ls, 0, i + 1) * pw(ol), rng(ls, 0, i + 1) == 0;
        lem_low_step(rs, j + 1, or);
        if rs[j as int] > 0 { lem_low_pos(rs, j + 1, or); lem_pw_pos(j + or); }
        assert(rs[j as int] == 0 ==> rs[j as int] * pw(j + or) == 0) by (nonlinear_arith);
    }
%% exit tail
    proof {
        assert(low(ls, i + 1, ol) == 0) by (nonlinear_arith) requires low(ls, i + 1, ol) == rng(ls, 0, i + 1) * pw(ol), rng(ls, 0, i + 1) == 0;
        assert(low(rs, j + 1, or) == 0) by (nonlinear_arith) requires low(rs, j + 1, or) == rng(rs, 0, j + 1) * pw(or), rng(rs, 0, j + 1) == 0;
    }

%% fn cmp_abs lemmas=cmp_spec
    requires wf(*lhs), wf(*rhs),
    ensures r == ord_of(mags(*lhs, cf(*lhs, *rhs)), mags(*rhs, cf(*lhs, *rhs))),
%% entry
    proof {
        lem_cmp(*lhs, *rhs);
        assert(lhs.lsu@.subrange(0, 9) =~= lhs.lsu@);
        assert(rhs.lsu@.subrange(0, 9) =~= rhs.lsu@);
    }

%% fn Ord::cmp lemmas=cmp_spec
    requires wf(*self), wf(*other),
    ensures r == cmp_val(*self, *other),
%% entry
    proof { lem_cmp(*self, *other); lem_cmp(*other, *self); }

%% fn PartialOrd::partial_cmp lemmas=cmp_spec
    requires wf(*self), wf(*other),
    ensures r == Some(cmp_val(*self, *other)),

%% fn PartialEq::eq lemmas=cmp_spec
    requires wf(*self), wf(*other),
    ensures r == (val(*self) == val(*other)),
