%% fn get_units
    requires 0 <= d <= 119,
    ensures r == un(d as int),

%% fn div9
    requires 0 <= d,
    ensures r == d as int / 9,

%% fn mod9
    requires 0 <= d,
    ensures r == d as int % 9,

%% fn const:DIV9_TABLE
pub exec const DIV9_TABLE: CONST_TYPE
    ensures forall|k: int| 0 <= k < 128 ==> #[trigger] DIV9_TABLE@[k] == k / 9,
{
    proof {
        assert(div_tab_ok(DIV9_TABLE_SRC@, 0, 128)) by (compute_only);
        lem_div_tab(DIV9_TABLE_SRC@, 0, 128);
    }
    DIV9_TABLE_SRC
}
spec fn div_tab_ok(t: Seq<usize>, i: int, n: int) -> bool decreases n - i {
    i >= n || (t[i] == i / 9 && div_tab_ok(t, i + 1, n))
}
proof fn lem_div_tab(t: Seq<usize>, i: int, n: int)
    requires div_tab_ok(t, i, n),
    ensures forall|k: int| i <= k < n ==> #[trigger] t[k] == k / 9,
    decreases n - i,
{
    if i < n { lem_div_tab(t, i + 1, n); }
}

%% fn const:MOD9_TABLE
pub exec const MOD9_TABLE: CONST_TYPE
    ensures forall|k: int| 0 <= k < 128 ==> #[trigger] MOD9_TABLE@[k] == k % 9,
{
    proof {
        assert(mod_tab_ok(MOD9_TABLE_SRC@, 0, 128)) by (compute_only);
        lem_mod_tab(MOD9_TABLE_SRC@, 0, 128);
    }
    MOD9_TABLE_SRC
}
spec fn mod_tab_ok(t: Seq<usize>, i: int, n: int) -> bool decreases n - i {
    i >= n || (t[i] == i % 9 && mod_tab_ok(t, i + 1, n))
}
proof fn lem_mod_tab(t: Seq<usize>, i: int, n: int)
    requires mod_tab_ok(t, i, n),
    ensures forall|k: int| i <= k < n ==> #[trigger] t[k] == k % 9,
    decreases n - i,
{
    if i < n { lem_mod_tab(t, i + 1, n); }
}

%% fn FixedDecimal::zero
    ensures r.intg == 1, r.frac == 0, zeros(r.lsu@, 0, 9), is_zero_dec(r), wf(r), val(r) == 0,
%% exit
    proof { lem_zero_dec(); }

%% fn FixedDecimal::one
    ensures r.intg == 1, r.frac == 0, r.lsu[0] == 1, zeros(r.lsu@, 1, 9), wf(r), val(r) == p10(36),
%% exit
    proof { lem_one_dec(fd); }

%% fn FixedDecimal::is_neg
    ensures r == neg(*self),
%% entry
    proof { lem_i8_sign(self.intg); }

%% fn FixedDecimal::set_neg unit
    ensures
        final(self).frac == old(self).frac, final(self).lsu == old(self).lsu,
        final(self).intg as int == (if zeros(old(self).lsu@, 0, 9) || old(self).intg < 0 { old(self).intg as int } else { old(self).intg - 128 }),
        wf(*old(self)) ==> signed(*old(self), *final(self), true),
%% entry
    let ghost d0 = *self;
    proof { lem_i8_sign(self.intg); }
%% exits
    proof { if wf(d0) { lem_mag_zero(d0); lem_sign(d0, *self, true); } }

%% fn FixedDecimal::set_neg_and_check_zero unit
    ensures
        final(self).frac == old(self).frac, final(self).lsu == old(self).lsu,
        zeros(old(self).lsu@, 0, 9) ==> final(self).intg as int == dg(*old(self)),
        !zeros(old(self).lsu@, 0, 9) ==> final(self).intg as int == dg(*old(self)) - 128,
        wf(*old(self)) ==> signed(*old(self), *final(self), true),
%% entry
    let ghost d0 = *self;
%% exits
    proof { if wf(d0) { lem_mag_zero(d0); lem_sign(d0, *self, true); } }

%% fn FixedDecimal::set_pos
    ensures
        final(self).frac == old(self).frac, final(self).lsu == old(self).lsu,
        final(self).intg as int == dg(*old(self)),
        wf(*old(self)) ==> signed(*old(self), *final(self), false),
%% entry
    let ghost d0 = *self;
    proof { lem_i8_sign(self.intg); }
%% exits
    proof { if wf(d0) { lem_sign(d0, *self, false); } }

%% fn FixedDecimal::set_zero
    ensures is_zero_dec(*final(self)), wf(*final(self)), val(*final(self)) == 0,
%% exit
    proof { lem_zero_dec(); }

%% fn FixedDecimal::is_zero loops=1
    ensures r == zeros(self.lsu@, 0, 9),
%% loop 1
    invariant __k1 <= 9, __r1 ==> zeros(self.lsu@, 0, __k1 as int), !__r1 ==> !zeros(self.lsu@, 0, 9),
    decreases 9 - __k1,

%% fn FixedDecimal::set_one
    ensures final(self).intg == 1, final(self).frac == 0, final(self).lsu[0] == 1, zeros(final(self).lsu@, 1, 9),
        wf(*final(self)), val(*final(self)) == p10(36),
%% exit
    proof { lem_one_dec(*self); }

%% fn FixedDecimal::intg
    ensures r as int == dg(*self),
%% entry
    proof { lem_i8_sign(self.intg); }

%% fn FixedDecimal::intg_units
    requires dg(*self) <= 119,
    ensures r == iu(*self),

%% fn FixedDecimal::frac
    ensures r == self.frac,

%% fn FixedDecimal::frac_units
    requires 0 <= self.frac <= 119,
    ensures r == fu(*self),

%% fn FixedDecimal::reset_units loops=1
    ensures final(self).intg == old(self).intg, final(self).frac == old(self).frac, zeros(final(self).lsu@, 0, 9),
%% loop 1
    invariant __k1 <= __n1, __n1 == 9, self.intg == old(self).intg, self.frac == old(self).frac, zeros(self.lsu@, 0, __k1 as int),
    decreases 9 - __k1,
