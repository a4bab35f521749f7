%% fn Hash::hash lemmas=hash_spec loops=3
    requires wf(*self),
    ensures final(state).log() == old(state).log() + hash_log(*self),
%% entry
    let ghost (s, f, n) = (self.lsu@, fu(*self), iu(*self));
    let ghost log0 = state.log();
    let ghost sg = (1int, if neg(*self) { 1int } else { 0int });
%% loop 1
    invariant
        s == self.lsu@, wf(*self), f == fu(*self), n == iu(*self), frac_units == f, intg_units <= n,
        sig_hi(s, f, f + n) == sig_hi(s, f, f + intg_units),
    ensures
        sig_hi(s, f, f + n) == f + intg_units, intg_units <= n,
    decreases intg_units,
%% loop 2
    invariant
        s == self.lsu@, wf(*self), f == fu(*self), frac_units == f, start_idx <= f,
        sig_lo(s, 0, f) == sig_lo(s, start_idx as int, f),
    ensures
        sig_lo(s, 0, f) == start_idx, start_idx <= f,
    decreases f - start_idx,
%% loop 3 before
    let ghost log3 = state.log();
    let ghost hd = seq![sg, (1int, intg_units as int), (1int, f - start_idx)];
    proof {
        assert(log3 =~= log0 + hd);
        assert(log3 + unit_log(s, start_idx as int, start_idx as int) =~= log3);
    }
%% loop 3
    invariant
        s == self.lsu@, wf(*self), start_idx <= frac_units, frac_units + intg_units <= 9,
        __k1 <= __n1, __n1 == frac_units + intg_units - start_idx, __a1_0 == start_idx,
        state.log() == log3 + unit_log(s, start_idx as int, start_idx + __k1),
    decreases __n1 - __k1,
%% loop 3 begin
    let ghost (ki, l0) = (__k1 as int, state.log());
%% loop 3 end
    proof {
        assert(state.log() =~= log3 + unit_log(s, start_idx as int, start_idx + ki + 1));
    }
%% exit tail
    proof {
        assert(state.log() =~= log0 + hash_log(*self));
    }
