%% fn const:POW10
pub exec const POW10: CONST_TYPE
    ensures forall|k: int| 0 <= k < 10 ==> #[trigger] POW10@[k] == p10(k),
{
    proof { lem_p10_small(); }
    POW10_SRC
}

%% fn FixedDecimal::from_bytes_str loops=7 lemmas=parse_spec rlimit=400
    requires bs@.len() < 0x4000_0000_0000_0000,
    ensures
        ps_ok(bs@) ==> r is Ok && ps_post(bs@, *final(self)),
        !ps_ok(bs@) ==> r is Err && r->Err_0 is ConversionSyntax && (if reset { is_zero_dec(*final(self)) } else { *final(self) == *old(self) }),
%% entry
    let ghost s = bs@;
    let ghost n = bs@.len() as int;
    proof { lem_pos(s); }
%% loop 1
    invariant_except_break
        i == __k1 - 1, 0 <= __k1 <= n, scan_inv(s, __k1 as int, d as int, dotchar as int, last as int, cfirst as int, neg), !more_to_proc,
    invariant
        s == bs@, n == s.len(), n < 0x4000_0000_0000_0000, __n1 == n, 0 <= p2(s) <= n,
    ensures
        scan_inv(s, p2(s), d as int, dotchar as int, last as int, cfirst as int, neg),
        more_to_proc ==> i == p2(s) < n,
        !more_to_proc ==> p2(s) == n,
    decreases n - __k1,
%% loop 1 begin
    proof { lem_pos(s); }
%% loop 2
    invariant_except_break
        s == bs@, n == s.len(), n < 0x4000_0000_0000_0000, 2 <= j0 <= i < n, forall|k: int| j0 <= k < i ==> #[trigger] s[k] == 48,
    ensures
        j0 <= i < n, forall|k: int| j0 <= k < i ==> #[trigger] s[k] == 48, s[i as int] != 48 || n - i < 4,
    decreases n - i,
%% loop 2 before
    let ghost j0 = i as int;
    proof { assert(ex_at(s, j0)); }
%% loop 2 after
    let ghost m = i as int;
    proof { lem_exp(s, j0, m); lem_p10_small(); }
%% loop 3
    invariant
        s == bs@, n == s.len(), m == i, 0 <= j0, __a2_0 == i, 0 <= i < n, (exists|k: int| m <= k < n && !digit(#[trigger] s[k])) ==> !ex_ok(ps_tail(s)), reset ==> is_zero_dec(*self), !reset ==> *self == *old(self), n - i < 4, __n2 == n - i, 0 <= __k2 <= __n2, ex_at(s, j0),
        forall|k: int| i <= k < i + __k2 ==> digit(#[trigger] s[k]),
        exp == nr(s, i as int, i + __k2), 0 <= exp < p10(__k2 as int), p10(0) == 1, p10(1) == 10, p10(2) == 100, p10(3) == 1000,
    decreases __n2 - __k2,
%% after /let frac_digits =/
    let ghost dd = ps_digs(s);
    let ghost dn = dd.len() as int;
    proof {
        lem_pos(s);
        assert(ex_ok(ps_tail(s)) && exp == ex_val(ps_tail(s)));
        assert(last == ps_last(s) && d == dn && dn > 0 && frac_digits == ps_b(s).len());
        assert(at_digit(s, cfirst as int, 0));
        assert(neg == ps_neg(s));
        assert(frac_digits - exp == ps_frac(s));
    }
%% after /self . set_zero/ #2
    let ghost (ii, ff) = (digits - frac, frac as int);
    let ghost fu0 = un(ff);
    let ghost mut k: int = 0;
    proof {
        assert(digits == need(dn, ps_frac(s)) && ff == (if ps_frac(s) < 0 { 0 } else { ps_frac(s) }));
        assert(ps_ok(s));
        lem_p10_small();
        lem_rng_zeros(self.lsu@, un(ii) + fu0, 9);
    }
%% loop 4
    invariant_except_break
        at_digit(s, i as int, k), i <= last, 0 <= k, 1 <= cut, cut == ii - k, 9 * (up - fu0) < cut <= 9 * (up - fu0 + 1),
        0 <= out < p10(9 * (up - fu0 + 1) - cut),
        nr(dd, 0, k) == rng(self.lsu@, up + 1, 9) * p10(9 * (up - fu0 + 1) - cut) + out,
    invariant
        s == bs@, n == s.len(), n < 0x4000_0000_0000_0000, dd == ps_digs(s), dn == dd.len(), dn > 0, last == ps_last(s), 0 <= ii <= 65, 0 <= fu0 <= 4, up < 9, cut <= ii,
        ff > 0 ==> ii < dn, uok(self.lsu@, 0, 9),
    ensures
        at_digit(s, i + 1, k), 0 <= i < n, i <= last, cut == ii - k, 0 <= k <= dn, cut == 0 || k == dn, 0 <= up - fu0,
        9 * (up - fu0) <= cut < 9 * (up - fu0 + 1),
        0 <= out < p10(9 * (up - fu0 + 1) - cut),
        nr(dd, 0, k) == rng(self.lsu@, up + 1, 9) * p10(9 * (up - fu0 + 1) - cut) + out,
        (i == last) == (k == dn),
    decreases last - i,
%% loop 4 begin
    proof { lem_at(s, i as int, k); }
%% before /out = [^;]*\b10\b/
    proof { lem_i_digit(nr(dd, 0, k), rng(self.lsu@, up + 1, 9), 9 * (up - fu0 + 1) - cut, out as int, c - 48); }
%% after /cut (-= 1|= cut - \(? ?1)\b/ #1
    proof { k = k + 1; }
%% before /self . lsu \[ up as usize \] = out ;/ #1
    let ghost ol = self.lsu@;
%% after /self . lsu \[ up as usize \] = out ;/ #1
    proof { lem_put(ol, self.lsu@, up as int); lem_p10_small(); lem_times1(rng(self.lsu@, up as int, 9)); }
%% after /let re =/
    let ghost (ol, c0, up0) = (self.lsu@, cut as int, up as int);
    proof { lem_i_fill(nr(dd, 0, k), rng(ol, up + 1, 9), 9 * (up - fu0 + 1) - cut, out as int, re as int); }
%% after /self . lsu \[ up as usize \] = out \*/
    proof { lem_put(ol, self.lsu@, up as int); }
%% loop 5 before
    proof {
        lem_p10_add(re as int, cut as int);
        let (x, y, r, p) = (p10(re as int), p10(cut as int), rng(self.lsu@, up + 1, 9), nr(dd, 0, k));
        assert(r * y == p * (x * y)) by (nonlinear_arith) requires r == p * x;
    }
%% loop 5
    invariant
        cut == 9 * (up - fu0 + 1), 0 <= cut <= 65, 0 <= fu0 <= 4, fu0 - 1 <= up < 9, uok(self.lsu@, 0, 9),
        rng(self.lsu@, up + 1, 9) * p10(cut as int) == nr(dd, 0, k) * p10(c0),
    decreases cut,
%% loop 5 begin
    let ghost ol = self.lsu@;
%% loop 5 end
    proof {
        lem_put(ol, self.lsu@, up + 1);
        lem_p10_add(9, cut as int);
        lem_p10_small();
        let (x, y, r) = (1_000_000_000int, p10(cut as int), rng(ol, up + 2, 9));
        assert((r * x) * y == r * (x * y)) by (nonlinear_arith);
    }
%% before /if [^{]*\bfrac_units\b/
    proof {
        lem_times1(rng(self.lsu@, fu0, 9));
        lem_times1(nr(dd, 0, k));
        assert(rng(self.lsu@, fu0, 9) == nr(dd, 0, k) * p10(ii - k));
    }
%% loop 6
    invariant
        ff - (dn - k) == 9 * (fu0 - 1 - up) + heading_zeroes, 0 <= heading_zeroes, 0 <= k < dn, heading_zeroes > 0 ==> k == 0,
        0 < ff <= 30, fu0 == un(ff), up < fu0, dn > 0, ff - dn <= 30,
        uok(self.lsu@, 0, 9), rng(self.lsu@, up + 1, 9) == nr(dd, 0, k),
    decreases heading_zeroes,
%% loop 6 begin
    let ghost ol = self.lsu@;
%% loop 6 end
    proof { lem_put(ol, self.lsu@, up + 1); }
%% loop 7
    invariant_except_break
        at_digit(s, i as int, k), i <= last, 0 <= k, 1 <= cut <= 9, 0 <= up,
        ff - (dn - k) == 9 * (fu0 - 1 - up) + 9 - cut,
        0 <= out <= 1_000_000_000 - p10(cut as int),
        nr(dd, 0, k) * p10(cut as int) == rng(self.lsu@, up + 1, 9) * 1_000_000_000 + out,
    invariant
        s == bs@, n == s.len(), n < 0x4000_0000_0000_0000, dd == ps_digs(s), dn == dd.len(), dn > 0, last == ps_last(s), up < fu0 <= 4, 0 < ff <= 30, fu0 == un(ff),
        uok(self.lsu@, 0, 9),
    ensures
        k == dn, 0 <= cut < 9, up == 0, cut == 9 * fu0 - ff, 0 <= out < 1_000_000_000,
        nr(dd, 0, k) * p10(cut as int) == rng(self.lsu@, up + 1, 9) * 1_000_000_000 + out,
    decreases last - i,
%% loop 7 before
    proof {
        lem_p10_pos(cut as int);
        lem_p10_mono(cut as int, 9);
        lem_p10_small();
        assert(nr(dd, 0, k) * p10(cut as int) == rng(self.lsu@, up + 1, 9) * 1_000_000_000) by {
            if heading_zeroes > 0 { assert(nr(dd, 0, k) == 0); assert(0 * p10(cut as int) == 0); } else { assert(p10(cut as int) == 1_000_000_000); }
        }
    }
%% loop 7 begin
    proof { lem_at(s, i as int, k); }
%% before /cut (-= 1|= cut - \(? ?1)\b/ #2
    proof { lem_f_digit(nr(dd, 0, k), rng(self.lsu@, up + 1, 9), cut as int, out as int, c - 48); k = k + 1; }
%% before /self . lsu \[ up as usize \] = out ;/ #2
    let ghost ol = self.lsu@;
%% after /self . lsu \[ up as usize \] = out ;/ #2
    proof { lem_put(ol, self.lsu@, up as int); lem_p10_small(); lem_times1(nr(dd, 0, k)); }
%% before /self . lsu \[ up as usize \] = out ;/ #3
    let ghost ol = self.lsu@;
%% after /self . lsu \[ up as usize \] = out ;/ #3
    proof { lem_put(ol, self.lsu@, up as int); }
%% after /self . frac = frac/
    let ghost d0 = *self;
    proof {
        assert(dd.subrange(0, dn) =~= dd);
        lem_nr(dd, 0, dn);
        lem_ps_done(s, d0);
    }
%% exit tail
    proof {
        if neg { lem_sign(d0, *self, true); }
        let (x, y) = (num(dd), p10(36 - ps_frac(s)));
        assert((-x) * y == -(x * y)) by (nonlinear_arith);
    }

%% fn FixedDecimal::from_ascii_str lemmas=parse_spec
    requires vstd::utf8::encode_utf8(s@).len() < 0x4000_0000_0000_0000,
    ensures
        ps_ok(vstd::utf8::encode_utf8(s@)) ==> r is Ok && ps_post(vstd::utf8::encode_utf8(s@), *final(self)),
        !ps_ok(vstd::utf8::encode_utf8(s@)) ==> r is Err && r->Err_0 is ConversionSyntax && (if reset { is_zero_dec(*final(self)) } else { *final(self) == *old(self) }),

%% fn FromStr::from_str lemmas=parse_spec
    requires vstd::utf8::encode_utf8(src@).len() < 0x4000_0000_0000_0000,
    ensures
        ps_ok(vstd::utf8::encode_utf8(src@)) ==> r is Ok && ps_post(vstd::utf8::encode_utf8(src@), r->Ok_0),
        !ps_ok(vstd::utf8::encode_utf8(src@)) ==> r is Err && r->Err_0 is ConversionSyntax,
