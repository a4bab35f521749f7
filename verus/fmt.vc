%% fn const:BIN2CHAR
proof fn lem_b2c_0() ensures b2c_ok(BIN2CHAR_SRC@, 0, 50) { assert(b2c_ok9(BIN2CHAR_SRC@, 0, 50)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_1() ensures b2c_ok(BIN2CHAR_SRC@, 50, 100) { assert(b2c_ok9(BIN2CHAR_SRC@, 50, 100)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_2() ensures b2c_ok(BIN2CHAR_SRC@, 100, 150) { assert(b2c_ok9(BIN2CHAR_SRC@, 100, 150)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_3() ensures b2c_ok(BIN2CHAR_SRC@, 150, 200) { assert(b2c_ok9(BIN2CHAR_SRC@, 150, 200)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_4() ensures b2c_ok(BIN2CHAR_SRC@, 200, 250) { assert(b2c_ok9(BIN2CHAR_SRC@, 200, 250)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_5() ensures b2c_ok(BIN2CHAR_SRC@, 250, 300) { assert(b2c_ok9(BIN2CHAR_SRC@, 250, 300)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_6() ensures b2c_ok(BIN2CHAR_SRC@, 300, 350) { assert(b2c_ok9(BIN2CHAR_SRC@, 300, 350)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_7() ensures b2c_ok(BIN2CHAR_SRC@, 350, 400) { assert(b2c_ok9(BIN2CHAR_SRC@, 350, 400)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_8() ensures b2c_ok(BIN2CHAR_SRC@, 400, 450) { assert(b2c_ok9(BIN2CHAR_SRC@, 400, 450)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_9() ensures b2c_ok(BIN2CHAR_SRC@, 450, 500) { assert(b2c_ok9(BIN2CHAR_SRC@, 450, 500)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_10() ensures b2c_ok(BIN2CHAR_SRC@, 500, 550) { assert(b2c_ok9(BIN2CHAR_SRC@, 500, 550)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_11() ensures b2c_ok(BIN2CHAR_SRC@, 550, 600) { assert(b2c_ok9(BIN2CHAR_SRC@, 550, 600)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_12() ensures b2c_ok(BIN2CHAR_SRC@, 600, 650) { assert(b2c_ok9(BIN2CHAR_SRC@, 600, 650)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_13() ensures b2c_ok(BIN2CHAR_SRC@, 650, 700) { assert(b2c_ok9(BIN2CHAR_SRC@, 650, 700)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_14() ensures b2c_ok(BIN2CHAR_SRC@, 700, 750) { assert(b2c_ok9(BIN2CHAR_SRC@, 700, 750)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_15() ensures b2c_ok(BIN2CHAR_SRC@, 750, 800) { assert(b2c_ok9(BIN2CHAR_SRC@, 750, 800)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_16() ensures b2c_ok(BIN2CHAR_SRC@, 800, 850) { assert(b2c_ok9(BIN2CHAR_SRC@, 800, 850)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_17() ensures b2c_ok(BIN2CHAR_SRC@, 850, 900) { assert(b2c_ok9(BIN2CHAR_SRC@, 850, 900)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_18() ensures b2c_ok(BIN2CHAR_SRC@, 900, 950) { assert(b2c_ok9(BIN2CHAR_SRC@, 900, 950)) by (compute_only); reveal(b2c_ok); }
proof fn lem_b2c_19() ensures b2c_ok(BIN2CHAR_SRC@, 950, 1000) { assert(b2c_ok9(BIN2CHAR_SRC@, 950, 1000)) by (compute_only); reveal(b2c_ok); }
pub exec const BIN2CHAR: CONST_TYPE
    ensures BIN2CHAR@.len() == 4001, forall|k: int| 0 <= k < 4000 ==> #[trigger] BIN2CHAR@[k] == b2c(k),
{
    proof {
        assert forall|j: int| 0 <= j < 20 implies #[trigger] b2c_ok(BIN2CHAR_SRC@, 50 * j, 50 * j + 50) by {
            if j == 0 { lem_b2c_0(); } if j == 1 { lem_b2c_1(); } if j == 2 { lem_b2c_2(); } if j == 3 { lem_b2c_3(); } if j == 4 { lem_b2c_4(); } if j == 5 { lem_b2c_5(); } if j == 6 { lem_b2c_6(); } if j == 7 { lem_b2c_7(); } if j == 8 { lem_b2c_8(); } if j == 9 { lem_b2c_9(); } if j == 10 { lem_b2c_10(); } if j == 11 { lem_b2c_11(); } if j == 12 { lem_b2c_12(); } if j == 13 { lem_b2c_13(); } if j == 14 { lem_b2c_14(); } if j == 15 { lem_b2c_15(); } if j == 16 { lem_b2c_16(); } if j == 17 { lem_b2c_17(); } if j == 18 { lem_b2c_18(); } if j == 19 { lem_b2c_19(); }
        }
        lem_b2c_all(BIN2CHAR_SRC@);
    }
    BIN2CHAR_SRC
}

%% fn d3_to_str lemmas=fmt_spec
    requires 0 <= val < 1000,
    ensures
        final(buf)@ == old(buf)@ + (if elim_heading_zeroes { decz(val as int) } else { digs(val as int, 3) }),
        r == (elim_heading_zeroes && val == 0),
%% entry
    let ghost (o, w) = (buf@, val as int);
    proof { lem_b2c(w); lem_dec3(w); }
%% exit 1
    proof { assert(buf@ =~= o + digs(w, 3)); }
%% exit 2
    proof { assert(buf@ =~= o + decz(w)); }
%% exit tail
    proof { assert(buf@ =~= o + decz(w)); }

%% fn FixedDecimal::append_frac loops=4 loopiso=false lemmas=fmt_spec rlimit=100
    requires uok(self.lsu@, 0, 9), -1 <= up < 9, 0 <= frac_digits <= 9 * (up + 1),
    ensures final(buf)@ == old(buf)@ + ftake(self.lsu@, up as int, frac_digits as int),
%% entry
    let ghost o = buf@;
    let ghost s = self.lsu@;
    let ghost want = o + ftake(s, up as int, frac_digits as int);
%% loop 1
    invariant
        s == self.lsu@, uok(s, 0, 9), s.len() == 9, -1 <= up < 9, 0 <= frac_digits <= 9 * (up + 1),
        buf@ + ftake(s, up as int, frac_digits as int) == want,
    decreases up + 1,
%% loop 1 begin
    let ghost (b0, up0, fd0) = (buf@, up as int, frac_digits as int);
    let ghost rr = ftake(s, up0, fd0);
    let ghost uu = s[up0] as int;
    let ghost h = uu / 1_000_000;
    let ghost m = (uu - h * 1_000_000) / 1_000;
    let ghost l = uu - h * 1_000_000 - m * 1_000;
    proof {
        lem_fdigs(s, up0);
        lem_fdigs(s, up0 - 1);
        lem_digs9(uu, h, m, l);
        lem_dec3(h); lem_dec3(m); lem_dec3(l);
        lem_b2c(h); lem_b2c(m); lem_b2c(l);
        lem_digs_zero(9);
        lem_digs_zero(3);
        lem_ft(digs(h, 3), digs(m, 3), digs(l, 3), fdigs(s, up0 - 1), fd0, b0, rr);
    }
%% loop 1 continue
    proof { assert(buf@ =~= b0 + digs(h, 3) + digs(m, 3) + digs(l, 3)); }
%% loop 1 end
    proof { assert(buf@ =~= b0 + digs(h, 3) + digs(m, 3) + digs(l, 3)); }
%% loop 1 after
    proof { assert(want =~= buf@); }
%% loop 2 before
    let ghost (bz, z0) = (buf@, __k1 as int);
%% loop 2
    invariant z0 <= __k1 <= __e1 || __k1 == z0, buf@ =~= bz + rep0(__k1 - z0),
    decreases __e1 - __k1,
%% loop 2 after
    proof {
        let k = buf@.len() - b0.len();
        if k <= 3 { assert(buf@ =~= b0 + digs(h, 3).subrange(0, k)); } else if k <= 6 { assert(buf@ =~= b0 + digs(h, 3) + digs(m, 3).subrange(0, k - 3)); } else { assert(buf@ =~= b0 + digs(h, 3) + digs(m, 3) + digs(l, 3).subrange(0, k - 6)); }
    }
%% loop 3 before
    let ghost (bz, z0) = (buf@, __k2 as int);
%% loop 3
    invariant z0 <= __k2 <= __e2 || __k2 == z0, buf@ =~= bz + rep0(__k2 - z0),
    decreases __e2 - __k2,
%% loop 3 after
    proof {
        let k = buf@.len() - b0.len();
        if k <= 3 { assert(buf@ =~= b0 + digs(h, 3).subrange(0, k)); } else if k <= 6 { assert(buf@ =~= b0 + digs(h, 3) + digs(m, 3).subrange(0, k - 3)); } else { assert(buf@ =~= b0 + digs(h, 3) + digs(m, 3) + digs(l, 3).subrange(0, k - 6)); }
    }
%% loop 4 before
    let ghost bz = buf@;
%% loop 4
    invariant 0 <= __k3 <= __e3 || __k3 == 0, buf@ =~= bz + rep0(__k3 as int),
    decreases __e3 - __k3,
%% loop 4 after
    proof {
        let k = buf@.len() - b0.len();
        if k <= 3 { assert(buf@ =~= b0 + digs(h, 3).subrange(0, k)); } else if k <= 6 { assert(buf@ =~= b0 + digs(h, 3) + digs(m, 3).subrange(0, k - 3)); } else { assert(buf@ =~= b0 + digs(h, 3) + digs(m, 3) + digs(l, 3).subrange(0, k - 6)); }
    }
%% afterall /buf . extend_from_slice \( b"000000000"/
    proof { assert(buf@ =~= b0 + rep0(9)); assert(rep0(9) =~= digs(h, 3) + digs(m, 3) + digs(l, 3)); }
%% afterall /buf . extend_from_slice \( b"000" \) |buf . extend_from_slice [^;]*\+ 3 /
    proof {
        let k = buf@.len() - b0.len();
        if k == 3 { assert(buf@ =~= b0 + digs(h, 3)); } else if k == 6 { assert(buf@ =~= b0 + digs(h, 3) + digs(m, 3)); } else { assert(buf@ =~= b0 + digs(h, 3) + digs(m, 3) + digs(l, 3)); }
    }

%% fn FixedDecimal::append_str_buf loops=3 lemmas=fmt_spec rlimit=100
    requires wf(*self),
    ensures final(buf)@ == old(buf)@ + text(*self, prec(*self, frac as int)),
%% entry
    let ghost d = *self;
    let ghost o = buf@;
    let ghost s = self.lsu@;
    let ghost t = iu(d) + fu(d);
    proof { lem_rng_zeros(s, t, 9); lem_rng_bound(s, fu(d), 9); lem_fdigs(s, fu(d) - 1); lem_rng_top(s, fu(d), t, 9); }
%% before /let intg_units/
    let ghost b0 = buf@;
    proof { assert(b0 =~= o + tsgn(d)); }
%% loop 1
    invariant
        s == self.lsu@, uok(s, 0, 9), s.len() == 9, frac_units == fu(d), t == iu(d) + fu(d), 0 <= fu(d) <= 4, 0 <= iu(d), t <= 9,
        fu(d) - 1 <= up < t,
        buf@ == b0 + decz(rng(s, up + 1, t)),
        elim_heading_zeroes == (rng(s, up + 1, t) == 0),
    decreases up + 1,
%% loop 1 begin
    let ghost (bu, up0) = (buf@, up as int);
    let ghost v0 = rng(s, up0 + 1, t);
    let ghost uu = s[up0] as int;
    let ghost h = uu / 1_000_000;
    let ghost m = (uu - h * 1_000_000) / 1_000;
    let ghost l = uu - h * 1_000_000 - m * 1_000;
    proof {
        lem_rng_bound(s, up0 + 1, t);
        lem_rng_low(s, up0, t);
        lem_decz3(v0, h);
        lem_decz3(v0 * 1000 + h, m);
        lem_decz3((v0 * 1000 + h) * 1000 + m, l);
        assert(((v0 * 1000 + h) * 1000 + m) * 1000 + l == v0 * 1_000_000_000 + uu);
    }
%% loop 1 end
    proof {
        let v1 = v0 * 1000 + h;
        let v2 = v1 * 1000 + m;
        let v3 = v2 * 1000 + l;
        let e1 = b0 + decz(v1);
        let e2 = b0 + decz(v2);
        assert(e1 =~= bu + (if v0 == 0 { decz(h) } else { digs(h, 3) }));
        assert(e2 =~= e1 + (if v1 == 0 { decz(m) } else { digs(m, 3) }));
        assert(b0 + decz(v3) =~= e2 + (if v2 == 0 { decz(l) } else { digs(l, 3) }));
    }
%% loop 2 before
    let ghost (bz, z0) = (buf@, __k1 as int);
%% loop 2
    invariant z0 <= __k1 <= __e1 || __k1 == z0, buf@ =~= bz + rep0(__k1 - z0),
    decreases __e1 - __k1,
%% loop 3 before
    let ghost (bz, z0) = (buf@, __k2 as int);
%% loop 3
    invariant z0 <= __k2 <= __e2 || __k2 == z0, buf@ =~= bz + rep0(__k2 - z0),
    decreases __e2 - __k2,
%% exit
    proof {
        let n = prec(d, frac as int);
        let b1 = b0 + dec(ipart(d));
        if n == 0 { assert(buf@ =~= o + text(d, n)); } else {
            assert(ftext(d, 0) =~= Seq::<u8>::empty());
            assert(buf@ =~= b1 + (seq![46u8] + ftext(d, n)));
            assert(buf@ =~= o + text(d, n));
        }
    }

%% fn FixedDecimal::to_string lemmas=fmt_spec
    requires wf(*self),
    ensures vstd::utf8::encode_utf8(r@) == text(*self, prec(*self, frac as int)), ascii(text(*self, prec(*self, frac as int))),
%% after /self . append_str_buf/
    proof { lem_text_ascii(*self, prec(*self, frac as int)); assert(bs@ =~= text(*self, prec(*self, frac as int))); }
