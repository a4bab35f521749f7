// Contract of hashing: what is fed to the hasher, and that it only depends on the value.
//@needs arith_spec

/// stands for std::hash::Hasher; log() is the sequence of (width, value) writes seen so far
pub trait VHasher {
    spec fn log(&self) -> Seq<(int, int)>;
    fn write_u8(&mut self, i: u8) ensures final(self).log() == old(self).log().push((1, i as int));
    fn write_u16(&mut self, i: u16) ensures final(self).log() == old(self).log().push((2, i as int));
    fn write_u32(&mut self, i: u32) ensures final(self).log() == old(self).log().push((4, i as int));
    fn write_u64(&mut self, i: u64) ensures final(self).log() == old(self).log().push((8, i as int));
    fn write_usize(&mut self, i: usize) ensures final(self).log() == old(self).log().push((9, i as int));
    fn write_i8(&mut self, i: i8) ensures final(self).log() == old(self).log().push((-1, i as int));
    fn write_i16(&mut self, i: i16) ensures final(self).log() == old(self).log().push((-2, i as int));
    fn write_i32(&mut self, i: i32) ensures final(self).log() == old(self).log().push((-4, i as int));
    fn write_i64(&mut self, i: i64) ensures final(self).log() == old(self).log().push((-8, i as int));
    fn write_isize(&mut self, i: isize) ensures final(self).log() == old(self).log().push((-9, i as int));
}

/// end of the significant units: above it (below n) all are zero
pub open spec fn sig_hi(s: Seq<i32>, lo: int, n: int) -> int decreases n - lo {
    if n <= lo { lo } else if s[n - 1] != 0 { n } else { sig_hi(s, lo, n - 1) }
}

/// start of the significant units: below it all are zero
pub open spec fn sig_lo(s: Seq<i32>, i: int, hi: int) -> int decreases hi - i {
    if i >= hi { hi } else if s[i] != 0 { i } else { sig_lo(s, i + 1, hi) }
}

pub open spec fn unit_log(s: Seq<i32>, lo: int, hi: int) -> Seq<(int, int)> {
    Seq::new((if hi >= lo { hi - lo } else { 0 }) as nat, |i: int| (4int, s[lo + i] as int))
}

/// what hashing d writes
pub open spec fn hash_log(d: FixedDecimal) -> Seq<(int, int)> {
    let f = fu(d);
    let h = sig_hi(d.lsu@, f, f + iu(d));
    let b = sig_lo(d.lsu@, 0, f);
    seq![(1int, if neg(d) { 1int } else { 0int }), (1int, h - f), (1int, f - b)] + unit_log(d.lsu@, b, h)
}

pub proof fn lem_sig_hi(s: Seq<i32>, lo: int, n: int)
    requires lo <= n,
    ensures
        lo <= sig_hi(s, lo, n) <= n, zeros(s, sig_hi(s, lo, n), n),
        sig_hi(s, lo, n) > lo ==> s[sig_hi(s, lo, n) - 1] != 0,
    decreases n - lo,
{
    if lo < n && s[n - 1] == 0 { lem_sig_hi(s, lo, n - 1); }
}

pub proof fn lem_sig_lo(s: Seq<i32>, i: int, hi: int)
    requires i <= hi,
    ensures
        i <= sig_lo(s, i, hi) <= hi, zeros(s, i, sig_lo(s, i, hi)),
        sig_lo(s, i, hi) < hi ==> s[sig_lo(s, i, hi)] != 0,
    decreases hi - i,
{
    if i < hi && s[i] == 0 { lem_sig_lo(s, i + 1, hi); }
}

/// units of equal values agree position by position
proof fn lem_equal_units(a: FixedDecimal, b: FixedDecimal)
    requires wf(a), wf(b), val(a) == val(b), fu(a) <= fu(b),
    ensures
        neg(a) == neg(b),
        forall|k: int| fu(b) - fu(a) <= k < 9 ==> #[trigger] b.lsu@[k] == a.lsu@[k - (fu(b) - fu(a))],
        zeros(b.lsu@, 0, fu(b) - fu(a)),
        zeros(a.lsu@, 9 - (fu(b) - fu(a)), 9),
{
    let o = fu(b) - fu(a);
    lem_mag_zero(a);
    lem_mag_zero(b);
    lem_val(a, fu(b));
    lem_val(b, fu(b));
    lem_pw_pos(4 - fu(b));
    lem_pw_small();
    let (x, y, p) = (vals(a, fu(b)), vals(b, fu(b)), pw(4 - fu(b)));
    assert(x == y) by (nonlinear_arith) requires x * p == y * p, p >= 1;
    assert(mags(b, fu(b)) == mag(b)) by (nonlinear_arith) requires mags(b, fu(b)) == mag(b) * pw(0), pw(0) == 1;
    assert(mag(a) * pw(o) == mag(b));
    // mag(a) fits in 9 - o units
    lem_rng_bound(b.lsu@, 0, 9);
    lem_rng_bound(a.lsu@, 0, 9);
    lem_pw_add(9 - o, o);
    lem_pw_pos(o);
    let (m, q, t) = (mag(a), pw(o), pw(9 - o));
    assert(m < t) by (nonlinear_arith) requires m * q < t * q, q >= 1;
    assert forall|k: int| 9 - o <= k < 9 implies #[trigger] a.lsu@[k] == 0 by {
        if a.lsu@[k] != 0 { lem_rng_pos(a.lsu@, 0, 9, k); lem_pw_mono(9 - o, k); }
    }
    let t = Seq::new(9, |i: int| if i < o { 0i32 } else { a.lsu@[i - o] });
    lem_rng_bottom(t, 0, o, 9);
    lem_rng_eq(a.lsu@, t, 0, 9 - o, o);
    lem_rng_top(a.lsu@, 0, 9 - o, 9);
    assert(pw(o) * mag(a) == mag(a) * pw(o)) by (nonlinear_arith);
    lem_rng_unique(t, b.lsu@, 0, 9);
    assert forall|k: int| o <= k < 9 implies #[trigger] b.lsu@[k] == a.lsu@[k - o] by { assert(t[k] == b.lsu@[k]); }
    assert forall|k: int| 0 <= k < o implies #[trigger] b.lsu@[k] == 0 by { assert(t[k] == b.lsu@[k]); }
}

proof fn lem_hash_le(a: FixedDecimal, b: FixedDecimal)
    requires wf(a), wf(b), val(a) == val(b), fu(a) <= fu(b),
    ensures hash_log(a) == hash_log(b),
{
    let o = fu(b) - fu(a);
    lem_equal_units(a, b);
    let (s, t) = (a.lsu@, b.lsu@);
    let (fa, fb) = (fu(a), fu(b));
    let (ha, hb) = (sig_hi(s, fa, fa + iu(a)), sig_hi(t, fb, fb + iu(b)));
    let (la, lb) = (sig_lo(s, 0, fa), sig_lo(t, 0, fb));
    lem_sig_hi(s, fa, fa + iu(a));
    lem_sig_hi(t, fb, fb + iu(b));
    lem_sig_lo(s, 0, fa);
    lem_sig_lo(t, 0, fb);
    // all units at or above ha (in a) and hb (in b) are zero
    if ha + o < hb { assert(t[hb - 1] == s[hb - 1 - o]); }
    if ha + o > hb {
        assert(s[ha - 1] != 0);
        assert(ha - 1 + o < 9);
        assert(t[ha - 1 + o] == s[ha - 1]);
        assert(ha - 1 + o >= hb);
    }
    assert(ha + o == hb);
    if la + o < lb { assert(t[la + o] == s[la]); }
    if la + o > lb {
        assert(t[lb] != 0);
        assert(lb >= o);
        assert(t[lb] == s[lb - o]);
    }
    assert(la + o == lb);
    assert forall|i: int| 0 <= i < ha - la implies #[trigger] s[la + i] == t[lb + i] by {
        assert(t[la + i + o] == s[la + i]);
    }
    assert(unit_log(s, la, ha) =~= unit_log(t, lb, hb));
}

/// C08: equal decimals feed identical data to a hasher
pub proof fn thm_equal_hash(a: FixedDecimal, b: FixedDecimal)
    requires wf(a), wf(b), val(a) == val(b),
    ensures hash_log(a) == hash_log(b),
{
    if fu(a) <= fu(b) { lem_hash_le(a, b); } else { lem_hash_le(b, a); }
}
