// Text of a decimal.

/// length of the text of n < 1000 without leading zeros, none for zero
pub open spec fn dlen(n: int) -> int { if n == 0 { 0int } else if n < 10 { 1 } else if n < 100 { 2 } else { 3 } }

/// contents of the table of three-digit texts
#[verifier::opaque]
pub open spec fn b2c(i: int) -> int {
    let n = i / 4;
    if i % 4 == 0 { dlen(n) } else if i % 4 == 1 { 48 + n / 100 } else if i % 4 == 2 { 48 + n / 10 % 10 } else { 48 + n % 10 }
}
pub proof fn lem_b2c(n: int)
    requires 0 <= n,
    ensures b2c(4 * n) == dlen(n), b2c(4 * n + 1) == 48 + n / 100, b2c(4 * n + 2) == 48 + n / 10 % 10, b2c(4 * n + 3) == 48 + n % 10,
{
    reveal(b2c);
}
pub open spec fn b2c_ent(t: Seq<u8>, n: int) -> bool {
    t[4 * n] == dlen(n) && t[4 * n + 1] == 48 + n / 100 && t[4 * n + 2] == 48 + n / 10 % 10 && t[4 * n + 3] == 48 + n % 10
}
pub open spec fn b2c_ok9(t: Seq<u8>, i: int, n: int) -> bool decreases n - i { i >= n || (b2c_ent(t, i) && b2c_ok9(t, i + 1, n)) }
#[verifier::opaque]
pub open spec fn b2c_ok(t: Seq<u8>, i: int, n: int) -> bool { b2c_ok9(t, i, n) }
pub proof fn lem_b2c_chunk9(t: Seq<u8>, i: int, n: int)
    requires b2c_ok9(t, i, n),
    ensures forall|k: int| i <= k < n ==> #[trigger] b2c_ent(t, k),
    decreases n - i,
{
    if i < n { lem_b2c_chunk9(t, i + 1, n); }
}
pub proof fn lem_b2c_chunk(t: Seq<u8>, i: int, n: int)
    requires b2c_ok(t, i, n),
    ensures forall|k: int| i <= k < n ==> #[trigger] b2c_ent(t, k),
{
    reveal(b2c_ok);
    lem_b2c_chunk9(t, i, n);
}
pub proof fn lem_b2c_all(t: Seq<u8>)
    requires forall|j: int| 0 <= j < 20 ==> #[trigger] b2c_ok(t, 50 * j, 50 * j + 50),
    ensures forall|k: int| 0 <= k < 4000 ==> #[trigger] t[k] == b2c(k),
{
    assert forall|k: int| 0 <= k < 4000 implies #[trigger] t[k] == b2c(k) by {
        reveal(b2c);
        let j = (k / 4) / 50;
        assert(b2c_ok(t, 50 * j, 50 * j + 50));
        lem_b2c_chunk(t, 50 * j, 50 * j + 50);
        assert(b2c_ent(t, k / 4));
    }
}

/// k decimal digits of v
pub open spec fn digs(v: int, k: int) -> Seq<u8> decreases k {
    if k <= 0 { seq![] } else { digs(v / 10, k - 1).push((48 + v % 10) as u8) }
}

/// decimal digits of v without leading zeros, none for zero
pub open spec fn decz(v: int) -> Seq<u8> decreases v {
    if v <= 0 { seq![] } else { decz(v / 10).push((48 + v % 10) as u8) }
}

pub open spec fn dec(v: int) -> Seq<u8> { if v <= 0 { seq![48u8] } else { decz(v) } }

pub open spec fn rep0(k: int) -> Seq<u8> { Seq::new(if k < 0 { 0 } else { k as nat }, |i: int| 48u8) }

pub open spec fn digit(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn all_digit(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }

pub proof fn lem_digs_len(v: int, k: int)
    requires v >= 0,
    ensures digs(v, k).len() == if k < 0 { 0 } else { k }, all_digit(digs(v, k)),
    decreases k,
{
    if k > 0 { lem_digs_len(v / 10, k - 1); }
}

pub proof fn lem_decz_len(v: int)
    requires v >= 0,
    ensures v > 0 ==> decz(v).len() >= 1 && decz(v)[0] != 48, all_digit(decz(v)),
    decreases v,
{
    if v > 0 {
        lem_decz_len(v / 10);
        if v / 10 > 0 { assert(decz(v)[0] == decz(v / 10)[0]); }
    }
}

pub proof fn lem_p10_div(v: int, w: int, k: int)
    requires k >= 1, v >= 0, 0 <= w,
    ensures (v * p10(k) + w) / 10 == v * p10(k - 1) + w / 10, (v * p10(k) + w) % 10 == w % 10, v * p10(k) >= 0,
{
    lem_p10_pos(k - 1);
    let a = v * p10(k - 1);
    assert(a >= 0) by (nonlinear_arith) requires a == v * p10(k - 1), v >= 0, p10(k - 1) >= 1;
    assert(v * p10(k) == 10 * a) by (nonlinear_arith) requires a == v * p10(k - 1), p10(k) == 10 * p10(k - 1);
}

/// leading digits and the digits after them
pub proof fn lem_digs_cat(v: int, w: int, j: int, k: int)
    requires v >= 0, 0 <= w < p10(k), j >= 0, k >= 0,
    ensures digs(v * p10(k) + w, j + k) == digs(v, j) + digs(w, k),
    decreases k,
{
    if k == 0 {
        assert(v * 1 == v);
        assert(digs(v, j) + digs(w, k) =~= digs(v, j));
    } else {
        lem_p10_div(v, w, k);
        assert(w / 10 < p10(k - 1)) by (nonlinear_arith) requires w < 10 * p10(k - 1);
        lem_digs_cat(v, w / 10, j, k - 1);
        assert(digs(v, j) + digs(w, k) =~= (digs(v, j) + digs(w / 10, k - 1)).push((48 + w % 10) as u8));
    }
}

pub proof fn lem_decz_cat(v: int, w: int, k: int)
    requires v > 0, 0 <= w < p10(k), k >= 0,
    ensures decz(v * p10(k) + w) == decz(v) + digs(w, k),
    decreases k,
{
    if k == 0 {
        assert(v * 1 == v);
        assert(decz(v) + digs(w, k) =~= decz(v));
    } else {
        lem_p10_div(v, w, k);
        lem_p10_pos(k);
        assert(w / 10 < p10(k - 1)) by (nonlinear_arith) requires w < 10 * p10(k - 1);
        lem_decz_cat(v, w / 10, k - 1);
        assert(v * p10(k) >= 1) by (nonlinear_arith) requires v >= 1, p10(k) >= 1;
        assert(decz(v) + digs(w, k) =~= (decz(v) + digs(w / 10, k - 1)).push((48 + w % 10) as u8));
    }
}

/// three more digits
pub proof fn lem_decz3(v: int, w: int)
    requires v >= 0, 0 <= w < 1000,
    ensures
        v == 0 ==> decz(v * 1000 + w) == decz(w),
        v > 0 ==> decz(v * 1000 + w) == decz(v) + digs(w, 3),
        (v * 1000 + w == 0) == (v == 0 && w == 0),
{
    lem_p10_small();
    if v > 0 { lem_decz_cat(v, w, 3); }
}

pub proof fn lem_dec3(w: int)
    requires 0 <= w < 1000,
    ensures
        digs(w, 3) == seq![(48 + w / 100) as u8, (48 + w / 10 % 10) as u8, (48 + w % 10) as u8],
        decz(w) == digs(w, 3).subrange(3 - dlen(w), 3),
        w == 0 ==> decz(w) == Seq::<u8>::empty(),
{
    reveal_with_fuel(digs, 4);
    reveal_with_fuel(decz, 4);
    assert(w / 10 / 10 == w / 100);
    assert(digs(w, 3) =~= seq![(48 + w / 100) as u8, (48 + w / 10 % 10) as u8, (48 + w % 10) as u8]);
    if w == 0 {
        assert(decz(w) =~= digs(w, 3).subrange(3, 3));
    } else if w < 10 {
        assert(decz(w) =~= digs(w, 3).subrange(2, 3));
    } else if w < 100 {
        assert(decz(w) =~= digs(w, 3).subrange(1, 3));
    } else {
        assert(decz(w) =~= digs(w, 3).subrange(0, 3));
    }
}

pub proof fn lem_digs_zero(k: int)
    ensures digs(0, k) == rep0(k),
    decreases k,
{
    if k > 0 {
        lem_digs_zero(k - 1);
        assert(digs(0, k) =~= rep0(k));
    } else {
        assert(digs(0, k) =~= rep0(k));
    }
}

/// the nine digits of a unit
pub proof fn lem_digs9(u: int, h: int, m: int, l: int)
    requires u == h * 1_000_000 + m * 1_000 + l, 0 <= h < 1000, 0 <= m < 1000, 0 <= l < 1000,
    ensures digs(u, 9) == digs(h, 3) + digs(m, 3) + digs(l, 3), digs(u, 9).len() == 9, digs(h, 3).len() == 3, digs(m, 3).len() == 3, digs(l, 3).len() == 3,
{
    lem_p10_small();
    lem_digs_cat(h, m, 3, 3);
    lem_digs_cat(h * 1000 + m, l, 6, 3);
    lem_digs_len(h, 3);
    lem_digs_len(m, 3);
    lem_digs_len(l, 3);
}

/// the digits of the fractional units 0..=up
pub open spec fn fdigs(s: Seq<i32>, up: int) -> Seq<u8> { digs(rng(s, 0, up + 1), 9 * (up + 1)) }

pub proof fn lem_fdigs(s: Seq<i32>, up: int)
    requires uok(s, 0, up + 1), up >= -1,
    ensures
        fdigs(s, up).len() == 9 * (up + 1), all_digit(fdigs(s, up)),
        up >= 0 ==> fdigs(s, up) == digs(s[up] as int, 9) + fdigs(s, up - 1),
{
    lem_rng_bound(s, 0, up + 1);
    lem_digs_len(rng(s, 0, up + 1), 9 * (up + 1));
    if up >= 0 {
        lem_rng_bound(s, 0, up);
        lem_p10_pw(up);
        lem_digs_cat(s[up] as int, rng(s, 0, up), 9, 9 * up);
    }
}

/// what append_frac has still to append
pub open spec fn ftake(s: Seq<i32>, up: int, n: int) -> Seq<u8> { fdigs(s, up).subrange(0, n) }

/// fractional part as an integer
pub open spec fn fpart(d: FixedDecimal) -> int { rng(d.lsu@, 0, fu(d)) }
pub open spec fn ipart(d: FixedDecimal) -> int { rng(d.lsu@, fu(d), 9) }

/// n fractional digits, cut or padded
pub open spec fn ftext(d: FixedDecimal, n: int) -> Seq<u8> {
    if n <= 9 * fu(d) { ftake(d.lsu@, fu(d) - 1, n) } else { fdigs(d.lsu@, fu(d) - 1) + rep0(n - 9 * fu(d)) }
}

pub open spec fn tsgn(d: FixedDecimal) -> Seq<u8> { if neg(d) { seq![45u8] } else { seq![] } }

/// the text of a decimal with n fractional digits
pub open spec fn text(d: FixedDecimal, n: int) -> Seq<u8> {
    tsgn(d) + dec(ipart(d)) + (if n == 0 { seq![] } else { seq![46u8] + ftext(d, n) })
}

pub open spec fn prec(d: FixedDecimal, frac: int) -> int { if frac < 0 { d.frac as int } else { frac } }

pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128 }

pub proof fn lem_text_ascii(d: FixedDecimal, n: int)
    requires wf(d), n >= 0,
    ensures ascii(text(d, n)),
{
    lem_rng_bound(d.lsu@, fu(d), 9);
    lem_decz_len(ipart(d));
    lem_fdigs(d.lsu@, fu(d) - 1);
}

/// digits by threes, cut after fd
pub proof fn lem_ft9(d: Seq<u8>, t: Seq<u8>, fd: int, b: Seq<u8>, rr: Seq<u8>)
    requires d.len() == 9, 0 <= fd <= 9 + t.len(), rr == (d + t).subrange(0, fd),
    ensures
        fd <= 9 ==> b + rr == b + d.subrange(0, fd),
        9 <= fd ==> b + rr == b + d + t.subrange(0, fd - 9),
{
    if fd <= 9 { assert(b + rr =~= b + d.subrange(0, fd)); }
    if 9 <= fd { assert(b + rr =~= b + d + t.subrange(0, fd - 9)); }
}

pub proof fn lem_step9(b: Seq<u8>, d: Seq<u8>, k: int, p: Seq<u8>)
    requires d.len() == 9, 0 <= k, k + p.len() <= 9, p == d.subrange(k, k + p.len()),
    ensures b + d.subrange(0, k) + p == b + d.subrange(0, k + p.len()),
{
    assert(b + d.subrange(0, k) + p =~= b + d.subrange(0, k + p.len()));
}

pub proof fn lem_ft(h: Seq<u8>, m: Seq<u8>, l: Seq<u8>, t: Seq<u8>, fd: int, b: Seq<u8>, rr: Seq<u8>)
    requires h.len() == 3, m.len() == 3, l.len() == 3, 0 <= fd <= 9 + t.len(), rr == (h + m + l + t).subrange(0, fd),
    ensures
        fd == 0 ==> b + rr == b,
        0 <= fd <= 3 ==> b + rr == b + h.subrange(0, fd),
        3 <= fd <= 6 ==> b + rr == b + h + m.subrange(0, fd - 3),
        6 <= fd <= 9 ==> b + rr == b + h + m + l.subrange(0, fd - 6),
        9 <= fd ==> b + rr == b + h + m + l + t.subrange(0, fd - 9),
        fd == 3 ==> b + rr == b + h,
        fd == 6 ==> b + rr == b + h + m,
        fd == 9 ==> b + rr == b + h + m + l,
{
    if fd == 0 { assert(b + rr =~= b); }
    if fd <= 3 { assert(b + rr =~= b + h.subrange(0, fd)); }
    if 3 <= fd <= 6 { assert(b + rr =~= b + h + m.subrange(0, fd - 3)); }
    if 6 <= fd <= 9 { assert(b + rr =~= b + h + m + l.subrange(0, fd - 6)); }
    if 9 <= fd { assert(b + rr =~= b + h + m + l + t.subrange(0, fd - 9)); }
    if fd == 3 { assert(b + rr =~= b + h); }
    if fd == 6 { assert(b + rr =~= b + h + m); }
    if fd == 9 { assert(b + rr =~= b + h + m + l); }
}
