// Specifications and lemmas. No executable code of the crate is in this file.

pub open spec fn base() -> int { 1_000_000_000 }

/// base^n
pub open spec fn pw(n: int) -> int decreases n {
    if n <= 0 { 1 } else { 1_000_000_000 * pw(n - 1) }
}

/// 10^n
pub open spec fn p10(n: int) -> int decreases n {
    if n <= 0 { 1 } else { 10 * p10(n - 1) }
}

/// value of the units lo..hi, least significant first
pub open spec fn rng(s: Seq<i32>, lo: int, hi: int) -> int decreases hi - lo {
    if hi <= lo { 0 } else { rng(s, lo, hi - 1) + s[hi - 1] * pw(hi - 1 - lo) }
}

pub open spec fn uok(s: Seq<i32>, lo: int, hi: int) -> bool {
    forall|i: int| lo <= i < hi ==> 0 <= #[trigger] s[i] < 1_000_000_000
}

pub open spec fn zeros(s: Seq<i32>, lo: int, hi: int) -> bool {
    forall|i: int| lo <= i < hi ==> #[trigger] s[i] == 0
}

/// groups of nine digits needed for n digits
pub open spec fn un(n: int) -> int { (n + 8) / 9 }

pub open spec fn neg(d: FixedDecimal) -> bool { d.intg < 0 }

/// integral digits
pub open spec fn dg(d: FixedDecimal) -> int { if d.intg < 0 { d.intg + 128 } else { d.intg as int } }

pub open spec fn iu(d: FixedDecimal) -> int { un(dg(d)) }
pub open spec fn fu(d: FixedDecimal) -> int { un(d.frac as int) }

/// magnitude as an integer: |value| * base^fu
pub open spec fn mag(d: FixedDecimal) -> int { rng(d.lsu@, 0, 9) }

/// a valid decimal (C01)
pub open spec fn wf(d: FixedDecimal) -> bool {
    &&& 0 <= dg(d) <= 81
    &&& 0 <= d.frac <= 36
    &&& iu(d) + fu(d) <= 9
    &&& uok(d.lsu@, 0, 9)
    &&& zeros(d.lsu@, iu(d) + fu(d), 9)
    &&& mag(d) < p10(dg(d)) * pw(fu(d))
    &&& mag(d) % p10(9 * fu(d) - d.frac) == 0
    &&& neg(d) ==> mag(d) != 0
}

/// value * 10^36
pub open spec fn val(d: FixedDecimal) -> int {
    (if neg(d) { -mag(d) } else { mag(d) }) * pw(4 - fu(d))
}

pub open spec fn is_zero_dec(d: FixedDecimal) -> bool {
    d.intg == 1 && d.frac == 0 && zeros(d.lsu@, 0, 9)
}

// ---------------------------------------------------------------- powers

pub proof fn lem_pw_pos(n: int)
    ensures pw(n) >= 1,
    decreases n,
{
    if n > 0 { lem_pw_pos(n - 1); }
}

pub proof fn lem_pw_add(a: int, b: int)
    requires a >= 0, b >= 0,
    ensures pw(a + b) == pw(a) * pw(b),
    decreases a,
{
    if a > 0 {
        lem_pw_add(a - 1, b);
        assert(pw(a + b) == 1_000_000_000 * pw(a - 1 + b));
        assert(1_000_000_000 * (pw(a - 1) * pw(b)) == (1_000_000_000 * pw(a - 1)) * pw(b)) by (nonlinear_arith);
    } else {
        assert(1 * pw(b) == pw(b));
    }
}

pub proof fn lem_pw_small()
    ensures
        pw(0) == 1,
        pw(1) == 1_000_000_000,
        pw(2) == 1_000_000_000_000_000_000,
        pw(3) == 1_000_000_000_000_000_000_000_000_000,
        pw(4) == 1_000_000_000_000_000_000_000_000_000_000_000_000,
{
    reveal_with_fuel(pw, 5);
}

pub proof fn lem_p10_pos(n: int)
    ensures p10(n) >= 1,
    decreases n,
{
    if n > 0 { lem_p10_pos(n - 1); }
}

pub proof fn lem_p10_add(a: int, b: int)
    requires a >= 0, b >= 0,
    ensures p10(a + b) == p10(a) * p10(b),
    decreases a,
{
    if a > 0 {
        lem_p10_add(a - 1, b);
        assert(p10(a + b) == 10 * p10(a - 1 + b));
        assert(10 * (p10(a - 1) * p10(b)) == (10 * p10(a - 1)) * p10(b)) by (nonlinear_arith);
    } else {
        assert(1 * p10(b) == p10(b));
    }
}

pub proof fn lem_p10_small()
    ensures
        p10(0) == 1, p10(1) == 10, p10(2) == 100, p10(3) == 1000, p10(4) == 10000, p10(5) == 100000,
        p10(6) == 1000000, p10(7) == 10000000, p10(8) == 100000000, p10(9) == 1000000000,
{
    reveal_with_fuel(p10, 10);
}

pub proof fn lem_p10_pw(n: int)
    requires n >= 0,
    ensures p10(9 * n) == pw(n),
    decreases n,
{
    if n > 0 {
        lem_p10_pw(n - 1);
        lem_p10_add(9, 9 * n - 9);
        lem_p10_small();
    }
}

pub proof fn lem_pw_mono(a: int, b: int)
    requires a <= b,
    ensures pw(a) <= pw(b),
    decreases b - a,
{
    lem_pw_pos(b - 1);
    if a < b { lem_pw_mono(a, b - 1); }
}

pub proof fn lem_p10_mono(a: int, b: int)
    requires a <= b,
    ensures p10(a) <= p10(b),
    decreases b - a,
{
    lem_p10_pos(b - 1);
    if a < b { lem_p10_mono(a, b - 1); }
}

// ---------------------------------------------------------------- ranges of units

pub proof fn lem_rng_split(s: Seq<i32>, lo: int, m: int, hi: int)
    requires lo <= m <= hi,
    ensures rng(s, lo, hi) == rng(s, lo, m) + pw(m - lo) * rng(s, m, hi),
    decreases hi - m,
{
    if m < hi {
        lem_rng_split(s, lo, m, hi - 1);
        lem_pw_add(m - lo, hi - 1 - m);
        let a = pw(m - lo);
        let b = rng(s, m, hi - 1);
        let c = s[hi - 1] as int;
        let e = pw(hi - 1 - m);
        assert(pw(hi - 1 - lo) == a * e);
        assert(a * (b + c * e) == a * b + c * (a * e)) by (nonlinear_arith);
    } else {
        assert(pw(m - lo) * 0 == 0);
    }
}

pub proof fn lem_rng_low(s: Seq<i32>, lo: int, hi: int)
    requires lo < hi,
    ensures rng(s, lo, hi) == s[lo] + 1_000_000_000 * rng(s, lo + 1, hi),
{
    lem_rng_split(s, lo, lo + 1, hi);
    lem_pw_small();
    assert(rng(s, lo, lo + 1) == rng(s, lo, lo) + s[lo] * pw(0));
}

pub proof fn lem_rng_bound(s: Seq<i32>, lo: int, hi: int)
    requires uok(s, lo, hi),
    ensures 0 <= rng(s, lo, hi), lo <= hi ==> rng(s, lo, hi) < pw(hi - lo),
    decreases hi - lo,
{
    if lo < hi {
        lem_rng_bound(s, lo, hi - 1);
        let p = pw(hi - 1 - lo);
        lem_pw_pos(hi - 1 - lo);
        let c = s[hi - 1] as int;
        assert(0 <= c * p <= 999_999_999 * p) by (nonlinear_arith) requires 0 <= c <= 999_999_999, p >= 1;
    }
}

pub proof fn lem_rng_eq(s: Seq<i32>, t: Seq<i32>, lo: int, hi: int, off: int)
    requires forall|i: int| lo <= i < hi ==> #[trigger] s[i] == t[i + off],
    ensures rng(s, lo, hi) == rng(t, lo + off, hi + off),
    decreases hi - lo,
{
    if lo < hi {
        lem_rng_eq(s, t, lo, hi - 1, off);
        assert(s[hi - 1] == t[hi - 1 + off]);
    }
}

/// same units, no offset
pub proof fn lem_rng_same(s: Seq<i32>, t: Seq<i32>, lo: int, hi: int)
    requires forall|i: int| lo <= i < hi ==> #[trigger] s[i] == t[i],
    ensures rng(s, lo, hi) == rng(t, lo, hi),
    decreases hi - lo,
{
    if lo < hi { lem_rng_same(s, t, lo, hi - 1); }
}

pub proof fn lem_rng_zeros(s: Seq<i32>, lo: int, hi: int)
    requires zeros(s, lo, hi),
    ensures rng(s, lo, hi) == 0,
    decreases hi - lo,
{
    if lo < hi {
        lem_rng_zeros(s, lo, hi - 1);
        assert(s[hi - 1] == 0);
        assert(0 * pw(hi - 1 - lo) == 0);
    }
}

pub proof fn lem_rng_pos(s: Seq<i32>, lo: int, hi: int, k: int)
    requires uok(s, lo, hi), lo <= k < hi, s[k] > 0,
    ensures rng(s, lo, hi) >= pw(k - lo),
{
    lem_rng_split(s, lo, k, hi);
    lem_rng_bound(s, lo, k);
    lem_rng_low(s, k, hi);
    lem_rng_bound(s, k + 1, hi);
    lem_pw_pos(k - lo);
    let a = pw(k - lo);
    let b = rng(s, k, hi);
    assert(a * b >= a) by (nonlinear_arith) requires a >= 1, b >= 1;
}

pub proof fn lem_rng_nonzero(s: Seq<i32>, lo: int, hi: int)
    requires uok(s, lo, hi), rng(s, lo, hi) == 0,
    ensures zeros(s, lo, hi),
{
    assert forall|i: int| lo <= i < hi implies #[trigger] s[i] == 0 by {
        if s[i] != 0 {
            lem_rng_pos(s, lo, hi, i);
            lem_pw_pos(i - lo);
        }
    }
}

/// units above m are zero
pub proof fn lem_rng_top(s: Seq<i32>, lo: int, m: int, hi: int)
    requires lo <= m <= hi, zeros(s, m, hi),
    ensures rng(s, lo, hi) == rng(s, lo, m),
{
    lem_rng_split(s, lo, m, hi);
    lem_rng_zeros(s, m, hi);
    assert(pw(m - lo) * 0 == 0);
}

/// units below m are zero
pub proof fn lem_rng_bottom(s: Seq<i32>, lo: int, m: int, hi: int)
    requires lo <= m <= hi, zeros(s, lo, m),
    ensures rng(s, lo, hi) == pw(m - lo) * rng(s, m, hi),
{
    lem_rng_split(s, lo, m, hi);
    lem_rng_zeros(s, lo, m);
}

/// equal values, equal units
pub proof fn lem_rng_unique(s: Seq<i32>, t: Seq<i32>, lo: int, hi: int)
    requires uok(s, lo, hi), uok(t, lo, hi), rng(s, lo, hi) == rng(t, lo, hi),
    ensures forall|i: int| lo <= i < hi ==> #[trigger] s[i] == t[i],
    decreases hi - lo,
{
    if lo < hi {
        lem_rng_bound(s, lo, hi - 1);
        lem_rng_bound(t, lo, hi - 1);
        let p = pw(hi - 1 - lo);
        lem_pw_pos(hi - 1 - lo);
        let (a, b) = (rng(s, lo, hi - 1), rng(t, lo, hi - 1));
        let (x, y) = (s[hi - 1] as int, t[hi - 1] as int);
        if x > y { assert((x - y) * p >= p && (x - y) * p == x * p - y * p) by (nonlinear_arith) requires x - y >= 1, p >= 0; }
        if x < y { assert((y - x) * p >= p && (y - x) * p == y * p - x * p) by (nonlinear_arith) requires y - x >= 1, p >= 0; }
        lem_rng_unique(s, t, lo, hi - 1);
        assert forall|i: int| lo <= i < hi implies #[trigger] s[i] == t[i] by {}
    }
}

pub proof fn lem_rng_set(s: Seq<i32>, t: Seq<i32>, lo: int, hi: int, k: int)
    requires lo <= k < hi, forall|i: int| lo <= i < hi && i != k ==> #[trigger] s[i] == t[i],
    ensures rng(t, lo, hi) == rng(s, lo, hi) + (t[k] - s[k]) * pw(k - lo),
    decreases hi - lo,
{
    if k == hi - 1 {
        lem_rng_same(s, t, lo, hi - 1);
        let (a, b, p) = (s[k] as int, t[k] as int, pw(k - lo));
        assert(b * p == a * p + (b - a) * p) by (nonlinear_arith);
    } else {
        lem_rng_set(s, t, lo, hi - 1, k);
        assert(s[hi - 1] == t[hi - 1]);
    }
}

/// value below base^n: nothing from unit n up
pub proof fn lem_rng_small(s: Seq<i32>, n: int, hi: int)
    requires uok(s, 0, hi), 0 <= n, rng(s, 0, hi) < pw(n),
    ensures zeros(s, n, hi),
{
    assert forall|i: int| n <= i < hi implies #[trigger] s[i] == 0 by {
        if s[i] != 0 { lem_rng_pos(s, 0, hi, i); lem_pw_mono(n, i); }
    }
}

/// contribution of s, placed at unit off, to the lowest k units of a sum
pub open spec fn al(s: Seq<i32>, off: int, k: int) -> int {
    pw(off) * rng(s, 0, k - off)
}

pub proof fn lem_al_zero(s: Seq<i32>, off: int, k: int)
    requires k <= off,
    ensures al(s, off, k) == 0,
{
    assert(pw(off) * 0 == 0);
}

pub proof fn lem_al_step(s: Seq<i32>, off: int, k: int)
    requires 0 <= off <= k,
    ensures al(s, off, k + 1) == al(s, off, k) + s[k - off] * pw(k),
{
    lem_pw_add(off, k - off);
    let (a, b, c, e) = (pw(off), rng(s, 0, k - off), s[k - off] as int, pw(k - off));
    assert(a * (b + c * e) == a * b + c * (a * e)) by (nonlinear_arith);
}

/// one column of an addition
pub proof fn lem_add_col(r: int, c: int, x: int, y: int, a: int, b: int, t: int, c2: int, p: int)
    requires r + c * p == x + y, a + b + c == t + c2 * 1_000_000_000,
    ensures r + t * p + c2 * (1_000_000_000 * p) == (x + a * p) + (y + b * p),
{
    assert(r + t * p + c2 * (1_000_000_000 * p) == (x + a * p) + (y + b * p)) by (nonlinear_arith)
        requires r + c * p == x + y, a + b + c == t + c2 * 1_000_000_000;
}

/// one column of a subtraction (c, c2 are 0 or -1)
pub proof fn lem_sub_col(r: int, c: int, x: int, y: int, a: int, b: int, t: int, c2: int, p: int)
    requires r + c * p == x - y, a - b + c == t + c2 * 1_000_000_000,
    ensures r + t * p + c2 * (1_000_000_000 * p) == (x + a * p) - (y + b * p),
{
    assert(r + t * p + c2 * (1_000_000_000 * p) == (x + a * p) - (y + b * p)) by (nonlinear_arith)
        requires r + c * p == x - y, a - b + c == t + c2 * 1_000_000_000;
}

// ---------------------------------------------------------------- divisibility

pub proof fn lem_mod_of_mul(q: int, d: int, e: int)
    requires d > 0, e > 0,
    ensures (q * (d * e)) % d == 0,
{
    assert(q * (d * e) == (q * e) * d) by (nonlinear_arith);
    lem_mul_mod(q * e, d);
}

pub proof fn lem_mul_mod(q: int, d: int)
    requires d > 0,
    ensures (q * d) % d == 0, (q * d) / d == q,
{
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, d);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(q, d);
    assert(q * d == d * q) by (nonlinear_arith);
}

/// m = q*d when m % d == 0
pub proof fn lem_mod_zero(m: int, d: int)
    requires d > 0, m % d == 0,
    ensures m == (m / d) * d,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, d);
    assert(d * (m / d) == (m / d) * d) by (nonlinear_arith);
}

pub proof fn lem_mod_add(a: int, b: int, d: int)
    requires d > 0, a % d == 0, b % d == 0,
    ensures (a + b) % d == 0, (a - b) % d == 0,
{
    lem_mod_zero(a, d);
    lem_mod_zero(b, d);
    let (x, y) = (a / d, b / d);
    assert(a + b == (x + y) * d) by (nonlinear_arith) requires a == x * d, b == y * d;
    assert(a - b == (x - y) * d) by (nonlinear_arith) requires a == x * d, b == y * d;
    lem_mul_mod(x + y, d);
    lem_mul_mod(x - y, d);
}

/// scaling a magnitude of scale a to scale b >= a keeps it free of digits beyond the scale
pub proof fn lem_align(m: int, a: int, b: int)
    requires 0 <= a <= b, m % p10(9 * un(a) - a) == 0,
    ensures (m * pw(un(b) - un(a))) % p10(9 * un(b) - b) == 0, un(b) >= un(a),
{
    let d = p10(9 * un(a) - a);
    let e = pw(un(b) - un(a));
    lem_p10_pos(9 * un(a) - a);
    lem_mod_zero(m, d);
    let q = m / d;
    lem_p10_pw(un(b) - un(a));
    lem_p10_add(9 * un(a) - a, 9 * (un(b) - un(a)));
    // d * e == p10(9*un(b) - a) == p10(9*un(b)-b) * p10(b-a)
    lem_p10_add(9 * un(b) - b, b - a);
    lem_p10_pos(9 * un(b) - b);
    lem_p10_pos(b - a);
    let x = p10(9 * un(b) - b);
    let y = p10(b - a);
    assert(d * e == x * y);
    assert(m * e == q * (x * y)) by (nonlinear_arith) requires m == q * d, d * e == x * y;
    lem_mod_of_mul(q, x, y);
}

// ---------------------------------------------------------------- decimals

pub proof fn lem_i8_sign(x: i8)
    ensures
        (x & (0x80u8 as i8) != 0) == (x < 0),
        (x & 0x7f) as int == (if x < 0 { x + 128 } else { x as int }),
        (x | (0x80u8 as i8)) as int == (if x < 0 { x as int } else { x - 128 }),
        // the same with other spellings of the sign bit
        ((x as u8) & 0x7f) as int == (if x < 0 { x + 128 } else { x as int }),
        (((x as u8) & 0x80) != 0) == (x < 0),
        ((x as u8) & 0x80) as int == (if x < 0 { 128int } else { 0 }),
        ((x as u8) | 0x80) as int == (if x < 0 { x + 256 } else { x + 128 }),
        ((x as u8) >> 7) as int == (if x < 0 { 1int } else { 0 }),
        (x >> 7) as int == (if x < 0 { -1int } else { 0 }),
        (x & -128i8) as int == (if x < 0 { -128int } else { 0 }),
        (x | -128i8) as int == (if x < 0 { x as int } else { x - 128 }),
        (x & (0x80u8 as i8)) as int == (if x < 0 { -128int } else { 0 }),
        (x ^ (0x80u8 as i8)) as int == (if x < 0 { x + 128 } else { x - 128 }),
        x as u8 as int == (if x < 0 { x + 256 } else { x as int }),
{
    assert(x as u8 == if x < 0 { add((x & 0x7f) as u8, 128u8) } else { (x & 0x7f) as u8 }) by (bit_vector);
    let u = x as u8;
    assert(u & 0x7f == if u >= 128u8 { sub(u, 128u8) } else { u }) by (bit_vector);
    assert(u & 0x80 == if u >= 128u8 { 128u8 } else { 0u8 }) by (bit_vector);
    assert(u | 0x80 == if u >= 128u8 { u } else { add(u, 128u8) }) by (bit_vector);
    assert(u >> 7 == if u >= 128u8 { 1u8 } else { 0u8 }) by (bit_vector);
    assert((x as u8 >= 128u8) == (x < 0)) by (bit_vector);
    assert(x >> 7 == if x < 0 { -1i8 } else { 0i8 }) by (bit_vector);
    assert(x & -128i8 == if x < 0 { -128i8 } else { 0i8 }) by (bit_vector);
    assert(x & (0x80u8 as i8) == if x < 0 { -128i8 } else { 0i8 }) by (bit_vector);
    assert(x ^ (0x80u8 as i8) == if x < 0 { add(add(x, 127i8), 1i8) } else { sub(sub(x, 127i8), 1i8) }) by (bit_vector);
    assert(x >= 0 ==> (x | -128i8) == sub(sub(x, 127i8), 1i8)) by (bit_vector);
    assert(x < 0 ==> (x | -128i8) == x) by (bit_vector);
    assert((x & (0x80u8 as i8) != 0) == (x < 0)) by (bit_vector);
    assert(x < 0 ==> (x & 0x7f) == add(add(x, 127i8), 1i8)) by (bit_vector);
    assert(x >= 0 ==> (x & 0x7f) == x) by (bit_vector);
    assert(x < 0 ==> (x | (0x80u8 as i8)) == x) by (bit_vector);
    assert(x >= 0 ==> (x | (0x80u8 as i8)) == sub(sub(x, 127i8), 1i8)) by (bit_vector);
}

// the same as facts that apply by themselves, for functions that touch the sign bit without a hint
pub broadcast proof fn bc_sign_0(x: i8)
    ensures (#[trigger] (x & (0x80u8 as i8))) as int == (if x < 0 { -128int } else { 0 })
{ lem_i8_sign(x); }
pub broadcast proof fn bc_sign_1(x: i8)
    ensures (#[trigger] (x & 0x7f)) as int == (if x < 0 { x + 128 } else { x as int })
{ lem_i8_sign(x); }
pub broadcast proof fn bc_sign_2(x: i8)
    ensures (#[trigger] (x | (0x80u8 as i8))) as int == (if x < 0 { x as int } else { x - 128 })
{ lem_i8_sign(x); }
pub broadcast proof fn bc_sign_3(x: i8)
    ensures (#[trigger] ((x as u8) & 0x7f)) as int == (if x < 0 { x + 128 } else { x as int })
{ lem_i8_sign(x); }
pub broadcast proof fn bc_sign_4(x: i8)
    ensures (#[trigger] ((x as u8) & 0x80)) as int == (if x < 0 { 128int } else { 0 })
{ lem_i8_sign(x); }
pub broadcast proof fn bc_sign_5(x: i8)
    ensures (#[trigger] ((x as u8) | 0x80)) as int == (if x < 0 { x + 256 } else { x + 128 })
{ lem_i8_sign(x); }
pub broadcast proof fn bc_sign_6(x: i8)
    ensures (#[trigger] ((x as u8) >> 7)) as int == (if x < 0 { 1int } else { 0 })
{ lem_i8_sign(x); }
pub broadcast proof fn bc_sign_7(x: i8)
    ensures (#[trigger] (x >> 7)) as int == (if x < 0 { -1int } else { 0 })
{ lem_i8_sign(x); }
pub broadcast proof fn bc_sign_8(x: i8)
    ensures (#[trigger] (x & -128i8)) as int == (if x < 0 { -128int } else { 0 })
{ lem_i8_sign(x); }
pub broadcast proof fn bc_sign_9(x: i8)
    ensures (#[trigger] (x | -128i8)) as int == (if x < 0 { x as int } else { x - 128 })
{ lem_i8_sign(x); }
pub broadcast proof fn bc_sign_10(x: i8)
    ensures (#[trigger] (x ^ (0x80u8 as i8))) as int == (if x < 0 { x + 128 } else { x - 128 })
{ lem_i8_sign(x); }
pub broadcast group fxd_bits {
    bc_sign_0,
    bc_sign_1,
    bc_sign_2,
    bc_sign_3,
    bc_sign_4,
    bc_sign_5,
    bc_sign_6,
    bc_sign_7,
    bc_sign_8,
    bc_sign_9,
    bc_sign_10,
}

pub proof fn lem_zero_dec()
    ensures forall|d: FixedDecimal| is_zero_dec(d) ==> wf(d) && #[trigger] val(d) == 0,
        forall|d: FixedDecimal| is_zero_dec(d) ==> #[trigger] wf(d),
{
    assert forall|d: FixedDecimal| is_zero_dec(d) implies wf(d) && #[trigger] val(d) == 0 by {
        lem_rng_zeros(d.lsu@, 0, 9);
        lem_p10_small();
        lem_pw_small();
    }
    assert forall|d: FixedDecimal| is_zero_dec(d) implies #[trigger] wf(d) by { assert(val(d) == 0); }
}

pub proof fn lem_one_dec(d: FixedDecimal)
    requires d.intg == 1, d.frac == 0, d.lsu[0] == 1, zeros(d.lsu@, 1, 9),
    ensures wf(d), val(d) == p10(36), mag(d) == 1,
{
    lem_rng_top(d.lsu@, 0, 1, 9);
    lem_pw_small();
    lem_p10_small();
    lem_p10_pw(4);
    assert(rng(d.lsu@, 0, 0) == 0);
    assert(rng(d.lsu@, 0, 1) == rng(d.lsu@, 0, 0) + d.lsu@[0] * pw(0));
}

/// d1 is d0 with its sign set to m (and none when it is zero)
pub open spec fn signed(d0: FixedDecimal, d1: FixedDecimal, m: bool) -> bool {
    &&& wf(d1)
    &&& mag(d1) == mag(d0)
    &&& neg(d1) == (m && mag(d0) != 0)
    &&& dg(d1) == dg(d0) && fu(d1) == fu(d0) && iu(d1) == iu(d0)
    &&& val(d1) == if m { -(mag(d0) * pw(4 - fu(d0))) } else { mag(d0) * pw(4 - fu(d0)) }
    &&& (neg(d0) != m || mag(d0) == 0) ==> val(d1) == -val(d0)
    &&& (neg(d0) == m || mag(d0) == 0) ==> val(d1) == val(d0)
}

pub proof fn lem_sign(d0: FixedDecimal, d1: FixedDecimal, m: bool)
    requires
        wf(d0), d1.frac == d0.frac, d1.lsu == d0.lsu,
        d1.intg as int == if zeros(d0.lsu@, 0, 9) || !m { dg(d0) } else { dg(d0) - 128 },
    ensures
        signed(d0, d1, m),
        wf(d1), mag(d1) == mag(d0), neg(d1) == (m && mag(d0) != 0), dg(d1) == dg(d0),
        zeros(d0.lsu@, 0, 9) == (mag(d0) == 0),
        fu(d1) == fu(d0), iu(d1) == iu(d0),
        val(d1) == if m { -(mag(d0) * pw(4 - fu(d0))) } else { mag(d0) * pw(4 - fu(d0)) },
        (neg(d0) != m || mag(d0) == 0) ==> val(d1) == -val(d0),
        (neg(d0) == m || mag(d0) == 0) ==> val(d1) == val(d0),
{
    lem_mag_zero(d0);
    let (a, p) = (mag(d0), pw(4 - fu(d0)));
    assert((-a) * p == -(a * p)) by (nonlinear_arith);
    if a == 0 { assert(a * p == 0) by (nonlinear_arith) requires a == 0; }
}

pub proof fn lem_mag_zero(d: FixedDecimal)
    requires wf(d),
    ensures zeros(d.lsu@, 0, 9) == (mag(d) == 0), mag(d) >= 0, (mag(d) == 0) == (val(d) == 0), neg(d) == (val(d) < 0),
{
    if zeros(d.lsu@, 0, 9) { lem_rng_zeros(d.lsu@, 0, 9); }
    if mag(d) == 0 { lem_rng_nonzero(d.lsu@, 0, 9); }
    lem_rng_bound(d.lsu@, 0, 9);
    lem_pw_pos(4 - fu(d));
    let (a, p) = (mag(d), pw(4 - fu(d)));
    assert(a >= 0 ==> (a * p == 0) == (a == 0)) by (nonlinear_arith) requires p >= 1;
    assert(a > 0 ==> a * p > 0 && (-a) * p < 0) by (nonlinear_arith) requires p >= 1;
}
