// C09: the grammar, written down as a decomposition of the text, and parsing as a client of the contracts.

/// the parts of a decimal text
pub ghost struct Txt { pub sign: Seq<u8>, pub a: Seq<u8>, pub dot: bool, pub b: Seq<u8>, pub e: Seq<u8>, pub esign: Seq<u8>, pub x: Seq<u8> }

pub open spec fn sign_text(t: Seq<u8>) -> bool { t == Seq::<u8>::empty() || t == seq![43u8] || t == seq![45u8] }

/// [+-] digits [.] digits [eE [+-] digits]
pub open spec fn written(s: Seq<u8>, w: Txt) -> bool {
    &&& s == w.sign + w.a + (if w.dot { seq![46u8] } else { Seq::<u8>::empty() }) + w.b + (w.e + w.esign + w.x)
    &&& sign_text(w.sign) && sign_text(w.esign)
    &&& all_digit(w.a) && all_digit(w.b) && all_digit(w.x)
    &&& !w.dot ==> w.b.len() == 0
    &&& w.a.len() + w.b.len() > 0
    &&& (w.e == Seq::<u8>::empty() && w.esign.len() == 0 && w.x.len() == 0) || ((w.e == seq![101u8] || w.e == seq![69u8]) && w.x.len() > 0)
}

pub open spec fn exponent(w: Txt) -> int { if w.esign == seq![45u8] { -num(w.x) } else { num(w.x) } }
pub open spec fn places(w: Txt) -> int { w.b.len() - exponent(w) }

/// exponent between -30 and 65, at most 65 digits and 30 of them fractional after it is applied
pub open spec fn limits(w: Txt) -> bool {
    &&& -30 <= exponent(w) <= 65
    &&& need((w.a.len() + w.b.len()) as int, places(w)) <= 65
    &&& places(w) <= 30
}

/// the number written, times 10^36
pub open spec fn number(w: Txt) -> int {
    (if w.sign == seq![45u8] { -num(w.a + w.b) } else { num(w.a + w.b) }) * p10(36 - places(w))
}

pub proof fn lem_written(s: Seq<u8>, w: Txt)
    requires written(s, w),
    ensures
        ps_neg(s) == (w.sign == seq![45u8]), ps_a(s) == w.a, ps_b(s) == w.b, ps_tail(s) == w.e + w.esign + w.x,
        ps_digs(s) == w.a + w.b,
        w.e.len() > 0 ==> ex_digits(ps_tail(s)) == w.x && ex_neg(ps_tail(s)) == (w.esign == seq![45u8]),
{
    let t = w.e + w.esign + w.x;
    let i0 = w.sign.len() as int;
    let i1 = i0 + w.a.len();
    let ib = if w.dot { i1 + 1 } else { i1 };
    let i2 = ib + w.b.len();
    let n = s.len() as int;
    assert(n == i2 + t.len());
    if w.sign.len() > 0 { assert(s[0] == w.sign[0]); }
    else if w.a.len() > 0 { assert(s[0] == w.a[0]); }
    else { assert(w.dot); assert(s[0] == 46); }
    assert(sgl(s) == i0);
    assert forall|j: int| i0 <= j < i1 implies digit(#[trigger] s[j]) by { assert(s[j] == w.a[j - i0]); }
    if t.len() > 0 { assert(s[i2] == t[0]); assert(t[0] == w.e[0]); }
    if w.dot { assert(s[i1] == 46); }
    lem_nd_is(s, i0, i1);
    assert(p1(s) == i1);
    assert(dotp(s) == w.dot);
    assert forall|j: int| ib <= j < i2 implies digit(#[trigger] s[j]) by { assert(s[j] == w.b[j - ib]); }
    if w.dot { lem_nd_is(s, ib, i2); }
    assert(p2(s) == i2 && pb(s) == ib);
    assert(ps_a(s) =~= w.a);
    assert(ps_b(s) =~= w.b);
    assert(ps_tail(s) =~= t);
    if w.e.len() > 0 {
        if w.esign.len() > 0 { assert(t[1] == w.esign[0]); } else { assert(t[1] == w.x[0]); }
        assert(ex_start(t) == 1 + w.esign.len());
        assert(ex_digits(t) =~= w.x);
    }
}

pub open spec fn parts(s: Seq<u8>) -> Txt {
    let t = ps_tail(s);
    Txt {
        sign: s.subrange(0, sgl(s)), a: ps_a(s), dot: dotp(s), b: ps_b(s),
        e: if t.len() == 0 { Seq::<u8>::empty() } else { t.subrange(0, 1) },
        esign: if t.len() == 0 { Seq::<u8>::empty() } else { t.subrange(1, ex_start(t)) },
        x: if t.len() == 0 { Seq::<u8>::empty() } else { ex_digits(t) },
    }
}

pub proof fn lem_parts(s: Seq<u8>)
    requires ps_ok(s),
    ensures written(s, parts(s)),
{
    lem_pos(s);
    let w = parts(s);
    let t = ps_tail(s);
    assert(t =~= w.e + w.esign + w.x);
    assert(s =~= w.sign + w.a + (if w.dot { seq![46u8] } else { Seq::<u8>::empty() }) + w.b + t);
    if sgl(s) == 0 { assert(w.sign =~= Seq::<u8>::empty()); }
    else if s[0] == 43 { assert(w.sign =~= seq![43u8]); }
    else { assert(w.sign =~= seq![45u8]); }
    if t.len() > 0 {
        if t[0] == 101 { assert(w.e =~= seq![101u8]); } else { assert(w.e =~= seq![69u8]); }
        if ex_start(t) == 1 { assert(w.esign =~= Seq::<u8>::empty()); }
        else if t[1] == 43 { assert(w.esign =~= seq![43u8]); }
        else { assert(w.esign =~= seq![45u8]); }
    }
}

/// accepted exactly when the text has this form and these limits
pub proof fn thm_grammar(s: Seq<u8>)
    ensures
        ps_ok(s) <==> exists|w: Txt| #[trigger] written(s, w) && limits(w),
        forall|w: Txt| #[trigger] written(s, w) ==> ps_frac(s) == places(w) && ps_val(s) == number(w),
{
    assert forall|w: Txt| #[trigger] written(s, w) implies ps_frac(s) == places(w) && ps_val(s) == number(w) && ps_ok(s) == limits(w) by {
        lem_written(s, w);
        lem_nr(w.x, 0, w.x.len() as int);
        lem_nr_bound(w.x, 0, w.x.len() as int);
        assert(w.x.subrange(0, w.x.len() as int) =~= w.x);
        if w.e.len() == 0 {
            assert(w.x =~= Seq::<u8>::empty());
            assert(num(w.x) == 0);
        }
    }
    if ps_ok(s) {
        lem_parts(s);
        assert(written(s, parts(s)));
    }
}

/// parsing: exactly the grammar, exactly the number, the written fractional digits adjusted by the exponent
pub fn thm_parse(d: &mut FixedDecimal, bs: &[u8], reset: bool, Ghost(w): Ghost<Txt>) -> (r: Result<()>)
    requires bs@.len() < 0x4000_0000_0000_0000,
    ensures
        r is Ok <==> exists|v: Txt| #[trigger] written(bs@, v) && limits(v),
        r is Err ==> r->Err_0 is ConversionSyntax,
        r is Ok && written(bs@, w) ==> wf(*final(d)) && val(*final(d)) == number(w) && final(d).frac == (if places(w) < 0 { 0 } else { places(w) }),
{
    proof { thm_grammar(bs@); }
    d.from_bytes_str(bs, reset)
}
