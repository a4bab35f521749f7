// C17 as clients of the contracts.

/// reported zero exactly when the value is zero; reported negative exactly when it is below zero
pub fn thm_is_zero(d: &FixedDecimal) -> (r: (bool, bool))
    requires wf(*d),
    ensures r.0 == (val(*d) == 0), r.1 == (val(*d) < 0),
{
    proof { lem_mag_zero(*d); }
    (d.is_zero(), d.is_neg())
}

/// making it negative changes only the sign, zero stays non-negative
pub fn thm_set_neg(d: &mut FixedDecimal)
    requires wf(*old(d)),
    ensures
        wf(*final(d)), final(d).frac == old(d).frac, dg(*final(d)) == dg(*old(d)), final(d).lsu == old(d).lsu,
        val(*final(d)) == -abs2(val(*old(d))),
{
    let ghost o = *d;
    d.set_neg();
    proof { lem_mag_zero(o); if neg(o) { lem_mag_zero(*d); } else { lem_sign(o, *d, true); } }
}

/// making it positive changes only the sign
pub fn thm_set_pos(d: &mut FixedDecimal)
    requires wf(*old(d)),
    ensures
        wf(*final(d)), final(d).frac == old(d).frac, dg(*final(d)) == dg(*old(d)), final(d).lsu == old(d).lsu,
        val(*final(d)) == abs2(val(*old(d))), !neg(*final(d)),
{
    let ghost o = *d;
    d.set_pos();
    proof { lem_mag_zero(o); lem_sign(o, *d, false); }
}

/// the constructors and setters give exactly 0 and 1 with scale 0
pub fn thm_constants(d: &mut FixedDecimal) -> (r: (FixedDecimal, FixedDecimal))
    ensures
        wf(r.0), val(r.0) == 0, r.0.frac == 0, !neg(r.0),
        wf(r.1), val(r.1) == p10(36), r.1.frac == 0, !neg(r.1),
        wf(*final(d)), val(*final(d)) == p10(36), final(d).frac == 0, !neg(*final(d)),
{
    let z = FixedDecimal::zero();
    let o = FixedDecimal::one();
    d.set_zero();
    assert(wf(*d) && val(*d) == 0 && d.frac == 0 && !neg(*d));
    d.set_one();
    (z, o)
}

/// digit count and scale do not depend on the sign; group counts are those divided by nine, rounded up
pub fn thm_counts(d: &FixedDecimal) -> (r: (i8, i8, usize, usize))
    requires wf(*d),
    ensures
        r.0 as int == dg(*d), r.1 == d.frac, r.2 as int == un(dg(*d)), r.3 as int == un(d.frac as int),
        forall|e: FixedDecimal| #[trigger] dg(e) == dg(*d) || (e.intg as int != d.intg as int && e.intg as int != d.intg + 128 && e.intg as int != d.intg - 128),
{
    (d.intg(), d.frac(), d.intg_units(), d.frac_units())
}
