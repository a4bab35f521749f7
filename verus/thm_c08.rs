// C08 as a client of the contracts of == and of hashing.

/// two hashers that saw the same data so far still have seen the same data after hashing equal decimals
pub fn thm_eq_hash<H: VHasher>(a: &FixedDecimal, b: &FixedDecimal, g: &mut H, h: &mut H) -> (r: bool)
    requires wf(*a), wf(*b), old(g).log() == old(h).log(),
    ensures r == (val(*a) == val(*b)), r ==> final(g).log() == final(h).log(),
{
    let r = a.eq(b);
    a.hash(g);
    b.hash(h);
    proof { if r { thm_equal_hash(*a, *b); } }
    r
}
