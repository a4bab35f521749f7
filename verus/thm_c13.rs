// C13: every 64-bit integer converts to a decimal of exactly that value with scale 0
pub fn thm_from_u64(n: u64) -> (d: FixedDecimal)
    ensures wf(d), d.frac == 0, val(d) == n * p10(36),
{
    proof { lem_p10_pw(4); }
    FixedDecimal::from_u64(n)
}

pub fn thm_from_i64(n: i64) -> (d: FixedDecimal)
    ensures wf(d), d.frac == 0, val(d) == n * p10(36),
{
    proof { lem_p10_pw(4); }
    FixedDecimal::from_i64(n)
}
