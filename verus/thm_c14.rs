// C14: an integer converted to a decimal and back is the same integer
pub fn thm_roundtrip_i64(n: i64) -> (r: Result<i64>)
    ensures r == Ok::<i64, Error>(n),
{
    let d = FixedDecimal::from_i64(n);
    proof {
        lem_p10_pw(4);
        lem_p10_pos(36);
        let p = p10(36);
        assert(i64::MIN * p <= n * p <= i64::MAX * p) by (nonlinear_arith) requires i64::MIN <= n <= i64::MAX, p >= 1;
        lem_abs_val(d);
        assert(-n * p == -(n * p)) by (nonlinear_arith);
        assert(absval(d) <= 9223372036854775808 * p) by (nonlinear_arith) requires absval(d) == n * p || absval(d) == -(n * p), -9223372036854775808 <= n <= 9223372036854775808, p >= 1;
        lem_whole(d, 9223372036854775808);
    }
    let r = d.as_i64();
    proof {
        let p = p10(36);
        let v = r->Ok_0 as int;
        assert(v == n) by (nonlinear_arith) requires v * p == n * p, p >= 1;
    }
    r
}

pub fn thm_roundtrip_u64(n: u64) -> (r: Result<u64>)
    ensures r == Ok::<u64, Error>(n),
{
    let d = FixedDecimal::from_u64(n);
    proof {
        lem_p10_pw(4);
        lem_p10_pos(36);
        let p = p10(36);
        assert(0 * p <= n * p <= u64::MAX * p) by (nonlinear_arith) requires 0 <= n <= u64::MAX, p >= 1;
        lem_abs_val(d);
        lem_whole(d, u64::MAX as int);
    }
    let r = d.as_u64();
    proof {
        let p = p10(36);
        let v = r->Ok_0 as int;
        assert(v == n) by (nonlinear_arith) requires v * p == n * p, p >= 1;
    }
    r
}
